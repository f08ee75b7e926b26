"""Mutation trial of the checks: python tools/mutate.py FILES... [--jobs n] [--sample k] [--out f]
Every single-place change (operators, constants, indices, dropped statements, swapped spin/fragment/coordinate names) of
the given CADMium files is applied in a scratch copy of /repo and the checks that encode the file are run until one
reports a violation.  Survivors are written out for a person to read.  Not part of any check."""
import argparse, ast, json, os, random, re, shutil, subprocess, sys, threading, queue, time
REPO, HERE = "/repo", os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
    "common/finite_difference_coefficients.py": ["C01", "C02"], "common/NC.py": ["C03"], "common/coulomb.py": ["C06"],
    "psgrid/initialize.py": ["C04", "C03", "C02", "C05", "C06"], "psgrid/finite_difference_1d.py": ["C02"],
    "psgrid/finite_difference_2d.py": ["C05"], "psgrid/operators.py": ["C05", "C06"], "psgrid/factorize_laplacian.py": ["C09"],
    "psgrid/integrate.py": ["C07"], "psgrid/mirror.py": ["C07"], "psgrid/spinflip.py": ["C07"], "psgrid/square.py": ["C07"],
    "psgrid/sigma.py": ["C08"], "psgrid/reduced_grad.py": ["C08"], "psgrid/psgrid.py": ["C04", "C02", "C03", "C05", "C06"],
    "hartree/hartree.py": ["C09"], "libxc/libxc.py": ["C10"],
    "pssolver/calc_orbitals.py": ["C11"], "pssolver/calc_density.py": ["C12"], "pssolver/normalize_orbitals.py": ["C12", "C15"],
    "pssolver/calc_energy.py": ["C13"], "pssolver/get_homo.py": ["C13"],
    "pssolver/calc_ked_WFI.py": ["C14"], "pssolver/iter_orbitals.py": ["C15"], "pssolver/calc_response.py": ["C16"],
    "pssolver/pssolver.py": ["C11", "C12", "C13", "C14", "C17", "C15", "C16"], "inverter/get_Ts.py": ["C14"], "inverter/get_ts_WFI.py": ["C14"],
    "kohnsham/kohnsham.py": ["C32", "C17", "C18", "C30", "C19"], "kohnsham/scf.py": ["C19", "C33"],
    "partition/partition.py": ["C32", "C20", "C21", "C23", "C29", "C24", "C25"], "partition/energy.py": ["C29", "C21"],
    "partition/ep_nuclear.py": ["C22"], "partition/ep_kinetic.py": ["C22"], "partition/ep_hxc.py": ["C22"],
    "partition/EnsCorHar.py": ["C22"], "partition/partition_energy.py": ["C22", "C21"],
    "partition/partition_potential.py": ["C29", "C23", "C25"], "partition/vp_nuclear.py": ["C23"], "partition/vp_kinetic.py": ["C23"],
    "partition/vp_hxc.py": ["C23"], "partition/vp_overlap.py": ["C24"], "partition/scf.py": ["C25", "C33"],
    "partition/initialguessinvert.py": ["C28"],
    "inverter/inverter.py": ["C26", "C14", "C23"], "inverter/linresponse.py": ["C26", "C33"], "inverter/orbitalinvert.py": ["C27"],
}
SWAP = [("KSa", "KSA"), ("KSa", "KSb"), ("KSA", "KSB"), ("nu_a", "nu_b"), ("max", "min"), ("grada", "gradr"), ("diva", "divr"),
        ("cos", "sin"), ("cosh", "sinh"), ("zeros_like", "ones_like"), ("na_frac", "nb_frac"), ("ones", "zeros"),
        ("Na_frac", "Nb_frac"), ("KSab", "KSAb"), ("elap", "olap"), ("vhxc", "vnuc"), ("Xa", "Xr"), ("Za", "Zb"), ("eDa1", "oDa1"),
        ("eDr1", "oDr1"), ("eDa2", "oDa2"), ("eDr2", "oDr2"), ("hcore", "H0"), ("Na", "Nr"), ("ha", "hr"), ("na", "nb"), ("Q", "nf"),
        ("Vhxcb", "Vhxca"), ("append", "insert"), ("floor", "ceil"), ("hstack", "vstack"), ("abs", "negative")]
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.FloorDiv: "/", ast.Mod: "*"}
SYM = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**", ast.MatMult: "@", ast.FloorDiv: "//", ast.Mod: "%"}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}


def muts(src):
    tree = ast.parse(src)
    L = src.split("\n")
    off = [0]
    for l in L:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()

    def pos(n, end=False):
        return off[(n.end_lineno if end else n.lineno) - 1] + (n.end_col_offset if end else n.col_offset)

    def seg(n):
        return b[pos(n):pos(n, True)].decode()
    out = []

    def add(s, e, new, line):
        old = b[s:e].decode()
        if old != new:
            out.append((s, e, new, line, old))
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.If,)) and "disp" in seg(n.test) or isinstance(n, ast.Expr) and ("print" in seg(n) or "warn" in seg(n)):
            for m in ast.walk(n):
                skip.add(id(m))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            for m in ast.walk(n):
                skip.add(id(m))
        if isinstance(n, ast.Raise):
            for m in ast.walk(n):
                skip.add(id(m))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            s, e = pos(n.left, True), pos(n.right)
            t = b[s:e].decode()
            i = t.find(SYM[type(n.op)])
            add(pos(n), pos(n, True), seg(n.left) + t[:i] + BIN[type(n.op)] + t[i + len(SYM[type(n.op)]):] + seg(n.right), n.lineno)
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            add(pos(n), pos(n, True), "(" + seg(n.left) + ")", n.lineno)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            s, e = pos(n.left, True), pos(n.comparators[0])
            for c in CMP.get(type(n.ops[0]), []):
                add(s, e, " " + c + " ", n.lineno)
        if isinstance(n, ast.BoolOp):
            o, w = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            s, e = pos(n.values[0], True), pos(n.values[1])
            add(s, e, b[s:e].decode().replace(o, w), n.lineno)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            add(pos(n), pos(n, True), seg(n.operand), n.lineno)
        if isinstance(n, ast.Constant) and type(n.value) in (int, float):
            for v in ([n.value + 1] + ([n.value - 1] if n.value in (1, 2) else [])):
                add(pos(n), pos(n, True), repr(v), n.lineno)
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            add(pos(n), pos(n, True), repr(not n.value), n.lineno)
        if isinstance(n, ast.Attribute) and n.attr == "T":
            add(pos(n.value, True), pos(n, True), "", n.lineno)
        if isinstance(n, ast.Name) or isinstance(n, ast.Attribute):
            nm = n.id if isinstance(n, ast.Name) else n.attr
            for x, y in SWAP:
                for p, q in ((x, y), (y, x)):
                    if nm == p:
                        add(pos(n, True) - len(nm), pos(n, True), q, n.lineno)
        if isinstance(n, ast.AugAssign):
            s, e = pos(n.target, True), pos(n.value)
            add(s, e, " = ", n.lineno)
            if isinstance(n.op, (ast.Add, ast.Sub)):
                add(s, e, " -= " if isinstance(n.op, ast.Add) else " += ", n.lineno)
        if isinstance(n, (ast.AugAssign, ast.Assign, ast.Expr)):
            add(pos(n), pos(n, True), "pass", n.lineno)
        if isinstance(n, ast.If):
            add(pos(n.test), pos(n.test, True), "True", n.lineno)
            add(pos(n.test), pos(n.test, True), "False", n.lineno)
        if isinstance(n, (ast.For,)) and isinstance(n.iter, ast.Call) and seg(n.iter.func) == "range":
            add(pos(n.iter), pos(n.iter, True), "list(" + seg(n.iter) + ")[:-1]", n.lineno)
            add(pos(n.iter), pos(n.iter, True), "list(" + seg(n.iter) + ")[1:]", n.lineno)
    return b, out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("files", nargs="+")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--sample", type=int, default=0)
    ap.add_argument("--out", default="/tmp/mut/survivors.txt")
    ap.add_argument("--lines", default="")
    ap.add_argument("--checks", default="")
    a = ap.parse_args()
    q = queue.Queue()
    tot = 0
    for f in a.files:
        src = open(f"{REPO}/CADMium/{f}").read()
        b, ms = muts(src)
        if a.lines:
            lo, hi = map(int, a.lines.split("-"))
            ms = [m for m in ms if lo <= m[3] <= hi]
        random.seed(1)
        if a.sample and len(ms) > a.sample:
            ms = sorted(random.sample(ms, a.sample))
        for m in ms:
            new = b[:m[0]] + m[2].encode() + b[m[1]:]
            try:
                ast.parse(new)
            except SyntaxError:
                continue
            q.put((f, new, m))
            tot += 1
    print("mutants:", tot, flush=True)
    res = {"killed": 0, "test": 0, "live": 0}
    lock = threading.Lock()
    fo = open(a.out, "a")

    def work(k):
        W = f"/tmp/mut/w{os.getpid()}_{k}"
        shutil.rmtree(W, ignore_errors=True)
        subprocess.check_call(["git", "clone", "-q", REPO, W])
        while True:
            try:
                f, new, m = q.get_nowait()
            except queue.Empty:
                break
            p = f"{W}/CADMium/{f}"
            orig = open(p, "rb").read()
            open(p, "wb").write(new)
            t = time.time()
            verdict, how = "live", []
            for c in (a.checks.split(",") if a.checks else CHECKS[f]):
                try:
                    r = subprocess.run(["/opt/venv/bin/python", "check.py", c, "--jobs", "1", *(["--first"] if c != "C07" else []), "--out", W + "_out"], cwd=HERE, capture_output=True, text=True,
                                       env=dict(os.environ, VERIF_REPO=W), timeout=900)
                    if r.returncode == 1 and "VIOLATION" in r.stdout:
                        verdict = "killed"
                        break
                    how.append(c + ":" + str(r.returncode) + (" inconclusive" if "nconclusive" in r.stdout and "0 inconclusive" not in r.stdout else ""))
                except subprocess.TimeoutExpired:
                    how.append(c + ":timeout")
            open(p, "wb").write(orig)
            with lock:
                res[verdict] += 1
                if verdict == "live":
                    fo.write(f"{f}:{m[3]}: {m[4]!r} -> {m[2]!r}  [{' '.join(how)}] {time.time()-t:.0f}s\n")
                    fo.flush()
        shutil.rmtree(W, ignore_errors=True)
        shutil.rmtree(W + "_out", ignore_errors=True)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(a.jobs)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    print(res)


main()
