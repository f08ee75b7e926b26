"""Settings reach the parts they configure: real Kohn-Sham and Partition objects are built from option dictionaries (any
letter case) and then used; z3 decides, for arbitrary densities, orbitals, charges and electron numbers, that every fragment and
the whole evaluate the functionals that were asked for (library values are a contract that depends on the functional
id), attract to the right nucleus, hold the electrons given to that component and spin with fractional filling as
requested, and impose reflection symmetry exactly when asked; a fragment symmetry that contradicts the charges is refused."""
from fractions import Fraction as F
from engine.run import harness
from .grids import abstract_grid, integral
from .solvers import deg
from .part import fragments
from .ks import kohnsham, fake_hartree, fake_libxc, reflection

BOUNDS = ("2 grid points, 1-2 spins, 1-2 angular momenta, 1 level per solver; plain and ensemble partitions; densities, orbitals, "
          "charges, electron numbers and library values symbolic; every option of the Kohn-Sham and partition objects that "
          "selects a functional, a symmetry or an occupation rule; refused names and choices: a fixed list of 7 misspellings and the "
          "misspelt choices of each option record (the names are concrete, not symbolic)")
ASSUMPTIONS = []


def partition(env, g, pol, ens, opt, rows=1, N=None, Za=1, Zb=1, Nmo=None):
    P = env.mod("partition.partition").Partition
    names = ("KSa", "KSA", "KSb", "KSB")
    m = Nmo or {k: [[1] * pol] * rows for k in names}
    n = N or {k: [[1] * pol] * rows for k in names}
    if not ens:
        return P(g, Za, Zb, pol, m["KSa"], n["KSa"], 1, m["KSb"], n["KSb"], 1, opt)
    return P(g, Za, Zb, pol, [m["KSa"], m["KSA"]], [n["KSa"], n["KSA"]], F(1, 3), [m["KSb"], m["KSB"]],
             [n["KSb"], n["KSB"]], F(1, 4), opt)


def case(opt, up):
    return {k.upper() if up == 1 else k.capitalize() if up == 2 else k: v for k, v in opt.items()}


@harness("C32", configs=[dict(pol=p, ens=e, fam=f, up=u) for p, e, f, u in
                         ((1, False, "lda", 0), (2, False, "lda", 1), (1, True, "lda", 2), (2, True, "gga", 0), (1, False, "gga", 1))])
def functionals(env):
    c = env.cfg
    pol, fam = c["pol"], c["fam"]
    g = abstract_grid(env, 2, 1, ["Z", "Y"])
    P = g.Nelem
    vh = fake_hartree(env, g)
    fake_libxc(env, g)
    kfam = "lda" if fam == "gga" else "gga"
    p = partition(env, g, pol, c["ens"], case(dict(
        xc_family=fam, xfunc_id=101, cfunc_id=130, kinetic_part_type="libxcke", k_family=kfam, ke_func_id=50), c["up"]))
    L = env.mod("libxc.libxc").Libxc
    n = env.array("n", (P, pol), pos=True)
    want = {k: L(g, f, i).get_xc(n.copy()) for k, f, i in (("exchange", fam, 101), ("correlation", fam, 130), ("kinetic", kfam, 50))}
    for nm, o in [("whole", p)] + fragments(p):
        for k, (E, v) in want.items():
            if k == "kinetic" and nm != "whole":
                continue
            e, w = getattr(o, k).get_xc(n.copy())
            env.eq(f"{k} energy of {nm}", e, E)
            env.eq(f"{k} potential of {nm}", w, v)
        h = vh(n)
        have = o.hartree.v_hartree(n)
        for s in range(pol):
            env.eq(f"Hartree potential of {nm} {s}", have[:, s], h)


@harness("C32", configs=[dict(pol=1), dict(pol=2), dict(pol=1, ens=True), dict(pol=2, ens=True)])
def charges(env):
    c = env.cfg
    pol = c["pol"]
    g = abstract_grid(env, 2, 1, ["Z", "Y"])
    fake_hartree(env, g)
    Za, Zb = env.real("Za", lo=0), env.real("Zb", lo=0)
    p = partition(env, g, pol, c.get("ens"), {}, Za=Za, Zb=Zb)
    ch, ca = env.np.cosh(g.Xr), env.np.cos(g.Xa)
    va, vb = -Za / (g.a * (ch + ca)), -Zb / (g.a * (ch - ca))
    for k, ks in fragments(p):
        for s in range(pol):
            env.eq(f"{k} is attracted to its own nucleus {s}", ks.vnuc[:, s], va if k[-1] in "aA" else vb)
    env.eq("potential of nucleus A", p.va, va)
    env.eq("potential of nucleus B", p.vb, vb)
    for s in range(pol):
        env.eq(f"the whole is attracted to both {s}", p.V.vext[:, s], va + vb)


EL = [dict(pol=p, rows=r, ens=e, frac=f, comp=k) for p, r in ((1, 1), (2, 1), (1, 2), (1, 3)) for e, ks in ((False, ("KSa", "KSb")), (True, ("KSa", "KSA", "KSb", "KSB")))
      for k in ks for f in (True, False) if f or k == "KSb"]


@harness("C32", configs=EL)
def electrons(env):
    c = env.cfg
    pol, rows, comp = c["pol"], c["rows"], c["comp"]
    g = abstract_grid(env, 2, 1, ["Z", "Y"])
    P = g.Nelem
    fake_hartree(env, g)
    names = ("KSa", "KSA", "KSb", "KSB") if c["ens"] else ("KSa", "KSb")
    N = {k: [[env.real(f"N{k}{i}{j}", lo=0, hi=deg(i, pol)) for j in range(pol)] for i in range(rows)] for k in names}
    p = partition(env, g, pol, c["ens"], dict(fractional=c["frac"]), rows=rows, N=N)
    ks = dict(fragments(p))[comp]
    for i in range(rows):
        for j in range(pol):
            s = ks.solver[i, j]
            s.phi = env.array(f"phi{i}{j}", (P, 1), nonzero=True)
            s.eig = env.array(f"eig{i}{j}", 1)
            s.calc_density()
            n = N[comp][i][j]
            want = n if c["frac"] or n == deg(i, pol) else 0
            env.eq(f"electrons in block {i}{j} of {comp}", integral(env, g, [s.n[q, 0] for q in range(P)]), want)


@harness("C32", configs=[dict(pol=p, ens=e) for p in (1, 2) for e in (False, True)])
def levels(env):
    """every block of every component solves for the number of levels and with the centrifugal term asked for"""
    c = env.cfg
    pol = c["pol"]
    calls = []

    def eigs(A, k=6, **kw):
        calls.append((A, k))
        return env.arr([F(i) for i in range(k)]), env.array(f"p{len(calls)}", (P, k), nonzero=True)
    env.stub("scipy.sparse.linalg.eigs", eigs)
    g = abstract_grid(env, 2, 2, ["Z", "Y"])
    P = g.Nelem
    fake_hartree(env, g)
    names = ("KSa", "KSA", "KSb", "KSB") if c["ens"] else ("KSa", "KSb")
    Nmo = {k: [[1 + (t + i + j) % 3 for j in range(pol)] for i in range(2)] for t, k in enumerate(("KSa", "KSA", "KSB", "KSb"))}
    p = partition(env, g, pol, c["ens"], {}, rows=2, Nmo=Nmo)
    u = env.array("u", P)
    for k, ks in fragments(p):
        env.true(f"{k} has every block", ks.solver.shape == (2, pol), str(ks.solver.shape))
        for i in range(2):
            for j in range(pol):
                del calls[:]
                v = env.array("v", P)
                ks.solver[i, j].setveff(v)
                ks.solver[i, j].calc_orbitals()
                A, q = calls[0]
                env.true(f"levels of block {i}{j} of {k}", q == Nmo[k][i][j], f"{q} {Nmo[k][i][j]}")
                L = g.olap if i % 2 else g.elap
                env.eq(f"operator of block {i}{j} of {k}", g.w * (A @ u), -(L @ u) / 2 + g.w * u * (v + i * i * g.f))


@harness("C32", configs=[dict(obj=o, pol=p, sym=s) for o in ("ks", "partition") for p in (1, 2) for s in (True, False)])
def symmetry(env):
    c = env.cfg
    pol = c["pol"]
    e, phi = env.array("e", 1), env.array("p", (2, 1), nonzero=True)
    env.stub("scipy.sparse.linalg.eigs", lambda A, k=6, **kw: (e.copy(), phi.copy()))
    g = abstract_grid(env, 2, 1, ["Z", "Y"])
    fake_hartree(env, g)
    fake_libxc(env, g)
    if c["obj"] == "ks":
        objs = [("ks", kohnsham(env, g, [[1] * pol], [[deg(0, pol)] * pol], pol, 1, 2, dict(SYM=c["sym"])))]
    else:
        N = {k: [[deg(0, pol)] * pol] for k in ("KSa", "KSb")}
        objs = fragments(partition(env, g, pol, False, dict(Sym=c["sym"]), N=N))
    r = reflection(g)
    for nm, ks in objs:
        ks.vext = env.array("vext", (2, pol))
        ks.n = env.array("n", (2, pol), pos=True)
        ks.calc_hxc_potential()
        raw = kohnsham(env, g, [[1] * pol], [[1] * pol], pol, ks.Za, ks.Zb, dict(sym=False))
        raw.vext, raw.n = ks.vext, ks.n
        raw.calc_hxc_potential()
        for t in ("vnuc", "vhxc"):
            x = getattr(raw, t)
            y = env.arr([(x[q, s] + x[r[q], s]) / 2 for q in range(2) for s in range(pol)], (2, pol))
            env.eq(f"{t} of {nm}", getattr(ks, t), y if c["sym"] else x)
        for s in range(pol):
            o = ks.solver[0, s]
            o.setveff(env.array("veff", 2))
            o.calc_orbitals()
            q = o.phi.reshape(-1)
            if c["sym"]:
                env.eq(f"orbital of {nm} {s} even or odd", (q[0] - q[1]) * (q[0] + q[1]), 0)
            else:
                env.eq(f"orbital of {nm} {s} as found", q, phi.reshape(-1))


@harness("C32", configs=[dict(ens=False), dict(ens=True)])
def contradictory_symmetry(env):
    """reflection symmetry between the fragments is refused exactly when the nuclei differ"""
    g = abstract_grid(env, 2, 1, ["Z", "Y"])
    fake_hartree(env, g)
    Za, Zb = env.real("Za", lo=0), env.real("Zb", lo=0)
    try:
        partition(env, g, 1, env.cfg["ens"], dict(ab_sym=True), Za=Za, Zb=Zb)
    except ValueError:
        env.cmp("refused only for different nuclei", "!=", Za, Zb)
        return
    env.eq("accepted only for equal nuclei", Za, Zb)


@harness("C32", configs=[dict(obj=o, pol=p) for o in ("ks", "partition") for p in (1, 2)])
def not_asked_for(env):
    """what the user leaves out: local density functionals, no symmetrisation, no partial filling"""
    c = env.cfg
    pol = c["pol"]
    phi = env.array("p", (2, 1), nonzero=True)
    env.stub("scipy.sparse.linalg.eigs", lambda A, k=6, **kw: (env.array("e", 1), phi.copy()))
    g = abstract_grid(env, 2, 1, ["Z", "Y"])
    fake_hartree(env, g)
    fake_libxc(env, g)
    L = env.mod("libxc.libxc").Libxc
    n = env.array("n", (2, pol), pos=True)
    q = [[env.real(f"N{j}", lo=0, hi=deg(0, pol)) for j in range(pol)]]
    if c["obj"] == "ks":
        objs = [("ks", kohnsham(env, g, [[1] * pol], q, pol, 1, 2, {}))]
        parts = objs
    else:
        p = partition(env, g, pol, False, {}, N={k: q for k in ("KSa", "KSb")})
        objs = fragments(p)
        parts = [("whole", p)] + objs
    for nm, o in parts:
        for k, i in (("exchange", 1), ("correlation", 12)):
            want, have = L(g, "lda", i).get_xc(n.copy()), getattr(o, k).get_xc(n.copy())
            env.eq(f"{k} energy of {nm}", have[0], want[0])
            env.eq(f"{k} potential of {nm}", have[1], want[1])
    for nm, ks in objs:
        ks.n = n.copy()
        ks.vext = env.array("vext", (2, pol))
        ks.calc_hxc_potential()
        v = env.arr([x for x in ks.vhxc.reshape(-1)], (2, pol))
        vx, vc = ks.exchange.get_xc(n.copy())[1], ks.correlation.get_xc(n.copy())[1]
        h = ks.hartree.v_hartree(n.copy())
        env.eq(f"potential of {nm} as computed", v, h + vx + vc)
        for j in range(pol):
            s = ks.solver[0, j]
            s.setveff(env.array("veff", 2))
            s.calc_orbitals()
            env.eq(f"orbital of {nm} {j} as found", s.phi.reshape(-1), phi.reshape(-1))
            s.calc_density()
            full = q[0][j] == deg(0, pol)
            env.eq(f"electrons of {nm} {j}", integral(env, g, [s.n[t, 0] for t in range(2)]), deg(0, pol) if full else 0)


WORDS = ("syms", "fractional ", "e-tol", "", "xfunc", "alpha1", "max_iters")


@harness("C32", configs=[dict(obj=o) for o in ("ks", "partition", "solver", "inverter", "ks scf", "partition scf")])
def unknown(env):
    """an option name or a choice that does not exist is refused, not ignored"""
    o = env.cfg["obj"]
    g = abstract_grid(env, 2, 1, ["Z", "Y"])
    fake_hartree(env, g)
    fake_libxc(env, g)
    N = {k: [[2]] for k in ("KSa", "KSb")}

    def use(opt):
        if o == "ks":
            kohnsham(env, g, [[1]], [[2]], 1, 1, 2, opt)
        elif o == "partition":
            partition(env, g, 1, False, opt, N=N)
        elif o == "solver":
            env.mod("pssolver.pssolver").Pssolver(g, env.np.array([[1]]), env.np.array([[2]]), opt)
        elif o == "inverter":
            ks = kohnsham(env, g, [[1]], [[2]], 1, 1, 2, {})
            env.mod("inverter.inverter").Inverter(g, ks.solver, opt)
        elif o == "ks scf":
            kohnsham(env, g, [[1]], [[2]], 1, 1, 2, {}).scf(opt)
        else:
            partition(env, g, 1, False, {}, N=N).scf(opt)
    bad = [{w: 1} for w in WORDS]
    bad += {"ks": [dict(interaction_type="dftt")], "inverter": [dict(invert_type="wu-yang")], "partition scf": [dict(calc_type="dft")],
            "partition": [dict(hxc_part_type="exactly"), dict(kinetic_part_type="vw"), dict(vp_calc_type="components"),
                          dict(interaction_type="nin")]}.get(o, [])
    for b in bad:
        try:
            use(b)
            refused = False
        except ValueError:
            refused = True
        env.true(f"{o} refuses {b}", refused)
