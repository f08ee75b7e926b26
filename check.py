#!/opt/venv/bin/python
"""python check.py C05 [--tier quick|thorough] [--only harness] [--jobs n] [--replay file]"""
import sys
sys.dont_write_bytecode = True
import argparse
import json
import os
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(v, "1")
sys.setrecursionlimit(20000)

from engine import run as R                    # noqa: E402
from engine import loader                      # noqa: E402
import harness                                 # noqa: E402

KNOWN = os.path.join(HERE, "known_findings.json")


def run_job(args):
    prop, idx, cfg, seed, thorough = args
    h = R.REGISTRY[prop][idx]
    j = R.Job(h, cfg, seed, thorough)
    j.known = [k["obligation"] for k in known_list()["findings"]
               if k["property"] == prop and k.get("harness") in (None, h.name) and k.get("obligation")]
    t = time.time()
    try:
        j.run()
    except Exception as e:
        j.inconclusive.append("engine error: " + R._tb(e) + "\n" + traceback.format_exc()[-1500:])
    return dict(name=h.name, cfg=R._js(cfg), idx=idx, failures=j.failures, inconclusive=j.inconclusive,
                stats=j.stats, samples=j.samples, functions=sorted(j.functions), wall=time.time() - t)


def worker(conn, args):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    try:
        conn.send(run_job(args))
    except BaseException as e:           # noqa: B902
        try:
            conn.send(dict(name="?", cfg=R._js(args[2]), idx=args[1], failures=[],
                           inconclusive=["worker died: " + repr(e)], stats={}, samples=[], functions=[], wall=0))
        except Exception:
            pass
    conn.close()


def pool(jobs, n, deadline, first=False):
    import multiprocessing as mp
    from multiprocessing.connection import wait
    ctx = mp.get_context("fork")
    todo = list(jobs)
    live = {}
    out = []
    while todo or live:
        while todo and len(live) < n:
            a = todo.pop(0)
            p, q = ctx.Pipe(False)
            pr = ctx.Process(target=worker, args=(q, a))
            pr.start()
            q.close()
            live[p] = (pr, a, time.time())
        for p in wait(list(live), timeout=1.0):
            pr, a, t = live.pop(p)
            try:
                out.append(p.recv())
            except EOFError:
                out.append(dict(name=R.REGISTRY[a[0]][a[1]].name, cfg=R._js(a[2]), idx=a[1], failures=[],
                                inconclusive=["worker ended without an answer (memory?)"], stats={},
                                samples=[], functions=[], wall=time.time() - t))
            pr.join()
        if first and any(r["failures"] for r in out):
            for pr, a, t in live.values():
                pr.kill()
            break
        if time.time() > deadline:
            for p, (pr, a, t) in live.items():
                pr.kill()
                pr.join()
                out.append(dict(name=R.REGISTRY[a[0]][a[1]].name, cfg=R._js(a[2]), idx=a[1], failures=[],
                                inconclusive=["out of time"], stats={}, samples=[], functions=[],
                                wall=time.time() - t))
            for a in todo:
                out.append(dict(name=R.REGISTRY[a[0]][a[1]].name, cfg=R._js(a[2]), idx=a[1], failures=[],
                                inconclusive=["not started: out of time"], stats={}, samples=[], functions=[],
                                wall=0))
            break
    return out


def known_list():
    try:
        with open(KNOWN) as f:
            return json.load(f)
    except FileNotFoundError:
        return {"findings": [], "fixed": []}


def matches(k, prop, r, fname):
    if k["property"] != prop or k.get("harness") not in (None, r["name"]):
        return False
    if k.get("obligation") not in (None, fname):
        return False
    c = k.get("config")
    return c is None or all(r["cfg"].get(a) == b for a, b in c.items())


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--cfg", type=int)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--strict", action="store_true")
    ap.add_argument("--out", default=HERE, help="where evidence/ and replays/ are written")
    ap.add_argument("--first", action="store_true", help="stop at the first violation")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = a.prop
    harness.load(prop)
    hs = R.REGISTRY.get(prop, [])
    if not hs:
        print("no harness for", prop)
        return 3
    if a.replay:
        return replay(prop, a.replay)
    thorough = a.tier == "thorough"
    jobs = []
    for i, h in enumerate(hs):
        if a.only and h.name != a.only:
            continue
        cfgs = h.configs + (h.thorough if thorough else [])
        for k, cfg in enumerate(cfgs):
            if a.cfg is not None and k != a.cfg:
                continue
            jobs.append((prop, i, cfg, seed, thorough))
    t0 = time.time()
    limit = 820 if not thorough else 6 * 3600
    # longest first where a harness says so
    jobs.sort(key=lambda j: -hs[j[1]].kw.get("weight", 1))
    res = pool(jobs, a.jobs, t0 + limit, a.first)
    wall = time.time() - t0
    known = known_list()["findings"]
    tot = {}
    for r in res:
        for k, v in r["stats"].items():
            if isinstance(v, (int, float)):
                tot[k] = tot.get(k, 0) + v
    nviol = 0
    seen_known = set()
    rdir = os.path.join(a.out, "replays")
    inconc = []
    for r in sorted(res, key=lambda r: (r["idx"], json.dumps(r["cfg"], sort_keys=True, default=str))):
        if a.v:
            print(f"  {r['name']} {r['cfg']}: {r['wall']:.1f}s {r['stats']}")
        for name, desc, values, sd in r["failures"]:
            ks = [k for k in known if matches(k, prop, r, name)]
            if ks:
                if ks[0]["what"] not in seen_known:
                    seen_known.add(ks[0]["what"])
                    print(f"KNOWN-FINDING: property={prop} {ks[0]['what']}")
                continue
            nviol += 1
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, f"{prop}-{r['name']}-{nviol}.json")
            with open(path, "w") as f:
                json.dump(dict(property=prop, harness=r["name"], config=r["cfg"], obligation=name,
                               what=desc, values=values, seed=sd), f, indent=1, default=str)
            print(f"{prop} {r['name']} {r['cfg']}: {name}: {desc}")
            print(f"VIOLATION property={prop} replay={path}")
        for m in r["inconclusive"]:
            inconc.append(f"{r['name']} {r['cfg']}: {m}")
    mod = sys.modules[f"harness.{prop.lower()}"]
    samples = [s for r in res for s in r["samples"]][:8]
    ev = dict(property=prop, tier=a.tier, seed=seed, level="other", wall_s=round(wall, 2), violations=nviol,
              coverage=dict(
                  explanation=(mod.__doc__ or "").strip(),
                  deciding_step="z3 verdict (unsat of the negated obligation under path condition and atom "
                                "definitions); cvc5 cross-check in the thorough tier",
                  modules_executed_symbolically=sorted({f for r in res for f in r["functions"]}),
                  harness_configurations=len(res),
                  configurations=[dict(harness=r["name"], config=r["cfg"], paths=r["stats"].get("paths"),
                                       obligations=r["stats"].get("obligations"), wall_s=round(r["wall"], 2))
                                  for r in res][:200],
                  symbolic_paths=tot.get("paths", 0),
                  obligations=tot.get("obligations", 0),
                  scalar_assertions=tot.get("elements", 0),
                  discharged=tot.get("discharged", 0),
                  solver_queries=tot.get("queries", 0) + tot.get("feas_queries", 0),
                  solver_seconds=round(tot.get("solver_s", 0), 2),
                  cvc5_cross_checks=tot.get("cvc5", 0),
                  encoding_values_compared_with_real_run=tot.get("validated", 0),
                  concrete_runs_of_real_code=tot.get("replays", 0),
                  inconclusive=inconc[:20],
                  bounds=getattr(mod, "BOUNDS", ""),
                  samples=samples),
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS)
    os.makedirs(os.path.join(a.out, "evidence"), exist_ok=True)
    with open(os.path.join(a.out, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{prop} [{a.tier}]: {len(res)} configurations, {tot.get('paths', 0)} paths, "
          f"{tot.get('discharged', 0)}/{tot.get('obligations', 0)} obligations "
          f"({tot.get('elements', 0)} scalar assertions), {tot.get('queries', 0) + tot.get('feas_queries', 0)} "
          f"solver queries in {tot.get('solver_s', 0):.1f}s, {tot.get('validated', 0)} values validated, "
          f"wall {wall:.1f}s")
    if nviol:
        return 1
    if inconc:
        for m in inconc[:20]:
            print("INCONCLUSIVE:", str(m)[:400])
        # nothing found wrong in what was explored; what could not be decided is in the evidence.  With --strict (used
        # while developing) or with nothing decided and no real run at all that is not an answer.
        return 2 if a.strict or not (tot.get("discharged") or tot.get("replays")) else 0
    return 0


COMMON_ASSUMPTIONS = [
    "float arithmetic is treated as exact real arithmetic; decimal and rational float literals stand for the "
    "rationals they approximate",
    "numpy and scipy.sparse array semantics are those of the engine's stand-ins (validated on every run by "
    "comparing symbolic results with the real libraries at concrete points)",
    "quantities the code divides by are nonzero unless the harness analyses that case",
]


def replay(prop, path):
    with open(path) as f:
        d = json.load(f)
    for h in R.REGISTRY[prop]:
        if h.name == d["harness"]:
            for cfg in h.configs + h.thorough:
                if R._js(cfg) == d["config"]:
                    j = R.Job(h, cfg, 1, False)
                    r = j.concrete(d["values"], d["seed"])
                    env, exc = r
                    if exc is not None:
                        print("raised", R._tb(exc))
                        return 1
                    rc = 0
                    for o in env.obligations:
                        bad = j.check_concrete(o)
                        if bad:
                            print(o.name, bad)
                            rc = 1
                    return rc
    print("configuration not found")
    return 3


if __name__ == "__main__":
    sys.exit(main())
