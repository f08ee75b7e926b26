#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json from one description per property."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, note="", na=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=["CADMium/" + f for f in files],
                          mechanism=[dict(name=n, where="CADMium/" + w) for n, w in mech],
                          observe_at=observe or [], hook_needed=None))
    P.append((d, note, na))


exec(open(os.path.join(HERE, "tools", "props.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for d, _, _ in P:
        f.write(json.dumps(d) + "\n")

PY = "/opt/venv/bin/python"
m = dict(version=1,
         setup_cmd=PY + " tools/selftest.py",
         checks=[dict(property=d["id"], quick_cmd=f"{PY} check.py {d['id']} --tier quick",
                      thorough_cmd=f"{PY} check.py {d['id']} --tier thorough",
                      technique="symbolic execution of the real Python source over symbolic reals, obligations decided "
                                "by z3 (nonlinear real arithmetic), counterexamples replayed on the real numpy/scipy",
                      level="other",
                      level_note=note or "Solver verdict for every value of the symbolic inputs within the stated "
                                         "bounds; exact real arithmetic stands for floats.")
                 for d, note, na in P if na is None],
         not_applicable=[dict(property=d["id"], reason=na) for d, note, na in P if na is not None],
         notes="See DESIGN.md for bounds, assumptions, known findings and the seeded changes each check catches.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
