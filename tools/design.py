#!/opt/venv/bin/python
"""Writes DESIGN.md: the hand-written parts below and one section per property from its description and harness."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from engine import run as R                                    # noqa: E402

HEAD = open(os.path.join(HERE, "tools", "design_head.md")).read()
TAIL = open(os.path.join(HERE, "tools", "design_tail.md")).read()
COST = json.load(open(os.path.join(HERE, "tools", "cost.json")))


def seeded():
    out = {}
    d = os.path.join(HERE, "seeded")
    for n in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, n, "meta.json")))
        out.setdefault(m["property"], []).append((n, m))
    return out


S = seeded()
parts = [HEAD, "\n## The properties\n"]
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    try:
        M = importlib.import_module("harness." + i.lower())
    except ImportError:
        parts.append(f"\n### {i} {p['title']}\n\nNot claimed; see MANIFEST.json.\n")
        continue
    hs = R.REGISTRY[i]
    parts.append(f"\n### {i} {p['title']}\n")
    parts.append(f"*Statement.* {p['statement']}\n")
    parts.append(f"*How it is decided.* {' '.join(M.__doc__.split())}\n")
    b = getattr(M, "BOUNDS", "")
    parts.append(f"*Bounds.* {b if isinstance(b, str) else '; '.join(b)}. "
                 f"{sum(len(h.configs) for h in hs)} configurations in the quick tier, "
                 f"{sum(len(h.thorough) for h in hs)} more in the thorough tier "
                 f"({', '.join(h.name for h in hs)}).\n")
    a = getattr(M, "ASSUMPTIONS", [])
    if a:
        parts.append("*Assumptions.* " + "; ".join(a) + ".\n")
    parts.append(f"*Beyond the tests.* {p['why_tests_cant']}\n")
    if i in COST:
        parts.append(f"*Cost.* {COST[i]}\n")
    if i in S:
        parts.append("*Seeded changes.* " + "; ".join(f"`{n}` ({m['what_it_breaks']}): {m.get('caught', 'caught')}"
                                                      for n, m in S[i]) + ".\n")
parts.append(TAIL)
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(parts))
