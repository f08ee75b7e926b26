#!/opt/venv/bin/python
"""setup_cmd: nothing to build; checks that the engine and its solvers are usable."""
import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import numpy, scipy, pydantic, z3                    # noqa: E401,E402,F401
from engine import run                               # noqa: E402,F401
import harness                                       # noqa: E402,F401
s = z3.Solver()
x = z3.Real("x")
s.add(x * x < 0)
assert s.check() == z3.unsat
print("ok: z3", z3.get_version_string(), "numpy", numpy.__version__, "scipy", scipy.__version__)
