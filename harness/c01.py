"""Finite-difference coefficients: the real finite_difference_coefficients() is executed on each stencil
(and on stencils scaled by a symbolic step) and z3 decides that applying the returned coefficients to the
samples of an arbitrary polynomial of degree < len(stencil) (symbolic coefficients) gives exactly its
derivative at the origin."""
import math
from fractions import Fraction as F
import numpy as np
from engine.run import harness

BOUNDS = ("stencils: centred 3..13 points, one-sided and shifted ones of up to 7 points (wider ones leave double "
          "precision behind: numpy's lstsq on a 15-point Vandermonde matrix), "
          "derivative orders 1..4 below the stencil size; step symbolic in [1/2, 2] for stencils of <=5 "
          "points; polynomial coefficients unbounded reals")
ASSUMPTIONS = ["numpy.linalg.lstsq returns the exact least-squares solution"]

ST = [[-1, 0, 1], [-2, -1, 0, 1, 2], [-3, -2, -1, 0, 1, 2, 3], list(range(-4, 5)), [0, 1, 2], [0, 1, 2, 3, 4],
      [-1, 0, 1, 2], [-3, -2, -1, 0], [-2, 0, 1, 3], [2, -1, 0, 1, -2], [F(-1, 2), F(1, 2), F(3, 2)]]
CF = [dict(loc=[str(x) for x in s], deriv=d) for s in ST for d in (1, 2, 3) if d < len(s)]
BIG = [dict(loc=[str(x) for x in range(-p, p + 1)], deriv=d) for p in (5, 6) for d in (1, 2)] + \
      [dict(loc=[str(x) for x in s], deriv=4) for s in ST if len(s) > 4]
WIDE = [dict(loc=[str(x) for x in s], deriv=d) for s in (range(0, 6), range(0, 7), range(-1, 5), range(-2, 5), range(-6, 1),
                                                        [-3, -1, 0, 2, 4], [5, -4, 3, -2, 1, 0]) for d in (1, 2, 3, 4)] + \
       [dict(loc=[str(x) for x in range(-p, p + 1)], deriv=d) for p in (3, 4, 5, 6) for d in (3, 4)]


@harness("C01", configs=CF + BIG, thorough=WIDE)
def exact_on_polynomials(env):
    f = env.mod("common.finite_difference_coefficients").finite_difference_coefficients
    xs = [F(x) for x in env.cfg["loc"]]
    d = env.cfg["deriv"]
    n = len(xs)
    if all(x.denominator == 1 for x in xs):
        x = np.array([int(v) for v in xs])
    else:
        x = env.num(np.array([float(v) for v in xs]))
    c = f(x, d)
    env.shape("shape", c, (n,))
    p = env.array("p", n)
    val = env.total(c[j] * env.total(p[k] * xs[j] ** k for k in range(n)) for j in range(n))
    env.eq("derivative at 0", val, math.factorial(d) * p[d], tol=1e-6)


@harness("C01", configs=[dict(p=1, deriv=1), dict(p=1, deriv=2), dict(p=2, deriv=1), dict(p=2, deriv=2), dict(p=2, deriv=3)],
         thorough=[dict(p=3, deriv=1), dict(p=3, deriv=2)])
def symbolic_step(env):
    f = env.mod("common.finite_difference_coefficients").finite_difference_coefficients
    q, d = env.cfg["p"], env.cfg["deriv"]
    h = env.real("h", lo=F(1, 2), hi=2)
    n = 2 * q + 1
    x = env.arr([h * j for j in range(-q, q + 1)])
    c = f(x, d)
    p = env.array("p", n)
    val = env.total(c[j] * env.total(p[k] * x[j] ** k for k in range(n)) for j in range(n))
    env.eq("derivative at 0", val, math.factorial(d) * p[d], tol=1e-6)
