"""Density-gradient contractions: the real sigma / reduced-gradient routines are executed on an arbitrary grid
(arbitrary symbolic gradient operators) and arbitrary densities; z3 decides that the three contractions are
the pointwise inner products of the spin gradients, and that the reduced gradient is
|grad n| / (2 (3 pi^2)^(1/3) n^(4/3)) per spin with the spin-scaled density."""
from fractions import Fraction as F
from engine.run import harness
from .grids import abstract_grid

BOUNDS = "2x2 and 3x2 point grids with arbitrary gradient operators, 1 and 2 spin channels"
ASSUMPTIONS = ["densities positive (reduced gradient)"]


@harness("C08", configs=[dict(Na=2, Nr=2, pol=1), dict(Na=2, Nr=2, pol=2), dict(Na=3, Nr=2, pol=2)])
def contractions(env):
    c = env.cfg
    g = abstract_grid(env, c["Na"], c["Nr"], ["grada", "gradr"])
    n = env.array("n", (g.Nelem, c["pol"]))
    s = g.sigma(n)
    ga, gr = g.grada @ n, g.gradr @ n
    if c["pol"] == 1:
        env.eq("sigma", s, ga * ga + gr * gr)
    else:
        env.shape("three contractions", s, (g.Nelem, 3))
        env.eq("up-up", s[:, 0], ga[:, 0] * ga[:, 0] + gr[:, 0] * gr[:, 0])
        env.eq("up-down", s[:, 1], ga[:, 0] * ga[:, 1] + gr[:, 0] * gr[:, 1])
        env.eq("down-down", s[:, 2], ga[:, 1] * ga[:, 1] + gr[:, 1] * gr[:, 1])


@harness("C08", configs=[dict(Na=2, Nr=1, pol=1), dict(Na=2, Nr=1, pol=2), dict(Na=2, Nr=2, pol=2)])
def reduced_gradient(env):
    c = env.cfg
    g = abstract_grid(env, c["Na"], c["Nr"], ["grada", "gradr"])
    n = env.array("n", (g.Nelem, c["pol"]), pos=True)
    s = g.reduced_grad(n)
    env.true("returns the reduced gradient", s is not None)
    if s is None:
        return
    env.shape("shape", s, (g.Nelem, c["pol"]))
    kf = 2 * (3 * env.pi ** 2) ** F(1, 3)
    k = 1 if c["pol"] == 1 else 2
    for i in range(c["pol"]):
        ns = n[:, i] * k
        ga, gr = g.grada @ ns, g.gradr @ ns
        env.eq(f"channel {i}", s[:, i] * kf * ns ** F(4, 3), env.np.sqrt(ga * ga + gr * gr))
