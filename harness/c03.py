"""Quadrature: the real weight constructor and grid initialisation are executed; z3 decides, for arbitrary
nodal values, that the one-dimensional rule is the composite interpolatory rule (closed Newton-Cotes blocks
between the nodes, plus wall half-cells interpolated with the value zero at the wall), and that the
two-dimensional weights attached to each grid point are the product of the angular and the radial weight
belonging to that point's coordinates."""
from fractions import Fraction as F
from engine.run import harness
from .grids import real_grid, vandermonde_solve, STENCIL

BOUNDS = "NP 2..7 points per block (thorough 9), 1..12 blocks (thorough 40); grids with unequal angular and radial sizes; nodal values unbounded"
ASSUMPTIONS = ["numpy.linalg.lstsq returns the exact least-squares solution"]


def rule(N, Nm):
    """weights of the composite interpolatory rule, unit spacing"""
    n = (N - 1) * Nm + 1
    w = [F(0)] * n
    blk = vandermonde_solve(range(N), [F((N - 1) ** (k + 1), k + 1) for k in range(N)])
    nodes = [F(0)] + [F(2 * i + 1, 2) for i in range(N - 1)]
    end = vandermonde_solve(nodes, [F(1, 2) ** (k + 1) / (k + 1) for k in range(N)])[1:]
    for b in range(Nm):
        for i in range(N):
            w[b * (N - 1) + i] += blk[i]
    for i in range(N - 1):
        w[i] += end[i]
        w[n - 1 - i] += end[i]
    return w


@harness("C03", configs=[dict(N=N, Nm=m) for N in range(2, 6) for m in (1, 2, 3, 4)] +
         [dict(N=N, Nm=m) for N in (6, 7) for m in (1, 2, 3, 5, 12)],
         thorough=[dict(N=N, Nm=m) for N in (8, 9) for m in (1, 2, 3)] + [dict(N=7, Nm=40)])
def line_rule(env):
    N, Nm = env.cfg["N"], env.cfg["Nm"]
    w = env.mod("common.NC").NC(N, Nm)
    r = rule(N, Nm)
    env.shape("one weight per node", w, (len(r),))
    f = env.array("f", len(r))
    env.eq("rule", env.total(w[i] * f[i] for i in range(len(r))), env.total(r[i] * f[i] for i in range(len(r))),
           tol=1e-6)


@harness("C03", configs=[dict(NP=2, NM=[3, 2]), dict(NP=3, NM=[1, 2]), dict(NP=4, NM=[2, 1]), dict(NP=3, NM=[2, 2]), dict(NP=5, NM=[1, 2]), dict(NP=4, NM=[2, 3]), dict(NP=2, NM=[7, 4])],
         thorough=[dict(NP=7, NM=[2, 3]), dict(NP=5, NM=[6, 4])])
def plane_rule(env):
    NP, NM = env.cfg["NP"], env.cfg["NM"]
    g = real_grid(env, NP, NM, STENCIL[1])
    wa, wr = rule(NP, NM[0]), rule(NP, NM[1])
    env.true("sizes", (g.Na, g.Nr, g.Nelem) == (len(wa), len(wr), len(wa) * len(wr)))
    env.shape("weights", g.wi, (g.Nelem,))
    f = env.array("f", g.Nelem)
    # the coordinates stored for point k identify its row and column
    tot = 0
    for k in range(g.Nelem):
        ia, ir = k % g.Na, k // g.Na
        tot = tot + wa[ia] * wr[ir] * f[k]
    env.eq("point coordinates (angular)", g.Xa, env.arr([g.xa[k % g.Na] for k in range(g.Nelem)]))
    env.eq("point coordinates (radial)", g.Xr, env.arr([g.xr[k // g.Na] for k in range(g.Nelem)]))
    env.eq("two-dimensional rule", env.total(g.wi[k] * f[k] for k in range(g.Nelem)), tot, tol=1e-6)
    # through the public integral: volume element and prefactor included
    env.eq("integral", g.integrate(f), 2 * env.pi * (env.pi / g.Na) * (g.L / g.Nr) * env.total(
        wa[k % g.Na] * wr[k // g.Na] * g.w[k] * f[k] for k in range(g.Nelem)), tol=1e-6)
