"""Metric quantities and nuclear potential: the real initialisation and the Coulomb routine are executed with
symbolic bond length, box size and charges; z3 decides that scale factors and volume element are the
prolate-spheroidal ones, that the centrifugal potential is 1/(2 rho^2) with rho the distance from the axis,
and that the external potential is -Za/r_A - Zb/r_B with nucleus A at z = -a and B at z = +a."""
from fractions import Fraction as F
from engine.run import harness
from .grids import real_grid, STENCIL, angle, radius

BOUNDS = "grids up to 9x7 points (thorough 13x16) with unequal sizes; bond length, box size and both charges symbolic"
Q0 = [dict(NP=2, NM=[3, 2], p=1), dict(NP=3, NM=[2, 1], p=1), dict(NP=2, NM=[6, 4], p=1)]
Q1 = [dict(NP=3, NM=[4, 3], p=2), dict(NP=5, NM=[2, 1], p=2)]


Q = Q0 + Q1
T = [dict(NP=4, NM=[4, 5], p=2), dict(NP=7, NM=[2, 2], p=4)]


@harness("C06", configs=Q, thorough=T)
def metric(env):
    c = env.cfg
    g = real_grid(env, c["NP"], c["NM"], STENCIL[c["p"]])
    np = env.np
    Na, Nr, n, a = g.Na, g.Nr, g.Nelem, g.a
    sa = [np.sin(angle(env, Na, k % Na)) for k in range(n)]
    ca = [np.cos(angle(env, Na, k % Na)) for k in range(n)]
    sr = [np.sinh(radius(env, g.L, Nr, k // Na)) for k in range(n)]
    cr = [np.cosh(radius(env, g.L, Nr, k // Na)) for k in range(n)]
    h = env.arr([a * (sr[k] ** 2 + sa[k] ** 2) ** F(1, 2) for k in range(n)])
    env.eq("angular scale factor", g.h1, h)
    env.eq("radial scale factor", g.h2, h)
    rho = env.arr([a * sr[k] * sa[k] for k in range(n)])
    env.eq("azimuthal scale factor", g.h3, rho)
    env.eq("volume element", g.w, h * h * rho)
    env.gt("volume element positive", g.w)
    env.eq("centrifugal potential times 2 rho^2", g.f * 2 * rho * rho, env.arr([1] * n))
    Za, Zb = env.real("Za"), env.real("Zb")
    v = env.mod("common.coulomb").coulomb(g, Za, Zb)
    # distances: r_A = a (cosh + cos), r_B = a (cosh - cos); squares tie them to the nuclei
    ra = env.arr([a * (cr[k] + ca[k]) for k in range(n)])
    rb = env.arr([a * (cr[k] - ca[k]) for k in range(n)])
    z = env.arr([a * cr[k] * ca[k] for k in range(n)])
    env.eq("r_A is the distance to z=-a", ra * ra, (z + a) * (z + a) + rho * rho)
    env.eq("r_B is the distance to z=+a", rb * rb, (z - a) * (z - a) + rho * rho)
    env.eq("external potential", v * ra * rb, -(Za * rb + Zb * ra))
    env.shape("potential per point", v, (n,))
