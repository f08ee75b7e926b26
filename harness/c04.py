"""Grid coordinates: the real initialisation is executed with symbolic bond length and box size; z3 decides
that the angular/radial nodes are the half-shifted uniform nodes, that every flattened point carries the
coordinates of its (angular, radial) index with the angular index fastest, that the Cartesian images are the
prolate-spheroidal map, that the exterior boundary points continue the radial line, and that the
A<->B reflection flips z and keeps the transverse distance."""
from fractions import Fraction as F
from engine.run import harness
from .grids import real_grid, STENCIL, angle, radius

BOUNDS = "grids up to 11x7 points (thorough 19x25) with unequal sizes, stencil half-widths 1..4, symbolic bond length and box size"
Q0 = [dict(NP=2, NM=[3, 2], p=1), dict(NP=3, NM=[1, 2], p=2), dict(NP=2, NM=[4, 3], p=2), dict(NP=4, NM=[2, 1], p=3)]
Q1 = [dict(NP=3, NM=[5, 3], p=2), dict(NP=5, NM=[2, 1], p=4), dict(NP=4, NM=[1, 4], p=1)]


Q = Q0 + Q1
T = [dict(NP=7, NM=[3, 2], p=4), dict(NP=4, NM=[6, 8], p=2)]


@harness("C04", configs=Q, thorough=T)
def coordinates(env):
    c = env.cfg
    g = real_grid(env, c["NP"], c["NM"], STENCIL[c["p"]])
    np = env.np
    Na, Nr = (c["NP"] - 1) * c["NM"][0] + 1, (c["NP"] - 1) * c["NM"][1] + 1
    env.true("sizes", (g.Na, g.Nr, g.Nelem) == (Na, Nr, Na * Nr), f"{(g.Na, g.Nr, g.Nelem)}")
    env.eq("angular step", g.ha, env.pi / Na)
    env.eq("radial step", g.hr, g.L / Nr)
    ang = [angle(env, Na, i) for i in range(Na)]
    rad = [radius(env, g.L, Nr, i) for i in range(Nr)]
    env.eq("angular nodes", g.xa, env.arr(ang))
    env.eq("radial nodes", g.xr, env.arr(rad))
    idx = [(k % Na, k // Na) for k in range(Na * Nr)]
    env.eq("angular coordinate of each point", g.Xa, env.arr([ang[i] for i, j in idx]))
    env.eq("radial coordinate of each point", g.Xr, env.arr([rad[j] for i, j in idx]))
    z = [g.a * np.cosh(rad[j]) * np.cos(ang[i]) for i, j in idx]
    y = [g.a * np.sinh(rad[j]) * np.sin(ang[i]) for i, j in idx]
    env.eq("z of each point", g.Z, env.arr(z))
    env.eq("distance from the axis of each point", g.Y, env.arr(y))
    env.eq("reflection flips z", g.mirror(g.Z), -g.Z)
    env.eq("reflection keeps the axis distance", g.mirror(g.Y), g.Y)
    p = c["p"]
    bidx = [(k % Na, k // Na) for k in range(Na * p)]
    env.eq("exterior angular coordinate", g.bXa, env.arr([ang[i] for i, j in bidx]))
    env.eq("exterior radial coordinate", g.bXr, env.arr([rad[-1] + (j + 1) * (g.L / Nr) for i, j in bidx]))
