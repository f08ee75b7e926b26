"""Boundary handling of the one-dimensional derivative operators: the real grid initialisation is executed
with symbolic box size; z3 decides that every angular/radial first/second derivative operator of even/odd
symmetry, applied to an arbitrary field, is the centred stencil applied to the field extended by even/odd
reflection across the grid's inner edge(s) and by the exterior-value operators beyond the outer edge."""
from engine.run import harness
from .grids import real_grid, fd, stencil_apply, STENCIL

BOUNDS = ("grids NP=2,3 with unequal angular/radial sizes up to 13 points (quick) or 29 (thorough); stencil "
          "half-widths 1..6; box size and bond length symbolic; field values unbounded reals")
ASSUMPTIONS = ["stencil half-width <= number of points per direction"]
Q = [dict(NP=2, NM=[3, 2], p=1), dict(NP=2, NM=[2, 4], p=2), dict(NP=3, NM=[2, 1], p=2), dict(NP=2, NM=[4, 6], p=3),
     dict(NP=3, NM=[2, 3], p=4), dict(NP=2, NM=[8, 4], p=4)]
Q += [dict(NP=4, NM=[3, 4], p=p) for p in (1, 2, 3, 4)] + [dict(NP=5, NM=[3, 2], p=4), dict(NP=4, NM=[4, 2], p=5), dict(NP=3, NM=[3, 5], p=6)]
T = [dict(NP=7, NM=[3, 4], p=4), dict(NP=7, NM=[2, 2], p=6), dict(NP=5, NM=[6, 7], p=2)]


@harness("C02", configs=Q, thorough=T)
def parity_extension(env):
    p = env.cfg["p"]
    loc = STENCIL[p]
    g = real_grid(env, env.cfg["NP"], env.cfg["NM"], loc)
    ha, hr = env.pi / g.Na, g.L / g.Nr
    env.eq("angular step", g.ha, ha)
    env.eq("radial step", g.hr, hr)
    d1, d2 = fd(loc, 1), fd(loc, 2)
    env.eq("first-derivative coefficients", g.d1, env.arr(d1))
    env.eq("second-derivative coefficients", g.d2, env.arr(d2))
    ua, ur = env.array("ua", g.Na), env.array("ur", g.Nr)
    ext = env.array("ext", p)
    env.true("boundary width", g.bcN == p, f"{g.bcN}")
    for par, s in ((1, "e"), (-1, "o")):
        env.eq(s + "Da1", getattr(g, s + "Da1") @ ua, env.arr(stencil_apply(env, d1, loc, ua, ha, par, "mirror")))
        env.eq(s + "Da2", getattr(g, s + "Da2") @ ua, env.arr(stencil_apply(env, d2, loc, ua, ha ** 2, par, "mirror")))
        for o, (d, h, bc) in dict(Dr1=(d1, hr, g.bc1), Dr2=(d2, hr ** 2, g.bc2)).items():
            D = getattr(g, s + o)
            env.eq(s + o, D @ ur, env.arr(stencil_apply(env, d, loc, ur, h, par, "zero")))
            full = D @ ur
            b = bc @ ext
            tot = [full[i] + (b[i - (g.Nr - p)] if i >= g.Nr - p else 0) for i in range(g.Nr)]
            env.eq(s + o + " with exterior values", env.arr(tot),
                   env.arr(stencil_apply(env, d, loc, ur, h, par, "ext", ext)))
