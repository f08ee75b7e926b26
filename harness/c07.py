"""Integration, reflection and spin exchange: the real grid methods are executed on an arbitrary grid (all
weights symbolic) and arbitrary functions; z3 decides that the integral of a scalar function is the weighted
sum whatever the array's shape, spin columns integrate independently, and that the A<->B reflection and the
spin flip are involutions acting on the right index of every column."""
from engine.run import harness
from .grids import abstract_grid, integral, weights

BOUNDS = "grids of 2x3, 3x2, 4x3 points; 1 or 2 spin columns; all weights and function values symbolic"
S = [dict(Na=2, Nr=3), dict(Na=3, Nr=2), dict(Na=4, Nr=3)]


@harness("C07", configs=S, thorough=[dict(Na=5, Nr=4), dict(Na=7, Nr=3)])
def integrate(env):
    g = abstract_grid(env, env.cfg["Na"], env.cfg["Nr"])
    n = g.Nelem
    f = env.array("f", n)
    spec = integral(env, g, f)
    r = g.integrate(f)
    env.eq("integral of a vector", r, spec)
    env.shape("integral is a scalar", r, ())
    col = g.integrate(f.reshape(n, 1))
    col = col if env.np.ndim(col) == 0 else env.np.ravel(col)[0]
    env.eq("integral of a single column", col, spec)
    # the listed finding is this one wrong value: the sum of all weights times the plain sum of the values
    other = env.total(weights(env, g)) * env.total(f)
    env.eq("single column: weighted sum or the known value", col * col + spec * other, col * (spec + other))    # (c-s)(c-o)=0
    two = env.array("g", (n, 2))
    out = env.np.asarray(g.integrate(two))
    out = out.reshape(-1, 2)
    env.eq("first spin column", out[0, 0], integral(env, g, two[:, 0]))
    env.eq("second spin column", out[0, 1], integral(env, g, two[:, 1]))


@harness("C07", configs=S, thorough=[dict(Na=5, Nr=4), dict(Na=7, Nr=3)])
def reflection(env):
    Na, Nr = env.cfg["Na"], env.cfg["Nr"]
    g = abstract_grid(env, Na, Nr)
    n = g.Nelem
    perm = [(Na - 1 - k % Na) + Na * (k // Na) for k in range(n)]
    for nm, f in (("vector", env.array("f", n)), ("column", env.array("c", (n, 1))), ("spins", env.array("s", (n, 2)))):
        keep = f.copy()
        m = g.mirror(f)
        env.shape(nm + " keeps its shape", m, f.shape)
        env.eq(nm + " reflected", m, f[perm])
        env.eq(nm + " twice", g.mirror(m), f)
        env.eq(nm + " argument untouched", f, keep)
    s = env.array("s2", (n, 2))
    fl = g.spinflip(s)
    env.eq("spin flip", fl, env.np.stack([s[:, 1], s[:, 0]], axis=1))
    env.eq("spin flip twice", g.spinflip(fl), s)
    v = env.array("v", n)
    env.eq("spin flip of a scalar field", g.spinflip(v), v)
    sq = g.square(v)
    env.eq("square layout", sq[:, :, 0], env.arr([v[i + Na * j] for i in range(Na) for j in range(Nr)], (Na, Nr)))


@harness("C07", configs=[dict(NP=2, NM=[3, 2]), dict(NP=3, NM=[2, 1])], thorough=[dict(NP=3, NM=[2, 4])])
def reflection_invariance(env):
    """on grids built by the real initialisation"""
    from .grids import real_grid, STENCIL
    g = real_grid(env, env.cfg["NP"], env.cfg["NM"], STENCIL[1])
    f = env.array("f", g.Nelem)
    env.eq("integral is reflection invariant", g.integrate(g.mirror(f)), g.integrate(f))
