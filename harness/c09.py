"""Hartree potential: the real solver is executed on grids whose points have exactly known coordinates (rational
sinh, cosh, sin, cos and distance from the origin), with arbitrary bond length, quadrature weights, exterior
operator and density and fixed rational Laplacians, factorised by the real code (with and without row interchanges, as
elongated grids need them); z3 decides that the returned potential satisfies Lap v = -4 pi w n - (exterior operator applied to the multipole potential beyond the outer boundary), with n
the sum over spin columns and the multipole potential sum_k Q_k P_k(cos theta)/r^(k+1), k = 0..7, built from
the moments of the same total density; and that every spin column receives the same potential."""
from fractions import Fraction as F
from engine.run import harness
from .grids import abstract_grid, real_grid, STENCIL, integral, weights

BOUNDS = ("grids of 2x2 to 3x3 points with exterior bands 1-3 wide at fixed rational positions on both sides of the "
          "molecule; bond length, weights, densities and exterior operator symbolic; Laplacians fixed rational matrices, one that needs no pivoting and "
          "one that does")
ASSUMPTIONS = ["grid points away from the origin (r > 0)", "sparse LU picks the largest entry of each column as pivot, the "
               "diagonal when it ties"]
C = [dict(Na=2, Nr=2, bcN=1, cols=0), dict(Na=2, Nr=2, bcN=1, cols=1), dict(Na=2, Nr=2, bcN=1, cols=2),
     dict(Na=2, Nr=3, bcN=2, cols=2), dict(Na=3, Nr=2, bcN=1, cols=2), dict(Na=2, Nr=2, bcN=1, cols=0, piv=1),
     dict(Na=3, Nr=2, bcN=1, cols=1, piv=1)]
T = [dict(Na=3, Nr=3, bcN=2, cols=2), dict(Na=2, Nr=4, bcN=3, cols=1)]
# (cosh, sinh, sin, cos) with cosh^2 - sin^2 a rational square
PTS = [tuple(map(F, t.split())) for t in """65/33 56/33 8/17 15/17
85/84 13/84 40/41 -9/41
41/40 9/40 84/85 13/85
185/153 104/153 88/137 -105/137
221/171 140/171 55/73 48/73
205/187 84/187 39/89 80/89
221/140 171/140 187/205 -84/205
221/220 21/220 156/205 -133/205
205/156 133/156 220/221 21/221
289/240 161/240 187/205 -84/205
425/297 304/297 208/233 105/233
325/204 253/204 240/289 -161/289
725/364 627/364 175/337 -288/337
137/88 105/88 153/185 104/185
29/21 20/21 455/697 -528/697
73/55 48/55 171/221 140/221""".split("\n")]
# beyond the boundary: the six farthest out
EXT = sorted(PTS, key=lambda t: -t[0])[:6]
INN = [t for t in PTS if t not in EXT]


def coordinates(env, name, pts):
    return (env.arr([env.angle(f"{name}a{i}", t[2], t[3]) for i, t in enumerate(pts)]),
            env.arr([env.radius(f"{name}r{i}", t[1], t[0]) for i, t in enumerate(pts)]))


def leg(k, x):
    p0, p1 = 1 + 0 * x, x
    if k == 0:
        return p0
    for j in range(1, k):
        p0, p1 = p1, (x * p1 * (2 * j + 1) - p0 * j) / (j + 1)
    return p1


def laplacian(env, n, kind):
    """fixed matrices standing for the even Laplacian: kind 0 needs no row interchange when it is factorised, kind 1 does
    in every column it can"""
    M = [[F((7 * i + 3 * j) % 5 - 2, 2 + (i + j) % 3) for j in range(n)] for i in range(n)]
    for i in range(n):
        M[i][i] = F(-9 - 5 * i % 4, 1) * n / 4
    if kind:
        M = M[1:] + M[:1]
    return env.smat(env.arr([x for r in M for x in r], (n, n)))


def boundary(env, g, nt, pts, ext, w):
    """multipole potential at the exterior points"""
    def polar(t):
        ch, sh, s, c = t
        u2 = (ch * c) ** 2 + (sh * s) ** 2       # (r/a)^2
        import math
        r = F(math.isqrt(u2.numerator), math.isqrt(u2.denominator))
        assert r * r == u2
        return r, ch * c / r
    out = [0] * len(ext)
    for k in range(8):
        Q = env.total(w[i] * g.a ** k * (polar(t)[0] ** k * leg(k, polar(t)[1])) * nt[i]
                      for i, t in enumerate(pts))
        for j, t in enumerate(ext):
            r, c = polar(t)
            out[j] = out[j] + Q * (leg(k, c) / r ** (k + 1)) / g.a ** (k + 1)
    return out


@harness("C09", configs=C, thorough=T, ms=30000, weight=3)
def poisson(env):
    c = env.cfg
    Na, Nr, bcN = c["Na"], c["Nr"], c["bcN"]
    g = abstract_grid(env, Na, Nr)
    N = g.Nelem
    m = Na * bcN
    g.bcN = bcN
    pts, ext = INN[:N], EXT[:m]
    g.Xa, g.Xr = coordinates(env, "X", pts)
    g.bXa, g.bXr = coordinates(env, "b", ext)
    g.Z = env.arr([g.a * (t[0] * t[3]) for t in pts])
    g.Y = env.arr([g.a * (t[1] * t[2]) for t in pts])
    g.blap = env.smat(env.array("blap", (m, m)))
    g.elap = laplacian(env, N, c.get("piv", 0))
    g.factorize_laplacian(False)
    cols = c["cols"]
    n = env.array("n", (N, cols) if cols else N)
    keep = n.copy()
    H = env.mod("hartree.hartree").Hartree(g)
    vh = H.v_hartree(n)
    env.shape("one column per spin", vh, (N, max(cols, 1)))
    env.eq("density untouched", n, keep)
    nt = [n[i] if not cols else env.total(n[i, s] for s in range(cols)) for i in range(N)]
    bv = boundary(env, g, nt, pts, ext, weights(env, g))
    src = g.blap @ env.arr(bv)
    rhs = [-4 * env.pi * g.w[i] * nt[i] for i in range(N)]
    for k in range(m):
        rhs[N - m + k] = rhs[N - m + k] - src[k]
    for s in range(max(cols, 1)):
        env.eq(f"Poisson equation column {s}", g.elap @ vh[:, s], env.arr(rhs), tol=1e-5)


@harness("C09", configs=[dict(Na=2, Nr=2, bcN=1), dict(Na=3, Nr=3, bcN=2)])
def linear_and_spin_blind(env):
    c = env.cfg
    g = abstract_grid(env, c["Na"], c["Nr"])
    N, m = g.Nelem, c["Na"] * c["bcN"]
    g.bcN = c["bcN"]
    g.Xa, g.Xr = coordinates(env, "X", INN[:N])
    g.bXa, g.bXr = coordinates(env, "b", EXT[:m])
    g.blap = env.smat(env.arr([F((3 * k) % 7 - 3, 2) for k in range(m * m)], (m, m)))
    g.elap = laplacian(env, N, c.get("piv", 0))
    g.factorize_laplacian(False)
    H = env.mod("hartree.hartree").Hartree(g)
    a, b = env.array("na", N), env.array("nb", N)
    va, vb = H.v_hartree(a), H.v_hartree(b)
    vab = H.v_hartree(env.np.stack([a, b], axis=1))
    vba = H.v_hartree(env.np.stack([b, a], axis=1))
    env.shape("scalar density gives one column", va, (N, 1))
    env.eq("superposition", vab[:, 0], va[:, 0] + vb[:, 0])
    env.eq("spin labels irrelevant", vab, vba)
    env.eq("both spins see the same potential", vab[:, 0], vab[:, 1])
    e = H.e_hartree(env.np.stack([a, b], axis=1))
    env.eq("energy per particle is half the potential", 2 * env.np.ravel(e), vab[:, 0])
