"""Differential operators on the grid: the real initialisation is executed with symbolic bond length and box
size; z3 decides, for arbitrary fields, that the even/odd Laplacians equal volume-element times the
prolate-spheroidal Laplacian discretised with the parity-extended stencils, that gradient and divergence are
the metric-scaled first derivatives (divergence of odd-parity fluxes), and that the exterior operator adds
exactly the contribution of values beyond the outer boundary."""
from fractions import Fraction as F
from engine.run import harness
from .grids import real_grid, STENCIL, angle, radius, fd, stencil_apply

BOUNDS = "grids up to 9x7 (quick) / 17x16 (thorough) points, unequal sizes, half-widths 1..4, symbolic a and L"
ASSUMPTIONS = ["stencil half-width <= number of points per direction"]
Q0 = [dict(NP=2, NM=[3, 2], p=1), dict(NP=3, NM=[1, 2], p=2), dict(NP=2, NM=[4, 3], p=2), dict(NP=2, NM=[3, 5], p=3),
     dict(NP=4, NM=[2, 1], p=4)]
Q1 = [dict(NP=3, NM=[4, 2], p=3), dict(NP=3, NM=[2, 3], p=4), dict(NP=2, NM=[8, 5], p=2)]


Q = Q0 + Q1
T = [dict(NP=4, NM=[4, 4], p=4), dict(NP=4, NM=[3, 5], p=6), dict(NP=3, NM=[8, 4], p=4)]


@harness("C05", configs=Q, thorough=T)
def operators(env):
    c = env.cfg
    p = c["p"]
    loc = STENCIL[p]
    g = real_grid(env, c["NP"], c["NM"], loc)
    np = env.np
    Na, Nr, n, a = g.Na, g.Nr, g.Nelem, g.a
    ha, hr = env.pi / Na, g.L / Nr
    sa = [np.sin(angle(env, Na, i)) for i in range(Na)]
    ca = [np.cos(angle(env, Na, i)) for i in range(Na)]
    sr = [np.sinh(radius(env, g.L, Nr, j)) for j in range(Nr)]
    cr = [np.cosh(radius(env, g.L, Nr, j)) for j in range(Nr)]
    d1, d2 = fd(loc, 1), fd(loc, 2)
    u = env.array("u", n)
    U = [[u[i + Na * j] for j in range(Nr)] for i in range(Na)]

    def da(V, d, h, par):
        cols = [stencil_apply(env, d, loc, [V[i][j] for i in range(Na)], h, par, "mirror") for j in range(Nr)]
        return [[cols[j][i] for j in range(Nr)] for i in range(Na)]

    def dr(V, d, h, par, outer="zero", ext=None):
        return [stencil_apply(env, d, loc, V[i], h, par, outer, ext[i] if ext else None) for i in range(Na)]

    def flat(V):
        return env.arr([V[k % Na][k // Na] for k in range(n)])

    def lap(par, outer="zero", ext=None):
        a2, a1 = da(U, d2, ha ** 2, par), da(U, d1, ha, par)
        r2, r1 = dr(U, d2, hr ** 2, par, outer, ext), dr(U, d1, hr, par, outer, ext)
        return flat([[a * (sr[j] * (sa[i] * a2[i][j] + ca[i] * a1[i][j]) +
                           sa[i] * (sr[j] * r2[i][j] + cr[j] * r1[i][j]))
                      for j in range(Nr)] for i in range(Na)])
    env.eq("even Laplacian", g.elap @ u, lap(1))
    env.eq("odd Laplacian", g.olap @ u, lap(-1))
    b = env.array("b", Na * p)
    ext = [[b[i + Na * k] for k in range(p)] for i in range(Na)]
    bl = g.blap @ b
    full = g.elap @ u
    tot = [full[k] for k in range(n)]
    m = len(bl)
    env.true("exterior operator acts on the outermost points", m == Na * p)
    for k in range(m):
        tot[n - m + k] = tot[n - m + k] + bl[k]
    env.eq("Laplacian with exterior values", env.arr(tot), lap(1, "ext", ext))
    h = [[a * (sr[j] ** 2 + sa[i] ** 2) ** F(1, 2) for j in range(Nr)] for i in range(Na)]
    h3 = [[a * sr[j] * sa[i] for j in range(Nr)] for i in range(Na)]
    ga, gr = da(U, d1, ha, 1), dr(U, d1, hr, 1)
    env.eq("angular gradient", g.grada @ u, flat([[ga[i][j] / h[i][j] for j in range(Nr)] for i in range(Na)]))
    env.eq("radial gradient", g.gradr @ u, flat([[gr[i][j] / h[i][j] for j in range(Nr)] for i in range(Na)]))
    W = [[h[i][j] * h3[i][j] * U[i][j] for j in range(Nr)] for i in range(Na)]
    va, vr = da(W, d1, ha, -1), dr(W, d1, hr, -1)
    env.eq("angular divergence", g.diva @ u,
           flat([[va[i][j] / (h[i][j] ** 2 * h3[i][j]) for j in range(Nr)] for i in range(Na)]))
    env.eq("radial divergence", g.divr @ u,
           flat([[vr[i][j] / (h[i][j] ** 2 * h3[i][j]) for j in range(Nr)] for i in range(Na)]))
