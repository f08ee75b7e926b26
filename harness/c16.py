"""Density response: the real routine is executed with an arbitrary potential perturbation on arbitrary orbitals and
Hamiltonians (linear solves exact by contract); z3 decides that chi applied to any perturbation dv equals the
first-order density change: sum over occupied levels of (electrons in the level) * 2 phi dphi with phi normalised,
(H - e W) dphi = -(W dv - de W) phi, and dphi orthogonal to phi - including partial occupation and m > 0.  That the
number of electrons stays what it is (orthogonality in the grid's quadrature instead of the plain sum over points) is a
separate obligation and a known finding."""
from fractions import Fraction as F
from engine.run import harness
from .grids import abstract_grid, integral
from .solvers import one_solver, norm2, deg

BOUNDS = ("one level on 2 points with everything symbolic; up to 2 levels on 3 points with rational orbitals and "
          "Hamiltonians, symbolic perturbation and occupation; m = 0, 1, 2; both spin treatments")
ASSUMPTIONS = ["linear solves are exact", "bordered matrices nonsingular (level non-degenerate)"]


def dense(x):
    import numpy as onp
    x = x.toarray() if hasattr(x, "toarray") else x
    return onp.asarray(x) if isinstance(x, onp.matrix) else x


@harness("C16", configs=[dict(m=m, pol=p) for m in (0, 1, 2) for p in (1, 2)], ms=60000)
def single_level(env):
    c = env.cfg
    g = abstract_grid(env, 2, 1)
    d = deg(c["m"], c["pol"])
    s = one_solver(env, g, 1, d, c["m"], c["pol"])
    phi = env.array("phi", 2, nonzero=True)
    e = env.real("e")
    s.phi, s.eig = phi.reshape(2, 1).copy(), env.arr([e])
    s.hamiltonian()
    # an exact eigenpair
    s.setveff(e - (s.H0 @ phi) / (g.w * phi))
    s.calc_response()
    chi = dense(s.chi)
    env.shape("response matrix", chi, (2, 2))
    dv = env.array("dv", 2)
    dn = chi @ dv
    nn = norm2(env, g, s.phi, 0)
    # dn = d * 2 phi dphi / nn  with dphi for the unnormalised phi
    x = [dn[i] * nn / (2 * d * phi[i]) for i in range(2)]
    xa = env.arr(x)
    r = s.H0 @ xa + g.w * s.veff * xa - e * g.w * xa + g.w * dv * phi
    Wp = g.w * phi
    env.eq("perturbed eigenvalue equation", r[0] * Wp[1], r[1] * Wp[0], tol=1e-5)
    env.eq("orthogonal to the orbital", Wp[0] * x[0] + Wp[1] * x[1], 0, tol=1e-5)


@harness("C16", configs=[dict(m=m, pol=p) for m in (0, 1, 2) for p in (1, 2)])
def electron_number(env):
    """one filled level in its own potential: no perturbation changes the number of electrons"""
    c = env.cfg
    g = abstract_grid(env, 2, 1)
    s = one_solver(env, g, 1, deg(c["m"], c["pol"]), c["m"], c["pol"])
    phi = env.array("phi", 2, nonzero=True)
    e = env.real("e")
    s.phi, s.eig = phi.reshape(2, 1).copy(), env.arr([e])
    s.hamiltonian()
    s.setveff(e - (s.H0 @ phi) / (g.w * phi))
    s.calc_response()
    env.eq("no electrons gained or lost", integral(env, g, dense(s.chi) @ env.array("dv", 2)), 0, tol=1e-5)


def solve(A, b):
    n = len(A)
    M = [list(r) + [b[i]] for i, r in enumerate(A)]
    for k in range(n):
        p = next(i for i in range(k, n) if M[i][k] != 0)
        M[k], M[p] = M[p], M[k]
        M[k] = [v / M[k][k] for v in M[k]]
        for i in range(n):
            if i != k and M[i][k] != 0:
                f = M[i][k]
                M[i] = [u - f * v for u, v in zip(M[i], M[k])]
    return [M[i][n] for i in range(n)]


@harness("C16", configs=[dict(m=m, pol=p, full=f, frac=True, seed=sd) for m in (0, 1) for p in (1, 2)
                         for f in (0, 1) for sd in (1,)] +
         [dict(m=m, pol=p, full=2, frac=False, seed=2) for m in (0, 1) for p in (1, 2)] +
         [dict(m=m, pol=p, full=1, frac=False, part=True, seed=3) for m in (0, 1) for p in (1, 2)],
         thorough=[dict(m=0, pol=p, full=1, frac=True, seed=s) for p in (1, 2) for s in range(3, 9)])
def levels(env):
    c = env.cfg
    import random
    rng = random.Random(c["seed"])
    n = 3
    rat = lambda lo, hi: F(rng.choice([x for x in range(lo, hi) if x]), rng.choice((2, 3, 5)))   # noqa: E731
    g = abstract_grid(env, 3, 1)
    w = [F(rng.randint(1, 6), 2) for _ in range(n)]
    g.w = env.arr(w)
    L = [[rat(-5, 6) for _ in range(n)] for _ in range(n)]
    g.elap = env.smat(env.arr([x for r in L for x in r], (n, n)))
    g.olap = g.elap
    f = [F(rng.randint(1, 4)) for _ in range(n)]
    g.f = env.arr(f)
    full = c["full"]
    d = deg(c["m"], c["pol"])
    frac = c["frac"]
    nu = env.real("nu", lo=F(1, 100), hi=F(99, 100)) if frac or c.get("part") else 0
    k = full + (1 if frac else 0)
    s = one_solver(env, g, k + 1, d * (full + nu), c["m"], c["pol"], dict(fractional=frac))
    # quadrature weights for which every norm is a rational number (so that the bordered systems are rational)
    while True:
        P = [[rat(-4, 5) for _ in range(k + 1)] for _ in range(n)]
        free = [F(rng.randint(1, 4), 2) for _ in range(n - k)]
        rhs = [F(rng.randint(2, 9)) ** 2 - sum(q * P[i][lev] ** 2 for i, q in enumerate(free)) for lev in range(k)]
        try:
            q = free + solve([[P[i][lev] ** 2 for i in range(n - k, n)] for lev in range(k)], rhs)
        except StopIteration:
            continue
        if min(q) > 0:
            break
    g.hr, g.ha = env.num(F(1, 3)), env.num(F(1, 5))
    g.wi = env.arr([x / y / (2 * env.pi * g.hr * g.ha) for x, y in zip(q, w)])
    eig = [rat(-9, -1) for _ in range(k + 1)]
    v = [rat(-6, 6) for _ in range(n)]
    s.phi = env.arr([x for r in P for x in r], (n, k + 1))
    s.eig = env.arr(eig)
    s.setveff(env.arr(v))
    s.hamiltonian()
    s.calc_response()
    dv = env.array("dv", n)
    dn = dense(s.chi) @ dv
    m = c["m"]
    H = [[-L[i][j] / 2 + ((m * m * w[i] * f[i] + w[i] * v[i]) if i == j else 0) for j in range(n)] for i in range(n)]
    spec = [0] * n
    for lev in range(k):
        p = [P[i][lev] for i in range(n)]
        A = [[H[i][j] - (eig[lev] * w[i] if i == j else 0) for j in range(n)] + [-w[i] * p[i]] for i in range(n)]
        A.append([w[j] * p[j] for j in range(n)] + [F(0)])
        nn = norm2(env, g, s.phi, lev)
        occ = d * (1 if lev < full else nu)
        for col in range(n):
            x = solve(A, [(-w[i] * p[i] if i == col else F(0)) for i in range(n)] + [F(0)])
            for i in range(n):
                spec[i] = spec[i] + occ * 2 * p[i] * x[i] / nn * dv[col]
    env.eq("density change", dn, env.arr(spec), tol=1e-5)
