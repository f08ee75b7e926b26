"""Initial guess of the molecular inversion: the real routine is executed on an arbitrary grid with fragments that carry
arbitrary orbitals, potentials and weights; scipy's dense eigensolver is a contract (run once with the unit vectors, so
that the basis it works in can be read off, and once with arbitrary eigenpairs in arbitrary order).  z3 decides that the
potential is the weighted sum of the fragment potentials, that every angular momentum is solved by Rayleigh-Ritz in the span
of exactly the fragment orbitals of that angular momentum and spin, that levels come out ascending and paired with their
orbitals, that orbitals are normalised to what a level holds, and that the fragments are left as they were."""
import itertools
from fractions import Fraction as F
from engine.run import harness
from .grids import abstract_grid
from .part import partition, fragments, mirror
from .solvers import norm2

BOUNDS = ("3x1 or 2x2 points, 1-3 fragment orbitals per block, 1-2 angular momenta, fragments with different numbers of angular "
          "momenta and empty spin channels, ensembles, reflection symmetry; everything symbolic")
ASSUMPTIONS = ["scipy eig returns generalised eigenpairs of the matrices it is given, in no particular order",
               "fragment orbitals of a block are not zero; (ordering) distinct levels"]

C = [dict(), dict(pol=2, spin=0), dict(pol=2, spin=1), dict(rows=2), dict(rows=3), dict(rows=3, rows_b=2), dict(rows=2, rows_b=1), dict(rows=1, rows_b=2),
     dict(ab=True), dict(pol=2, spin=0, empty="KSb"), dict(pol=2, spin=1, empty="KSa"), dict(empty="KSa"), dict(ens=True, empty="KSA,KSb"),
     dict(ens=True, empty="KSa,KSB"), dict(ens=True, empty="KSb,KSA,KSa"), dict(ens=True, ab=True, empty="KSA"),
     dict(ens=True, ab=True, empty="KSa"), dict(ss=True, pol=2, empty="KSb", spin=0), dict(rows=2, ss=True, pol=2, empty="KSb", spin=0),
     dict(rows=2, pol=2, rows_b=1, spin=1), dict(Nmo=2, empty="KSb"), dict(Nmo=2, empty="KSa")]


def setup(env):
    c = env.cfg
    pol, j, ab, ens, ss = c.get("pol", 1), c.get("spin", 0), c.get("ab", False), c.get("ens", False), c.get("ss", False)
    g = abstract_grid(env, 2, 2) if ab else abstract_grid(env, 3, 1)
    nu = (env.real("nua", lo=F(1, 10), hi=F(9, 10)), env.real("nub", lo=F(1, 10), hi=F(9, 10))) if ens else None
    p = partition(env, g, pol, nu, dict(ab_sym=ab, ens_spin_sym=ss), rows=c.get("rows", 1), rows_b=c.get("rows_b"), Nmo=c.get("Nmo", 1))
    empty = c.get("empty", "").split(",")
    basis = {}
    for k, ks in fragments(p):
        ks.veff = env.array("v" + k, (g.Nelem, pol))
        ks.Q = env.array("Q" + k, (g.Nelem, pol))
        ks.u = env.real("u" + k)
        for i in range(ks.solver.shape[0]):
            for s in range(pol):
                o = ks.solver[i, s]
                if s == j and k in empty:
                    o.Nmo, o.phi, o.eig = 0, None, None
                    continue
                o.phi = env.array(f"phi{k}{i}{s}", (g.Nelem, o.Nmo), nonzero=True)
                o.eig = env.array(f"eig{k}{i}{s}", o.Nmo)
                o.hamiltonian()
                if s == j and not (ab and k[-1] in "bB"):
                    cols = [o.phi[:, q].copy() for q in range(o.Nmo)]
                    basis.setdefault(i, []).extend(cols + ([mirror(env, g, x) for x in cols] if ab else []))
    return g, p, j, basis


def reference_potential(env, g, p, j):
    ab = env.cfg.get("ab", False)
    v = [env.total(ks.veff[q, j] * ks.Q[q, j] for k, ks in fragments(p, "a" if ab else None)) for q in range(g.Nelem)]
    v = env.arr(v)
    return v + mirror(env, g, v) if ab else v


def det(M):
    if len(M) == 1:
        return M[0][0]
    return sum((-1) ** c * M[0][c] * det([r[:c] + r[c + 1:] for r in M[1:]]) for c in range(len(M)))


def held(env, m):
    """a closed-shell level of the whole molecule holds 2 (m = 0) or 4 electrons"""
    return (2 if m == 0 else 4)


@harness("C28", configs=C, ms=30000)
def rayleigh_ritz(env):
    c = env.cfg
    calls = []

    def eig(a, b=None, **k):
        n = len(calls)
        calls.append((a.copy(), b.copy()))
        K = a.shape[0]
        return env.np.arange(1.0, K + 1.0), env.np.eye(K)
    env.stub("scipy.linalg.eig", eig)
    env.stub("scipy.linalg.eigh", eig)
    g, p, j, basis = setup(env)
    before = {k: (ks.veff.copy(), ks.Q.copy()) for k, ks in fragments(p)}
    for i, B in basis.items():
        for b in B:
            # orbitals have a norm to divide by
            env.assume(">", env.total(x * x for x in b), F(1, 100))
        if len(B) <= g.Nelem:
            # and are independent
            env.assume(">", det([[y[s] for y in B] for s in range(len(B))]) ** 2, F(1, 100))
    phi0, e0, v0 = p.initialguessinvert(j)
    blocks = sorted(basis)
    env.true("one eigenproblem per angular momentum with levels", len(calls) == len(blocks), str(len(calls)))
    env.eq("as many orbitals as fragment orbitals", phi0.shape[1], sum(len(basis[i]) for i in blocks))
    if not c.get("ss"):
        env.eq("potential", v0[:, 0], reference_potential(env, g, p, j))
    at = 0
    wt = [2 * env.pi * g.hr * g.ha * g.w[q] * g.wi[q] for q in range(g.Nelem)]
    for t, m in enumerate(blocks):
        B, K = basis[m], len(basis[m])
        P = [phi0[:, at + q] for q in range(K)]
        at += K
        a, b = calls[t]
        env.true(f"size of eigenproblem {m}", tuple(a.shape) == (K, K) and tuple(b.shape) == (K, K))
        lap = g.elap if m % 2 == 0 else g.olap

        def H(x):
            return -(lap @ x) / (2 * g.w) + m * m * g.f * x + v0[:, 0] * x
        full = held(env, m) / (2 if c.get("ss") else 1)
        for q in range(K):
            env.eq(f"norm {m}{q}", env.total(wt[x] * P[q][x] ** 2 for x in range(g.Nelem)), full)
            h = H(P[q])
            for r in range(K):
                # P_r = N_r L_r with N_r^2 b_rr = full: matrices of the problem in the basis of the result
                ov = env.total(wt[x] * P[r][x] * P[q][x] for x in range(g.Nelem))
                ha = env.total(wt[x] * P[r][x] * h[x] for x in range(g.Nelem))
                if r == q:
                    env.eq(f"overlap {m}{r}", ov, full)
                    env.eq(f"Hamiltonian {m}{r}", ha * b[r, r], full * a[r, r])
                    env.gt(f"metric {m}{r}", b[r, r], 0)
                    continue
                env.eq(f"overlap {m}{r}{q}", ov * ov * b[r, r] * b[q, q], full ** 2 * b[r, q] ** 2)
                env.eq(f"Hamiltonian {m}{r}{q}", ha * ha * b[r, r] * b[q, q], full ** 2 * a[r, q] ** 2)
                env.ge(f"sign of overlap {m}{r}{q}", ov * b[r, q])
                env.ge(f"sign of Hamiltonian {m}{r}{q}", ha * a[r, q])
        # the result spans the space of the fragment orbitals, no less and no more
        if K + 1 <= g.Nelem:
            for n, x in enumerate(B):
                for sub in itertools.combinations(range(g.Nelem), K + 1):
                    env.eq(f"fragment orbital {m}{n} is in the span", det([[y[s] for y in P] + [x[s]] for s in sub]), 0)
        if K <= g.Nelem:
            env.cmp(f"result {m} is independent", "!=", det([[y[s] for y in P] for s in range(K)]), 0)
    for k, ks in fragments(p):
        env.eq(f"potential of {k} kept", ks.veff, before[k][0])
        env.eq(f"weight of {k} kept", ks.Q, before[k][1])


@harness("C28", configs=[dict(), dict(rows=2), dict(ab=True), dict(Nmo=2, empty="KSb"), dict(rows=2, rows_b=1),
                         dict(pol=2, spin=1), dict(rows=2, ab=True), dict(ss=True, pol=2, empty="KSb", spin=0)],
         thorough=[dict(Nmo=2, ab=True)], ms=30000)
def levels(env):
    """arbitrary eigenpairs, in arbitrary order"""
    calls = []
    mode = ["unit"]
    pairs = {}

    def eig(a, b=None, **k):
        K, t = a.shape[0], len(calls)
        calls.append(K)
        if mode[0] == "unit":
            return env.np.arange(1.0, K + 1.0), env.np.eye(K)
        e, v = env.array(f"e{t}", K), env.array(f"c{t}", (K, K))
        for x in range(K):
            for y in range(x):
                env.assume(">", (e[x] - e[y]) ** 2, F(1, 100))
        pairs[t] = (e, v)
        return e.copy(), v.copy()
    env.stub("scipy.linalg.eig", eig)
    g, p, j, basis = setup(env)
    P, _, _ = p.initialguessinvert(j)
    n, mode[0] = len(calls), "pairs"
    calls.clear()
    phi0, e0, _ = p.initialguessinvert(j)
    env.true("as many eigenproblems", len(calls) == n)
    env.true("one level per orbital", e0.size == phi0.shape[1], f"{e0.size} {phi0.shape[1]}")
    e0 = e0.reshape(-1)
    at = 0
    wt = [2 * env.pi * g.hr * g.ha * g.w[q] * g.wi[q] for q in range(g.Nelem)]
    for t, m in enumerate(sorted(basis)):
        e, v = pairs[t]
        K = len(e)
        for x in range(K):
            r = at + sum(1 for y in range(K) if e[y] < e[x])
            env.eq(f"level {m}{x}", e0[r], e[x])
            # direction of the orbital: the combination the eigensolver asked for
            z = [env.total(P[q, at + y] * v[y, x] for y in range(K)) for q in range(g.Nelem)]
            for q in range(1, g.Nelem):
                env.eq(f"orbital {m}{x} belongs to its level {q}", phi0[0, r] * z[q], phi0[q, r] * z[0])
            env.eq(f"norm {m}{x}", env.total(wt[q] * phi0[q, r] ** 2 for q in range(g.Nelem)), held(env, m) / (2 if env.cfg.get("ss") else 1))
        at += K
