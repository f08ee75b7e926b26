"""Orbital-based density inversion: the real loop is executed on an arbitrary grid with arbitrary orbitals, levels,
Hamiltonians and target densities; the linear solve returns an arbitrary step and diagonalisations return arbitrary
orbitals.  z3 decides that every linear system is the Newton system of the Kohn-Sham, normalisation and density equations
(exact residual and exact derivative, all angular momenta), that orbitals are normalised to the electrons their level
holds, that success is reported only when the orbitals, levels and potential left behind satisfy the equations and
reproduce the density within the tolerance, and that the chemical and kinetic potential belong to them."""
from fractions import Fraction as F
from engine.run import harness
from engine.sym import Sym
from .grids import abstract_grid, weights

BOUNDS = ("2 grid points (4 with reflection symmetry), up to 2 orbitals per angular momentum, 1-2 angular momenta, 1-2 "
          "spins, half-filled highest level, 1-2 iterations; everything symbolic")
ASSUMPTIONS = ["as many orbitals as the electrons need (precondition of the method)",
               "direct linear solver (use_iterative off)"]


def residual(env, g, W, H0, phi, e, v, n0, occ):
    """Kohn-Sham, normalisation (all but the last orbital) and density equations; (rows of (orbital, point)...)"""
    P, K = phi.shape
    wi = [W[q] / g.w[q] for q in range(P)]
    out = []
    for i in range(K):
        h = H0[i] @ phi[:, i]
        out += [wi[q] * h[q] + W[q] * (v[q] - e[i]) * phi[q, i] for q in range(P)]
    for i in range(K - 1):
        out.append((occ[i] - env.total(W[q] * phi[q, i] ** 2 for q in range(P))) / 2)
    for q in range(P):
        out.append(W[q] * (env.total(phi[q, i] ** 2 for i in range(K)) - n0[q]) / 2)
    return out


C = [dict(Nmo=[1], N=[2]), dict(Nmo=[2], N=[4]), dict(Nmo=[1], N=[1]), dict(Nmo=[2], N=[3]), dict(Nmo=[1, 1], N=[2, 4]),
     dict(Nmo=[1, 1], N=[2, 2]), dict(Nmo=[2, 1], N=[4, 4]), dict(Nmo=[1], N=[1], pol=2, spin=1),
     dict(Nmo=[1], N=["1/2"], pol=2, spin=0), dict(Nmo=[2], N=["3/2"], pol=2, spin=0),
     dict(Nmo=[1, 1], N=[1, 2], pol=2, spin=1), dict(Nmo=[1, 2], N=[2, 6]),
     dict(Nmo=[1, 1], N=[1, 1], pol=2, spin=0), dict(Nmo=[1, 1], N=[2, 1])]
C = [dict(c, start=s) for c in C for s in ("own", "guess")]
LONG = [c for c in C if sum(c["Nmo"]) == 3 and (c["start"] == "own") == (c["Nmo"][0] == 2)]
C = [c for c in C if c not in LONG]


def occupations(c):
    pol, out = c.get("pol", 1), []
    for m, (k, n) in enumerate(zip(c["Nmo"], c["N"])):
        cap = (2 if m == 0 else 4) // pol
        for i in range(k):
            left = F(n) - cap * i
            out.append((2 if m == 0 else 4) * (1 if left >= cap else left / cap))
    return out


def setup(env, c, it, steps, at, A00, res, Nr=1, opt=None):
    """an inverter with arbitrary contents; steps collects the linear systems, at gives the unknowns of one"""
    pol, spin = c.get("pol", 1), c.get("spin", 0)
    P = 2 * Nr

    def zero(a):
        """identically zero (or zero up to rounding in a concrete run)"""
        return all((a.is_const and a.const() == 0) if isinstance(a, Sym) else abs(float(a)) < 1e-9 for a in a)

    def solve(A, b, *args, **kw):
        A, K = env.np.asarray(A.toarray() if hasattr(A, "toarray") else A), sum(c["Nmo"])
        shape, b = env.np.shape(b), env.np.asarray(b).reshape(-1)
        # J y = R, -J y = R, J y = -R and -J y = -R are the same equations up to the sign of y
        x = at(A)
        D = A00(x)
        # (a concrete point where both signs fit says nothing: take the plain one)
        if not zero(D) and zero(A[i, i] + d for i, d in enumerate(D)):
            A, sign = -A, -1
            x = at(A)
        else:
            sign = 1
        Rx = res(x)
        if not zero(Rx) and zero(p + q for p, q in zip(b, Rx)):
            b, sign = -b, -sign
        z = env.array(f"z{len(steps)}", K * P, nonzero=True), env.array(f"y{len(steps)}", b.shape[0] - K * P)
        z = [a for y in z for a in y]
        steps.append((A.copy(), b.copy(), x, z))
        # an arbitrary step, written as the difference of an arbitrary point and the present one
        return env.arr([sign * (a - b) for a, b in zip(x, z)]).reshape(shape)

    class Inverse:
        def __init__(self, A):
            self.A, self.shape = A, A.shape

        def __matmul__(self, b):
            return solve(self.A, b)

        dot = __matmul__
        __call__ = __matmul__
        solve = __matmul__
    env.stub("numpy.linalg.solve", solve)
    for f in ("numpy.linalg.lstsq", "scipy.linalg.lstsq"):
        env.stub(f, lambda A, b, *a, **k: (solve(A, b), env.np.zeros(0), A.shape[0], env.np.zeros(0)))
    for f in ("scipy.linalg.solve", "scipy.sparse.linalg.spsolve"):
        env.stub(f, solve)
    for f in ("numpy.linalg.inv", "numpy.linalg.pinv", "scipy.linalg.inv", "scipy.sparse.linalg.inv",
              "scipy.sparse.linalg.splu", "scipy.sparse.linalg.factorized"):
        env.stub(f, lambda A, *a, **k: Inverse(A))
    g = abstract_grid(env, 2, Nr)
    Ps = env.mod("pssolver.pssolver").Pssolver
    Nm = [[k] * pol for k in c["Nmo"]]
    N = [[float(F(n)) if env.mode == "num" else F(n)] * pol for n in c["N"]]
    S = Ps(g, Nm, N)
    H0 = []
    for i, k in enumerate(c["Nmo"]):
        h = env.array(f"H{i}", (P, P))
        s = S[i, spin]
        s.H0 = env.smat(h)
        s.hamiltonian = lambda: None
        H0 += [h] * k
    for i in range(len(c["Nmo"])):
        for j in range(pol):
            S[i, j].calc_density = lambda s=S[i, j]: setattr(s, "counted", True)
    inv = env.mod("inverter.inverter").Inverter(g, S, dict(dict(invert_type="orbitalinvert", max_iter_invert=it), **(opt or {})))
    return g, S, inv, H0


def begin(env, c, S, P):
    """starting orbitals, levels (relative to the last) and potential (same gauge)"""
    spin, K = c.get("spin", 0), sum(c["Nmo"])
    phi = env.array("phi", (P, K), nonzero=True)
    e = env.array("e", K)
    v = env.array("v", P)
    args = (None, [], [])
    if c["start"] == "own":
        at = 0
        for i, k in enumerate(c["Nmo"]):
            S[i, spin].phi, S[i, spin].eig = phi[:, at:at + k].copy(), e[at:at + k].copy()
            S[i, spin].veff = v.copy()
            at += k
    else:
        flat = env.arr([phi[q, i] for i in range(K) for q in range(P)] + [env.real("spare")], (P * K + 1, 1))
        args = (v.copy().reshape(P, 1), flat, env.arr([x for x in e] + [env.real("spare level")]))
    return phi, [x - e[K - 1] for x in e], v - e[K - 1], args


def normalised(env, W, phi, occ):
    P, K = phi.shape
    f = [(env.num(occ[i]) / env.total(W[q] * phi[q, i] ** 2 for q in range(P))) ** 0.5 for i in range(K)]
    return env.arr([phi[q, i] * f[i] for q in range(P) for i in range(K)], (P, K))


def flat(env, phi, e, v):
    P, K = phi.shape
    return [phi[q, i] for i in range(K) for q in range(P)] + list(e[:K - 1]) + list(v)


def unflat(env, x, P, K):
    phi = env.arr([x[i * P + q] for q in range(P) for i in range(K)], (P, K))
    return phi, list(x[K * P:K * P + K - 1]) + [0], env.arr(list(x[K * P + K - 1:]))


def phase(env, name, a, b):
    """the same orbitals, up to their signs"""
    P, K = b.shape
    env.shape(name, a, (P, K))
    env.eq(name, env.arr([a[q, i] * a[r, i] for i in range(K) for q in range(P) for r in range(q, P)]),
           env.arr([b[q, i] * b[r, i] for i in range(K) for q in range(P) for r in range(q, P)]))


@harness("C27", configs=C, feas_ms=500, reach_ms=1000, budget=800, thorough=LONG + [
    dict(Nmo=[3], N=[6], start="own"), dict(Nmo=[2, 1], N=[3, 2], start="own"), dict(Nmo=[2, 2], N=[4, 8], start="guess"),
    dict(Nmo=[1, 2], N=["1/2", 3], pol=2, spin=1, start="guess"), dict(Nmo=[1, 1, 1], N=[2, 4, 3], start="own")])
def inversion(env):
    c = env.cfg
    steps, again = [], []
    pol, spin, K = c.get("pol", 1), c.get("spin", 0), sum(c["Nmo"])
    tol = env.real("tol", pos=True, hi=F(1, 1000), hint=(1e-6, 1e-4))
    fac = env.real("resfactor", nonneg=True)
    start = {}

    def unknowns(A):
        W, (phi, e, v) = start["W"], start["x"]
        # the phase of an orbital is free: it is read off the system
        P, K = phi.shape
        used = env.arr([A[i * P + q, K * P + K - 1 + q] / W[q] for q in range(P) for i in range(K)], (P, K))
        return flat(env, used, e, v)

    def first(x):
        phi, e, v = unflat(env, x, g.Nelem, K)
        W = start["W"]
        return [W[q] / g.w[q] * H0[i][q, q] + W[q] * (v[q] - e[i]) for i in range(K) for q in range(g.Nelem)]

    def equations(x):
        return residual(env, g, start["W"], H0, *unflat(env, x, g.Nelem, K), keep, occ)
    g, S, inv, H0 = setup(env, c, 2, steps, unknowns, first, equations, opt=dict(tol_invert=tol, res_factor=fac))
    P = g.Nelem
    rows = range(len(c["Nmo"]))
    at = [sum(c["Nmo"][:i]) for i in rows]
    for i in rows:
        def calc_orbitals(s=S[i, spin], i=i):
            again.append((i, env.np.asarray(s.veff).reshape(-1).copy()))
            s.phi, s.eig = env.array(f"newphi{i}", (P, c["Nmo"][i]), nonzero=True), env.array(f"newe{i}", c["Nmo"][i])
        S[i, spin].calc_orbitals = calc_orbitals
    n0 = env.array("n0", P, pos=True)
    phi, e, v, args = begin(env, c, S, P)
    occ = occupations(c)
    W = weights(env, g)
    keep = n0.copy()
    start.update(W=W, x=(phi, e, v))
    flag, out = inv.invert(n0, args[0], args[1], args[2], spin)

    env.eq("target density untouched", n0, keep)
    phi = normalised(env, W, phi, occ)
    if steps:
        A, b, x, z = steps[0]
        env.shape("square system", A, (len(x),) * 2)
        phase(env, "orbitals of the system", unflat(env, x, P, K)[0], phi)
        d = [env.real(f"d{i}") for i in range(len(x))]
        R = lambda y: residual(env, g, W, H0, *unflat(env, y, P, K), keep, occ)   # noqa
        env.eq("residual of the equations", b, env.arr(R(x)))
        up, dn = R([a + y for a, y in zip(x, d)]), R([a - y for a, y in zip(x, d)])
        # the equations are quadratic, so the central difference is the derivative
        env.eq("exact derivative", A @ env.arr(d), env.arr([(p - m) / 2 for p, m in zip(up, dn)]))
        phi, e, v = unflat(env, z, P, K)
    elif again:
        env.true("every angular momentum is solved again", sorted(i for i, _ in again) == list(rows))
        for i, u in again:
            env.eq(f"solved in the current potential {i}", u, v)
        ph = env.arr([env.array(f"newphi{i}", (P, c["Nmo"][i]), nonzero=True)[q, j] for q in range(P) for i in rows
                      for j in range(c["Nmo"][i])], (P, K))
        ee = [x for i in rows for x in env.array(f"newe{i}", c["Nmo"][i])]
        e, v, phi = [x - ee[-1] for x in ee], v - ee[-1], ph
    env.eq("potential left behind", inv.vs[:, spin], v)
    for i in rows:
        s = S[i, spin]
        env.shape(f"orbitals {i}", s.phi, (P, c["Nmo"][i]))
        env.eq(f"levels {i}", env.np.asarray(s.eig).reshape(-1), env.arr(e[at[i]:at[i] + c["Nmo"][i]]))
        env.eq(f"potential of solver {i}", env.np.asarray(s.veff).reshape(-1), v)
        env.true(f"density of solver {i} is recalculated", getattr(s, "counted", False))
    got = env.np.hstack([S[i, spin].phi for i in rows])
    for i in range(K):
        env.eq(f"orbital {i} up to its norm", env.arr([got[q, i] * phi[r, i] for q in range(P) for r in range(P)]),
               env.arr([got[r, i] * phi[q, i] for q in range(P) for r in range(P)]))
    phi = got
    for i in range(K):
        env.eq(f"electrons in orbital {i}", env.total(W[q] * phi[q, i] ** 2 for q in range(P)), occ[i])
    u = None
    for i in rows:
        x = e[at[i] + c["Nmo"][i] - 1]
        u = x if u is None or x > u else u
    env.eq("chemical potential", env.np.asarray(inv.us).reshape(-1)[spin], u)
    env.shape("one potential per spin", inv.vs, (P, pol))
    env.eq("kinetic potential", inv.get_vt()[:, spin], u - v)
    if pol == 2:
        env.eq("other spin untouched", inv.vs[:, 1 - spin], 0)
        for i in rows:
            env.true(f"other spin's solver untouched {i}", S[i, 1 - spin].phi is None and S[i, 1 - spin].veff is None)
    r = residual(env, g, W, H0, phi, e, v, keep, occ)
    r = r[:K * P] + r[K * P + K - 1:]
    if flag:
        for i, x in enumerate(r):
            env.le(f"equation {i} holds within the tolerance", x, tol)
            env.ge(f"equation {i} holds within the tolerance", x, -tol)
    elif out[0, 0].nfev == 2 or not (steps or again):
        env.gt("failure is reported only if an equation is violated", env.np.max(env.np.abs(env.arr(r))), tol)
