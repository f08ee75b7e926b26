"""Single-particle Hamiltonian and orbital ordering: the real solver is executed on an arbitrary grid with arbitrary
even/odd Laplacians; the sparse eigensolver is a contract returning arbitrary real eigenpairs in arbitrary order
(or failing with NaN first).  z3 decides that the operator handed to it is W^-1(-1/2 Lap_m + m^2 W f) + v with the
Laplacian of the right parity, that the solver keeps eigenvalues ascending with every orbital still paired with
its own eigenvalue, and that symmetrised or degenerate orbitals are exactly even or odd under reflection."""
from engine.run import harness
from .grids import abstract_grid
from .solvers import one_solver

BOUNDS = "2x1 and 2x2 points, angular momenta 0..5, up to 4 eigenpairs, all operators, potentials and eigenpairs symbolic"
ASSUMPTIONS = ["scipy eigs returns eigenpairs of the operator it is given, in no particular order",
               "(ordering) eigenvalues further apart than the degeneracy threshold 1e-9 unless stated"]


@harness("C11", configs=[dict(m=m, pol=p) for m in range(6) for p in (1, 2)])
def operator(env):
    m = env.cfg["m"]
    seen = []

    def eigs(A, k=6, M=None, sigma=None, **kw):
        seen.append((A, k, M))
        return env.array("e", k), env.array("p", (2, k))
    env.stub("scipy.sparse.linalg.eigs", eigs)
    g = abstract_grid(env, 2, 1, ["elap", "olap"])
    s = one_solver(env, g, 1, 1, m, env.cfg["pol"])
    v = env.array("v", g.Nelem)
    s.hamiltonian()
    s.setveff(v)
    s.calc_orbitals()
    env.true("one eigenproblem", len(seen) == 1 and seen[0][1] == 1)
    lap = g.elap if m % 2 == 0 else g.olap
    u = env.array("u", g.Nelem)
    H0u = -(lap @ u) / 2 + m * m * g.w * g.f * u
    env.eq("base Hamiltonian", s.H0 @ u, H0u)
    A, _, M = seen[0]
    # a generalised problem A p = e M p is the same operator M^-1 A
    lhs = g.w * (A @ u) if M is None else A @ u
    if M is not None:
        env.eq("metric", M @ u, g.w * u)
    env.eq("eigenproblem", lhs, H0u + g.w * v * u)


@harness("C11", configs=[dict(k=2), dict(k=3), dict(k=4)])
def ordering(env):
    k = env.cfg["k"]
    e, p = env.array("e", k), env.array("p", (2, k))
    env.stub("scipy.sparse.linalg.eigs", lambda A, k=6, **kw: (e.copy(), p.copy()))
    g = abstract_grid(env, 2, 1, ["elap", "olap"])
    s = one_solver(env, g, k, 1)
    for i in range(k):
        for j in range(i):
            env.assume(">", (e[i] - e[j]) ** 2, 1e-17)
    s.setveff(env.array("v", g.Nelem))
    s.hamiltonian()
    out = {}
    s.calc_orbitals((0, 0), out)
    for i in range(k - 1):
        env.le(f"ascending {i}", s.eig[i], s.eig[i + 1])
    # position of each original pair in the sorted list
    for i in range(k):
        r = sum(1 for j in range(k) if e[j] < e[i])
        env.eq(f"eigenvalue {i}", s.eig[r], e[i])
        env.eq(f"orbital {i} travels with its eigenvalue", s.phi[:, r], p[:, i])
    env.eq("handed to the parent", out[0, 0][0], s.eig)
    env.eq("orbitals handed to the parent", out[0, 0][1], s.phi)


@harness("C11", configs=[dict(k=2)])
def retry(env):
    """the eigensolver fails (all NaN) the first time"""
    k = env.cfg["k"]
    e, p = env.array("e", k), env.array("p", (2, k))
    calls = []

    def eigs(A, k=6, **kw):
        calls.append(kw.get("sigma"))
        if len(calls) == 1:
            return env.array("failed", k), p * float("nan")
        return e.copy(), p.copy()
    env.stub("scipy.sparse.linalg.eigs", eigs)
    g = abstract_grid(env, 2, 1, ["elap", "olap"])
    s = one_solver(env, g, k, 1)
    env.assume(">", (e[0] - e[1]) ** 2, 1e-17)
    s.setveff(env.array("v", g.Nelem))
    s.hamiltonian()
    s.calc_orbitals()
    env.true("shift moved", len(calls) == 2 and calls[1] < calls[0], str(calls))
    env.le("ascending", s.eig[0], s.eig[1])
    lo, hi = (0, 1) if e[0] < e[1] else (1, 0)
    env.eq("lowest orbital", s.phi[:, 0], p[:, lo])
    env.eq("highest orbital", s.phi[:, 1], p[:, hi])


@harness("C11", configs=[dict(k=1), dict(k=2), dict(k=3)])
def symmetrised(env):
    k = env.cfg["k"]
    e, p = env.array("e", k), env.array("p", (2, k))
    env.stub("scipy.sparse.linalg.eigs", lambda A, k=6, **kw: (e.copy(), p.copy()))
    g = abstract_grid(env, 2, 1, ["elap", "olap"])
    s = one_solver(env, g, k, 1, opt=dict(sym=True))
    for i in range(k):
        # neither purely even nor purely odd, so that the projection does not vanish
        env.assume("!=", p[0, i] ** 2 - p[1, i] ** 2, 0)
        for j in range(i):
            env.assume(">", e[i] - e[j], 1e-8)
    s.setveff(env.array("v", g.Nelem))
    s.hamiltonian()
    s.calc_orbitals()
    for i in range(k):
        even = (p[0, i] * p[1, i] + p[1, i] * p[0, i]) > 0
        env.eq(f"orbital {i} has definite parity", s.phi[0, i], s.phi[1, i] if even else -s.phi[1, i])
        env.cmp(f"orbital {i} does not vanish", "!=", s.phi[0, i], 0)
        env.gt(f"orbital {i} keeps its sign", s.phi[0, i] * (p[0, i] + p[1, i] if even else p[0, i] - p[1, i]), 0)


@harness("C11", configs=[{}])
def degenerate_pair(env):
    e, p = env.array("e", 2), env.array("p", (2, 2))
    env.stub("scipy.sparse.linalg.eigs", lambda A, k=6, **kw: (env.arr([e[0], e[0]]), p.copy()))
    g = abstract_grid(env, 2, 1, ["elap", "olap"])
    s = one_solver(env, g, 2, 1)
    env.assume("!=", p[0, 0] + p[1, 0] + p[0, 1] + p[1, 1], 0)
    env.assume("!=", p[0, 0] - p[1, 0] + p[0, 1] - p[1, 1], 0)
    s.setveff(env.array("v", g.Nelem))
    s.hamiltonian()
    s.calc_orbitals()
    env.eq("first of a degenerate pair is even", s.phi[0, 0], s.phi[1, 0])
    env.eq("second of a degenerate pair is odd", s.phi[0, 1], -s.phi[1, 1])
    env.cmp("neither vanishes", "!=", s.phi[0, 0] * s.phi[0, 1], 0)


@harness("C11", configs=[dict(which="calc"), dict(which="iter")])
def empty_level(env):
    """a level without orbitals contributes a sentinel eigenvalue and no orbital"""
    env.stub("scipy.sparse.linalg.eigs", lambda A, k=6, **kw: (env.array("e", k), env.array("p", (2, k))))
    g = abstract_grid(env, 2, 1, ["elap", "olap"])
    s = one_solver(env, g, 0, 0)
    s.setveff(env.array("v", g.Nelem))
    s.hamiltonian()
    getattr(s, env.cfg["which"] + "_orbitals")()
    env.lt("sentinel eigenvalue", s.eig[0], -10 ** 12)
    s.calc_density()
    env.eq("no density", s.n, 0)


@harness("C11", configs=[{}])
def fresh_solver(env):
    """the base Hamiltonian is built on demand"""
    env.stub("scipy.sparse.linalg.eigs", lambda A, k=6, **kw: (env.array("e", k), env.array("p", (2, k))))
    g = abstract_grid(env, 2, 1, ["elap", "olap"])
    s = one_solver(env, g, 1, 1)
    s.setveff(env.array("v", g.Nelem))
    s.calc_orbitals()
    u = env.array("u", g.Nelem)
    env.eq("base Hamiltonian", s.H0 @ u, -(g.elap @ u) / 2)
