"""Iterative orbital update: the real update is executed with arbitrary orbitals, eigenvalues, Hamiltonian and
weights (linear solves are exact by contract); z3 decides that an update is the Newton step of the bordered
eigenproblem, that an orbital which already satisfies its equation is left alone whatever the others do, and that
orbitals come out normalised to the number of electrons a level holds."""
from fractions import Fraction as F
from engine.run import harness
from .grids import abstract_grid, integral
from .solvers import one_solver, norm2, deg

BOUNDS = "2x1 points, 1-3 orbitals, m = 0 to 3, all operators, potentials, orbitals and eigenvalues symbolic"
ASSUMPTIONS = ["the inner linear solver (direct or preconditioned bicgstab) returns the exact solution",
               "bordered matrix nonsingular"]


@harness("C15", configs=[dict(m=m, pol=p, k=k) for m in (0, 1, 2, 3) for p in (1, 2) for k in (1, 2, 3)])
def normalised(env):
    c = env.cfg
    g = abstract_grid(env, 2, 1)
    s = one_solver(env, g, c["k"], 1, c["m"], c["pol"])
    phi = env.array("phi", (g.Nelem, c["k"]), nonzero=True)
    s.phi = phi.copy()
    s.normalize_orbitals()
    for i in range(c["k"]):
        env.eq(f"norm of orbital {i}", norm2(env, g, s.phi, i), deg(c["m"], c["pol"]))
        env.eq(f"direction of orbital {i}", s.phi[0, i] * phi[1, i], s.phi[1, i] * phi[0, i])
        env.gt(f"sign of orbital {i}", s.phi[0, i] * phi[0, i], 0)


def exact_potential(g, s, phi, e):
    """potential for which (e, phi) is an eigenpair of the solver's Hamiltonian"""
    return e - (s.H0 @ phi) / (g.w * phi)


def setup(env, k, it, m=0):
    g = abstract_grid(env, 2, 1)
    s = one_solver(env, g, k, 1, m, 1, dict(iter_lin_solver=it))
    phi = env.array("phi", (g.Nelem, k), nonzero=True)
    eig = env.array("eig", k)
    s.phi, s.eig = phi.copy(), eig.copy()
    s.hamiltonian()
    return g, s, phi, eig


@harness("C15", configs=[dict(it=i, m=m) for i in (False, True) for m in (0, 1, 2, 3)], ms=60000)
def newton_step(env):
    g, s, phi, eig = setup(env, 1, env.cfg["it"], env.cfg["m"])
    v = env.array("v", g.Nelem)
    s.setveff(v)
    p, e = phi[:, 0], eig[0]
    A = lambda x: s.H0 @ x + g.w * v * x - e * g.w * x       # noqa: E731
    r = A(p)
    # some equation is violated by more than the tolerance
    env.assume(">", r[0] * r[0], 1)
    out = {}
    s.iter_orbitals((0, 0), out)
    q, y = s.phi[:, 0], e - s.eig[0]
    Wp = g.w * p
    lhs = A(q)
    pq = env.total(Wp[i] * q[i] for i in range(2))
    pp = env.total(Wp[i] * p[i] for i in range(2))
    for i in range(2):
        env.eq(f"linearised eigenvalue equation {i}", lhs[i] * (pp + F(1, 10 ** 12) * y), -pq * y * Wp[i], tol=1e-5)
    env.eq("normalised", norm2(env, g, s.phi, 0), deg(env.cfg["m"], 1))
    env.eq("handed to the parent", out[0, 0][1], s.phi)
    env.eq("eigenvalue handed to the parent", out[0, 0][0], s.eig)


@harness("C15", configs=[dict(it=i, which=w) for i in (False, True) for w in (0, 1)], ms=30000)
def converged_orbital_stays(env):
    w = env.cfg["which"]
    g, s, phi, eig = setup(env, 2, env.cfg["it"])
    s.setveff(exact_potential(g, s, phi[:, w], eig[w]))
    o = 1 - w
    r = s.H0 @ phi[:, o] + g.w * s.veff * phi[:, o] - eig[o] * g.w * phi[:, o]
    env.assume(">", r[0] * r[0], 1)
    # its bordered matrix is not singular
    M = [[(s.H0 @ u)[i] + (g.w[i] * (s.veff[i] - eig[o]) if i == j else 0) for i in range(2)]
         for j, u in enumerate((env.arr([1, 0]), env.arr([0, 1])))]
    b = g.w * phi[:, o]
    det = b[0] * (M[1][1] * b[0] - M[1][0] * b[1]) + b[1] * (M[0][0] * b[1] - M[0][1] * b[0]) \
        + (M[0][0] * M[1][1] - M[0][1] * M[1][0]) / 10 ** 12
    env.assume(">", det * det, F(1, 100))
    # the concrete run must see residuals below the tolerance too
    s.optSolver.tol_orbital = 1e-9
    s.iter_orbitals()
    env.eq("eigenvalue kept", s.eig[w], eig[w])
    env.eq("direction kept", s.phi[0, w] * phi[1, w], s.phi[1, w] * phi[0, w])
    env.gt("sign kept", s.phi[0, w] * phi[0, w], 0)
    # the other one, whose equation is violated at one point at least, takes its Newton step
    p, q, e, y = phi[:, o], s.phi[:, o], eig[o], eig[o] - s.eig[o]
    lhs = s.H0 @ q + g.w * s.veff * q - e * g.w * q
    Wp = g.w * p
    pq = env.total(Wp[i] * q[i] for i in range(2))
    pp = env.total(Wp[i] * p[i] for i in range(2))
    for i in range(2):
        env.eq(f"linearised eigenvalue equation of the other {i}", lhs[i] * (pp + F(1, 10 ** 12) * y), -pq * y * Wp[i], tol=1e-5)


@harness("C15", configs=[dict(it=False), dict(it=True)])
def all_converged(env):
    g, s, phi, eig = setup(env, 1, env.cfg["it"])
    s.setveff(exact_potential(g, s, phi[:, 0], eig[0]))
    s.optSolver.tol_orbital = 1e-9
    s.iter_orbitals()
    env.eq("eigenvalue kept", s.eig[0], eig[0])
    env.eq("direction kept", s.phi[0, 0] * phi[1, 0], s.phi[1, 0] * phi[0, 0])


@harness("C15", configs=[dict(which="phi"), dict(which="eig"), dict(which="both")])
def first_call(env):
    """without orbitals or levels to start from, the eigenproblem is solved first"""
    e, p = env.array("e", 1), env.array("p", (2, 1), nonzero=True)
    calls = []

    def eigs(A, k=6, **kw):
        calls.append(k)
        return e.copy(), p.copy()
    env.stub("scipy.sparse.linalg.eigs", eigs)
    g, s, phi, eig = setup(env, 1, False)
    if env.cfg["which"] in ("phi", "both"):
        s.phi = None
    if env.cfg["which"] in ("eig", "both"):
        s.eig = None
    s.setveff(exact_potential(g, s, p[:, 0], e[0]))
    s.optSolver.tol_orbital = 1e-9
    s.iter_orbitals()
    env.true("eigenproblem solved once", len(calls) == 1, str(calls))
    env.eq("level of the solution", s.eig[0], e[0])
    env.eq("orbital of the solution", s.phi[0, 0] * p[1, 0], s.phi[1, 0] * p[0, 0])
