"""Kohn-Sham potential distribution and density assembly: the real Kohn-Sham object is executed on an arbitrary grid
with arbitrary potentials and orbitals; eigensolver and functional library are contracts, and worker processes finish
in every order.  z3 decides that each orbital solver receives its own spin's effective potential, that the density of
each spin is the sum over angular momenta of the solvers' densities and holds the requested electrons, that every
solver keeps its own eigenpairs whatever the completion order, that the Hartree-exchange-correlation potential is the
sum of its parts, that symmetric runs are exactly mirror symmetric, and that the chemical potential is the highest
occupied level."""
import itertools
from engine.run import harness
from .grids import abstract_grid, integral
from .solvers import deg
from .ks import kohnsham, fake_hartree, fake_libxc, fill

BOUNDS = ("2 grid points (4 for mirror symmetry), 1-2 spins, 1-4 angular momenta, 1 orbital per solver for the parallel solve, "
          "every completion order of up to 4 workers; potentials, orbitals, eigenvalues and library outputs symbolic")
ASSUMPTIONS = ["worker processes see a copy of their solver and return results only through the shared dictionary"]
C = [dict(pol=p, rows=r) for p in (1, 2) for r in (1, 2, 3, 4)]


def make(env, pol, rows, Na=2, opt=None, Nmo=1, N=1):
    g = abstract_grid(env, Na, 1, ["Z", "Y"])
    ks = kohnsham(env, g, [[Nmo] * pol] * rows, [[N] * pol] * rows, pol, 1, 1, opt)
    ks.vnuc = env.array("vnuc", (g.Nelem, pol))
    ks.vext = env.array("vext", (g.Nelem, pol))
    ks.vhxc = env.array("vhxc", (g.Nelem, pol))
    return g, ks


@harness("C17", configs=C)
def potentials(env):
    pol, rows = env.cfg["pol"], env.cfg["rows"]
    g, ks = make(env, pol, rows)
    ks.set_effective_potential()
    for i in range(rows):
        for j in range(pol):
            env.eq(f"potential of solver {i}{j}", ks.solver[i, j].veff.reshape(-1),
                   ks.vnuc[:, j] + ks.vext[:, j] + ks.vhxc[:, j])
    env.eq("effective potential", ks.veff, ks.vnuc + ks.vext + ks.vhxc)
    v = env.array("trial", (g.Nelem, pol))
    ks.set_veff_external(v)
    for i in range(rows):
        for j in range(pol):
            env.eq(f"external potential of solver {i}{j}", ks.solver[i, j].veff.reshape(-1), v[:, j])


@harness("C17", configs=[dict(pol=p, fam=f) for p in (1, 2) for f in ("lda", "gga")] +
         [dict(pol=p, ni=True) for p in (1, 2)] + [dict(pol=p, fam=f, sym=True) for p in (1, 2) for f in ("lda", "gga")])
def hxc(env):
    c = env.cfg
    pol = c["pol"]
    opt = dict(interaction_type="ni") if c.get("ni") else dict(xc_family=c["fam"], xfunc_id=101, cfunc_id=130)
    opt["sym"] = c.get("sym", False)
    g = abstract_grid(env, 2, 2 if c.get("sym") else 1, ["Z", "Y"])
    vh = fake_hartree(env, g)
    fake_libxc(env, g)
    ks = kohnsham(env, g, [[1] * pol], [[1] * pol], pol, 1, 1, opt)
    ks.vext = env.array("vext", (g.Nelem, pol))
    n = env.array("n", (g.Nelem, pol))
    ks.n = n.copy()
    ks.calc_hxc_potential()
    env.eq("density untouched", ks.n, n)
    if c.get("ni"):
        env.eq("no interaction", ks.vhxc, env.np.zeros((g.Nelem, pol)))
        return
    L = env.mod("libxc.libxc").Libxc
    Ex, vx = L(g, c["fam"], 101).get_xc(n)
    Ec, vc = L(g, c["fam"], 130).get_xc(n)
    h = vh(n)
    spec = vx + vc
    for s in range(pol):
        spec[:, s] = spec[:, s] + h
    if c.get("sym"):
        m = env.np.zeros((g.Nelem, pol))
        for k in range(g.Nelem):
            kk = (g.Na - 1 - k % g.Na) + g.Na * (k // g.Na)
            for s in range(pol):
                m[k, s] = (spec[k, s] + spec[kk, s]) / 2
        spec = m
    env.eq("sum of the parts", ks.vhxc, spec)
    env.eq("exchange energy", ks.E.Ex, Ex)
    env.eq("correlation energy", ks.E.Ec, Ec)


PERMS = [dict(pol=p, rows=r, perm=q) for p, r in ((1, 1), (2, 1), (1, 2)) for q in range(2 if p * r == 2 else 1)]
PERMS += [dict(pol=2, rows=2, perm=q) for q in (0, 7, 16, 23)] + [dict(pol=1, rows=3, perm=q) for q in (0, 4)]


@harness("C17", configs=PERMS + [dict(pol=p, rows=2, perm=0, sym=True) for p in (1, 2)] +
         [dict(pol=2, rows=3, perm=0), dict(pol=2, rows=1, perm=1, sym=True), dict(pol=1, rows=3, perm=4, sym=True)],
         thorough=[dict(pol=2, rows=2, perm=q) for q in range(24) if q not in (0, 7, 16, 23)])
def density(env):
    c = env.cfg
    pol, rows = c["pol"], c["rows"]
    calls = []
    Na = 2

    def eigs(A, k=6, **kw):
        t = len(calls)
        calls.append(A)
        return env.array(f"e{t}", k), env.array(f"p{t}", (Na, k), nonzero=True)
    env.stub("scipy.sparse.linalg.eigs", eigs)
    g = abstract_grid(env, Na, 1, ["Z", "Y"])
    env.proc_order = lambda k: list(itertools.permutations(range(k)))[c["perm"] % max(1, len(list(
        itertools.permutations(range(k)))))]
    # enough electrons to fill the single orbital of every solver
    N = [[deg(i, pol)] * pol for i in range(rows)]
    ks = kohnsham(env, g, [[1] * pol] * rows, N, pol, 1, 1, dict(sym=c.get("sym", False)))
    v = env.array("veff", (Na, pol))
    for i in range(rows):
        for j in range(pol):
            ks.solver[i, j].setveff(v[:, j])
    n = ks.calc_density()
    env.shape("one column per spin", n, (Na, pol))
    env.true("every solver solved once", len(calls) == rows * pol, str(len(calls)))
    # which eigenproblem belongs to which solver: its operator applied to its own potential
    left = list(range(len(calls)))
    own = {}
    for i in range(rows):
        for j in range(pol):
            s = ks.solver[i, j]
            for t in left:
                if str(env.np.asarray(s.eig).ravel()[0]) == str(env.array(f"e{t}", 1)[0]):
                    own[i, j] = t
                    left.remove(t)
                    break
    env.true("eigenvalues come from the worker processes", len(own) == rows * pol, str(own))
    spec = [[0] * pol for _ in range(Na)]
    for (i, j), t in own.items():
        s = ks.solver[i, j]
        u = env.array("u", Na)
        H = s.H0 @ u + g.w * v[:, j] * u
        env.eq(f"solver {i}{j} keeps the solution of its own problem", g.w * (calls[t] @ u), H)
        p = env.array(f"p{t}", (Na, 1))
        if not c.get("sym"):
            env.eq(f"orbital of solver {i}{j}", s.phi.reshape(Na), p[:, 0])
        p = s.phi
        nn = integral(env, g, [p[k, 0] ** 2 for k in range(Na)])
        for k in range(Na):
            spec[k][j] = spec[k][j] + deg(i, pol) * p[k, 0] ** 2 / nn
    if c.get("sym"):
        spec = [[(spec[k][j] + spec[Na - 1 - k][j]) / 2 for j in range(pol)] for k in range(Na)]
        for j in range(pol):
            env.eq(f"mirror symmetric {j}", n[0, j], n[1, j])
    env.eq("density", n, env.arr([x for r in spec for x in r], (Na, pol)))
    if not c.get("sym"):
        for j in range(pol):
            env.eq(f"electrons of spin {j}", integral(env, g, n[:, j]), sum(deg(i, pol) for i in range(rows)))


@harness("C17", configs=[dict(pol=p, rows=r) for p, r in ((1, 1), (2, 1), (1, 2), (2, 2), (1, 3), (2, 3))])
def chemical_potential(env):
    pol, rows = env.cfg["pol"], env.cfg["rows"]
    N = [[1 + j] * pol for j in range(rows)]
    g = abstract_grid(env, 2, 1, ["Z", "Y"])
    ks = kohnsham(env, g, [[2] * pol] * rows, [[deg(i, pol) * (1 if j else 2) for j in range(pol)] for i in range(rows)],
                  pol, 1, 1)
    fill(env, ks)
    ks.calc_chempot()
    for i in range(rows):
        for j in range(pol):
            env.ge(f"not below the homo of {i}{j}", ks.u, ks.solver[i, j].eig[0 if j else 1])
    env.true("attained", any(_same(env, ks.u, ks.solver[i, j].eig[0 if j else 1])
                             for i in range(rows) for j in range(pol)))


def _same(env, a, b):
    return bool(a == b)


@harness("C17", configs=[dict(pol=2, rows=1), dict(pol=1, rows=2), dict(pol=2, rows=1, it=True), dict(pol=1, rows=2, it=True)])
def empty_block(env):
    """a spin channel or angular momentum without any levels contributes nothing and does not disturb the others"""
    c = env.cfg
    pol, rows = c["pol"], c["rows"]
    P = 2
    calls = []

    def eigs(A, k=6, **kw):
        env.true("no empty eigenproblem", k > 0)
        calls.append(A)
        return env.array("e", k), env.array("p", (P, k), nonzero=True)
    env.stub("scipy.sparse.linalg.eigs", eigs)
    g = abstract_grid(env, P, 1, ["Z", "Y"])
    last = (rows - 1, pol - 1)
    Nmo = [[0 if (i, j) == last else 1 for j in range(pol)] for i in range(rows)]
    N = [[0 if (i, j) == last else deg(i, pol) for j in range(pol)] for i in range(rows)]
    ks = kohnsham(env, g, Nmo, N, pol, 1, 1)
    v = env.array("veff", (P, pol))
    for i in range(rows):
        for j in range(pol):
            ks.solver[i, j].setveff(v[:, j])
    n = ks.calc_density()
    env.true("one eigenproblem", len(calls) == 1, str(len(calls)))
    if c.get("it"):
        # the second call updates the orbitals instead (orbital already converged: nothing to do)
        s = ks.solver[0, 0]

        def keep(sid=None, d=None, s=s):
            d[sid] = [s.eig, s.phi]
        s.iter_orbitals = keep
        n = ks.calc_density(ITERATIVE=True, dif=0.0)
    p = env.array("p", (P, 1), nonzero=True)
    nn = integral(env, g, [p[q, 0] ** 2 for q in range(P)])
    for j in range(pol):
        has = rows == 2 or j == 0
        env.eq(f"density of spin {j}", n[:, j], env.arr([deg(0, pol) * p[q, 0] ** 2 / nn if has else 0 for q in range(P)]))
    ks.calc_chempot()
    env.assume(">=", ks.solver[0, 0].eig[0], -1000)
    env.eq("chemical potential is that of the occupied block", ks.u, env.array("e", 1)[0])
