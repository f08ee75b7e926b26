"""Orbital densities: the real solver is executed on an arbitrary grid with arbitrary (unnormalised) orbitals and a
symbolic electron number; z3 decides, over every branch of the occupation rule, that the density is the
occupation-weighted sum of normalised squared orbitals, is nowhere negative, and integrates to the electron
number (to its whole-level part when fractional filling is off), for sigma and m>0 levels, both spin treatments."""
from engine.run import harness
from .grids import abstract_grid, integral
from .solvers import one_solver, occupations, norm2, deg

BOUNDS = ("2x1 to 2x2 points, 1-3 levels, any electron number from 0 to full filling (symbolic), m = 0 to 3, "
          "spin-restricted and polarised, fractional filling on and off")
ASSUMPTIONS = ["quadrature weights positive (C03)", "orbitals nonzero"]
C = [dict(m=m, pol=p, frac=f, Nmo=k) for m in (0, 1) for p in (1, 2) for f in (False, True) for k in (1, 2)]
C += [dict(m=m, pol=p, frac=True, Nmo=k) for m in (2, 3) for p in (1, 2) for k in (1, 2, 3)]
C += [dict(m=m, pol=p, frac=True, Nmo=3) for m in (0, 1) for p in (1, 2)]
T = [dict(m=m, pol=p, frac=f, Nmo=4) for m in (0, 1) for p in (1, 2) for f in (False, True)]


@harness("C12", configs=C, thorough=T)
def density(env):
    c = env.cfg
    g = abstract_grid(env, 2, 1)
    d = deg(c["m"], c["pol"])
    N = env.real("N", lo=0, hi=d * c["Nmo"])
    s = one_solver(env, g, c["Nmo"], N, c["m"], c["pol"], dict(fractional=c["frac"]))
    phi = env.array("phi", (g.Nelem, c["Nmo"]), nonzero=True)
    s.phi = phi.copy()
    s.eig = env.array("eig", c["Nmo"])
    s.calc_density()
    occ, full, nu, part = occupations(env, N, d, c["Nmo"], c["frac"])
    nrm = [norm2(env, g, phi, i) for i in range(c["Nmo"])]
    spec = [env.total([0] + [d * occ[i] * phi[k, i] ** 2 / nrm[i] for i in range(c["Nmo"])]) for k in range(g.Nelem)]
    env.shape("one column", s.n, (g.Nelem, 1))
    env.eq("density", s.n[:, 0], env.arr(spec))
    env.ge("density is nowhere negative", s.n[:, 0], 0)
    env.eq("electron count", integral(env, g, s.n[:, 0]), N if c["frac"] else d * full)
    env.eq("orbitals untouched", s.phi, phi)


@harness("C12", configs=[dict(pol=p, m=0) for p in (1, 2)])
def full_filling(env):
    """N = -1 asks for every level to be filled"""
    c = env.cfg
    g = abstract_grid(env, 2, 1)
    s = one_solver(env, g, 2, -1, c["m"], c["pol"])
    phi = env.array("phi", (g.Nelem, 2), nonzero=True)
    s.phi = phi.copy()
    s.calc_density()
    # the shorthand counts 2 (1) electrons per level for spin-restricted (polarised) solvers
    n = (2 if c["pol"] == 1 else 1) * 2
    env.eq("electron number", s.N, n)
    env.eq("electron count", integral(env, g, s.n[:, 0]), n)
