"""Orbital energies: the real solver is executed with arbitrary orbitals, eigenvalues and potential and a symbolic
electron number; z3 decides over every occupation branch that the Kohn-Sham energy is the occupation-weighted
eigenvalue sum, that the potential energy is the integral of v n for the density of the same occupations, that
Ts = Eks - Vs, and that the HOMO is the highest level holding electrons."""
from engine.run import harness
from .grids import abstract_grid, integral
from .solvers import one_solver, occupations, norm2, deg

BOUNDS = ("2x1 points, 1-3 levels, electron number symbolic from 0 to full filling, m = 0 to 3, both spin treatments, "
          "fractional filling on and off")
ASSUMPTIONS = ["|int v n| <= 1e5 (beyond it the code deliberately reports Vs = 0)"]
C = [dict(m=m, pol=p, frac=f, Nmo=2) for m in (0, 1) for p in (1, 2) for f in (False, True)]
C += [dict(m=m, pol=p, frac=True, Nmo=k) for m in (2, 3) for p in (1, 2) for k in (1, 2)]
C += [dict(m=m, pol=p, frac=True, Nmo=3) for m in (0, 1) for p in (1, 2)] + [dict(m=m, pol=1, frac=True, Nmo=3) for m in (2, 3)]
C += [dict(m=m, pol=p, frac=f, Nmo=1) for m in (0, 1) for p, f in ((1, True), (2, False))]
T = [dict(m=m, pol=p, frac=True, Nmo=4) for m in (0, 1) for p in (1, 2)]


@harness("C13", configs=C, thorough=T, ms=20000)
def energies(env):
    c = env.cfg
    g = abstract_grid(env, 2, 1)
    d = deg(c["m"], c["pol"])
    N = env.real("N", lo=0, hi=d * c["Nmo"])
    s = one_solver(env, g, c["Nmo"], N, c["m"], c["pol"], dict(fractional=c["frac"]))
    phi = env.array("phi", (g.Nelem, c["Nmo"]), nonzero=True)
    eig = env.array("eig", c["Nmo"])
    v = env.array("v", g.Nelem)
    s.phi, s.eig = phi.copy(), eig.copy()
    s.setveff(v)
    occ, full, nu, part = occupations(env, N, d, c["Nmo"], c["frac"])
    nrm = [norm2(env, g, phi, i) for i in range(c["Nmo"])]
    n = [env.total([0] + [d * occ[i] * phi[k, i] ** 2 / nrm[i] for i in range(c["Nmo"])]) for k in range(g.Nelem)]
    Vs = integral(env, g, [n[k] * v[k] for k in range(g.Nelem)])
    env.assume("<=", Vs, 100000)
    env.assume(">=", Vs, -100000)
    s.calc_energy()
    eks = env.total([0] + [d * occ[i] * eig[i] for i in range(c["Nmo"])])
    env.eq("Kohn-Sham energy", s.eks, eks)
    env.eq("density of the same occupations", s.n[:, 0], env.arr(n))
    env.eq("potential energy", s.Vs, Vs)
    env.eq("kinetic energy", s.Ts, eks - Vs)
    top = full - 1 + (1 if part else 0)
    h = s.get_homo()
    if top >= 0:
        env.eq("HOMO", h, eig[top])
        env.eq("HOMO recorded", s.homo, eig[top])
    else:
        env.lt("HOMO of an empty solver lies below everything", h, -10 ** 12)
