"""Kinetic-energy density: the real solver and inverter routines are executed with arbitrary orbitals, Hamiltonian,
weights and electron number; z3 decides over every occupation branch that the density is the occupation-weighted
sum of phi (H0 phi) / w over normalised orbitals, that for exact eigenpairs it integrates to Ts, and that the
inverter's totals sum it (and Ts) over all angular momenta and spins."""
from engine.run import harness
from .grids import abstract_grid, integral
from .solvers import one_solver, occupations, norm2, deg

BOUNDS = ("2x1 points, up to 3 levels, symbolic electron number up to full filling, m = 0 to 3, both spin treatments; "
          "inverter sums over up to 2 angular momenta x 2 spins")
C = [dict(m=m, pol=p, frac=f, Nmo=k) for m in (0, 1) for p in (1, 2) for f in (False, True) for k in (1, 2, 3)]
C += [dict(m=m, pol=p, frac=True, Nmo=k) for m in (2, 3) for p in (1, 2) for k in (1, 2, 3)]


@harness("C14", configs=C, thorough=[dict(m=0, pol=1, frac=True, Nmo=4)])
def density(env):
    c = env.cfg
    g = abstract_grid(env, 2, 1)
    d = deg(c["m"], c["pol"])
    N = env.real("N", lo=0, hi=d * c["Nmo"])
    s = one_solver(env, g, c["Nmo"], N, c["m"], c["pol"], dict(fractional=c["frac"]))
    phi = env.array("phi", (g.Nelem, c["Nmo"]), nonzero=True)
    s.phi, s.eig = phi.copy(), env.array("eig", c["Nmo"])
    s.hamiltonian()
    s.calc_ked_WFI()
    occ, full, nu, part = occupations(env, N, d, c["Nmo"], c["frac"])
    spec = [0] * g.Nelem
    for i in range(c["Nmo"]):
        Hp = s.H0 @ phi[:, i]
        for k in range(g.Nelem):
            spec[k] = spec[k] + d * occ[i] * phi[k, i] * Hp[k] / g.w[k] / norm2(env, g, phi, i)
    env.shape("one column", s.ked_WFI, (g.Nelem, 1))
    env.eq("kinetic energy density", s.ked_WFI[:, 0], env.arr(spec))


@harness("C14", configs=[dict(m=m, pol=p) for m in (0, 1) for p in (1, 2)])
def integrates_to_Ts(env):
    """an exact eigenpair: H0 phi + w v phi = e w phi"""
    c = env.cfg
    g = abstract_grid(env, 2, 1)
    d = deg(c["m"], c["pol"])
    nu = env.real("nu", lo=0, hi=1)
    env.assume(">", nu, 0)
    s = one_solver(env, g, 1, d * nu, c["m"], c["pol"], dict(fractional=True))
    phi = env.array("phi", (g.Nelem, 1), nonzero=True)
    e = env.real("e")
    s.phi, s.eig = phi.copy(), env.arr([e])
    s.hamiltonian()
    v = e - (s.H0 @ phi[:, 0]) / (g.w * phi[:, 0])
    s.setveff(v)
    n = [d * nu * phi[k, 0] ** 2 / norm2(env, g, phi, 0) for k in range(g.Nelem)]
    Vs = integral(env, g, [n[k] * v[k] for k in range(g.Nelem)])
    env.assume("<=", Vs, 100000)
    env.assume(">=", Vs, -100000)
    s.calc_energy()
    s.calc_ked_WFI()
    env.eq("integral is Ts", integral(env, g, s.ked_WFI[:, 0]), s.Ts)


class _Solver:
    """an orbital solver whose own results are already there"""
    def __init__(self, Ts, ked, n=None):
        self.Ts, self.ked_WFI, self._k = Ts, None, ked
        self._T = Ts
        self.Nmo, self.m, self.N, self.pol = 1, 0, 1, 1
        self.calls = 0

    def calc_energy(self):
        self.Ts = self._T

    def calc_ked_WFI(self):
        self.ked_WFI = self._k


@harness("C14", configs=[dict(levels=l, pol=p, ens=e) for l in (1, 2) for p in (1, 2) for e in (False, True)
                         if not (e and p == 1)], thorough=[dict(levels=3, pol=2, ens=False)])
def totals(env):
    import numpy as onp
    c = env.cfg
    g = abstract_grid(env, 2, 1)
    I = env.mod("inverter.inverter").Inverter
    S = onp.empty((c["levels"], c["pol"]), dtype=object)
    T = env.array("T", S.shape)
    K = [[env.array(f"k{i}{j}", (g.Nelem, 1)) for j in range(c["pol"])] for i in range(c["levels"])]
    for i in range(c["levels"]):
        for j in range(c["pol"]):
            S[i, j] = _Solver(T[i, j], K[i][j])
    inv = I(g, S, dict(ens_spin_sym=c["ens"]))
    Ts = inv.get_Ts()
    cols = range(1) if c["ens"] else range(c["pol"])
    tot = env.total(T[i, j] for i in range(c["levels"]) for j in cols)
    env.eq("total kinetic energy", Ts, 2 * tot if c["ens"] else tot)
    ts = inv.get_ts_WFI()
    env.shape("one column per spin", ts, (g.Nelem, c["pol"]))
    for j in cols:
        env.eq(f"summed over angular momenta, spin {j}", ts[:, j],
               env.arr([env.total(K[i][j][k, 0] for i in range(c["levels"])) for k in range(g.Nelem)]))
