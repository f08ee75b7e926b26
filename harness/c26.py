"""Response (Wu-Yang like) density inversion: the real Inverter is executed on an arbitrary grid; the orbital solvers are
contracts (density and levels arbitrary linear functions of the potential with arbitrary response matrices, decided by
C11, C12, C13 and C16) and scipy's least-squares optimiser is a contract that evaluates the residual wherever it likes and
returns an arbitrary potential.  z3 decides that the residual is the relative density error summed over all angular
momenta of that spin plus the gauge condition, that the Jacobian is its exact derivative, that each spin starts from and
is fitted to its own data, and that the potential, chemical potential, kinetic potential and solver states left behind
belong to the potential the optimiser returned."""
from engine.run import harness
from .grids import abstract_grid

BOUNDS = ("2 grid points (4 with reflection symmetry), 1-2 spins, 1-2 angular momenta, spin-symmetric ensembles, starting "
          "potential from the solver / from the caller / none; everything symbolic")
ASSUMPTIONS = ["target densities are positive", "levels and densities depend linearly on the potential (first order)",
               "with reflection symmetry the response commutes with reflection and the optimiser stays in the symmetric "
               "subspace it starts in"]
C = [dict(rows=r, pol=p, start=s) for r, p, s in
     [(1, 1, "given"), (2, 1, "given"), (1, 2, "given"), (2, 2, "given"), (1, 1, "own"), (2, 1, "own"), (2, 2, "own"),
      (1, 1, None), (1, 2, None), (1, 1, "vector")]]
C += [dict(rows=3, pol=1, start="given"), dict(rows=3, pol=2, start="own", ss=True)]
C += [dict(rows=1, pol=2, start="given", ss=True), dict(rows=2, pol=2, start="own", ss=True)]
C += [dict(rows=1, pol=1, start="given", ab=True), dict(rows=2, pol=1, start="own", ab=True)]
C += [dict(rows=1, pol=2, start="given", ab=True), dict(rows=1, pol=2, start="own", ab=True, ss=True), dict(rows=1, pol=2, start=None, ss=True)]


class Result:
    pass


@harness("C26", configs=C, thorough=[dict(rows=3, pol=2, start="given"), dict(rows=2, pol=2, start="own", ab=True),
                                     dict(rows=1, pol=2, start="own", ab=True, ss=True)])
def response_inversion(env):
    c = env.cfg
    rows, pol, ss, ab = c["rows"], c["pol"], c.get("ss", False), c.get("ab", False)
    calls = []
    Nr = 2 if ab else 1
    P = 2 * Nr
    cols = 1 if (ss or pol == 1) else pol
    perm = [q - q % 2 + 1 - q % 2 for q in range(P)]      # reflection of a 2 x Nr grid

    def sym(name):
        v = env.array(name, P)
        return v + v[perm] if ab else v

    def least_squares(fun, x0, jac="2-point", args=(), kwargs={}, **kw):
        t = len(calls)
        v0, d = env.array(f"trial{t}", P), sym(f"step{t}")
        v1 = v0 + d
        r0 = fun(v0.copy(), *args, **kwargs)
        J = env.np.asarray(jac(v0.copy(), *args, **kwargs))
        r1 = fun(v1.copy(), *args, **kwargs)
        u = env.array(f"any{t}", P)
        env.eq("derivative of the gauge condition in any direction", J[P] @ u,
               (u[P - 1] + u[perm[P - 1]]) / 2 if ab else u[P - 1])
        r = Result()
        r.x, r.status, r.success, r.cost = sym(f"x{t}"), env.real(f"status{t}"), True, env.real(f"cost{t}", nonneg=True)
        r.optimality, r.nfev, r.fun, r.jac, r.message = env.real(f"opt{t}", nonneg=True), 3, r1, J, ""
        calls.append(dict(x0=x0, v0=v0, v1=v1, d=d, r0=r0, r1=r1, J=J, x=r.x.copy(), res=r))
        return r
    env.stub("scipy.optimize.least_squares", least_squares)
    g = abstract_grid(env, 2, Nr)
    Ps = env.mod("pssolver.pssolver").Pssolver
    N = [[2 if i == 0 and pol == 1 else 1 if i == 0 else 4 if pol == 1 else 2] * pol for i in range(rows)]
    S = Ps(g, [[1] * pol for _ in range(rows)], N)
    ref = {}
    for i in range(rows):
        for j in range(pol):
            s = S[i, j]
            chi = env.array(f"chi{i}{j}", (P, P))
            if ab:
                chi = env.arr([chi[p, q] + chi[perm[p], perm[q]] for p in range(P) for q in range(P)], (P, P))
            ref[i, j] = (env.array(f"n{i}{j}", P), chi, env.real(f"e{i}{j}"), env.array(f"de{i}{j}", P))

            def flat(v):
                return env.np.asarray(v).reshape(-1)

            def calc_orbitals(s=s, k=(i, j)):
                s.eig = env.arr([ref[k][2] + env.total(ref[k][3] * flat(s.veff))])
                s.phi = env.array(f"phi{k[0]}{k[1]}", (P, 1))
                s.at = s.veff.copy()

            def calc_density(s=s, k=(i, j)):
                s.n = (ref[k][0] + ref[k][1] @ flat(s.at)).reshape(P, 1)

            def calc_response(s=s, k=(i, j)):
                s.chi = ref[k][1].copy()

            def calc_energy(s=s):
                s.calc_density()
                s.Ts = 0
            s.calc_orbitals, s.calc_density, s.calc_response, s.calc_energy = (calc_orbitals, calc_density,
                                                                               calc_response, calc_energy)
            s.hamiltonian = lambda: None
            if c["start"] == "own":
                s.veff = sym(f"own{j}")
    inv = env.mod("inverter.inverter").Inverter(g, S, dict(invert_type="WuYang".lower(), ab_sym=ab, ens_spin_sym=ss))
    n0 = env.array("n0", (P, cols), pos=True)
    if ab:
        n0 = n0 + n0[perm]
    keep = n0.copy()
    start = env.array("vs0", (P, cols)) if c["start"] in ("given", "vector") else None
    if ab and start is not None:
        start = start + start[perm]
    own = [S[0, j].veff.copy() if S[0, j].veff is not None else None for j in range(pol)]
    flag, out = inv.invert(n0[:, 0] if c["start"] == "vector" else n0, None if start is None else start.copy())

    env.true("one optimisation per independent spin", len(calls) == cols, str(len(calls)))
    env.eq("target density untouched", n0, keep)
    for j, k in enumerate(calls):
        if c["start"] == "own":
            want = own[j]
        elif start is not None:
            want = start[:, j]
        else:
            r = env.arr([keep[q, j] ** 0.5 for q in range(P)])
            t = g.elap @ r
            w = [t[q] / (2 * g.w[q] * r[q]) for q in range(P)]
            want = env.arr([x - w[-1] for x in w])
        env.eq(f"starting potential of spin {j}", env.np.asarray(k["x0"]).reshape(-1), want)
        for nm, v in (("r0", "v0"), ("r1", "v1")):
            v = k[v]
            v = (v + v[perm]) / 2 if ab else v
            n = env.np.zeros(P)
            for i in range(rows):
                n = n + ref[i, j][0] + ref[i, j][1] @ v
            if ab:
                n = (n + n[perm]) / 2
            env.shape(f"residual of spin {j}", k[nm], (P + 1,))
            env.eq(f"relative density error of spin {j}", k[nm][:P] * keep[:, j], n - keep[:, j])
            env.eq(f"gauge of spin {j}", k[nm][P], v[P - 1])
        env.shape(f"shape of the Jacobian {j}", k["J"], (P + 1, P))
        env.eq(f"Jacobian is the derivative of the residual {j}", k["J"] @ k["d"], k["r1"] - k["r0"])
    env.shape("potential for every spin", inv.vs, (P, pol))
    for j in range(pol):
        k = calls[0 if ss else j]
        env.eq(f"potential of spin {j}", inv.vs[:, j], k["x"])
        if ss and j:
            for i in range(rows):
                env.eq(f"solver {i} of the second spin", env.np.asarray(S[i, 1].veff).reshape(-1), k["x"])
        else:
            for i in range(rows):
                env.eq(f"solver {i}{j} is left at the potential", env.np.asarray(S[i, j].veff).reshape(-1), k["x"])
                env.eq(f"orbitals {i}{j} belong to the potential", env.np.asarray(S[i, j].at).reshape(-1), k["x"])
                env.eq(f"density {i}{j} belongs to the potential", env.np.asarray(S[i, j].n).reshape(-1),
                       ref[i, j][0] + ref[i, j][1] @ k["x"])
        u = None
        for i in range(rows):
            e = ref[i, 0 if ss else j][2] + env.total(ref[i, 0 if ss else j][3] * k["x"])
            u = e if u is None or e > u else u
        env.eq(f"chemical potential of spin {j}", env.np.asarray(inv.us).reshape(-1)[j], u)
        env.eq(f"kinetic potential of spin {j}", inv.get_vt()[:, j], u - k["x"])
        for i in range(rows):
            env.eq(f"status of {i}{j}", flag[i, j], k["res"].status)
            env.true(f"report of {i}{j}", out[i, j] is k["res"])
