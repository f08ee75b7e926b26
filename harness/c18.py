"""Kohn-Sham energy decomposition: the real energy routine is executed with arbitrary densities, potentials, orbitals
and eigenvalues on an arbitrary grid (Hartree solver and functional library are contracts); z3 decides that every
reported component is the integral it names, that kinetic and eigenvalue energies sum over all solvers, that the total
is the sum of its components for interacting and non-interacting runs, that the nuclear repulsion is Za Zb / (2a),
and that at self-consistency the total equals the eigenvalue sum minus double counting."""
from engine.run import harness
from .grids import abstract_grid, integral
from .solvers import deg
from .ks import kohnsham, fake_hartree, fake_libxc, fill

BOUNDS = ("2 grid points, 1-2 spins, 1-3 angular momenta, 1-2 orbitals per solver; LDA and GGA; everything continuous "
          "is symbolic (densities, potentials, orbitals, eigenvalues, charges, bond length, library outputs)")
ASSUMPTIONS = ["|int v n| <= 1e5 per solver (beyond it the code deliberately reports Vs = 0)"]
C = [dict(pol=p, rows=r, Nmo=k, fam=f) for p in (1, 2) for r, k in ((1, 1), (2, 1), (1, 2)) for f in ("lda",)]
C += [dict(pol=p, rows=1, Nmo=1, fam="gga") for p in (1, 2)]
C += [dict(pol=p, rows=r, Nmo=1, fam="ni") for p in (1, 2) for r in (1, 2)]
C += [dict(pol=p, rows=3, Nmo=1, fam="lda") for p in (1, 2)] + [dict(pol=2, rows=3, Nmo=1, fam="ni")]


@harness("C18", configs=C, thorough=[dict(pol=2, rows=2, Nmo=2, fam="lda")],
         ms=30000)
def decomposition(env):
    c = env.cfg
    pol, rows, Nmo, fam = c["pol"], c["rows"], c["Nmo"], c["fam"]
    ni = fam == "ni"
    g = abstract_grid(env, 2, 1, ["Z", "Y"])
    P = g.Nelem
    vh = fake_hartree(env, g)
    fake_libxc(env, g)
    opt = dict(interaction_type="ni") if ni else dict(xc_family=fam, xfunc_id=101, cfunc_id=130)
    Za, Zb = env.real("Za"), env.real("Zb")
    env.assume(">=", Za, 0)
    env.assume(">=", Zb, 0)
    ks = kohnsham(env, g, [[Nmo] * pol] * rows, [[Nmo * deg(i, pol)] * pol for i in range(rows)], pol, Za, Zb, opt)
    fill(env, ks)
    n, vn = env.array("n", (P, pol)), env.array("vnuc", (P, pol))
    vx, vhxc = env.array("vext", (P, pol)), env.array("vhxc", (P, pol))
    veff = env.array("veff", (P, pol))
    ks.n, ks.vnuc, ks.vext, ks.vhxc = n.copy(), vn.copy(), vx.copy(), vhxc.copy()
    ks.veff = veff.copy()
    Ts = 0
    eks, vks = [0] * pol, [0] * pol
    ev = []
    for i in range(rows):
        for j in range(pol):
            s = ks.solver[i, j]
            s.setveff(veff[:, j])
            dens = [0] * P
            for k in range(Nmo):
                nn = integral(env, g, [s.phi[q, k] ** 2 for q in range(P)])
                eks[j] = eks[j] + deg(i, pol) * s.eig[k]
                ev.append(s.eig[k])
                dens = [dens[q] + deg(i, pol) * s.phi[q, k] ** 2 / nn for q in range(P)]
            V = integral(env, g, [dens[q] * veff[q, j] for q in range(P)])
            env.assume("<=", V, 100000)
            env.assume(">=", V, -100000)
            vks[j] = vks[j] + V
    Ts = env.total(eks) - env.total(vks)
    ks.energy()
    E = ks.E
    env.eq("eigenvalue energy per spin", env.np.asarray(E.Eks).reshape(-1), env.arr(eks))
    env.eq("potential energy per spin", env.np.asarray(E.Vks).reshape(-1), env.arr(vks))
    env.eq("kinetic energy", E.Ts, Ts)
    env.eq("all eigenvalues, once each", env.total(x * x for x in E.evals), env.total(x * x for x in ev))
    env.eq("eigenvalue list", env.total(E.evals), env.total(ev))
    I = lambda a: integral(env, g, [env.total(n[q, s] * a[q, s] for s in range(pol)) for q in range(P)])   # noqa
    Enuc = I(vn)
    env.eq("nuclear attraction", E.Enuc, Enuc)
    env.eq("external energy", E.Vext, I(vx))
    Et = Ts + Enuc
    if not ni:
        L = env.mod("libxc.libxc").Libxc
        h = vh(n)
        nt = [env.total(n[q, s] for s in range(pol)) for q in range(P)]
        Eh = integral(env, g, [nt[q] * h[q] for q in range(P)]) / 2
        Ex, ex, pvx = L(g, fam, 101).get_xc(n, return_epsilon=True)
        Ec, ec, pvc = L(g, fam, 130).get_xc(n, return_epsilon=True)
        env.eq("Hartree energy", E.Eh, Eh)
        env.eq("exchange energy", E.Ex, Ex)
        env.eq("correlation energy", E.Ec, Ec)
        env.eq("hxc potential energy", E.Vhxc, I(vhxc))
        for s in range(pol):
            env.eq(f"stored Hartree potential {s}", ks.V.vh[:, s], h)
        env.eq("stored Hartree energy density", env.np.asarray(ks.V.eh).reshape(-1), h / 2)
        env.eq("stored exchange potential", ks.V.vx, pvx)
        env.eq("stored correlation potential", ks.V.vc, pvc)
        env.eq("stored exchange energy density", env.np.asarray(ks.V.ex).reshape(-1), env.np.asarray(ex).reshape(-1))
        env.eq("stored correlation energy density", env.np.asarray(ks.V.ec).reshape(-1), env.np.asarray(ec).reshape(-1))
        Et = Et + Eh + Ex + Ec
    env.eq("total electronic energy", E.Et, Et)
    Vnn = Za * Zb / (2 * g.a)
    env.eq("nuclear repulsion", E.Vnn, Vnn)
    env.eq("total energy", E.E, Et + Vnn)
    env.eq("density untouched", ks.n, n)


@harness("C18", configs=[dict(pol=1, rows=1), dict(pol=1, rows=2), dict(pol=2, rows=1)],
         thorough=[dict(pol=2, rows=2)], ms=30000)
def double_counting(env):
    """self-consistent point: density made of the orbitals, potential made of the density"""
    c = env.cfg
    pol, rows = c["pol"], c["rows"]
    g = abstract_grid(env, 2, 1, ["Z", "Y"])
    P = g.Nelem
    fake_hartree(env, g)
    fake_libxc(env, g)
    ks = kohnsham(env, g, [[1] * pol] * rows, [[deg(i, pol)] * pol for i in range(rows)], pol, 1, 1,
                  dict(xc_family="lda", xfunc_id=101, cfunc_id=130))
    fill(env, ks)
    ks.vnuc, ks.vext = env.array("vnuc", (P, pol)), env.array("vext", (P, pol))
    n = env.np.zeros((P, pol))
    for i in range(rows):
        for j in range(pol):
            s = ks.solver[i, j]
            nn = integral(env, g, [s.phi[q, 0] ** 2 for q in range(P)])
            for q in range(P):
                n[q, j] = n[q, j] + deg(i, pol) * s.phi[q, 0] ** 2 / nn
    ks.n = n
    ks.calc_hxc_potential()
    ks.set_effective_potential()
    for i in range(rows):
        for j in range(pol):
            s = ks.solver[i, j]
            nn = integral(env, g, [s.phi[q, 0] ** 2 for q in range(P)])
            V = integral(env, g, [deg(i, pol) * s.phi[q, 0] ** 2 / nn * ks.veff[q, j] for q in range(P)])
            env.assume("<=", V, 100000)
            env.assume(">=", V, -100000)
    ks.energy()
    E = ks.E
    env.eq("total = eigenvalues - external - hxc potential energy + hxc energy",
           E.Et, env.total(env.np.asarray(E.Eks).reshape(-1)) - E.Vext - E.Vhxc + E.Eh + E.Ex + E.Ec)
    env.eq("interaction potential energy", env.total(env.np.asarray(E.Vks).reshape(-1)), E.Enuc + E.Vext + E.Vhxc)
