"""Self-consistency loop: the real loop is executed on a real Kohn-Sham object; each diagonalisation returns an
arbitrary density and each energy evaluation an arbitrary energy.  z3 decides over every branch of the convergence
test that each diagonalisation sees the potential of the current density, that the density is mixed linearly with the
requested fraction, that the loop ends only when energy and density changes are both within tolerance or the
iteration limit is reached, and that energy and chemical potential belong to the density it leaves behind."""
from engine.run import harness
from .grids import abstract_grid, integral, measure
from .ks import kohnsham, fake_hartree, fake_libxc, fill

BOUNDS = ("2 grid points, 1-2 spins, up to 3 iterations; densities, energies, potentials, tolerance and mixing fraction "
          "symbolic; every outcome of each convergence test")
ASSUMPTIONS = ["densities are positive, or zero for a spin without electrons", "no energy is exactly zero"]
C = [dict(pol=1, it=3), dict(pol=2, it=4, cont=True), dict(pol=1, it=4, cont=True), dict(pol=2, it=3), dict(pol=1, it=3, ni=True),
     dict(pol=2, it=3, flip=True), dict(pol=1, it=3, upper=True), dict(pol=1, it=3, vext=True, iterative=False),
     dict(pol=1, it=4, auto=1), dict(pol=1, it=2), dict(pol=2, it=4, cont=True, empty=1), dict(pol=2, it=4, cont=True, ni=True, empty=0),
     dict(pol=2, it=3, flip=True, vext=True, cont=True), dict(pol=2, it=4, auto=1, cont=True), dict(pol=2, it=3, ni=True, flip=True),
     dict(pol=2, it=3, upper=True, vext=True), dict(pol=2, it=3, ni=True, vext=True, iterative=False)]


@harness("C19", configs=C, thorough=[dict(pol=1, it=5), dict(pol=2, it=4), dict(pol=1, it=5, auto=2)])
def loop(env):
    c = env.cfg
    pol, it = c["pol"], c["it"]
    g = abstract_grid(env, 2, 1, ["Z", "Y"])
    P = g.Nelem
    vh = fake_hartree(env, g)
    fake_libxc(env, g)
    opt = dict(interaction_type="ni") if c.get("ni") else dict(xc_family="lda", xfunc_id=101, cfunc_id=130)
    ks = kohnsham(env, g, [[1] * pol] * 2, [[1] * pol] * 2, pol, 1, 1, opt)
    fill(env, ks)
    vn = env.array("vnuc", (P, pol))
    ks.vnuc = vn.copy()
    vx = env.np.zeros((P, pol))
    if c.get("vext"):
        vx = env.array("vext", (P, pol))
        ks.vext = vx.copy()
    alpha = env.real("alpha", lo=0, hi=1)
    tol = env.real("tol", pos=True)
    dens, pots, energies, uses = [], [], [], []

    def calc_density(*a, **k):
        pots.append([[ks.solver[i, j].veff.copy().reshape(-1) for j in range(pol)] for i in range(2)])
        n = env.array(f"out{len(dens)}", (P, pol), pos=True)
        if "empty" in c:            # no electrons of this spin
            n[:, c["empty"]] = 0
        dens.append(n)
        return n.copy()

    def energy(*a, **k):
        ks.E.E = env.real(f"E{len(energies)}", nonzero=True)
        energies.append(ks.E.E)
        uses.append(ks.n.copy())
    ks.calc_density, ks.energy = calc_density, energy
    o = dict(maxiter=it, alpha=alpha, e_tol=tol, disp=False, iterative=c.get("iterative", True),
             spinflipsym=c.get("flip", False), continuing=c.get("cont", False))
    if c.get("auto"):
        o.update(auto_tol=True, auto_tol_iter=c["auto"])
    if c.get("upper"):
        o = {k.upper() if i % 2 else k.capitalize(): v for i, (k, v) in enumerate(o.items())}
    if c.get("cont"):
        ks.n = env.array("start", (P, pol), pos=True)
        if "empty" in c:
            ks.n[:, c["empty"]] = 0
        n = ks.n.copy()
    ks.scf(o)
    k0 = 0
    if not c.get("cont"):
        env.true("an initial density was computed", len(dens) >= 1)
        for i in range(2):
            for j in range(pol):
                env.eq(f"initial potential {i}{j}", pots[0][i][j], vn[:, j] + vx[:, j])
        n = dens[0]
        k0 = 1
    L = env.mod("libxc.libxc").Libxc
    T = len(dens) - k0
    env.true("at most the requested iterations", T <= it, str(T))
    env.true("one energy per iteration", len(energies) == T, f"{len(energies)} {T}")
    old, oldE = env.np.zeros((P, pol)), 0
    flip = lambda x: env.arr([x[P - 1 - q, pol - 1 - s] for q in range(P) for s in range(pol)], (P, pol))  # noqa
    hist = []
    for t in range(T):
        v = env.np.zeros((P, pol))
        if not c.get("ni"):
            h = vh(n)
            v = L(g, "lda", 101).get_xc(n)[1] + L(g, "lda", 130).get_xc(n)[1]
            for s in range(pol):
                v[:, s] = v[:, s] + h
        v = vn + vx + v
        if c.get("flip"):
            v = (v + flip(v)) / 2
        for i in range(2):
            for j in range(pol):
                env.eq(f"iteration {t}: potential of solver {i}{j}", pots[k0 + t][i][j], v[:, j])
        old = n if t else old
        new = (1 - alpha) * n + alpha * dens[k0 + t]
        if c.get("flip"):
            new = (new + flip(new)) / 2
        env.eq(f"iteration {t}: energy of the mixed density", uses[t], new)
        hist.append((new, old if t else env.np.zeros((P, pol)), energies[t], oldE))
        n, oldE = new, energies[t]
    env.eq("density left behind", ks.n, n)
    if T:
        env.eq("energy left behind", ks.E.E, energies[-1])
        env.ge("chemical potential computed", ks.u, ks.solver[0, 0].eig[0])
    if c.get("auto"):
        return

    def converged(k, strict):
        new, prev, e, pe = hist[k]
        ok = abs(e - pe) <= tol * abs(e)
        d, m = measure(env, g, new - prev), measure(env, g, new)
        for s in range(pol):
            ok = ok and d[s] <= tol * m[s]
        return bool(ok)
    for t in range(T - 1):
        env.true(f"went on after iteration {t} because it had not converged", not converged(t, False))
    if T and T < it - 1:
        env.true("stopped because it had converged", converged(T - 1, True))


@harness("C19", configs=[dict(key="mixing"), dict(key="Tol")])
def unknown_option(env):
    g = abstract_grid(env, 2, 1, ["Z", "Y"])
    fake_hartree(env, g)
    ks = kohnsham(env, g, [[1]], [[1]], 1, 1, 1)
    env.raises("an unknown option is refused", ValueError, lambda: ks.scf({env.cfg["key"]: 1}))
