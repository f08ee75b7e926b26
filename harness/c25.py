"""Self-consistency loop of the fragments: the real loop is executed on a real Partition; each diagonalisation returns
an arbitrary density, each partition potential and each energy is arbitrary.  z3 decides over every branch of the
convergence test that every component is solved in its own nuclear and interaction potential plus the requested embedding
potential (global, its own, none when isolated, unchanged when frozen), that densities are mixed linearly with each
fragment's own fraction, that the summed density and weighing functions left behind belong to the component densities
left behind, that reflected fragments stay exact mirror images, and that the loop ends only when energy and density
changes are within tolerance, the iteration limit is reached, or the density inversions of two iterations in a row
failed."""
from fractions import Fraction
from engine.run import harness
from .grids import abstract_grid, integral, measure
from .part import fragments, scale, flip, mirror
from .c20 import build
from .ks import fake_hartree, fake_libxc

BOUNDS = ("2 grid points, 1-2 spins, up to 3 iterations; plain and ensemble components, reflection symmetry, global and "
          "fragment embedding potentials, frozen fragments; densities, potentials, energies, tolerance and mixing "
          "fractions symbolic; every outcome of each convergence test")
ASSUMPTIONS = ["densities are positive, or zero for a spin without electrons", "no energy is exactly zero"]
C = [dict(pol=1, it=2), dict(pol=1, it=3, fix=True, al="1/4"), dict(pol=2, it=1), dict(pol=1, it=2, ens="both"), dict(pol=2, it=1, ss=True, ens="both"),
     dict(pol=1, it=2, ab=True), dict(pol=2, it=2, ab=True, ss=True), dict(pol=1, it=2, ab=True, ens="same"),
     dict(pol=1, it=2, iso=True), dict(pol=1, it=2, typ="sdft"), dict(pol=2, it=1, typ="sdft", ens="both"),
     dict(pol=1, it=2, fa=True), dict(pol=1, it=2, fb=True, ens="both"), dict(pol=1, it=2, cont=True), dict(pol=1, it=2, dft=True),
     dict(pol=1, it=2, target=True), dict(pol=1, it=1, two=True), dict(pol=1, it=3, auto=1, fix=True, al="1/4"),
     dict(pol=1, it=2, upper=True), dict(pol=2, it=3, fix=True, al="1/2", iso=True, settled=0),
     dict(pol=2, it=3, fix=True, al="1/2", iso=True, settled=1), dict(pol=2, it=2, empty=1), dict(pol=2, it=3, fix=True, al="1/2", empty=0),
     dict(pol=1, it=1, two=True, ens="both"), dict(pol=1, it=2, fa=True, ens="both"), dict(pol=1, it=2, cont=True, ens="both"),
     dict(pol=1, it=2, typ="sdft", ab=True, ens="same"), dict(pol=1, it=1, dft=True, ab=True, ens="same"),
     dict(pol=1, it=2, fa=True, ab=True), dict(pol=1, it=2, fa=True, fb=True, ens="both", typ="sdft"), dict(pol=2, it=1, target=True, ens="both", ss=True)]


@harness("C25", configs=C, thorough=[dict(pol=2, it=2, al="3/4"), dict(pol=1, it=4, fix=True, al="1/4"), dict(pol=2, it=3, fix=True, al="1/2"), dict(pol=1, it=3, al="1/3"), dict(pol=2, it=2), dict(pol=1, it=2, two=True),
                                     dict(pol=2, it=3, ab=True, ens="same", fix=True), dict(pol=1, it=4, fix=True, typ="sdft"),
                                     dict(pol=1, it=4, auto=2, fix=True), dict(pol=2, it=2, dft=True, ens="both")])
def loop(env):
    c = env.cfg
    pol, it, ss, ab = c["pol"], c["it"], c.get("ss", False), c.get("ab", False)
    dft, iso, typ = c.get("dft", False), c.get("iso", False), c.get("typ", "pdft")
    opt = dict(kinetic_part_type="none", isolated=iso)
    if dft:
        opt.update(interaction_type="dft", xc_family="lda", xfunc_id=101, cfunc_id=130)
    g, p, nu = build(env, c, opt=opt)
    P = g.Nelem
    vh = fake_hartree(env, g) if dft else None
    fake_libxc(env, g)
    tol = env.real("tol", pos=True, hi=1)
    one = env.num(Fraction(c["al"])) if c.get("al") else env.real("alpha", lo=0, hi=1)
    two = env.real("alpha2", lo=0, hi=1) if c.get("two") else one
    al = dict(a=one, A=one, b=two, B=two)
    solved = fragments(p, "a" if ab else None)
    log, vps, energies = {k: [] for k, _ in solved}, [], []
    vn = {}
    for k, ks in fragments(p):
        vn[k] = env.array("vnuc" + k, (P, pol))
        ks.vnuc = vn[k].copy()
        for i in range(ks.solver.shape[0]):
            for j in range(pol):
                ks.solver[i, j].homo = env.real(f"homo{k}{i}{j}")
    if ab:
        for k, o in (("KSa", "KSb"), ("KSA", "KSB")):
            if hasattr(p, o):
                vn[o] = mirror(env, g, vn[k])
                getattr(p, o).vnuc = vn[o].copy()

    def attach(k, ks):
        def calc_density(*a, **kw):
            t = len(log[k])
            # with "fix", later iterations return the first answer so only energies decide
            n = env.array(f"out{k}{min(t, 1) if c.get('fix') else t}", (P, pol), pos=True)
            if "settled" in c:      # this spin has the same density from the start, only the other one moves
                s = c["settled"]
                n = env.arr([env.array("kept" + k, P, pos=True)[q] if j == s else n[q, j] for q in range(P) for j in range(pol)], (P, pol))
            if "empty" in c:        # no electrons of this spin
                n[:, c["empty"]] = 0
            log[k].append(([ks.solver[0, j].veff.copy().reshape(-1) for j in range(pol)], n,
                           None if ks.vext is None else ks.vext.copy()))
            return n.copy()

        def energy(*a, **kw):
            ks.E.E = env.real(f"E{k}{len(log[k])}")

        def calc_chempot(*a, **kw):
            ks.u = env.real(f"u{k}{len(log[k])}")
        ks.calc_density, ks.energy, ks.calc_chempot = calc_density, energy, calc_chempot
    for k, ks in solved:
        attach(k, ks)

    def partition_potential(*a, **kw):
        t = len(vps)
        v = env.array(f"vp{t}", (P, pol))
        own = {}
        for k, ks in fragments(p):
            own[k] = env.array(f"vp{k}{t}", (P, pol))
            ks.V.vp = own[k].copy()
        p.V.vp = v.copy()
        vps.append((v, own, {k: ks.n.copy() for k, ks in fragments(p)}))
        return p.V.vp

    def energy(*a, **kw):
        p.E.E = env.real(f"Etot{len(energies)}", nonzero=True)
        p.E.Ea = p.E.Eb = 0
        energies.append((p.E.E, p.nf.copy(), {k: ks.n.copy() for k, ks in fragments(p)}))
    p.partition_potential, p.energy = partition_potential, energy
    o = dict(max_iter=it, alpha=[one, two] if c.get("two") else [one], e_tol=tol, calc_type=typ, disp=False,
             freeze_a=c.get("fa", False), freeze_b=c.get("fb", False))
    cur, first = {}, 1
    if c.get("cont"):
        first = 0
        o["continuing"] = True
        for k, ks in fragments(p):
            ks.n = env.array("start" + k, (P, pol), pos=True)
            cur[k] = ks.n.copy()
            ks.vext = env.np.zeros((P, pol))
            ks.vhxc = env.np.zeros((P, pol))
    if c.get("target"):
        o["from_target_density"] = True
        p.nf = env.array("target", (P, pol), pos=True)
        target = p.nf.copy()
    if c.get("auto"):
        o.update(auto_tol=True, auto_tol_iter=c["auto"])
    if c.get("upper"):
        o = {k.upper(): v for k, v in o.items()}
    p.scf(o)

    T = len(energies)
    env.true("ran", 1 <= T <= it, str(T))
    env.true("one partition potential per iteration", len(vps) == (0 if iso else T), str(len(vps)))
    zero = env.np.zeros((P, pol))
    frozen = lambda k: c.get("fa") if k in ("KSa", "KSA") else c.get("fb")   # noqa
    names = [k for k, _ in fragments(p)]
    L = env.mod("libxc.libxc").Libxc

    def reflect():
        if ab:
            for a, b in (("KSa", "KSb"), ("KSA", "KSB")):
                if a in cur:
                    cur[b] = mirror(env, g, cur[a])

    def total():
        if c.get("target"):
            return target
        s = zero
        for k in names:
            s = s + cur[k] * scale(k, nu, ss)
        return s + flip(env, s) if ss else s
    for k, _ in solved:
        env.true(f"one solution per iteration {k}", len(log[k]) == T + first, str(len(log[k])))
        if first:
            for j in range(pol):
                env.eq(f"start from the bare nuclei {k} {j}", log[k][0][0][j], vn[k][:, j])
            cur[k] = log[k][0][1]
    reflect()
    hist = [total()]
    for t in range(T):
        if not iso:
            for k in names:
                env.eq(f"iteration {t}: potential of the current densities {k}", vps[t][2][k], cur[k])
        for k, ks in solved:
            if iso or frozen(k):
                ext = zero
            else:
                ext = vps[t][1][k] if typ == "sdft" else vps[t][0]
            v = vn[k] + ext
            if dft:
                h = vh(cur[k])
                v = v + L(g, "lda", 101).get_xc(cur[k])[1] + L(g, "lda", 130).get_xc(cur[k])[1]
                v = v + env.arr([h[q] for q in range(P) for _ in range(pol)], (P, pol))
            for j in range(pol):
                env.eq(f"iteration {t}: potential of {k} {j}", log[k][t + first][0][j], v[:, j])
        for k, ks in solved:
            a = al[k[-1]]
            cur[k] = (1 - a) * cur[k] + a * log[k][t + first][1]
        reflect()
        for k in names:
            env.eq(f"iteration {t}: energy of the mixed density {k}", energies[t][2][k], cur[k])
        env.eq(f"iteration {t}: energy of the summed density", energies[t][1], total())
        hist.append(total())
    for k, ks in fragments(p):
        env.eq(f"density left behind {k}", ks.n, cur[k])
        env.eq(f"weighing function left behind {k}", ks.Q * p.nf, scale(k, nu, ss) * ks.n)
    for k, ks in solved:
        env.eq(f"chemical potential of the last solution {k}", ks.u, env.real(f"u{k}{T + first}"))
        env.eq(f"energy of the last density {k}", ks.E.E, env.real(f"E{k}{T + first}"))
    env.eq("total density left behind", p.nf, hist[-1])
    env.eq("energy left behind", p.E.E, energies[-1][0])
    if c.get("auto"):
        return

    def converged(t):
        e, pe = energies[t][0], (energies[t - 1][0] if t else 0)
        if not abs(e - pe) <= tol * abs(e):
            return False
        new, old = hist[t + 1], hist[t]
        d, m = measure(env, g, new - old), measure(env, g, new)
        for s in range(pol):
            if not d[s] <= tol * m[s]:
                return False
        return True
    for t in range(T - 1):
        env.true(f"went on after iteration {t} because it had not converged", not converged(t))
    if T < it:
        env.true("stopped because it had converged", converged(T - 1))


@harness("C25", configs=[dict(key="mixing"), dict(key="tol")])
def unknown_option(env):
    g, p, nu = build(env, dict(pol=1))
    env.raises("an unknown option is refused", ValueError, lambda: p.scf({env.cfg["key"]: 1}))
    env.raises("an unknown calculation type is refused", ValueError, lambda: p.scf({"calc_type": "abc"}))
    env.raises("three mixing fractions are refused", ValueError, lambda: p.scf({"alpha": [0.1, 0.2, 0.3]}))


def failing(env):
    """how well every density inversion of a run succeeded is arbitrary; nothing else ever converges"""
    c = env.cfg
    pol, it, rows, ss = c["pol"], c["it"], c.get("rows", 1), c.get("ss", False)
    g, p, nu = build(env, c, opt=dict(kinetic_part_type="inversion"))
    P = g.Nelem

    def attach(k, ks):
        def calc_density(*a, **kw):
            for s in ks.solver.flat:
                s.homo = env.num(-1)
            return env.array("out" + k, (P, pol), pos=True)

        def energy(*a, **kw):
            ks.E.E = env.num(1)

        def calc_chempot(*a, **kw):
            ks.u = env.num(-1)
        ks.calc_density, ks.energy, ks.calc_chempot = calc_density, energy, calc_chempot
    for k, ks in fragments(p):
        ks.vnuc = env.array("vnuc" + k, (P, pol))
        attach(k, ks)
    asked, count = [], []

    pss = env.mod("pssolver.pssolver").Pssolver
    S = pss(g, [[1] * pol for _ in range(rows)], [[1] * pol for _ in range(rows)])
    inv = env.mod("inverter.inverter").Inverter(g, S, dict(invert_type="orbitalinvert", ens_spin_sym=ss, disp=False))

    def invert(n0, vs0, phi0=(), e0=(), ispin=0, Qi=()):
        asked[-1].append(ispin)
        out = env.np.empty((rows, 1), dtype=object)
        o = env.real(f"optimality{len(count)}s{ispin}", nonneg=True)
        for r in range(rows):
            info = type("Info", (), {})()
            info.optimality, info.nfev = o, 3
            out[r, 0] = info
        return True, out
    inv.invert, inv.get_vt = invert, lambda: env.np.zeros((P, pol))
    inv.vs, inv.us = env.np.zeros((P, pol)), env.np.zeros((1, pol))
    p.inverter = inv
    p.initialguessinvert = lambda ispin=0: (env.np.zeros((P, 1)), env.np.zeros(1), env.np.zeros((P, 1)))

    def partition_potential(*a, **kw):
        asked.append([])
        p.vp_kinetic()
        count.append(1)
        p.V.vp = env.np.zeros((P, pol))
        return p.V.vp

    def energy(*a, **kw):
        p.E.E = env.num(2) ** len(count)
        p.E.Ea = p.E.Eb = env.num(1)
    p.partition_potential, p.energy = partition_potential, energy
    stopped = False
    try:
        p.scf(dict(max_iter=it, alpha=[env.num(1)], e_tol=env.num(Fraction(1, 1000)), disp=False))
    except SystemExit:
        stopped = True
    T = len(count)
    spins = [0] if ss else list(range(pol))
    for t in range(T):
        env.true(f"every spin inverted in iteration {t}", asked[t] == spins, str(asked[t]))

    def failed(t):
        for s in spins:
            if env.real(f"optimality{t}s{s}", nonneg=True) > 1:
                return True
        return False
    f = [failed(t) for t in range(T)]
    pairs = [t for t in range(1, T) if f[t] and f[t - 1]]
    if stopped:
        env.true("stopped because two inversions in a row failed", pairs == [T - 1], str(f))
    else:
        env.true("not stopped although two inversions in a row failed", T == it and not pairs, str((T, f)))


failing = harness("C25", configs=[dict(pol=1, it=3), dict(pol=2, it=3), dict(pol=2, it=3, ss=True), dict(pol=1, it=3, rows=2),
                                  dict(pol=1, it=3, ens="both"), dict(pol=2, it=2, rows=2), dict(pol=2, it=2, rows=2, ss=True)],
                  thorough=[dict(pol=2, it=4), dict(pol=1, it=5, rows=2)])(failing)
