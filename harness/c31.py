"""Exchanging the two nuclei: the real code is run on a state and on the state with the nuclei (charges, fragments, ensemble
fractions) exchanged and every field reflected along the bond; z3 decides that all results are the reflected ones.  Real
grids: weights, coordinates, operators, Hartree potential's source and boundary data, functional ingredients.
Kohn-Sham: operators given to the eigensolver, densities, potentials, every energy, whole self-consistency runs.  Partition:
fragment sums, weighing functions, partition energies and potentials."""
from fractions import Fraction as F
from engine.run import harness
from .grids import abstract_grid, real_grid, STENCIL, integral
from .solvers import deg
from .part import partition, fragments
from .ks import kohnsham, fake_hartree, fake_libxc, reflection, same

BOUNDS = ("real grids up to 7x6 points with half-widths 1-4 and symbolic bond length and box size; Kohn-Sham and partition objects on "
          "2-4 points with arbitrary reflection symmetric weights and operators, 1-2 spins, 1-2 angular momenta, LDA/GGA/"
          "non-interacting, up to 3 iterations, plain and ensemble fragments; densities, levels, potentials, charges symbolic")
ASSUMPTIONS = ["the functional library works point by point", "the eigensolver is a function of the operator, up to the order of "
               "the grid points"]


def refl(env, g, a):
    r = reflection(g)
    if len(a.shape) == 1:
        return env.arr([a[r[k]] for k in range(g.Nelem)])
    return env.arr([a[r[k], j] for k in range(g.Nelem) for j in range(a.shape[1])], a.shape)


G = [dict(NP=2, NM=[3, 2], p=1), dict(NP=3, NM=[1, 2], p=2), dict(NP=2, NM=[4, 3], p=2), dict(NP=2, NM=[3, 5], p=3),
     dict(NP=4, NM=[2, 1], p=4)]


@harness("C31", configs=G, thorough=[dict(NP=3, NM=[4, 2], p=3), dict(NP=2, NM=[8, 5], p=2)], ms=30000)
def grid(env):
    c = env.cfg
    g = real_grid(env, c["NP"], c["NM"], STENCIL[c["p"]])
    n, Na = g.Nelem, g.Na
    R = lambda x: refl(env, g, x)   # noqa
    for k in ("w", "f", "h1", "h2", "h3", "Y", "wi"):
        x = getattr(g, k).reshape(-1)
        env.eq(k, R(x), x)
    env.eq("Z", R(g.Z), -g.Z)
    u = env.array("u", n)
    for k, s in (("elap", 1), ("olap", 1), ("gradr", 1), ("divr", 1), ("grada", -1), ("diva", -1)):
        A = getattr(g, k)
        env.eq(k, A @ R(u), s * R(A @ u))
    p = g.bcN
    b = env.array("b", Na * p)
    rb = env.arr([b[Na - 1 - k % Na + Na * (k // Na)] for k in range(Na * p)])
    x, y = g.blap @ b, g.blap @ rb
    m = len(x)
    env.eq("exterior operator", y, env.arr([x[Na - 1 - k % Na + Na * (k // Na)] for k in range(m)]))
    Za, Zb = env.real("Za"), env.real("Zb")
    coul = env.mod("common.coulomb").coulomb
    env.eq("nuclear attraction", coul(g, Zb, Za), R(coul(g, Za, Zb)))
    env.eq("integral", g.integrate(R(u)), g.integrate(u))
    if c["p"] < 3:
        d = env.array("d", (n, 2))
        env.eq("squared gradients", g.sigma(R(d)), R(g.sigma(d)))


def symmetric_grid(env, Nr=1, ops=False):
    g = abstract_grid(env, 2, Nr, ["Z", "Y"])
    r = reflection(g)
    P = g.Nelem
    for k in ("w", "wi", "f"):
        x = getattr(g, k)
        setattr(g, k, env.arr([x[q] + x[r[q]] for q in range(P)]))
    Xa, Xr = g.Xa, g.Xr
    g.Xa = env.arr([Xa[q] if q % 2 == 0 else env.pi - Xa[q - 1] for q in range(P)])
    g.Xr = env.arr([Xr[q - q % 2] for q in range(P)])
    Z, Y = g.Z, g.Y
    g.Z = env.arr([Z[q] if q % 2 == 0 else -Z[q - 1] for q in range(P)])
    g.Y = env.arr([Y[q - q % 2] for q in range(P)])
    if ops:
        for k, s in (("elap", 1), ("olap", 1), ("gradr", 1), ("divr", 1), ("grada", -1), ("diva", -1)):
            A = env.array(k, (P, P))
            setattr(g, k, env.smat(env.arr([A[i, j] + s * A[r[i], r[j]] for i in range(P) for j in range(P)], (P, P))))
    return g


@harness("C31", configs=[dict(pol=p, rows=r) for p, r in ((1, 1), (2, 1), (1, 2), (1, 3))] + [dict(pol=1, rows=1, Nmo=2)] +
         [dict(pol=1, rows=2, ni=True)], ms=30000)
def kohn_sham_density(env):
    c = env.cfg
    pol, rows, k = c["pol"], c["rows"], c.get("Nmo", 1)
    calls = []
    r = [1, 0]

    def eigs(A, k=6, **kw):
        A = env._flat(A)
        at = kw.get("sigma")
        for A0, k0, e, p, at0 in calls:
            for B, back in ((A, [0, 1]), (A[r][:, r], r)):
                if k0 == k and same(A0, B):
                    if at is not None and at0 is not None:
                        env.eq("levels near the same energy", at, at0)
                    return e.copy(), p[back].copy()
        t = len(calls)
        e, p = env.array(f"e{t}", k), env.array(f"p{t}", (2, k), nonzero=True)
        calls.append((A.copy(), k, e, p, at))
        return e.copy(), p.copy()
    env.stub("scipy.sparse.linalg.eigs", eigs)
    g = symmetric_grid(env, 1, ops=True)
    Za, Zb = env.real("Za", lo=0), env.real("Zb", lo=0)
    vx, vh = env.array("vext", (2, pol)), env.array("vhxc", (2, pol))
    out = []
    for swap in (False, True):
        N = [[deg(i, pol) * k] * pol for i in range(rows)]
        ks = kohnsham(env, g, [[k] * pol] * rows, N, pol, *((Zb, Za) if swap else (Za, Zb)),
                      dict(interaction_type="ni") if c.get("ni") else None)
        ks.vext, ks.vhxc = [refl(env, g, a) if swap else a.copy() for a in (vx, vh)]
        ks.set_effective_potential()
        n = ks.calc_density()
        ks.calc_chempot()
        out.append((ks.veff, n, ks.u))
    a, b = out
    env.eq("potential", b[0], refl(env, g, a[0]))
    env.eq("density", b[1], refl(env, g, a[1]))
    env.eq("chemical potential", b[2], a[2])


@harness("C31", configs=[dict(pol=p, fam=f) for p in (1, 2) for f in ("lda", "gga", "ni")], ms=30000)
def energy(env):
    c = env.cfg
    pol, fam = c["pol"], c["fam"]
    ni = fam == "ni"
    g = symmetric_grid(env, 1 if fam == "gga" else 2, ops=fam == "gga")
    P = g.Nelem
    fake_hartree(env, g, reflect=True)
    fake_libxc(env, g, reflect=True)
    opt = dict(interaction_type="ni") if ni else dict(xc_family=fam, xfunc_id=101, cfunc_id=130)
    Za, Zb = env.real("Za", lo=0), env.real("Zb", lo=0)
    n, vx = env.array("n", (P, pol), pos=True), env.array("vext", (P, pol))
    out = []
    for swap in (False, True):
        ks = kohnsham(env, g, [[1] * pol], [[deg(0, pol)] * pol], pol, *((Zb, Za) if swap else (Za, Zb)), opt)
        ks.n, ks.vext = [refl(env, g, a) if swap else a.copy() for a in (n, vx)]
        ks.calc_hxc_potential()
        ks.set_effective_potential()
        phi = env.array("phi", (P, pol), nonzero=True)
        for j in range(pol):
            o = ks.solver[0, j]
            o.eig = env.array(f"eig{j}", 1)
            p = env.arr([phi[q, j] for q in range(P)], (P, 1))
            o.phi = refl(env, g, p) if swap else p
            o.calc_density()
            if j == 0:
                V = integral(env, g, [o.n[q, 0] * ks.veff[q, j] for q in range(P)])
                first = V if not swap else first
                if swap:
                    env.eq("potential energy of an orbital", V, first)

            def calc_energy(o=o, j=j):
                o.eks, o.Vs, o.Ts = (env.real(f"{t}{j}") for t in ("eks", "Vs", "Ts"))
            o.calc_energy = calc_energy
        ks.energy()
        out.append(ks)
    a, b = out
    for t in ("vnuc", "veff", "vhxc"):
        env.eq(t, getattr(b, t), refl(env, g, getattr(a, t)))
    for t in ("Ts", "Enuc", "Vext", "Et", "E", "Vnn") + (() if ni else ("Vhxc", "Eh", "Ex", "Ec")):
        env.eq(t, getattr(b.E, t), getattr(a.E, t))


@harness("C31", configs=[dict(pol=1, it=3), dict(pol=2, it=2), dict(pol=1, it=3, cont=True), dict(pol=2, it=2, cont=True)], ms=30000)
def loop(env):
    c = env.cfg
    pol, it = c["pol"], c["it"]
    g = symmetric_grid(env)
    P = g.Nelem
    fake_hartree(env, g, reflect=True)
    fake_libxc(env, g, reflect=True)
    alpha, tol = env.real("alpha", lo=0, hi=1), env.real("tol", pos=True)
    Za, Zb = env.real("Za", lo=0), env.real("Zb", lo=0)
    res = []
    for swap in (False, True):
        ks = kohnsham(env, g, [[1] * pol], [[1] * pol], pol, *((Zb, Za) if swap else (Za, Zb)),
                      dict(xc_family="lda", xfunc_id=101, cfunc_id=130))
        for j in range(pol):
            ks.solver[0, j].eig = env.array("eig", 1)
        log, es = [], []

        def calc_density(*a, log=log, swap=swap, ks=ks, **k):
            log.append(env.arr([ks.solver[0, j].veff[q] for q in range(P) for j in range(pol)], (P, pol)))
            n = env.array(f"out{len(log)}", (P, pol), pos=True)
            return refl(env, g, n) if swap else n

        def energy(ks=ks, es=es):
            es.append(ks.n.copy())
            ks.E.E = env.real(f"E{len(es)}", nonzero=True)
        ks.calc_density, ks.energy = calc_density, energy
        if c.get("cont"):
            n = env.array("start", (P, pol), pos=True)
            ks.n = refl(env, g, n) if swap else n
        ks.scf(dict(maxiter=it, alpha=alpha, e_tol=tol, disp=False, continuing=c.get("cont", False)))
        res.append((log, es, ks))
    (l1, e1, a), (l2, e2, b) = res
    env.true("as many iterations", len(l1) == len(l2) and len(e1) == len(e2), f"{len(l1)} {len(l2)}")
    for t, (x, y) in enumerate(zip(l1, l2)):
        env.eq(f"potential {t}", y, refl(env, g, x))
    for t, (x, y) in enumerate(zip(e1, e2)):
        env.eq(f"density {t}", y, refl(env, g, x))
    env.eq("final density", b.n, refl(env, g, a.n))


OTHER = dict(KSa="KSb", KSb="KSa", KSA="KSB", KSB="KSA")
PC = [dict(pol=p, ens=e, kin=k) for p in (1, 2) for e, k in ((None, "none"), (None, "libxcke"), ("both", "none"))]
PC += [dict(pol=1, ens="both", kin="libxcke"), dict(pol=1, ens="left", kin="none"), dict(pol=1, ens="right", kin="none"),
       dict(pol=1, ens=None, kin="vonweiz"), dict(pol=1, ens="both", kin="vonweiz"),
       dict(pol=2, ens=None, kin="none", ss=True), dict(pol=2, ens="both", kin="none", ss=True),
       dict(pol=2, ens=None, kin="libxcke", ss=True), dict(pol=1, ens="left", kin="libxcke"), dict(pol=2, ens="right", kin="none")]
PC += [dict(pol=1, ens=None, kin="none", hxc=h) for h in ("hartree", "overlap_hxc")]


@harness("C31", configs=PC, thorough=[dict(pol=2, ens="both", kin="libxcke"), dict(pol=2, ens="both", kin="vonweiz"),
                                      dict(pol=1, ens="both", kin="none", hxc="overlap_hxc")], ms=30000)
def partitions(env):
    c = env.cfg
    pol, kin, ss = c["pol"], c["kin"], c.get("ss", False)
    g = symmetric_grid(env, ops=kin == "vonweiz")
    P = g.Nelem
    fake_hartree(env, g, reflect=True)
    fake_libxc(env, g, reflect=True)
    nu = None
    if c["ens"]:
        x, y = env.real("nu_a", pos=True, hi=F(999, 1000)), env.real("nu_b", pos=True, hi=F(999, 1000))
        nu = dict(both=(x, y), left=(x, 1), right=(1, y))[c["ens"]]
    o = dict(kinetic_part_type=kin, k_family="lda", ke_func_id=50, interaction_type="dft", xc_family="lda", xfunc_id=101,
             cfunc_id=130, ens_spin_sym=ss, hxc_part_type=c.get("hxc", "exact"))
    Za, Zb = env.real("Za", pos=True), env.real("Zb", pos=True)
    out = []
    for swap in (False, True):
        p = partition(env, g, pol, (nu[1], nu[0]) if nu and swap else nu, o, Za=Zb if swap else Za, Zb=Za if swap else Zb)
        for k, ks in fragments(p):
            s = OTHER[k] if swap else k
            n, vx = env.array("n" + s, (P, pol), pos=True), env.array("vext" + s, (P, pol))
            ks.n, ks.vext = [refl(env, g, a) if swap else a.copy() for a in (n, vx)]
            ks.calc_hxc_potential()
            ks.set_effective_potential()
            for j in range(pol):
                w = ks.solver[0, j]
                w.eig = env.array(f"eig{s}{j}", 1)

                def calc_energy(w=w, t=f"{s}{j}"):
                    w.eks, w.Vs, w.Ts = (env.real(x + t) for x in ("eks", "Vs", "Ts"))
                w.calc_energy = calc_energy
            ks.energy()
        p.calc_protomolecule()
        p.calc_Q()
        p.partition_potential()
        p.energy()
        out.append(p)
    a, b = out
    R = lambda x: refl(env, g, x)   # noqa
    env.eq("summed density", b.nf, R(a.nf))
    env.eq("density of fragment A", b.na_frac, R(a.nb_frac))
    env.eq("density of fragment B", b.nb_frac, R(a.na_frac))
    for k, ks in fragments(a):
        o = getattr(b, OTHER[k])
        env.eq(f"weight of {k}", o.scale, ks.scale)
        env.eq(f"weighing function of {k}", o.Q, R(ks.Q))
        env.eq(f"embedding potential of {k}", o.V.vp, R(ks.V.vp))
    env.eq("partition potential", b.V.vp, R(a.V.vp))
    swapped = dict(Ea="Eb", Eb="Ea")
    for t in sorted(set(vars(a.E)) & set(vars(b.E))):
        if t.startswith("evals"):
            continue
        x, y = getattr(a.E, swapped.get(t, t)), getattr(b.E, t)
        if x is not None:
            env.eq("energy " + t, env.np.asarray(y), env.np.asarray(x))
    env.eq("levels", env.total(x * x for x in b.E.evals_b), env.total(x * x for x in a.E.evals_a))
