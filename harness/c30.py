"""Spin-restricted against spin-polarised treatment of a closed shell: the real code is run twice on the same arbitrary
state, once with one spin column (two electrons per level) and once with two equal spin columns, and z3 decides that
both runs agree: orbital densities, level and kinetic energies, highest levels, responses and kinetic-energy densities of a
solver for every electron number; density of a Kohn-Sham step whose eigensolver is any function of the operator;
Hartree-exchange-correlation potential and every energy component; the whole self-consistency loop, iteration by
iteration; fragment sums, weighing functions, partition energies and partition potential."""
from fractions import Fraction as F
from engine.run import harness
from .grids import abstract_grid, integral
from .solvers import one_solver, deg
from .part import fragments
from .c20 import build
from .ks import kohnsham, fake_hartree, same

BOUNDS = ("2 grid points, 1-2 angular momenta, 1-2 levels per solver, any electron number (symbolic) with and without fractional "
          "filling; LDA, GGA and non-interacting; up to 3 self-consistency iterations; plain and ensemble fragments; "
          "densities, orbitals, levels, potentials and library values symbolic")
ASSUMPTIONS = ["for equal spin densities the functional library's polarised values reduce to its unpolarised ones (zk and "
               "vrho equal, 2 vsigma_aa + vsigma_ab = 4 vsigma)", "Hartree potential depends on the total density only (C09)",
               "the eigensolver is a function of the operator (C11)"]


def closed_shell_libxc(env, g):
    """unpolarised values per functional and density; a polarised call with two equal columns gets the matching values"""
    seen = []

    def libxc(fid, p, inp):
        n = env.np.asarray(inp["rho"])
        closed = p == 2 and same(n[:, 0], n[:, 1])
        t = n[:, 0] + n[:, 1] if closed else n if p == 2 else n[:, 0]
        for f0, k0, t0, s0, v in seen:
            if f0 == fid and k0 == (p == 1 or closed) and same(t0, t):
                break
        else:
            k = len(seen)
            v = dict(zk=env.array(f"zk{fid}.{k}", (g.Nelem, 1)), vrho=env.array(f"vrho{fid}.{k}", (g.Nelem, 1)),
                     vsigma=env.array(f"vsigma{fid}.{k}", (g.Nelem, 1)), vaa=env.array(f"vaa{fid}.{k}", (g.Nelem, 1)))
            if p == 2 and not closed:
                v["vrho2"], v["vsigma2"] = env.array(f"vr2{fid}.{k}", (g.Nelem, 2)), env.array(f"vs2{fid}.{k}", (g.Nelem, 3))
            seen.append((fid, p == 1 or closed, t.copy(), None, v))
        out = dict(zk=v["zk"].copy(), vrho=v["vrho"].copy())
        if "sigma" in inp:
            s = env.np.asarray(inp["sigma"])
            out["vsigma"] = v["vsigma"].copy()
            if p == 1:
                v["sigma"] = s.reshape(-1).copy()
            elif closed and "sigma" in v:
                for q in range(3):
                    env.eq("squared gradients of the spin channels", 4 * s[:, q], v["sigma"])
        if p == 2:
            if not closed:
                out.update(vrho=v["vrho2"].copy(), vsigma=v["vsigma2"].copy())
            else:
                two = lambda *c: env.arr([x for row in zip(*[list(a.reshape(-1)) for a in c]) for x in row],  # noqa
                                         (g.Nelem, len(c)))
                out["vrho"] = two(v["vrho"], v["vrho"])
                ab = 4 * v["vsigma"] - 2 * v["vaa"]
                out["vsigma"] = two(v["vaa"], ab, v["vaa"])
        if "sigma" not in inp:
            out.pop("vsigma", None)
        return out
    env.libxc = libxc


def cols(env, a):
    """the same column for both spins"""
    a = a.reshape(-1)
    return env.arr([x for v in a for x in (v, v)], (a.shape[0], 2))


def half(env, a):
    return cols(env, a) / 2


SOLV = [dict(m=m, Nmo=k, frac=f) for m in (0, 1) for k in (1, 2) for f in (False, True)] + [dict(m=2, Nmo=1, frac=True)]


@harness("C30", configs=SOLV, thorough=[dict(m=m, Nmo=3, frac=True) for m in (0, 1)], ms=30000)
def solver(env):
    c = env.cfg
    m, k = c["m"], c["Nmo"]
    g = abstract_grid(env, 2, 1, ["Z", "Y"])
    P = g.Nelem
    N = env.real("N", lo=0, hi=deg(m, 1) * k)
    o = dict(fractional=c["frac"])
    phi, eig, v = env.array("phi", (P, k), nonzero=True), env.array("eig", k), env.array("v", P)
    # the energy routine deliberately zeroes a potential energy beyond 1e5
    for i in range(k):
        nn = integral(env, g, [phi[q, i] ** 2 for q in range(P)])
        for q in range(P):
            env.assume("<=", v[q], 1000)
            env.assume(">=", v[q], -1000)
    out = []
    for pol in (1, 2):
        s = one_solver(env, g, k, N / pol, m, pol, o)
        s.phi, s.eig, s.veff = phi.copy(), eig.copy(), v.copy()
        s.hamiltonian()
        s.calc_density()
        n = s.n.reshape(-1).copy()
        s.calc_ked_WFI()
        s.get_homo()
        out.append((n, s.ked_WFI.reshape(-1), s.homo, s))
    (n1, t1, h1, s1), (n2, t2, h2, s2) = out
    env.eq("each spin has half the density", 2 * n2, n1)
    env.eq("each spin has half the kinetic-energy density", 2 * t2, t1)
    env.eq("same highest level", h2, h1)
    for s in (s1, s2):
        # energy: the density is known by now; only level sums and potential energies remain
        s.calc_density = lambda: None
    a = env.array("dens", P)
    s1.n, s2.n = a.reshape(P, 1) * 2, a.reshape(P, 1).copy()
    V = integral(env, g, [a[q] * v[q] for q in range(P)])
    env.assume("<=", V, 10000)
    env.assume(">=", V, -10000)
    s1.calc_energy()
    s2.calc_energy()
    env.eq("each spin has half the level energy", 2 * s2.eks, s1.eks)
    env.eq("each spin has half the potential energy", 2 * s2.Vs, s1.Vs)
    env.eq("each spin has half the kinetic energy", 2 * s2.Ts, s1.Ts)


@harness("C30", configs=[dict(m=0, Nmo=1, frac=True), dict(m=1, Nmo=1, frac=True), dict(m=0, Nmo=2, frac=False)],
         ms=30000)
def response(env):
    c = env.cfg
    m, k = c["m"], c["Nmo"]
    P = 2
    calls = []

    def spsolve(A, B):
        give = env.smat if hasattr(B, "toarray") else (lambda x: x.copy())      # dense for dense, as scipy does
        A, B = env._flat(A), env._flat(B)
        for A0, B0, x in calls:
            if same(A0, A) and same(B0, B):
                return give(x)
        x = env.array(f"x{len(calls)}", B.shape)
        calls.append((A.copy(), B.copy(), x))
        return give(x)
    env.stub("scipy.sparse.linalg.spsolve", spsolve)
    g = abstract_grid(env, P, 1, ["Z", "Y"])
    N = env.real("N", lo=0, hi=deg(m, 1) * k)
    phi, eig, v = env.array("phi", (P, k), nonzero=True), env.array("eig", k), env.array("v", P)
    chi = []
    for pol in (1, 2):
        s = one_solver(env, g, k, N / pol, m, pol, dict(fractional=c["frac"]))
        s.phi, s.eig, s.veff = phi.copy(), eig.copy(), v.copy()
        s.hamiltonian()
        s.calc_response()
        chi.append(env._flat(s.chi))
    env.eq("each spin has half the response", 2 * chi[1], chi[0])


@harness("C30", configs=[dict(rows=1, Nmo=1), dict(rows=2, Nmo=1), dict(rows=1, Nmo=2), dict(rows=3, Nmo=1), dict(rows=1, Nmo=1, sym=True)],
         ms=30000)
def kohn_sham_density(env):
    c = env.cfg
    rows, k = c["rows"], c["Nmo"]
    Na = 2
    calls = []

    def eigs(A, k=6, **kw):
        A = env._flat(A)
        at = kw.get("sigma")
        for A0, k0, r, at0 in calls:
            if k0 == k and same(A0, A):
                if at is not None and at0 is not None:
                    env.eq("levels near the same energy", at, at0)
                return tuple(x.copy() for x in r)
        t = len(calls)
        r = (env.array(f"e{t}", k), env.array(f"p{t}", (Na, k), nonzero=True))
        calls.append((A.copy(), k, r, at))
        return tuple(x.copy() for x in r)
    env.stub("scipy.sparse.linalg.eigs", eigs)
    g = abstract_grid(env, Na, 1, ["Z", "Y"])
    v0, vx, vh = (env.array(t, (Na, 1)) for t in ("vnuc", "vext", "vhxc"))
    out = []
    for pol in (1, 2):
        N = [[deg(i, pol) * k] * pol for i in range(rows)]
        ks = kohnsham(env, g, [[k] * pol] * rows, N, pol, 1, 1, dict(sym=c.get("sym", False)))
        ks.vnuc, ks.vext, ks.vhxc = (a.copy() if pol == 1 else cols(env, a) for a in (v0, vx, vh))
        ks.set_effective_potential()
        n = ks.calc_density()
        ks.calc_chempot()
        out.append((n, ks.u))
    (n1, u1), (n2, u2) = out
    env.eq("both spins have half the density", n2, half(env, n1))
    env.eq("same chemical potential", u2, u1)


FAM = [dict(fam=f) for f in ("lda", "gga", "ni")] + [dict(fam="lda", sym=True)]


@harness("C30", configs=FAM + [dict(fam="lda", rows=2), dict(fam="lda", rows=3)], ms=30000)
def energy(env):
    c = env.cfg
    fam, rows = c["fam"], c.get("rows", 1)
    ni = fam == "ni"
    g = abstract_grid(env, 2, 1, ["Z", "Y"])
    P = g.Nelem
    fake_hartree(env, g)
    closed_shell_libxc(env, g)
    opt = dict(interaction_type="ni") if ni else dict(xc_family=fam, xfunc_id=101, cfunc_id=130)
    opt["sym"] = c.get("sym", False)
    Za, Zb = env.real("Za", lo=0), env.real("Zb", lo=0)
    n, vx = env.array("n", (P, 1), pos=True), env.array("vext", (P, 1))
    out = []
    for pol in (1, 2):
        ks = kohnsham(env, g, [[1] * pol] * rows, [[deg(i, pol)] * pol for i in range(rows)], pol, Za, Zb, opt)
        ks.n, ks.vext = (n.copy(), vx.copy()) if pol == 1 else (half(env, n), cols(env, vx))
        ks.calc_hxc_potential()
        ks.set_effective_potential()
        for i in range(rows):
            for j in range(pol):
                o = ks.solver[i, j]
                o.eig = env.array(f"eig{i}", 1)

                def calc_energy(o=o, i=i, pol=pol):
                    o.eks, o.Vs, o.Ts = (env.real(f"{t}{i}") / pol for t in ("eks", "Vs", "Ts"))
                o.calc_energy = calc_energy
        if not ni:
            ks.E.first = ks.E.Ex, ks.E.Ec
        ks.energy()
        out.append(ks)
    a, b = out
    env.eq("nuclear potential", b.vnuc, cols(env, a.vnuc))
    env.eq("effective potential", b.veff, cols(env, a.veff))
    env.eq("interaction potential", b.vhxc, cols(env, a.vhxc))
    for t in ("Ts", "Enuc", "Vext", "Et", "E", "Vnn") + (() if ni else ("Vhxc", "Eh", "Ex", "Ec")):
        env.eq(t, getattr(b.E, t), getattr(a.E, t))
    for t in ("Eks", "Vks"):
        env.eq(t, env.np.asarray(getattr(b.E, t)).reshape(-1), half(env, env.np.asarray(getattr(a.E, t)))[0])
    if not ni:
        env.eq("energies of the potential step", env.arr(list(b.E.first)), env.arr(list(a.E.first)))
        env.eq("Hartree potential", b.V.vh, cols(env, a.V.vh))
        env.eq("exchange potential", b.V.vx, cols(env, a.V.vx))
        env.eq("correlation potential", b.V.vc, cols(env, a.V.vc))
        for t in ("eh", "ex", "ec"):
            env.eq("energy density " + t, env.np.asarray(getattr(b.V, t)).reshape(-1),
                   env.np.asarray(getattr(a.V, t)).reshape(-1))


@harness("C30", configs=[dict(fam="lda", it=3), dict(fam="gga", it=2), dict(fam="ni", it=3), dict(fam="lda", it=3, cont=True),
                         dict(fam="lda", it=3, auto=True)], ms=30000)
def loop(env):
    c = env.cfg
    fam, it = c["fam"], c["it"]
    g = abstract_grid(env, 2, 1, ["Z", "Y"])
    P = g.Nelem
    fake_hartree(env, g)
    closed_shell_libxc(env, g)
    opt = dict(interaction_type="ni") if fam == "ni" else dict(xc_family=fam, xfunc_id=101, cfunc_id=130)
    alpha, tol = env.real("alpha", lo=0, hi=1), env.real("tol", pos=True)
    res = []
    for pol in (1, 2):
        ks = kohnsham(env, g, [[1] * pol], [[2 // pol] * pol], pol, 1, 1, opt)
        ks.solver[0, 0].eig = env.array("eig", 1)
        ks.solver[0, pol - 1].eig = env.array("eig", 1)
        log = []

        def calc_density(*a, log=log, pol=pol, ks=ks, **k):
            log.append([ks.solver[0, j].veff.copy().reshape(-1) for j in range(pol)])
            n = env.array(f"out{len(log)}", (P, 1), pos=True)
            return n if pol == 1 else half(env, n)
        es = []

        def energy(ks=ks, es=es):
            es.append(ks.n.copy())
            ks.E.E = env.real(f"E{len(es)}", nonzero=True)
        ks.calc_density, ks.energy = calc_density, energy
        if c.get("cont"):
            n = env.array("start", (P, 1), pos=True)
            ks.n = n if pol == 1 else half(env, n)
        ks.scf(dict(maxiter=it, alpha=alpha, e_tol=tol, disp=False, continuing=c.get("cont", False),
                    auto_tol=c.get("auto", False), auto_tol_iter=1))
        res.append((log, es, ks))
    (l1, e1, a), (l2, e2, b) = res
    env.true("as many iterations", len(l1) == len(l2) and len(e1) == len(e2), f"{len(l1)} {len(l2)}")
    for t, (x, y) in enumerate(zip(l1, l2)):
        for j in range(2):
            env.eq(f"potential {t} of spin {j}", y[j], x[0])
    for t, (x, y) in enumerate(zip(e1, e2)):
        env.eq(f"density {t}", y, half(env, x))
    env.eq("final density", b.n, half(env, a.n))
    env.true("chemical potential computed alike", (a.u is None) == (b.u is None))
    if a.u is not None:
        env.eq("final chemical potential", b.u, a.u)


@harness("C30", configs=[dict(ens=None, kin="none"), dict(ens=None, kin="libxcke"), dict(ens="both", kin="none"),
                         dict(ens="both", kin="libxcke"), dict(ens="left", kin="none"), dict(ens=None, kin="libxcke", fam="gga"),
                         dict(ens="both", kin="none", fam="gga"), dict(ens="right", kin="libxcke"), dict(ens=None, kin="vonweiz")],
         ms=30000)
def fragments_agree(env):
    c = env.cfg
    kin, fam = c["kin"], c.get("fam", "lda")
    dens, pots = {}, {}
    out = []
    for pol in (1, 2):
        g, p, nu = build(env, dict(c, pol=pol), opt=dict(
            kinetic_part_type=kin, k_family=fam, ke_func_id=50, interaction_type="dft", xc_family=fam, xfunc_id=101,
            cfunc_id=130))
        P = g.Nelem
        if not out:
            fake_hartree(env, g)
            closed_shell_libxc(env, g)
            Za, Zb = env.real("Za", pos=True), env.real("Zb", pos=True)
        p.Za, p.Zb = Za, Zb
        p.calc_nuclear_potential()
        for k, ks in fragments(p):
            ks.Za, ks.Zb = (Za, 0) if k[-1] in "aA" else (0, Zb)
            ks.calc_nuclear_potential()
            if k not in dens:
                dens[k], pots[k] = env.array("n" + k, (P, 1), pos=True), env.array("vext" + k, (P, 1))
            ks.n, ks.vext = (dens[k].copy(), pots[k].copy()) if pol == 1 else (half(env, dens[k]), cols(env, pots[k]))
            ks.calc_hxc_potential()
            ks.set_effective_potential()
            for j in range(pol):
                o = ks.solver[0, j]
                o.eig = env.array(f"eig{k}", 1)

                def calc_energy(o=o, t=k, pol=pol):
                    o.eks, o.Vs, o.Ts = (env.real(x + t) / pol for x in ("eks", "Vs", "Ts"))
                o.calc_energy = calc_energy
            ks.energy()
        p.calc_protomolecule()
        p.calc_Q()
        p.partition_potential()
        p.energy()
        out.append((g, p, nu))
    a, b = out[0][1], out[1][1]
    env.eq("summed density", b.nf, half(env, a.nf))
    for k, ks in fragments(a):
        kb = getattr(b, k)
        env.eq(f"weighing function of {k}", kb.Q, cols(env, ks.Q))
        env.eq(f"embedding potential of {k}", kb.V.vp, cols(env, ks.V.vp))
    env.eq("partition potential", b.V.vp, cols(env, a.V.vp))
    for t in sorted(set(vars(a.E)) & set(vars(b.E))):
        x, y = getattr(a.E, t), getattr(b.E, t)
        if x is None or t.startswith("evals"):
            continue
        x, y = env.np.asarray(x), env.np.asarray(y)
        if x.shape == y.shape:
            env.eq("energy " + t, y, x)
