"""History independence: every calculation object is used twice, with two unrelated arbitrary inputs, and a second fresh
object is used with the second input only; z3 decides that both give the same answers, that what was handed in is left as
it was and that what was handed out by the first call is not changed by the second.  Eigensolver, Hartree solver and
functional library are contracts that return equal values exactly for equal arguments."""
from fractions import Fraction as F
from engine.run import harness
from .grids import abstract_grid, real_grid, STENCIL
from .part import fragments
from .c20 import build
from .ks import kohnsham, fake_hartree, fake_libxc, same
from . import c09

BOUNDS = ("two calls per object; 2 grid points (4-9 for grids and the Poisson solver), 1-2 spins, 1-2 angular momenta, 1-2 levels; "
          "self-consistency loops of up to 2 iterations; inputs of both calls symbolic and unrelated")
ASSUMPTIONS = ["third-party solvers and the functional library are functions of their arguments"]


class Answers:
    """an arbitrary function: equal arguments get equal answers, anything else an unrelated one"""

    def __init__(self, env, name):
        self.env, self.name, self.seen = env, name, []

    def index(self, *args):
        args = [self.env.np.asarray(a).reshape(-1) for a in args]
        for i, s in enumerate(self.seen):
            if len(s) == len(args) and all(same(a, b) for a, b in zip(s, args)):
                return i
        self.seen.append([a.copy() for a in args])
        return len(self.seen) - 1

    def __call__(self, shape, *args, **dom):
        return self.env.array(f"{self.name}{self.index(*args)}", shape, **dom)


def copy(env, d):
    return {k: (v.copy() if hasattr(v, "copy") else v) for k, v in d.items()}


def twice(env, make, use):
    """use(object, tag) -> (inputs dict, outputs dict); inputs are checked to be untouched"""
    a = make()
    i1, o1 = use(a, "1")
    k1 = copy(env, o1)
    i2, o2 = use(a, "2")
    b = make()
    _, want = use(b, "2")
    for k, v in want.items():
        env.eq(f"{k}: the same as from a fresh object", o2[k], v)
    for k, v in k1.items():
        env.eq(f"{k}: the earlier answer stays", o1[k], v)
    for tag, d in (("1", i1), ("2", i2)):
        for k, (have, was) in d.items():
            env.eq(f"argument {k} {tag} untouched", have, was)


def given(**kw):
    return {k: (v, v.copy()) for k, v in kw.items()}


@harness("C33", configs=[dict(NP=3, NM=[2, 2], p=2), dict(NP=2, NM=[3, 2], p=1)])
def grid(env):
    """initialising again leaves everything as it is; after a change of the bond length it is the grid of the new length"""
    c = env.cfg
    names = ("Xa", "Xr", "Z", "Y", "w", "wi", "f", "h1", "h2", "h3", "eDa1", "eDr1", "oDa2", "oDr2", "eDa2", "oDr1")
    ini = env.mod("psgrid.initialize").initialize
    a1, a2 = env.real("a1", pos=True), env.real("a2", pos=True)
    g = real_grid(env, c["NP"], c["NM"], STENCIL[c["p"]], a=a1)
    first = {k: getattr(g, k).copy() for k in names}
    ini(g, factor=False)
    for k in names:
        env.eq(f"{k} initialised again", getattr(g, k), first[k])
    g.a = a2
    ini(g, factor=False)
    h = real_grid(env, c["NP"], c["NM"], STENCIL[c["p"]], a=a2)
    for k in names:
        env.eq(f"{k} of the new length", getattr(g, k), getattr(h, k))
    u = env.array("u", g.Nelem)
    for k in ("elap", "olap", "grada", "gradr", "diva", "divr"):
        env.eq(f"{k} of the new length", getattr(g, k) @ u, getattr(h, k) @ u)


@harness("C33", configs=[dict(pol=1), dict(pol=2)])
def fields(env):
    """reflection, spin flip, gradients and integrals do not touch their argument and know nothing of earlier ones"""
    pol = env.cfg["pol"]

    def use(g, t):
        n = env.array("n" + t, (g.Nelem, pol), pos=True)
        i = given(n=n)
        o = dict(mirror=g.mirror(n), sigma=g.sigma(n), square=g.square(n).reshape(-1, order="F"),
                 integral=env.np.asarray(g.integrate(n[:, 0])).reshape(-1), s=g.reduced_grad(n))
        if pol == 2:
            o["spinflip"] = g.spinflip(n)
        return i, o
    twice(env, lambda: abstract_grid(env, 2, 2, ["Z", "Y"]), use)


@harness("C33", configs=[dict(cols=1), dict(cols=2), dict(cols=0)], ms=30000)
def hartree(env):
    """two densities of the same total charge"""
    cols = env.cfg["cols"]
    Na = Nr = 2
    H = None

    def make():
        g = abstract_grid(env, Na, Nr)
        g.bcN = 1
        N = g.Nelem
        pts, ext = c09.INN[:N], c09.EXT[:Na]
        g.Xa, g.Xr = c09.coordinates(env, "X", pts)
        g.bXa, g.bXr = c09.coordinates(env, "b", ext)
        g.Z = env.arr([g.a * (t[0] * t[3]) for t in pts])
        g.Y = env.arr([g.a * (t[1] * t[2]) for t in pts])
        g.blap = env.smat(env.array("blap", (Na, Na)))
        g.elap = c09.laplacian(env, N, 0)
        g.factorize_laplacian(False)
        return env.mod("hartree.hartree").Hartree(g)

    def use(h, t):
        N = Na * Nr
        g = abstract_grid(env, Na, Nr)
        n = env.array("n" + t, (N, cols) if cols else N)
        if t == "2":            # the same number of electrons as the first one
            m = env.array("n1", (N, cols) if cols else N).reshape(-1)
            k = n.reshape(-1).copy()
            wt = [g.wi[i // max(cols, 1)] * g.w[i // max(cols, 1)] for i in range(k.shape[0])]
            k[0] = (env.total(wt[i] * m[i] for i in range(k.shape[0])) -
                    env.total(wt[i] * k[i] for i in range(1, k.shape[0]))) / wt[0]
            n = k.reshape(n.shape)
        i = given(n=n)
        return i, dict(v=h.v_hartree(n))
    twice(env, make, use)


@harness("C33", configs=[dict(pol=p, fam=f) for p in (1, 2) for f in ("lda", "gga")])
def functional(env):
    c = env.cfg
    pol = c["pol"]
    seen = []

    def make():
        g = abstract_grid(env, 2, 1, ["Z", "Y"])
        if not seen:
            seen.append(fake_libxc(env, g))
        return env.mod("libxc.libxc").Libxc(g, c["fam"], 101)

    def use(x, t):
        n = env.array("n" + t, (2, pol), pos=True)
        i = given(n=n)
        E, v = x.get_xc(n)
        E2, e, v2 = x.get_xc(n, return_epsilon=True)
        return i, dict(E=env.arr([E]), v=v, E2=env.arr([E2]), eps=e, v2=v2)
    twice(env, make, use)


def eigensolver(env):
    """eigenpairs as an arbitrary function of the operator and of what was asked for"""
    ans = Answers(env, "eig")

    def eigs(A, k=6, sigma=None, **kw):
        d = A.toarray() if hasattr(A, "toarray") else A
        i = ans.index(d, env.arr([k, 0 if sigma is None else sigma]))
        e = env.real(f"lev{i}")
        lev = [e]
        for q in range(1, k):
            lev.append(lev[-1] + env.real(f"gap{i}{q}", lo=1))
        return env.arr(lev), env.array(f"orb{i}", (d.shape[0], k), nonzero=True)
    env.stub("scipy.sparse.linalg.eigs", eigs)


@harness("C33", configs=[dict(m=m, pol=p, Nmo=k, frac=f) for m, p, k, f in
                         ((0, 1, 1, True), (1, 1, 2, True), (0, 2, 2, False), (1, 2, 1, True), (2, 1, 1, False), (0, 1, 2, True))])
def solver(env):
    """one orbital solver given one potential after the other"""
    c = env.cfg
    m, pol, k = c["m"], c["pol"], c["Nmo"]
    eigensolver(env)
    P = 2
    N = {(0, 1): 1.5, (1, 1): 6, (0, 2): 1, (1, 2): 1, (2, 1): 4}[m, pol]
    if k == 2 and m == 0 and pol == 1:
        N = 3

    def make():
        g = abstract_grid(env, 2, 1, ["Z", "Y"])
        Nm = [[k] * pol for _ in range(m + 1)]
        s = env.mod("pssolver.pssolver").Pssolver(g, Nm, [[N] * pol for _ in range(m + 1)], dict(fractional=c["frac"]))[m, 0]
        s.hamiltonian()
        return s

    def use(s, t):
        v = env.array("v" + t, P)
        i = given(v=v)
        s.setveff(v)
        o = {}
        out = {}
        s.calc_orbitals((0, 0), out)
        o["levels handed out"], o["orbitals handed out"] = out[0, 0][0].copy(), out[0, 0][1].copy()
        s.calc_density()
        o["density"] = s.n.copy()
        s.get_homo()
        o["homo"] = env.arr([s.homo])
        s.calc_energy()
        o["eks"], o["Vs"], o["Ts"] = env.arr([s.eks]), env.arr([s.Vs]), env.arr([s.Ts])
        o["density again"] = s.n.copy()
        s.calc_ked_WFI()
        o["ked"] = s.ked_WFI.copy()
        s.normalize_orbitals()
        o["normalised"] = s.phi.copy()
        return i, o
    twice(env, make, use)


@harness("C33", configs=[dict(m=m) for m in (0, 1)], ms=30000)
def response(env):
    """the response of a solver that was used for another potential before"""
    m = env.cfg["m"]
    P = 2

    def make():
        g = abstract_grid(env, 2, 1, ["Z", "Y"])
        s = env.mod("pssolver.pssolver").Pssolver(g, [[1]] * (m + 1), [[4 if m else 2]] * (m + 1))[m, 0]
        s.hamiltonian()
        return s

    def use(s, t):
        phi, e = env.array("phi" + t, (P, 1), nonzero=True), env.array("e" + t, 1)
        s.phi, s.eig = phi.copy(), e.copy()
        s.setveff(e[0] - (s.H0 @ phi[:, 0]) / (s.grid.w * phi[:, 0]))
        s.calc_response()
        d = env.array("dv", P)
        chi = s.chi.toarray() if hasattr(s.chi, "toarray") else s.chi
        return {}, dict(response=env.np.asarray(chi) @ d)
    twice(env, make, use)


@harness("C33", configs=[dict(it=False), dict(it=True)], ms=30000)
def refinement(env):
    P = 2

    def make():
        g = abstract_grid(env, 2, 1, ["Z", "Y"])
        s = env.mod("pssolver.pssolver").Pssolver(g, [[1]], [[2]], dict(iter_lin_solver=env.cfg["it"]))[0, 0]
        s.hamiltonian()
        return s

    def use(s, t):
        phi, e, v = env.array("phi" + t, (P, 1), nonzero=True), env.array("e" + t, 1), env.array("v" + t, P)
        s.phi, s.eig = phi.copy(), e.copy()
        s.setveff(v)
        r = s.H0 @ phi[:, 0] + s.grid.w * (v - e[0]) * phi[:, 0]
        env.assume(">", r[0] * r[0], 1)
        out = {}
        s.iter_orbitals((0, 0), out)
        return given(v=v), {"level": env.arr([out[0, 0][0][0]]), "direction": env.arr([out[0, 0][1][0, 0] / out[0, 0][1][1, 0]])}
    twice(env, make, use)


FAM = [dict(fam="lda", pol=1), dict(fam="ni", pol=2), dict(fam="ni", pol=1, rows=2), dict(fam="ni", pol=1, sym=True)]


@harness("C33", configs=FAM, thorough=[dict(fam="gga", pol=1), dict(fam="lda", pol=2), dict(fam="gga", pol=2), dict(fam="lda", pol=1, sym=True)], ms=30000)
def kohn_sham(env):
    """density, potentials, energies and highest level of a Kohn-Sham object used for another external potential before"""
    c = env.cfg
    pol, rows = c["pol"], c.get("rows", 1)
    eigensolver(env)
    opt = dict(interaction_type="ni") if c["fam"] == "ni" else dict(xc_family=c["fam"], xfunc_id=101, cfunc_id=130)
    opt["sym"] = c.get("sym", False)
    once = []

    def make():
        g = abstract_grid(env, 2, 1, ["Z", "Y"])
        if not once:
            once.extend([fake_hartree(env, g), fake_libxc(env, g)])
        N = [[2 if pol == 1 else 1] * pol] + [[4 if pol == 1 else 2] * pol] * (rows - 1)
        ks = kohnsham(env, g, [[1] * pol] * rows, N, pol, 1, 2, opt)
        ks.vnuc = env.array("vnuc", (2, pol))
        return ks

    def use(ks, t):
        n, x = env.array("n" + t, (2, pol), pos=True), env.array("vext" + t, (2, pol))
        i = given(n=n, vext=x)
        ks.n, ks.vext = n, x
        ks.calc_hxc_potential()
        o = dict(vhxc=ks.vhxc.copy())
        ks.set_effective_potential()
        out = ks.calc_density(False, 1.0)
        o["density"] = out
        ks.n = out.copy()
        ks.calc_chempot()
        ks.energy()
        o["chemical potential"] = env.arr([ks.u])
        for k in ("E", "Et", "Ts", "Enuc", "Vext") + (() if c["fam"] == "ni" else ("Ex", "Ec", "Eh", "Vhxc")):
            o[k] = env.arr([getattr(ks.E, k)])
        o["Eks"], o["Vks"], o["levels"] = ks.E.Eks.copy(), ks.E.Vks.copy(), env.np.asarray(ks.E.evals).copy()
        return i, o
    twice(env, make, use)


@harness("C33", configs=[dict(pol=1, it=2), dict(pol=2, it=2), dict(pol=1, it=3, fam="ni"), dict(pol=1, it=2, sym=True)], ms=30000)
def kohn_sham_loop(env):
    """a self-consistent calculation started anew on an object that finished another one"""
    c = env.cfg
    pol, it = c["pol"], c["it"]
    opt = dict(interaction_type="ni") if c.get("fam") == "ni" else dict(xc_family="lda", xfunc_id=101, cfunc_id=130)
    opt["sym"] = c.get("sym", False)
    dens, en, once = Answers(env, "out"), Answers(env, "energy"), []

    def make():
        g = abstract_grid(env, 2, 1, ["Z", "Y"])
        if not once:
            once.extend([fake_hartree(env, g), fake_libxc(env, g)])
        ks = kohnsham(env, g, [[1] * pol], [[1] * pol], pol, 1, 2, opt)
        ks.vnuc = env.array("vnuc", (2, pol))

        def calc_density(*a, **k):
            v = env.arr([x for j in range(pol) for x in ks.solver[0, j].veff.reshape(-1)])
            for j in range(pol):
                ks.solver[0, j].homo = env.real(f"homo{dens.index(v)}{j}")
            return dens((2, pol), v, pos=True).copy()

        def energy(*a, **k):
            ks.E.E = en((1,), ks.n, nonzero=True)[0]

        def calc_chempot(*a, **k):
            ks.u = ks.solver[0, 0].homo
        ks.calc_density, ks.energy, ks.calc_chempot = calc_density, energy, calc_chempot
        return ks

    def use(ks, t):
        x = env.array("vext" + t, (2, pol))
        ks.vext = x
        al = env.real("alpha" + t, lo=0, hi=1)
        ks.scf(dict(maxiter=it, alpha=al, e_tol=1e-6, disp=False, iterative=False))
        return given(vext=x), {"density": ks.n.copy(), "energy": env.arr([ks.E.E]), "chemical potential": env.arr([ks.u])}
    twice(env, make, use)


def components(env, g, p, pol, c, t):
    """arbitrary components (tagged), reflected ones with ab_sym"""
    P = g.Nelem
    for k, ks in fragments(p, "a" if c.get("ab") else None):
        q = k + t
        ks.n = env.array("n" + q, (P, pol), pos=True)
        for f in ("vh", "vx", "vc"):
            setattr(ks.V, f, env.array(f + q, (P, pol)))
        ks.V.eh, ks.V.ex, ks.V.ec = env.array("eh" + q, P), env.array("ex" + q, (P, 1)), env.array("ec" + q, (P, 1))
        ks.veff, ks.vext = env.array("veff" + q, (P, pol)), env.array("vext" + q, (P, pol))
        ks.vnuc = env.array("vnuc" + k, (P, pol))
        ks.u = env.real("u" + q)
        for f in ("E", "Ts", "Enuc", "Vhxc", "Eh", "Ex", "Ec"):
            setattr(ks.E, f, env.real(f + q))
        ks.E.Eks, ks.E.evals = env.array("Eks" + q, (1, pol)), env.array("ev" + q, 1)
    if c.get("ab"):
        p.mirrorAB()


PARTS = [dict(pol=1, kin="none"), dict(pol=1, kin="vonweiz", it="ni"), dict(pol=1, kin="libxcke", ens="both", it="ni"),
         dict(pol=2, kin="none", ens="both"), dict(pol=1, kin="none", ab=True), dict(pol=2, kin="none", ss=True),
         dict(pol=1, kin="libxcke", form="hartree"), dict(pol=1, kin="none", ens="same", ab=True)]


@harness("C33", configs=PARTS, thorough=[dict(pol=2, kin="none", ss=True, ens="both"), dict(pol=2, kin="vonweiz", ens="both"),
                                         dict(pol=1, kin="none", form="overlap_xc")], ms=30000)
def embedding(env):
    """partition potential and energies of a partition that was used for other fragment densities before"""
    c = env.cfg
    pol = c["pol"]
    o = dict(kinetic_part_type=c["kin"], k_family="lda", ke_func_id=50, hxc_part_type=c.get("form", "exact"),
             interaction_type=c.get("it", "dft"), xc_family="lda", xfunc_id=101, cfunc_id=130)
    once = []
    vmol = env.array("vmol", (2, pol))

    def make():
        g, p, nu = build(env, c, opt=o)
        if not once:
            once.extend([fake_hartree(env, g, c.get("ab")), fake_libxc(env, g, c.get("ab"))])
        p.V.vext = vmol.copy()
        p.V.vext_a, p.V.vext_b = env.array("vmola", (2, pol)), env.array("vmolb", (2, pol))
        for _, ks in fragments(p):
            ks.V.frozen = False
        return p

    def use(p, t):
        components(env, p.grid, p, pol, c, t)
        i = {"density of " + k: (ks.n, ks.n.copy()) for k, ks in fragments(p)}
        p.calc_protomolecule()
        p.calc_Q()
        out = dict(vp=p.partition_potential())
        p.energy()
        out["density"] = p.nf.copy()
        for k, ks in fragments(p):
            out["weighing function " + k] = ks.Q.copy()
            for f in ("vp", "vp_pot", "vp_kin", "vp_hxc"):
                out[f + " of " + k] = env.np.asarray(getattr(ks.V, f)).copy()
        for f in ("vp_pot", "vp_kin", "vp_hxc", "vp_h", "vp_x", "vp_c"):
            out[f] = getattr(p.V, f).copy()
        for f in ("Ea", "Eb", "Ef", "Tsf", "Enucf", "Exf", "Ecf", "Ehf", "Vhxcf", "Ep_pot", "Ep_kin", "Ep_hxc", "Ep", "Et", "Vnn", "E"):
            out["energy " + f] = env.arr([getattr(p.E, f)])
        out["Eksf"], out["levels a"], out["levels b"] = (env.np.asarray(x).copy() for x in (p.E.Eksf, p.E.evals_a, p.E.evals_b))
        return i, out
    twice(env, make, use)


@harness("C33", configs=[dict(pol=1, it=2), dict(pol=1, it=2, ens="both"), dict(pol=2, it=1, dft=True), dict(pol=1, it=2, ab=True, dft=True),
                         dict(pol=1, it=2, typ="sdft"), dict(pol=1, it=2, iso=True), dict(pol=1, it=2, z=""), dict(pol=1, it=2, z="a"),
                         dict(pol=1, it=2, z="b", ens="both"), dict(pol=1, it=2, z="", ens="both")], ms=30000)
def fragment_loop(env):
    """a fragment calculation started anew on a partition that finished another one with other settings"""
    c = env.cfg
    pol, it = c["pol"], c["it"]
    o = dict(kinetic_part_type="none", isolated=c.get("iso", False))
    if c.get("dft"):
        o.update(interaction_type="dft", xc_family="lda", xfunc_id=101, cfunc_id=130)
    dens, en, pot, tot, once = (Answers(env, "out"), Answers(env, "energy"), Answers(env, "vp"), Answers(env, "total"), [])

    def make():
        g, p, nu = build(env, c, opt=o)
        if not once:
            once.extend([fake_hartree(env, g, c.get("ab")), fake_libxc(env, g, c.get("ab"))])

        def attach(k, ks, no):
            def calc_density(*a, **kw):
                v = env.arr([x for j in range(pol) for x in ks.solver[0, j].veff.reshape(-1)])
                ks.u0 = env.real(f"homo{dens.index(env.arr([no]), v)}")
                return dens((2, pol), env.arr([no]), v, pos=True).copy()

            def energy(*a, **kw):
                ks.E.E = en((1,), env.arr([no]), ks.n)[0]

            def calc_chempot(*a, **kw):
                ks.u = ks.u0
            ks.calc_density, ks.energy, ks.calc_chempot = calc_density, energy, calc_chempot
        for no, (k, ks) in enumerate(fragments(p)):
            attach(k, ks, no)

        def state():
            return [ks.n for _, ks in fragments(p)]

        def partition_potential(*a, **kw):
            for k, ks in fragments(p):
                ks.V.vp = env.array(f"vp{k}{pot.index(*state())}", (2, pol))
            p.V.vp = pot((2, pol), *state()).copy()
            return p.V.vp

        def energy(*a, **kw):
            p.E.E = tot((1,), *state(), nonzero=True)[0]
            p.E.Ea = p.E.Eb = 0
        p.partition_potential, p.energy = partition_potential, energy
        return p

    def use(p, t):
        i = {}
        for k, ks in fragments(p, "a" if c.get("ab") else None):
            ks.vnuc = env.array(f"vnuc{k}{t}", (2, pol))
            i["nuclear potential of " + k] = (ks.vnuc, ks.vnuc.copy())
        if c.get("ab"):
            for k, m in (("KSa", "KSb"), ("KSA", "KSB")):
                if hasattr(p, m):
                    getattr(p, m).vnuc = p.grid.mirror(getattr(p, k).vnuc)
        s = dict(max_iter=it, alpha=[env.real("alpha" + t, lo=0, hi=1)], e_tol=1e-6, calc_type=c.get("typ", "pdft"), disp=False)
        if t == "1":                # the first calculation had other settings
            s.update(max_iter=1, freeze_a="z" in c, freeze_b="z" in c)
        elif "z" in c:
            s.update(freeze_a="a" in c["z"], freeze_b="b" in c["z"])
        p.scf(s)
        out = {"density": p.nf.copy(), "energy": env.arr([p.E.E])}
        for k, ks in fragments(p):
            out.update({"density of " + k: ks.n.copy(), "weighing function of " + k: ks.Q.copy(),
                        "potential of " + k: ks.veff.copy(), "energy of " + k: env.arr([ks.E.E]),
                        "chemical potential of " + k: env.arr([ks.u])})
        return i, out
    twice(env, make, use)


class Result:
    pass


@harness("C33", configs=[dict(rows=1, pol=1), dict(rows=2, pol=1), dict(rows=1, pol=2), dict(rows=2, pol=2, ss=True), dict(rows=1, pol=1, ab=True)])
def inversion(env):
    """an inverter fitted to one density after another: residual, derivative and everything read off the solution (the start
    may be the solution found before)"""
    c = env.cfg
    rows, pol, ss, ab = c["rows"], c["pol"], c.get("ss", False), c.get("ab", False)
    Nr = 2 if ab else 1
    P = 2 * Nr
    cols = 1 if ss or pol == 1 else pol
    now = {}

    def least_squares(fun, x0, jac="2-point", args=(), kwargs={}, **kw):
        q = f"{now['tag']}{len(now['log'])}"
        v, u = env.array("trial" + q, P), env.array("step" + q, P)
        r = Result()
        r0 = fun(v.copy(), *args, **kwargs)
        J = env.np.asarray(jac(v.copy(), *args, **kwargs)) @ u
        r.x = env.array("x" + q, P)
        if ab:
            r.x = r.x + r.x[[k - k % 2 + 1 - k % 2 for k in range(P)]]
        r.status, r.success, r.cost, r.optimality = env.real("status" + q), True, env.real("cost" + q), env.real("opt" + q)
        r.nfev, r.fun, r.jac, r.message = 3, r0, J, ""
        now["log"].append((r0.copy(), J.copy()))
        return r
    env.stub("scipy.optimize.least_squares", least_squares)

    def make():
        g = abstract_grid(env, 2, Nr)
        N = [[2 if i == 0 and pol == 1 else 1 if i == 0 else 4 if pol == 1 else 2] * pol for i in range(rows)]
        S = env.mod("pssolver.pssolver").Pssolver(g, [[1] * pol for _ in range(rows)], N)

        def attach(s, q):
            n0, chi, e0, de = env.array("n" + q, P), env.array("chi" + q, (P, P)), env.real("e" + q), env.array("de" + q, P)

            def calc_orbitals():
                s.at = env.np.asarray(s.veff).reshape(-1).copy()
                s.eig = env.arr([e0 + env.total(de * s.at)])
                s.phi = env.array("phi" + q, (P, 1))

            def calc_density():
                s.n = (n0 + chi @ s.at).reshape(P, 1)

            def calc_response():
                s.chi = chi + env.arr([s.at[k] for k in range(P) for _ in range(P)], (P, P))    # of the last potential

            def calc_energy():
                s.calc_density()
                s.Ts = 0
            s.calc_orbitals, s.calc_density, s.calc_response, s.calc_energy = calc_orbitals, calc_density, calc_response, calc_energy
            s.hamiltonian = lambda: None
        for i in range(rows):
            for j in range(pol):
                attach(S[i, j], f"{i}{j}")
        return env.mod("inverter.inverter").Inverter(g, S, dict(invert_type="wuyang", ab_sym=ab, ens_spin_sym=ss))

    def use(inv, t):
        now.update(tag=t, log=[])
        n0, vs0 = env.array("target" + t, (P, cols), pos=True), env.array("start" + t, (P, cols))
        i = given(n0=n0, vs0=vs0)
        flag, out = inv.invert(n0, vs0)
        o = {}
        for k, (r, J) in enumerate(now["log"]):
            o[f"residual {k}"], o[f"derivative {k}"] = r, J
        o["potential"], o["kinetic potential"] = inv.vs, inv.get_vt()
        o["chemical potential"] = env.np.asarray(inv.us)
        for k in range(rows):
            for j in range(pol):
                o[f"status {k}{j}"] = env.arr([flag[k, j]])
                s = inv.solver[k, j]
                o[f"solver {k}{j}"] = env.np.asarray(s.veff).reshape(-1).copy()
                if not (ss and j):
                    o[f"density {k}{j}"] = env.np.asarray(s.n).reshape(-1).copy()
        return i, o
    twice(env, make, use)


@harness("C33", configs=[dict(K=1), dict(K=2), dict(K=1, pol=2)], thorough=[dict(K=1, ab=True)], ms=30000)
def orbital_inversion(env):
    """the orbital inversion of one density after another, each from its own starting orbitals"""
    c = env.cfg
    K, pol, ab = c["K"], c.get("pol", 1), c.get("ab", False)
    P = 4 if ab else 2
    step = Answers(env, "y")

    def solve(A, b, *a, **k):
        A = env.np.asarray(A.toarray() if hasattr(A, "toarray") else A)
        return step((A.shape[0],), A, b).reshape(env.np.shape(b)).copy()

    class Inverse:
        def __init__(self, A):
            self.A, self.shape = A, A.shape

        def __matmul__(self, b):
            return solve(self.A, b)
        dot = __call__ = solve = __matmul__
    for f in ("numpy.linalg.solve", "scipy.linalg.solve", "scipy.sparse.linalg.spsolve"):
        env.stub(f, solve)
    for f in ("numpy.linalg.lstsq", "scipy.linalg.lstsq"):
        env.stub(f, lambda A, b, *a, **k: (solve(A, b), env.np.zeros(0), A.shape[0], env.np.zeros(0)))
    for f in ("numpy.linalg.inv", "numpy.linalg.pinv", "scipy.linalg.inv", "scipy.sparse.linalg.inv",
              "scipy.sparse.linalg.splu", "scipy.sparse.linalg.factorized"):
        env.stub(f, lambda A, *a, **k: Inverse(A))
    spin = pol - 1

    def make():
        g = abstract_grid(env, 2, P // 2)
        S = env.mod("pssolver.pssolver").Pssolver(g, [[K] * pol], [[2 * K // pol] * pol])
        for j in range(pol):
            s = S[0, j]
            s.H0 = env.smat(env.array(f"H{j}", (P, P)))
            s.hamiltonian = lambda: None
            s.calc_density = lambda s=s: None
        return env.mod("inverter.inverter").Inverter(g, S, dict(invert_type="orbitalinvert", max_iter_invert=1, ab_sym=ab,
                                                                tol_invert=1e-9))

    def use(inv, t):
        n0 = env.array("target" + t, P, pos=True)
        s = inv.solver[0, spin]
        phi, e, v = env.array("phi" + t, (P, K), nonzero=True), env.array("e" + t, K), env.array("v" + t, P)
        if ab:                          # an even orbital, as a reflection symmetric start has
            phi = phi + phi[[k - k % 2 + 1 - k % 2 for k in range(P)]]
        s.phi, s.eig, s.veff = phi.copy(), e.copy(), v.copy()
        i = given(n0=n0)
        inv.invert(n0, None, [], [], spin)
        o = {"potential": inv.vs[:, spin], "orbitals": s.phi.copy(), "levels": env.np.asarray(s.eig).reshape(-1).copy(),
             "solver": env.np.asarray(s.veff).reshape(-1).copy(), "kinetic potential": inv.get_vt()[:, spin],
             "chemical potential": env.np.asarray(inv.us).reshape(-1)[spin:spin + 1].copy()}
        o["potential"] = o["potential"].copy()          # (the other spin may be filled in later)
        return i, o
    twice(env, make, use)
