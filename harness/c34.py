"""The same system described in different ways: the real partition code is run on two descriptions of one system and z3
decides that every reported density, weighing function, energy and potential agrees.  Descriptions: an ensemble of two
identical components and the plain fragment; an ensemble whose second component has no weight and the plain fragment; the
two components of an ensemble listed in the other order; spin-flipped partners added to closed-shell components and the
components alone; reflection symmetry requested and the mirrored second fragment given explicitly."""
from fractions import Fraction as F
from engine.run import harness
from .grids import abstract_grid, integral
from .part import partition, fragments, flip
from .ks import fake_hartree, fake_libxc
from .c22 import tot
from .c31 import symmetric_grid, refl

BOUNDS = ("2 grid points (reflection symmetric weights and operators where reflection is used), 1-2 spins; kinetic forms "
          "none / libxcke / vonweiz / inversion (contracted inverter), hxc forms exact / hartree / overlap_xc / overlap_hxc, "
          "up to 2 iterations of the fragment loop; densities, potentials, levels, charges and weights symbolic")
ASSUMPTIONS = ["component densities are positive", "the functional library works point by point",
               "the levels of a component without weight do not exceed the others (they do enter the common highest level)",
               "overlap forms only where the descriptions have the same weights (their switch derivative is the finding under C24)"]

KIN = ("none", "libxcke", "vonweiz", "inversion")
C = [dict(how=h, pol=p, kin=k) for h in ("same", "unused") for p in (1, 2) for k in KIN]
C += [dict(how="order", pol=1, kin=k) for k in KIN] + [dict(how="order", pol=2, kin=k) for k in ("none", "inversion")]
C += [dict(how="flip", pol=2, kin=k) for k in KIN]
C += [dict(how="partners", pol=2, kin=k) for k in KIN] + [dict(how="partners", pol=2, kin="none", hxc=x) for x in ("hartree", "overlap_xc", "overlap_hxc")]
C += [dict(how="mirror", pol=p, kin=k) for p in (1, 2) for k in KIN]
C += [dict(how=h, pol=1, kin="none", hxc=x) for h in ("order", "mirror") for x in ("hartree", "overlap_xc", "overlap_hxc")]
C += [dict(how=h, pol=1, kin="none", hxc="hartree") for h in ("same", "unused")]
C += [dict(how="mirror", pol=1, kin="none", ens=True), dict(how="mirror", pol=1, kin="inversion", ens=True),
      dict(how="mirror", pol=2, kin="none", ss=True), dict(how="order", pol=2, kin="none", ss=True)]


class Inv:
    """answers of the molecular inversion: a function of the target density"""
    def __init__(self, env, pol, P, ab, ss):
        self.t = env.array("tmol", (P, pol))
        self.v = env.array("vtmol", (P, pol))
        if ab is not None:
            self.t, self.v = self.t + ab(self.t), self.v + ab(self.v)
        if ss:
            self.t, self.v = self.t + flip(env, self.t), self.v + flip(env, self.v)
        self.Ts = env.real("Tmol")
        self.env, self.pol, self.P = env, pol, P
        self.optInv = type("O", (), dict(ab_sym=False, ens_spin_sym=False))()
        self.solver = env.np.empty((1, pol), dtype=object)
        self.vs, self.us = env.array("ivs", (P, pol)), env.array("ius", (1, pol))

    def get_ts_WFI(self):
        return self.t.copy()

    def get_Ts(self):
        return self.Ts

    def invert(self, *a):
        return True, "info"

    def get_vt(self):
        return self.v.copy()


def source(how, k, second):
    """name of the component whose contents k carries in this description (None: contents of its own)"""
    if how == "same" and second:
        return "KS" + k[-1].lower()
    if how == "order" and second:
        return "KS" + k[-1].swapcase()
    if how == "partners":                           # the explicit description lists the spin-flipped partners itself
        return "KS" + k[-1].lower()
    return k


def weights(c, second, nu):
    how = c["how"]
    if how in ("same", "unused"):
        return None if not second else nu if how == "same" else (0, 0)
    if how == "order":
        return (1 - nu[0], 1 - nu[1]) if second else nu
    if how == "partners":
        return None if second else (0.5, 0.5)
    return (nu[0], nu[0]) if c.get("ens") else None


def describe(env, g, c, second, Za, Zb, nu):
    how, pol, kin = c["how"], c["pol"], c["kin"]
    P = g.Nelem
    ss = c.get("ss", False) or (how in ("flip", "partners") and second)
    ab = how == "mirror" and second
    pair = weights(c, second, nu)
    o = dict(kinetic_part_type=kin, k_family="lda", ke_func_id=50, interaction_type="dft", xc_family="lda", xfunc_id=101,
             cfunc_id=130, ens_spin_sym=ss, ab_sym=ab, hxc_part_type=c.get("hxc", "exact"))
    p = partition(env, g, pol, pair, o, Za=Za, Zb=Zb)
    for k, ks in fragments(p, "a" if ab else None):
        s = source(how, k, second)
        side = s
        back = lambda x: x.copy()   # noqa
        if how == "mirror" and k[-1] in "bB":           # the explicit description: B is the reflection of A
            side = {"KSb": "KSa", "KSB": "KSA"}[k]
            back = lambda x: refl(env, g, x)            # noqa
        partner = how == "partners" and k[-1].isupper()
        if partner:
            back = lambda x: flip(env, x) if len(x.shape) == 2 else x.copy()   # noqa
        n, vx = env.array("n" + side, (P, pol), pos=True), env.array("vext" + side, (P, pol))
        if how == "flip":
            n, vx = n + flip(env, n), vx + flip(env, vx)
        ks.n, ks.vext = back(n), back(vx)
        ks.calc_hxc_potential()
        ks.set_effective_potential()
        for j in range(pol):
            w = ks.solver[0, j]
            t = side + str(0 if how == "flip" else 1 - j if partner else j)
            w.eig, w.homo = env.array("eig" + t, 1), env.real("homo" + t, lo=-1000)
            if how == "unused" and k[-1].isupper():         # levels of an absent component set no common level
                w.homo = env.real("homoKS" + k[-1].lower() + t[-1], lo=-1000)

            def calc_energy(w=w, t=t):
                w.eks, w.Vs, w.Ts = (env.real(x + t) for x in ("eks", "Vs", "Ts"))

            def calc_ked_WFI(w=w, t=t, back=back):
                w.ked_WFI = back(env.array("ked" + t, P)).reshape(P, 1)
            w.calc_energy, w.calc_ked_WFI = calc_energy, calc_ked_WFI
        ks.energy()
    if pol == 2 or ab:
        for _, ks in fragments(p):
            ks.V.frozen = False
    if ab:
        p.mirrorAB()
    p.inverter = Inv(env, pol, P, (lambda x: refl(env, g, x)) if how == "mirror" else None, how in ("flip", "partners") or c.get("ss"))
    p.initialguessinvert = lambda *a, **k: (env.array("phi0", (P, 1)), env.array("e0", 1), env.array("vs0", (P, 1)))
    p.calc_protomolecule()
    p.calc_Q()
    if ab:
        p.mirrorAB()
    p.partition_potential()
    p.energy()
    return p


@harness("C34", configs=C, thorough=[dict(how="order", pol=2, kin=k) for k in ("libxcke", "vonweiz")], ms=30000)
def partitions(env):
    c = env.cfg
    how, pol = c["how"], c["pol"]
    mir = how == "mirror"
    g = symmetric_grid(env, ops=True) if mir else abstract_grid(env, 2, 1, ["Z", "Y", "elap"])
    fake_hartree(env, g, reflect=mir)
    fake_libxc(env, g, reflect=mir, spin=how in ("flip", "partners"))
    nu = env.real("nu_a", pos=True, hi=F(999, 1000)), env.real("nu_b", pos=True, hi=F(999, 1000))
    Za = env.real("Za", pos=True)
    Zb = Za if how == "mirror" else env.real("Zb", pos=True)
    a, b = (describe(env, g, c, second, Za, Zb, nu) for second in (False, True))
    env.eq("summed density", b.nf, a.nf)
    env.eq("density of fragment A", b.na_frac, a.na_frac)
    env.eq("density of fragment B", b.nb_frac, a.nb_frac)
    for k, ks in fragments(a):
        o = getattr(b, source("order", k, True) if how == "order" else source(how, k, True) if how == "partners" else k)
        fl = (lambda x: flip(env, x)) if how == "partners" and k[-1].isupper() else lambda x: x   # noqa
        if how == "same":
            pass                # the two components share the weighing function
        elif how == "flip":
            env.eq(f"weighing function of {k}", 2 * o.Q, ks.Q)
        else:
            env.eq(f"weighing function of {k}", fl(o.Q), ks.Q)
        for t in ("vp_pot", "vp_kin", "vp_h", "vp_x", "vp_c", "vp_hxc", "vp"):
            env.eq(f"{t} of {k}", fl(getattr(o.V, t)), getattr(ks.V, t))
            if how == "same":
                env.eq(f"{t} of the other component {k}", getattr(getattr(b, "KS" + k[-1].upper()).V, t), getattr(ks.V, t))
    if how == "same":
        for x in "ab":
            env.eq("shared weighing function " + x, getattr(b, "KS" + x).Q + getattr(b, "KS" + x.upper()).Q,
                   getattr(a, "KS" + x).Q)
    for t in ("vp_pot", "vp_kin", "vp_h", "vp_x", "vp_c", "vp_hxc", "vp"):
        env.eq("partition potential " + t, getattr(b.V, t), getattr(a.V, t))
    n = tot(env, a.nf)
    for t in ("kin", "h", "x", "c"):
        d = [env.np.asarray(getattr(x.V, "ep_" + t)).reshape(g.Nelem, -1)[:, 0] for x in (a, b)]
        env.eq("energy density ep_" + t, *(integral(env, g, [n[q] * y[q] for q in range(g.Nelem)]) for y in d))
    for t in sorted(set(vars(a.E)) & set(vars(b.E))):
        if t.startswith("evals"):
            continue
        x, y = getattr(a.E, t), getattr(b.E, t)
        if x is not None and how == "partners" and getattr(x, "size", 1) > 1:   # listed per spin: the total counts
            env.eq("energy " + t, env.total(y.reshape(-1)), env.total(x.reshape(-1)))
        elif x is not None:
            env.eq("energy " + t, env.np.asarray(y), env.np.asarray(x))


L = [dict(how=h, pol=1, typ="pdft") for h in ("same", "unused", "order", "mirror")]
L += [dict(how=h, pol=1, typ="sdft") for h in ("same", "order", "mirror")]
L += [dict(how="partners", pol=2, typ=t) for t in ("pdft", "sdft")]
L += [dict(how=h, pol=2, typ="pdft") for h in ("flip", "mirror")] + [dict(how="mirror", pol=1, typ="pdft", ens=True),
      dict(how="mirror", pol=2, typ="pdft", ss=True), dict(how="mirror", pol=1, typ="pdft", it=3)]


@harness("C34", configs=L, ms=30000)
def loop(env):
    """the self-consistency loop of the fragments, with the answers of the orbital solvers arbitrary"""
    c = env.cfg
    how, pol, it = c["how"], c["pol"], c.get("it", 2)
    mir = how == "mirror"
    g = symmetric_grid(env, ops=True) if mir else abstract_grid(env, 2, 1, ["Z", "Y", "elap"])
    P = g.Nelem
    fake_hartree(env, g, reflect=mir)
    fake_libxc(env, g, reflect=mir, spin=how in ("flip", "partners"))
    nu = env.real("nu_a", pos=True, hi=F(999, 1000)), env.real("nu_b", pos=True, hi=F(999, 1000))
    Za = env.real("Za", pos=True)
    Zb = Za if mir else env.real("Zb", pos=True)
    alpha, tol = env.real("alpha", lo=0, hi=1), env.real("tol", pos=True, hi=1)
    out = []
    for second in (False, True):
        ss, ab = c.get("ss", False) or (how in ("flip", "partners") and second), mir and second
        p = partition(env, g, pol, weights(c, second, nu), dict(
            kinetic_part_type="none", interaction_type="dft", xc_family="lda", xfunc_id=101, cfunc_id=130, ens_spin_sym=ss,
            ab_sym=ab), Za=Za, Zb=Zb)
        log = {}
        for k, ks in fragments(p):
            side, back = source(how, k, second), lambda x: x.copy()     # noqa
            if mir and k[-1] in "bB":
                side, back = {"KSb": "KSa", "KSB": "KSA"}[k], lambda x: refl(env, g, x)      # noqa
            partner = how == "partners" and k[-1].isupper()
            if partner:
                back = lambda x: flip(env, x)       # noqa
            log[k] = []

            def calc_density(*a, k=k, ks=ks, log=log, side=side, back=back, **kw):
                log[k].append(env.np.concatenate([ks.solver[0, j].veff.copy().reshape(-1) for j in range(pol)]))
                n = env.array(f"out{side}{len(log[k])}", (P, pol), pos=True)
                return back(n + flip(env, n) if how == "flip" else n)

            def calc_chempot(*a, k=k, ks=ks, log=log, side=side, **kw):
                ks.u = env.real(f"u{side}{len(log[k])}")
            ks.calc_density, ks.calc_chempot = calc_density, calc_chempot
            for j in range(pol):
                w = ks.solver[0, j]
                w.eig = env.array("eig" + side, 1)

                def calc_energy(w=w, k=k, log=log, side=side):
                    w.eks, w.Vs, w.Ts = (env.real(f"{x}{side}{len(log[k])}") for x in ("eks", "Vs", "Ts"))
                w.calc_energy = calc_energy
        tots = []

        def energy(*a, p=p, tots=tots, **kw):
            p.E.E = env.real(f"Etot{len(tots)}", nonzero=True)
            p.E.Ea = p.E.Eb = 0
            tots.append((p.nf.copy(), p.V.vp.copy()))
        p.energy = energy
        p.scf(dict(max_iter=it, alpha=[alpha], e_tol=tol, calc_type=c["typ"], disp=False))
        out.append((p, log, tots))
    (a, la, ta), (b, lb, tb) = out
    env.true("as many iterations", len(ta) == len(tb), f"{len(ta)} {len(tb)}")
    for t, (x, y) in enumerate(zip(ta, tb)):
        env.eq(f"summed density {t}", y[0], x[0])
        env.eq(f"partition potential {t}", y[1], x[1])
    for k, ks in fragments(a):
        o = source("order", k, True) if how == "order" else source(how, k, True) if how == "partners" else k
        fl = (lambda x: flip(env, x)) if how == "partners" and k[-1].isupper() else lambda x: x   # noqa
        if not (mir and k[-1] in "bB"):
            env.true(f"as many solutions of {k}", len(la[k]) == len(lb[o]), f"{len(la[k])} {len(lb[o])}")
            for t, (x, y) in enumerate(zip(la[k], lb[o])):
                env.eq(f"potential {t} of {k}", y if fl(b.nf) is b.nf else env.np.concatenate([y[P:], y[:P]]), x)
        env.eq(f"final density of {k}", fl(getattr(b, o).n), ks.n)
        env.eq(f"final effective potential of {k}", fl(getattr(b, o).veff), ks.veff)
    env.eq("final summed density", b.nf, a.nf)
