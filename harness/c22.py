"""Components of the partition energy: a real Partition is executed on an arbitrary grid with arbitrary component
densities (functional library, Hartree solver and inverter are contracts).  z3 decides that the potential part is the
attraction of each fragment's electrons to the other nucleus, that the Hartree, exchange, correlation and kinetic parts
are the functional of the summed density minus the weighted functionals of the components, whatever ensemble, spin
symmetry and reflection symmetry is used, that the requested functional form combines them, and that the stored
non-additive energy densities integrate to the energies."""
from fractions import Fraction as F
from engine.run import harness
from .grids import integral
from .part import fragments, scale, flip, mirror, densities
from .c20 import build
from .ks import fake_hartree, fake_libxc

BOUNDS = ("2 grid points, 1-2 spins, plain and ensemble components, spin-flipped partners, reflection symmetry; "
          "kinetic forms vonweiz / libxcke / inversion / none / twoorbital; hxc forms exact / hartree / overlap_xc / "
          "overlap_hxc; densities, weights, operators and library values symbolic")
ASSUMPTIONS = ["component densities are positive",
               "with reflection symmetry the grid weights are reflection symmetric (C03, C07)"]
CS = [dict(pol=p, ens=e) for p in (1, 2) for e in (None, "both")] + [dict(pol=2, ens=e, ss=True) for e in (None, "both")]
CAB = [dict(pol=p, ens=e, ab=True) for p in (1, 2) for e in (None, "same")] + [dict(pol=2, ens=e, ss=True, ab=True) for e in (None, "same")]


def symmetric_weights(env, g, c):
    if c.get("ab"):
        g.w = env.arr([g.w[0], g.w[0]])
        g.wi = env.arr([g.wi[0], g.wi[0]])


def tot(env, a):
    return [env.total(a[q, s] for s in range(a.shape[1])) for q in range(a.shape[0])]


def fill_components(env, g, p, pol, c):
    """arbitrary components; with ab_sym fragment B is the reflection of A"""
    P = g.Nelem
    for k, ks in fragments(p, "a" if c.get("ab") else None):
        ks.n = env.array("n" + k, (P, pol), pos=True)
        for f in ("vh", "vx", "vc"):
            setattr(ks.V, f, env.array(f + k, (P, pol)))
        ks.V.eh = env.array("eh" + k, P)
        ks.V.ex = env.array("ex" + k, (P, 1))
        ks.V.ec = env.array("ec" + k, (P, 1))
        ks.veff = env.array("veff" + k, (P, pol))
        ks.vext = env.array("vext" + k, (P, pol))
        ks.u = env.real("u" + k)
        n = tot(env, ks.n)
        ks.E.Eh = integral(env, g, [n[q] * ks.V.eh[q] for q in range(P)])
        ks.E.Ex = integral(env, g, [n[q] * ks.V.ex[q, 0] for q in range(P)])
        ks.E.Ec = integral(env, g, [n[q] * ks.V.ec[q, 0] for q in range(P)])
        ks.E.E, ks.E.Ts, ks.E.Enuc, ks.E.Vhxc = (env.real(f + k) for f in ("E", "Ts", "Enuc", "Vhxc"))
        ks.E.Eks = env.array("Eks" + k, (1, pol))
        ks.E.evals = env.array("ev" + k, 1)
    if pol == 2 or c.get("ab"):
        for _, ks in fragments(p):
            ks.V.frozen = False         # as the self-consistency loop leaves it
    if c.get("ab"):
        p.mirrorAB()
    p.calc_protomolecule()
    p.calc_Q()
    if c.get("ab"):
        p.mirrorAB()


@harness("C22", configs=CS)
def nuclear(env):
    c = env.cfg
    g, p, nu = build(env, c, opt=dict(kinetic_part_type="none"))
    P = g.Nelem
    Za, Zb = env.real("Za", pos=True), env.real("Zb", pos=True)
    p.Za, p.Zb = Za, Zb
    p.calc_nuclear_potential()
    coul = env.mod("common.coulomb").coulomb
    va, vb = coul(g, Za, 0), coul(g, 0, Zb)
    for s in range(c["pol"]):
        env.eq(f"molecular potential {s}", p.V.vext[:, s], va + vb)
    densities(env, p, c["pol"])
    p.calc_protomolecule()
    p.ep_nuclear()
    mult = 2 if c.get("ss") else 1
    na, nb = [0] * P, [0] * P
    for k, ks in fragments(p):
        n = tot(env, ks.n)
        for q in range(P):
            if k in ("KSa", "KSA"):
                na[q] = na[q] + mult * scale(k, nu, c.get("ss")) * n[q]
            else:
                nb[q] = nb[q] + mult * scale(k, nu, c.get("ss")) * n[q]
    env.eq("attraction to the other nucleus", p.E.Ep_pot,
           integral(env, g, [na[q] * vb[q] + nb[q] * va[q] for q in range(P)]))


@harness("C22", configs=CS + CAB)
def hxc(env):
    c = env.cfg
    pol, ss = c["pol"], c.get("ss", False)
    g, p, nu = build(env, c, opt=dict(kinetic_part_type="none", interaction_type="dft", xc_family="lda", xfunc_id=101,
                                      cfunc_id=130))
    symmetric_weights(env, g, c)
    P = g.Nelem
    vh = fake_hartree(env, g)
    fake_libxc(env, g)
    fill_components(env, g, p, pol, c)
    p.partition_potential()
    p.energy()
    L = env.mod("libxc.libxc").Libxc
    n = tot(env, p.nf)
    h = vh(p.nf)
    mult = 2 if ss else 1
    W = lambda f: env.total(mult * scale(k, nu, ss) * getattr(ks.E, f) for k, ks in fragments(p))  # noqa
    Ex, vx = L(g, "lda", 101).get_xc(p.nf)
    Ec, vc = L(g, "lda", 130).get_xc(p.nf)
    spec = dict(h=integral(env, g, [n[q] * h[q] for q in range(P)]) / 2 - W("Eh"), x=Ex - W("Ex"), c=Ec - W("Ec"))
    for k, v in spec.items():
        env.eq(f"non-additive energy {k}", getattr(p.E, "Ep_" + k), v)
        d = env.np.asarray(getattr(p.V, "ep_" + k))
        env.true(f"energy density {k} is a field", d.shape in ((P,), (P, 1), (P, pol)), str(d.shape))
        d = d.reshape(P, -1)
        env.eq(f"energy density {k} integrates to the energy", integral(env, g, [n[q] * d[q, 0] for q in range(P)]), v)
    env.eq("exact form", p.E.Ep_hxc, spec["h"] + spec["x"] + spec["c"])


@harness("C22", configs=[dict(pol=1, ens=None, form="hartree"), dict(pol=2, ens="both", form="hartree"),
                         dict(pol=1, ens=None, form="overlap_xc"), dict(pol=2, ens="both", form="overlap_xc"),
                         dict(pol=2, ens=None, ss=True, form="overlap_xc"),
                         dict(pol=1, ens=None, form="overlap_hxc"), dict(pol=2, ens="both", form="overlap_hxc"),
                         dict(pol=2, ens=None, ss=True, form="overlap_hxc"),
                         dict(pol=2, ens="both", ss=True, form="hartree"), dict(pol=1, ens="both", form="overlap_xc"),
                         dict(pol=2, ens="both", ss=True, form="overlap_xc"), dict(pol=1, ens="both", form="overlap_hxc"),
                         dict(pol=2, ens="both", ss=True, form="overlap_hxc")])
def forms(env):
    c = env.cfg
    pol, ss = c["pol"], c.get("ss", False)
    g, p, nu = build(env, c, opt=dict(kinetic_part_type="none", interaction_type="dft", xc_family="lda", xfunc_id=101,
                                      cfunc_id=130, hxc_part_type=c["form"]))
    P = g.Nelem
    g.wi = env.array("wi", P, pos=True, hint=(0.001, 0.02))      # small overlaps, where the switch is not saturated
    fake_hartree(env, g)
    fake_libxc(env, g)
    fill_components(env, g, p, pol, c)
    p.partition_potential()
    p.energy()
    E = p.E
    if c["form"] == "hartree":
        env.eq("Hartree part only", E.Ep_hxc, E.Ep_h)
        return
    a = tot(env, p.na_frac)
    b = tot(env, p.nb_frac)
    S = integral(env, g, [(a[q] * b[q]) ** 0.5 for q in range(P)])
    env.eq("overlap", E.S, S)
    f = env.mod("partition.vp_overlap").erf(2 * S)
    env.eq("switching factor", E.F, f)
    if c["form"] == "overlap_xc":
        env.eq("overlap exchange-correlation", E.Ep_hxc, E.Ep_h + f * (E.Ep_x + E.Ep_c))
        return
    mult = 2 if ss else 1
    H = 0
    if p.ens or ss:
        for k, ks in fragments(p):
            o = dict(KSa="KSB", KSA="KSb", KSb="KSA", KSB="KSa")[k] if p.ens else dict(KSa="KSb", KSb="KSa")[k]
            v = getattr(p, o).V.vh
            v = flip(env, v) if not p.ens else v
            e = integral(env, g, [env.total(ks.n[q, s] * v[q, s] for s in range(pol)) for q in range(P)]) / 2
            H = H + mult * scale(k, nu, ss) * e
    env.eq("correlated Hartree energy", E.Ehcor, H)
    env.eq("overlap hxc", E.Ep_hxc, f * (E.Ep_h + E.Ep_x + E.Ep_c) + (1 - f) * H)


KIN = [dict(c, kin=k) for k in ("vonweiz", "libxcke", "inversion", "none") for c in CS]
KIN += [dict(pol=p, ens=None, rows=r, kin="inversion") for p, r in ((1, 2), (2, 2), (1, 3))]
KIN += [dict(pol=2, ens=e, ss=s, rows=2, kin="inversion") for e, s in (("both", False), (None, True), ("both", True))]
KIN += [dict(c, kin=k) for c in CAB for k in ("inversion", "vonweiz", "libxcke")]


def tw(env, g, n):
    """von Weizsaecker energy of the spin densities n[q, s]"""
    return integral(env, g, tloc(env, g, n))


def tloc(env, g, n):
    """its energy density"""
    P = g.Nelem
    e = [0] * P
    for s in range(n.shape[1]):
        r = env.arr([n[q, s] ** 0.5 for q in range(P)])
        t = g.elap @ r
        for q in range(P):
            e[q] = e[q] - r[q] * t[q] / (2 * g.w[q])
    return e


@harness("C22", configs=KIN)
def kinetic(env):
    c = env.cfg
    pol, ss, kin, rows = c["pol"], c.get("ss", False), c["kin"], c.get("rows", 1)
    g, p, nu = build(env, c, opt=dict(kinetic_part_type=kin, k_family="lda", ke_func_id=50), rows=rows)
    symmetric_weights(env, g, c)
    P = g.Nelem
    fake_libxc(env, g)
    fill_components(env, g, p, pol, c)
    mult = 2 if ss else 1
    n = tot(env, p.nf)
    if kin == "vonweiz":
        p.ep_kinetic()
        spec = tw(env, g, p.nf) - env.total(mult * scale(k, nu, ss) * tw(env, g, ks.n) for k, ks in fragments(p))
    elif kin == "libxcke":
        p.vp_kinetic()
        p.ep_kinetic()
        T = env.mod("libxc.libxc").Libxc(g, "lda", 50)
        spec = T.get_xc(p.nf)[0] - env.total(mult * scale(k, nu, ss) * T.get_xc(ks.n)[0] for k, ks in fragments(p))
    elif kin == "inversion":
        mol = env.array("tmol", (P, pol))
        Tm = integral(env, g, tot(env, mol))

        class Inverter:
            def get_ts_WFI(self):
                return mol.copy()

            def get_Ts(self):
                return Tm
        p.inverter = Inverter()
        for k, ks in fragments(p, "a" if c.get("ab") else None):
            t = 0
            for i in range(rows):
                for j in range(pol):
                    s = ks.solver[i, j]
                    ked = env.array(f"ked{k}{i}{j}", (P, 1))
                    s.ked_WFI = ked

                    def set_ked(s=s, ked=ked):
                        s.ked_WFI = ked.copy()
                    s.calc_ked_WFI = set_ked
                    t = t + integral(env, g, ked[:, 0])
            ks.E.Ts = t
        if c.get("ab"):
            p.mirrorAB()
        p.ep_kinetic()
        spec = Tm - env.total(mult * scale(k, nu, ss) * ks.E.Ts for k, ks in fragments(p))
    else:
        p.vp_kinetic()
        p.ep_kinetic()
        spec = 0
    env.shape("kinetic part is a number", p.E.Ep_kin, ())
    env.eq("non-additive kinetic energy", p.E.Ep_kin, spec)
    d = env.np.asarray(p.V.ep_kin)
    env.true("energy density is a field", d.shape in ((P,), (P, 1)), str(d.shape))
    d = d.reshape(P, -1)
    if kin == "vonweiz":        # point by point: the same statement, as the integration weights are arbitrary
        m, e = tloc(env, g, p.nf), [0] * P
        for k, ks in fragments(p):
            t = tloc(env, g, ks.n)
            e = [e[q] + mult * scale(k, nu, ss) * t[q] for q in range(P)]
        env.eq("energy density integrates to the energy", [n[q] * d[q, 0] for q in range(P)], [m[q] - e[q] for q in range(P)])
        return
    env.eq("energy density integrates to the energy", integral(env, g, [n[q] * d[q, 0] for q in range(P)]), spec)


@harness("C22", configs=[dict(pol=1, ens=None), dict(pol=1, ens=None, ab=True)])
def two_orbitals(env):
    """kinetic energy of the two orbitals made of the fragment densities, minus the von Weizsaecker energies"""
    c = env.cfg
    g, p, nu = build(env, c, opt=dict(kinetic_part_type="twoorbital"))
    symmetric_weights(env, g, c)
    P = g.Nelem
    fill_components(env, g, p, 1, c)
    p.ep_kinetic()
    a, b = p.na_frac, p.nb_frac
    d = [a[q, 0] ** 0.5 - b[q, 0] ** 0.5 for q in range(P)]
    C = integral(env, g, [x ** 2 for x in d])
    N = integral(env, g, tot(env, p.nf))
    f1 = env.arr([(N / 2) ** 0.5 * x / C ** 0.5 for x in d])
    f2 = env.arr([(p.nf[q, 0] - f1[q] ** 2) ** 0.5 for q in range(P)])
    T = lambda f: integral(env, g, [-f[q] * (g.elap @ f)[q] / (2 * g.w[q]) for q in range(P)])  # noqa
    own = 2 * tw(env, g, p.KSa.n) if c.get("ab") else tw(env, g, p.KSa.n) + tw(env, g, p.KSb.n)
    spec = T(f1) + T(f2) - own
    env.eq("non-additive kinetic energy", p.E.Ep_kin, spec)
    k = env.np.asarray(p.V.ep_kin).reshape(P, -1)
    env.eq("energy density integrates to the energy",
           integral(env, g, [p.nf[q, 0] * k[q, 0] for q in range(P)]), spec)
