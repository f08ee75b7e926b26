"""Partition potential: a real Partition is executed on an arbitrary grid with arbitrary component densities and
potentials (functional library, Hartree solver and inverter are contracts).  z3 decides that every component's nuclear,
kinetic, Hartree, exchange and correlation embedding potentials are the potential of the summed density minus the
component's own, that the component's embedding potential is their sum, and that the global potential and each of its
reported parts is the weighing-function average over all components (with spin-flipped partners and reflection
symmetrisation when asked)."""
from engine.run import harness
from .grids import integral
from .part import fragments, scale, flip, mirror
from .c20 import build
from .c22 import fill_components, symmetric_weights, CS, CAB
from .ks import fake_hartree, fake_libxc

BOUNDS = ("2 grid points, 1-2 spins, plain and ensemble components, spin-flipped partners, reflection symmetry; kinetic "
          "forms vonweiz / libxcke / inversion / none / twoorbital; hxc forms exact (interacting or not) and hartree; everything symbolic")
ASSUMPTIONS = ["component densities are positive", "no level lies below -1e6"]
K = [dict(c, kin=k, it="dft") for c in CS + CAB for k in ("none",)]
K += [dict(c, kin=k, it="ni") for c in CS for k in ("none", "vonweiz", "libxcke")]
K += [dict(pol=2, ens="both", kin="none", it="dft", form="hartree"), dict(pol=1, ens=None, kin="vonweiz", it="dft"),
      dict(pol=1, ens=None, ab=True, kin="libxcke", it="dft"), dict(pol=2, ens="same", ab=True, ss=True, kin="libxcke", it="ni"),
      dict(pol=2, ens="same", ab=True, kin="vonweiz", it="ni"), dict(pol=1, ens="same", ab=True, kin="none", it="dft", form="hartree"),
      dict(pol=2, ens="both", ss=True, kin="libxcke", it="dft", form="hartree")]


def vweiz(env, g, n):
    """functional derivative of the von Weizsaecker energy, per spin column"""
    P, S = n.shape
    out = []
    for q in range(P):
        for s in range(S):
            r = env.arr([n[i, s] ** 0.5 for i in range(P)])
            out.append(-(g.elap @ r)[q] / (2 * g.w[q] * r[q]))
    return env.arr(out, (P, S))


def average(env, g, p, c, pots):
    """weighing-function average of component potentials"""
    P, pol = p.nf.shape
    t = env.np.zeros((P, pol))
    for k, ks in fragments(p):
        t = t + pots[k] * ks.Q
    if c.get("ss"):
        t = t + flip(env, t)
    if c.get("ab"):
        t = (t + mirror(env, g, t)) / 2
    return t


@harness("C23", configs=K)
def components(env):
    c = env.cfg
    pol, kin, dft, form = c["pol"], c["kin"], c["it"] == "dft", c.get("form", "exact")
    g, p, nu = build(env, c, opt=dict(kinetic_part_type=kin, k_family="lda", ke_func_id=50, interaction_type=c["it"],
                                      xc_family="lda", xfunc_id=101, cfunc_id=130, hxc_part_type=form))
    symmetric_weights(env, g, c)
    P = g.Nelem
    vh = fake_hartree(env, g)
    fake_libxc(env, g)
    fill_components(env, g, p, pol, c)
    vmol = env.array("vmol", (P, pol))
    p.V.vext = vmol.copy()
    own = {}
    for k, ks in fragments(p):
        own[k] = env.array("vnuc" + k, (P, pol))
        ks.vnuc = own[k].copy()
    dens = {k: ks.n.copy() for k, ks in fragments(p)}
    Q = {k: ks.Q.copy() for k, ks in fragments(p)}
    vp = p.partition_potential()
    L = env.mod("libxc.libxc").Libxc
    zero = env.np.zeros((P, pol))
    parts = dict(vp=lambda k: total[k])
    pot, kinp, h, x, cc, total = {}, {}, {}, {}, {}, {}
    for k, ks in fragments(p):
        pot[k] = vmol - own[k]
        if kin == "vonweiz":
            kinp[k] = vweiz(env, g, p.nf) - vweiz(env, g, ks.n)
        elif kin == "libxcke":
            T = L(g, "lda", 50)
            kinp[k] = T.get_xc(p.nf)[1] - T.get_xc(ks.n)[1]
        else:
            kinp[k] = zero
        if dft:
            H = vh(p.nf)
            H = env.arr([H[q] for q in range(P) for _ in range(pol)], (P, pol))
            h[k] = H - ks.V.vh
            x[k] = L(g, "lda", 101).get_xc(p.nf)[1] - ks.V.vx
            cc[k] = L(g, "lda", 130).get_xc(p.nf)[1] - ks.V.vc
        else:
            h[k] = x[k] = cc[k] = zero
        hxc = h[k] + x[k] + cc[k] if form == "exact" else h[k]
        total[k] = pot[k] + kinp[k] + hxc
        for nm, want in (("vp_pot", pot[k]), ("vp_kin", kinp[k]), ("vp_h", h[k]), ("vp_x", x[k]), ("vp_c", cc[k]),
                         ("vp_hxc", hxc), ("vp", total[k])):
            env.eq(f"{nm} of {k}", getattr(ks.V, nm), want)
        env.eq(f"density of {k} untouched", ks.n, dens[k])
        env.eq(f"weight of {k} untouched", ks.Q, Q[k])
    hx = {k: h[k] + x[k] + cc[k] if form == "exact" else h[k] for k in h}
    for nm, d in (("vp_pot", pot), ("vp_kin", kinp), ("vp_h", h), ("vp_x", x), ("vp_c", cc), ("vp_hxc", hx),
                  ("vp", total)):
        env.eq("average " + nm, getattr(p.V, nm), average(env, g, p, c, d))
    env.eq("returned potential", vp, average(env, g, p, c, total))


INV = [dict(pol=p, ens=e, kin="inversion") for p in (1, 2) for e in (None, "both")]
INV += [dict(pol=2, ens=e, ss=s, kin="inversion", rows=2) for e, s in (("both", False), (None, True), ("both", True))]
INV += [dict(pol=2, ens=None, ss=True, kin="inversion"), dict(pol=1, ens=None, kin="inversion", rows=2),
        dict(pol=1, ens=None, kin="inversion", rows=2, rows_b=1), dict(pol=1, ens=None, kin="inversion", rows=1, rows_b=2),
        dict(pol=1, ens=None, kin="inversion", rows=3), dict(pol=1, ens=None, kin="inversion", rows=1, rows_b=3)]


@harness("C23", configs=INV)
def inversion(env):
    """kinetic part from the Euler equation: u - veff for every component, the inverter's answer for the molecule"""
    c = env.cfg
    pol, rows, ss = c["pol"], c.get("rows", 1), c.get("ss", False)
    g, p, nu = build(env, c, opt=dict(kinetic_part_type="inversion"), rows=rows,
                     rows_b=c.get("rows_b"))
    P = g.Nelem
    fill_components(env, g, p, pol, c)
    homos = []
    for k, ks in fragments(p):
        for i in range(ks.Nmo.shape[0]):
            for j in range(pol):
                if p.ens and j == 1:
                    ks.solver[i, j].homo = None           # an empty channel
                    continue
                h = env.real(f"homo{k}{i}{j}", lo=-10 ** 6)
                ks.solver[i, j].homo = h
                homos.append(h)
    calls = []

    class Inv:
        solver = env.np.empty((1, pol), dtype=object)
        vs = env.array("ivs", (P, pol))
        us = env.array("ius", (1, pol))

        def invert(self, nt, vs0, phi0, e0, ispin):
            calls.append((nt, vs0, phi0, e0, ispin))
            return True, "info"

        def get_vt(self):
            return env.array("vtmol", (P, pol))
    p.inverter = Inv()
    guess = {}

    def initialguessinvert(ispin=0):
        guess[ispin] = (env.array(f"phi0{ispin}", (P, 2)), env.array(f"e0{ispin}", 2), env.array(f"vs0{ispin}", (P, 1)))
        return guess[ispin]
    p.initialguessinvert = initialguessinvert
    p.vp_kinetic()
    env.true("one inversion per independent spin", [x[4] for x in calls] == list(range(1 if ss else pol)), str(len(calls)))
    for nt, vs0, phi0, e0, s in calls:
        env.eq(f"target density of spin {s}", env.np.asarray(nt).reshape(-1), pol * p.nf[:, s])
        env.eq(f"initial potential of spin {s}", env.np.asarray(vs0).reshape(-1), guess[s][2].reshape(-1))
        env.eq(f"initial orbitals of spin {s}, one after the other", env.np.asarray(phi0).reshape(-1),
               env.arr([guess[s][0][q, i] for i in range(2) for q in range(P)]))
        env.eq(f"initial levels of spin {s}", env.np.asarray(e0).reshape(-1), guess[s][1])
    env.eq("molecular potential", p.V.vt, env.array("vtmol", (P, pol)))
    u = homos[0]
    for h in homos[1:]:
        if h > u:
            u = h
    for k, ks in fragments(p):
        env.eq(f"Euler equation of {k}", ks.V.vt, u - ks.veff)
        env.eq(f"kinetic embedding potential of {k}", ks.V.vp_kin, p.V.vt - (u - ks.veff))


@harness("C23", configs=[dict(pol=1, ens=None)])
def two_orbitals(env):
    """derivative of the kinetic energy of the two orbitals built from the fragment densities (two electrons each)"""
    c = env.cfg
    g, p, nu = build(env, c, opt=dict(kinetic_part_type="twoorbital"))
    P = g.Nelem
    fill_components(env, g, p, 1, c)
    p.vp_kinetic()
    n = [p.KSa.n[:, 0], p.KSb.n[:, 0]]
    d = [n[0][q] ** 0.5 - n[1][q] ** 0.5 for q in range(P)]
    C = integral(env, g, [x ** 2 for x in d])
    f1 = env.arr([x / C ** 0.5 for x in d])
    f2 = env.arr([((n[0][q] + n[1][q]) / 2 - f1[q] ** 2) ** 0.5 for q in range(P)])
    T = lambda f: env.arr([-(g.elap @ f)[q] / (2 * g.w[q]) for q in range(P)])  # noqa
    t1, t2 = T(f1), T(f2)
    e1 = integral(env, g, [f1[q] * t1[q] for q in range(P)])
    e2 = integral(env, g, [f1[q] ** 2 * t2[q] / f2[q] for q in range(P)])
    for k, ks, m, sg in (("KSa", p.KSa, n[0], 1), ("KSb", p.KSb, n[1], -1)):
        r = [(C * m[q]) ** -0.5 * sg for q in range(P)]          # 1/2 of it: response of the difference orbital
        mol = env.arr([2 * (r[q] * (t1[q] - f1[q] * e1) + t2[q] / f2[q] * (0.5 - r[q] * f1[q]) + r[q] * f1[q] * e2)
                       for q in range(P)])
        s = env.arr([m[q] ** 0.5 for q in range(P)])
        env.eq(f"kinetic embedding potential of {k}", ks.V.vp_kin[:, 0], mol - T(s) / s)
