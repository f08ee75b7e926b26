"""Overlap functionals: a real Partition is executed on an arbitrary grid with arbitrary component densities (functional
library and Hartree solver are contracts).  z3 decides that the stored overlap derivatives are the derivatives of the
overlap with respect to each component's density (the total densities enter the overlap, so both spins share them), and
that the overlap-weighted embedding potentials are the product-rule derivatives of the overlap-weighted energies they
belong to."""
from engine.run import harness
from .grids import integral
from .part import fragments, scale, flip
from .c20 import build
from .c22 import fill_components, tot
from .ks import fake_hartree, fake_libxc

BOUNDS = ("2 grid points, 1-2 spins, plain and ensemble components, with and without spin-flipped partners; forms "
          "overlap_xc and overlap_hxc; everything symbolic")
ASSUMPTIONS = ["component densities are positive"]
C = [dict(pol=p, ens=e, form=f) for p in (1, 2) for e in (None, "both") for f in ("overlap_xc", "overlap_hxc")]
C += [dict(pol=2, ens=e, ss=True, form=f) for e in (None, "both") for f in ("overlap_xc", "overlap_hxc")]


@harness("C24", configs=C, ms=30000)
def overlap(env):
    c = env.cfg
    pol, ss = c["pol"], c.get("ss", False)
    g, p, nu = build(env, c, opt=dict(kinetic_part_type="none", interaction_type="dft", xc_family="lda", xfunc_id=101,
                                      cfunc_id=130, hxc_part_type=c["form"]))
    P = g.Nelem
    g.wi = env.array("wi", P, pos=True, hint=(0.001, 0.02))      # small overlaps, where the switch is not saturated
    vh = fake_hartree(env, g)
    fake_libxc(env, g)
    fill_components(env, g, p, pol, c)
    p.partition_potential()
    E = p.E
    na, nb = tot(env, p.na_frac), tot(env, p.nb_frac)
    np = env.np
    dF0 = 4 * np.exp(-(2 * E.S) ** 2)
    L = env.mod("libxc.libxc").Libxc
    H = vh(p.nf)
    vx, vc = L(g, "lda", 101).get_xc(p.nf)[1], L(g, "lda", 130).get_xc(p.nf)[1]
    for k, ks in fragments(p):
        me, other = (na, nb) if k in ("KSa", "KSA") else (nb, na)
        w = scale(k, nu, ss)
        dS = env.np.asarray(ks.V.dSdn)
        env.shape(f"derivative for every spin {k}", dS, (P, pol))
        for q in range(P):
            for s in range(pol):
                # dS/dn >= 0 and (dS/dn)^2 = w^2 other / (4 mine) determine it
                env.eq(f"overlap derivative {k} {q}{s}", 4 * dS[q, s] ** 2 * me[q], w * w * other[q])
                env.ge(f"its sign {k} {q}{s}", dS[q, s], 0)
                env.eq(f"switching derivative {k} {q}{s}", ks.V.dFdn[q, s] * env.pi ** 0.5, dF0 * dS[q, s])
                h, x, cc = H[q] - ks.V.vh[q, s], vx[q, s] - ks.V.vx[q, s], vc[q, s] - ks.V.vc[q, s]
                dF = ks.V.dFdn[q, s]
                if c["form"] == "overlap_xc":
                    want = h + E.F * (x + cc) + (E.Ep_x + E.Ep_c) * dF
                else:
                    if p.ens:
                        v = getattr(p, dict(KSa="KSB", KSA="KSb", KSb="KSA", KSB="KSa")[k]).V.vh[q, s]
                    elif ss:
                        v = getattr(p, dict(KSa="KSb", KSb="KSa")[k]).V.vh[q, pol - 1 - s]
                    else:
                        v = 0
                    want = E.F * (h + x + cc) + (E.Ep_h + E.Ep_x + E.Ep_c) * dF + (1 - E.F) * v - E.Ehcor * dF
                env.eq(f"product rule {k} {q}{s}", ks.V.vp_hxc[q, s], want)


@harness("C24", configs=[dict(pol=1, ens=None), dict(pol=2, ens=None), dict(pol=1, ens="both"), dict(pol=2, ens=None, ss=True)],
         ms=30000)
def weighted_density(env):
    """like every other part, the switch enters the potential per unit of weighted component density"""
    c = env.cfg
    pol = c["pol"]
    g, p, nu = build(env, c, opt=dict(kinetic_part_type="none", interaction_type="dft", xc_family="lda", xfunc_id=101,
                                      cfunc_id=130, hxc_part_type="overlap_xc"))
    P = g.Nelem
    g.wi = env.array("wi", P, pos=True, hint=(0.001, 0.02))
    fake_hartree(env, g)
    fake_libxc(env, g)
    fill_components(env, g, p, pol, c)
    p.partition_potential()
    E = p.E
    a, b = tot(env, p.na_frac), tot(env, p.nb_frac)
    dF0 = 4 * env.np.exp(-(2 * E.S) ** 2)
    xc = E.Ep_x + E.Ep_c
    lhs, rhs = [], []
    for k, ks in fragments(p):
        me, other = (a, b) if k in ("KSa", "KSA") else (b, a)
        for q in range(P):
            for s in range(pol):
                rest = ks.V.vp_h[q, s] + E.F * (ks.V.vp_x[q, s] + ks.V.vp_c[q, s])
                lhs.append(2 * (ks.V.vp_hxc[q, s] - rest) * env.pi ** 0.5 * me[q] ** 0.5)
                rhs.append(xc * dF0 * other[q] ** 0.5)
    env.eq("change of the switch per density" if c["ens"] is None and not c.get("ss") else
           "change of the switch per weighted density", lhs, rhs)


@harness("C24", configs=[dict(pol=p, side=s) for p in (1, 2) for s in ("a", "b", "both")])
def empty_regions(env):
    """where one or both fragments have no density the derivatives are zero for the side that would blow up"""
    c = env.cfg
    pol = c["pol"]
    env.div_ieee()
    g, p, nu = build(env, dict(pol=pol), opt=dict(kinetic_part_type="none"))
    P = g.Nelem
    g.wi = env.array("wi", P, pos=True, hint=(0.001, 0.02))
    for k, ks in fragments(p):
        ks.n = env.array("n" + k, (P, pol), pos=True)
        if c["side"] in (k[-1], "both"):
            for s in range(pol):
                ks.n[0, s] = env.num(0)
    p.calc_protomolecule()
    p.vp_overlap()
    na, nb = tot(env, p.na_frac), tot(env, p.nb_frac)
    for k, ks in fragments(p):
        me, other = (na, nb) if k == "KSa" else (nb, na)
        for s in range(pol):
            env.eq(f"regular point {k} {s}", 4 * ks.V.dSdn[1, s] ** 2 * me[1], other[1])
            env.eq(f"empty region {k} {s}", ks.V.dSdn[0, s], 0)
            env.eq(f"empty region, switch {k} {s}", ks.V.dFdn[0, s], 0)
