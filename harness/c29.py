"""Total energy of a partition calculation, end to end: a real Partition whose fragments carry arbitrary levels,
kinetic energies, densities and potentials computes fragment energies, partition potential, partition energy and total with the real code
(functional library, Hartree solver: contracts that depend on the density handed in).  z3 decides that the total is the energy
functional of the summed density - attraction to both nuclei, Hartree, exchange and correlation of the whole, nuclear
repulsion - plus the fragments' kinetic energies and the non-additive kinetic part, so that fragment contributions cancel
exactly, and that the weighted fragment potentials add up to the molecular one."""
from fractions import Fraction as F
from engine.run import harness
from .grids import integral
from .part import fragments, scale, flip
from .c20 import build
from .c23 import average
from .c22 import symmetric_weights, tot, CS, CAB
from .ks import fake_hartree, fake_libxc

BOUNDS = ("2 grid points, 1-2 spins, plain and ensemble components, spin-flipped partners, reflection "
          "symmetry; kinetic part none / libxcke; LDA-type functionals; everything continuous symbolic")
ASSUMPTIONS = ["component densities are positive", "the functional library treats both spins alike; with reflection symmetry grid, Hartree solver and functional library are reflection symmetric (C03, C07, C09, C10)"]
C = [dict(c, kin=k) for c in CS for k in ("none", "libxcke")] + [dict(c, kin="none") for c in CAB]
C += [dict(pol=1, ens=None, ab=True, kin="libxcke"), dict(pol=1, ens="left", kin="none"), dict(pol=1, ens="right", kin="none")]
C += [dict(pol=2, ens="right", kin="libxcke")]
T = [dict(pol=2, ens="same", ab=True, kin="libxcke"), dict(pol=2, ens="left", kin="libxcke"), dict(pol=2, ens=None, ss=True, ab=True, kin="libxcke")]


@harness("C29", configs=C, thorough=T, ms=30000)
def total_energy(env):
    c = env.cfg
    pol, ss, ab, kin = c["pol"], c.get("ss", False), c.get("ab", False), c["kin"]
    g, p, nu = build(env, c, opt=dict(kinetic_part_type=kin, k_family="lda", ke_func_id=50, interaction_type="dft",
                                      xc_family="lda", xfunc_id=101, cfunc_id=130))
    symmetric_weights(env, g, c)
    P = g.Nelem
    if ab:
        g.Xa = env.arr([g.Xa[0], env.pi - g.Xa[0]])
        g.Xr = env.arr([g.Xr[0], g.Xr[0]])
        g.Z = env.arr([g.Z[0], -g.Z[0]])
        g.Y = env.arr([g.Y[0], g.Y[0]])
    vh = fake_hartree(env, g, reflect=ab)
    fake_libxc(env, g, reflect=ab, spin=ss)
    Za = env.real("Za", pos=True)
    Zb = Za if ab else env.real("Zb", pos=True)
    p.Za, p.Zb = Za, Zb
    p.calc_nuclear_potential()
    for k, ks in fragments(p):
        ks.Za, ks.Zb = (Za, 0) if k[-1] in "aA" else (0, Zb)
        ks.calc_nuclear_potential()
    live = fragments(p, "a" if ab else None)
    Ts = {}
    for k, ks in live:
        ks.n = env.array("n" + k, (P, pol), pos=True)
        ks.vext = env.array("vext" + k, (P, pol))
        ks.calc_hxc_potential()
        ks.set_effective_potential()
        for j in range(pol):
            o = ks.solver[0, j]
            o.eig = env.array(f"eig{k}{j}", 1)

            def calc_energy(o=o, t=f"{k}{j}"):
                o.eks, o.Vs, o.Ts = env.real("eks" + t), env.real("Vs" + t), env.real("Ts" + t)
            o.calc_energy = calc_energy
        ks.energy()
        Ts[k] = ks.E.Ts
    if ab:
        p.mirrorAB()
        for a, b in (("KSa", "KSb"), ("KSA", "KSB")):
            if a in Ts:
                Ts[b] = Ts[a]
    p.calc_protomolecule()
    p.calc_Q()
    if ab:
        p.mirrorAB()
    p.partition_potential()
    p.energy()
    mult = 2 if ss else 1
    # summed density, from the definition
    n = env.np.zeros((P, pol))
    for k, ks in fragments(p):
        x = scale(k, nu, ss) * ks.n
        n = n + (x + flip(env, x) if ss else x)
    env.eq("summed density", p.nf, n)
    coul = env.mod("common.coulomb").coulomb
    v = coul(g, Za, 0) + coul(g, 0, Zb)
    nt = tot(env, n)
    L = env.mod("libxc.libxc").Libxc
    Ex, vx = L(g, "lda", 101).get_xc(p.nf)
    Ec, vc = L(g, "lda", 130).get_xc(p.nf)
    h = vh(p.nf)
    T = env.total(mult * scale(k, nu, ss) * Ts[k] for k, _ in fragments(p))
    if kin == "libxcke":
        K = L(g, "lda", 50)
        T = T + K.get_xc(p.nf)[0] - env.total(mult * scale(k, nu, ss) * K.get_xc(ks.n)[0] for k, ks in fragments(p))
    E = T + integral(env, g, [nt[q] * (v[q] + h[q] / 2) for q in range(P)]) + Ex + Ec
    env.eq("electronic energy is that of the whole", p.E.Et, E)
    env.eq("total energy", p.E.E, E + Za * Zb / (2 * g.a))
    # embedding potentials: own potential plus embedding potential is the molecular potential, component by component
    # and, with the kinetic part aside, averaged with the weighing functions
    mol = env.arr([v[q] + h[q] + vx[q, s] + vc[q, s] for q in range(P) for s in range(pol)], (P, pol))
    own = {k: ks.vnuc + ks.V.vh + ks.V.vx + ks.V.vc for k, ks in fragments(p)}
    if kin == "none":
        for k, ks in fragments(p):
            env.eq(f"embedded potential of {k}", own[k] + ks.V.vp, mol)
    env.eq("averaged embedding potential", average(env, g, p, c, own) + p.V.vp - p.V.vp_kin, mol)


@harness("C29", configs=[dict(pol=1, ens=None), dict(pol=2, ens="both"), dict(pol=2, ens=None, ss=True)])
def density_alone_matters(env):
    """with the kinetic parts set aside, moving density between fragments at fixed sum leaves the total unchanged"""
    c = env.cfg
    pol, ss = c["pol"], c.get("ss", False)
    g, p, nu = build(env, c, opt=dict(kinetic_part_type="none", interaction_type="dft", xc_family="lda", xfunc_id=101,
                                      cfunc_id=130))
    P = g.Nelem
    fake_hartree(env, g)
    fake_libxc(env, g)
    p.Za, p.Zb = env.real("Za", pos=True), env.real("Zb", pos=True)
    p.calc_nuclear_potential()
    dens = {k: env.array("n" + k, (P, pol), pos=True) for k, _ in fragments(p)}
    # the same total: what A gives up is added to B, according to their weights
    d = env.array("moved", (P, pol))
    first, last = fragments(p, "a")[0][0], fragments(p, "b")[-1][0]
    moved = {k: x for k, x in dens.items()}
    moved[first] = dens[first] - d * env.num(scale(last, nu, ss))
    moved[last] = dens[last] + d * env.num(scale(first, nu, ss))
    for q in range(P):
        for s in range(pol):
            env.assume(">", moved[first][q, s], F(1, 100))
            env.assume(">", moved[last][q, s], F(1, 100))
    out = []
    for D in (dens, moved):
        for k, ks in fragments(p):
            ks.Za, ks.Zb = (p.Za, 0) if k[-1] in "aA" else (0, p.Zb)
            ks.calc_nuclear_potential()
            ks.n = D[k].copy()
            ks.vext = env.array("vext" + k, (P, pol))
            ks.calc_hxc_potential()
            ks.set_effective_potential()
            for j in range(pol):
                o = ks.solver[0, j]
                o.eig = env.array(f"eig{k}{j}", 1)

                def calc_energy(o=o, t=f"{k}{j}"):
                    o.eks, o.Vs, o.Ts = env.real("eks" + t), env.real("Vs" + t), env.real("Ts" + t)
                o.calc_energy = calc_energy
            ks.energy()
        p.calc_protomolecule()
        p.calc_Q()
        p.partition_potential()
        p.energy()
        out.append((p.nf.copy(), p.E.E, p.E.Et, p.E.Vnn))
    for nm, x, y in zip(("density", "total energy", "electronic energy", "nuclear repulsion"), *out):
        env.eq(nm, y, x)
