"""Fragment energies and the total of a partition calculation: a real Partition is executed on an arbitrary grid with
arbitrary component densities, energies, eigenvalues and ensemble fractions.  z3 decides that every reported fragment
energy is the ensemble-weighted sum over that fragment's own components (spin-flipped partners counted once each), that
the sum over fragments, the partition energy, the nuclear repulsion and the total add up, that reflected fragments
report the energies of the original, and that isolated fragments have no partition energy."""
from engine.run import harness
from .grids import integral
from .part import fragments, scale, flip, FIELDS
from .c20 import build
from .ks import fake_hartree, fake_libxc

BOUNDS = ("2 grid points, 1-2 spins, plain / both-sided / one-sided ensembles, spin-flipped partners, reflection "
          "symmetry, isolated fragments; interacting and non-interacting; all energies symbolic")
C = [dict(pol=p, ens=e, it=i) for p in (1, 2) for e in (None, "both") for i in ("ni", "dft")]
C += [dict(pol=2, ens=e, ss=True, it=i) for e in (None, "both") for i in ("ni", "dft")]
C += [dict(pol=p, ens=e, ab=True, it="dft") for p in (1, 2) for e in (None, "same")]
C += [dict(pol=2, ens=None, ss=True, ab=True, it="ni"), dict(pol=1, ens="left", it="ni"), dict(pol=1, ens="right", it="ni")]
C += [dict(pol=2, ens="same", ss=True, ab=True, it=i) for i in ("ni", "dft")] + [dict(pol=1, ens="same", ab=True, it="ni", iso=True)]
C += [dict(pol=2, ens="left", ss=True, it="dft"), dict(pol=2, ens="right", it="dft"), dict(pol=2, ens="right", ss=True, it="ni", iso=True),
      dict(pol=2, ens=None, ss=True, ab=True, it="dft", iso=True), dict(pol=1, ens="left", it="dft", iso=True)]
C += [dict(pol=1, ens=None, it="dft", iso=True), dict(pol=2, ens="both", it="ni", iso=True)]


@harness("C21", configs=C)
def totals(env):
    c = env.cfg
    pol, ss, ab, dft, iso = c["pol"], c.get("ss", False), c.get("ab", False), c["it"] == "dft", c.get("iso", False)
    opt = dict(interaction_type=c["it"], kinetic_part_type="none", isolated=iso)
    if dft:
        opt.update(xc_family="lda", xfunc_id=101, cfunc_id=130)
    g, p, nu = build(env, c, opt=opt)
    if dft:
        fake_hartree(env, g)
        fake_libxc(env, g)
    Za, Zb = env.real("Za", pos=True), env.real("Zb", pos=True)
    p.Za, p.Zb = Za, Zb
    vals, evs = {}, {}
    P = g.Nelem
    for k, ks in fragments(p):
        src = k if not ab else k[:2] + {"b": "a", "B": "A"}.get(k[2], k[2])
        for f in FIELDS:
            vals[k, f] = env.real(f + src)
            setattr(ks.E, f, vals[k, f])
        vals[k, "Eks"] = env.array("Eks" + src, (1, pol))
        ks.E.Eks = vals[k, "Eks"].copy()
        evs[k] = env.array("ev" + src, 2)
        ks.E.evals = evs[k].copy()
        ks.n = env.array("n" + k, (P, pol), pos=True)
        for f in ("vh", "vx", "vc"):
            setattr(ks.V, f, env.array(f + k, (P, pol)))
        ks.V.eh = env.array("eh" + k, P)
        ks.V.ex = env.array("ex" + k, (P, 1))
        ks.V.ec = env.array("ec" + k, (P, 1))
    p.calc_protomolecule()
    p.calc_Q()
    if dft and not iso:
        p.vp_hxc()
    p.energy()
    E = p.E
    mult = 2 if ss else 1

    def side(x, f):
        return env.total(mult * scale(k, nu, ss) * vals[k, f] for k, _ in fragments(p, x))
    env.eq("energy of fragment A", E.Ea, side("a", "E"))
    env.eq("energy of fragment B", E.Eb, side("b", "E"))
    env.eq("fragment energies", E.Ef, side("a", "E") + side("b", "E"))
    names = dict(Tsf="Ts", Enucf="Enuc")
    if dft:
        names.update(Exf="Ex", Ecf="Ec", Ehf="Eh", Vhxcf="Vhxc")
    for a, b in names.items():
        env.eq("fragment sum " + a, getattr(E, a), side("a", b) + side("b", b))
    have = env.np.asarray(E.Eksf).reshape(-1)
    if ss:
        env.eq("eigenvalue sum", env.total(have), env.total(mult * scale(k, nu, ss) * vals[k, "Eks"][0, s]
                                                            for k, _ in fragments(p) for s in range(pol)))
    for s in range(0 if ss else pol):
        want = env.total(mult * scale(k, nu, ss) * vals[k, "Eks"][0, s] for k, _ in fragments(p))
        env.eq(f"eigenvalue sum of spin {s}", have[s], want)
    if iso:
        env.eq("no partition energy", E.Ep, 0)
    else:
        env.eq("partition energy", E.Ep, E.Ep_pot + E.Ep_kin + E.Ep_hxc)
        if not dft:
            env.eq("no interaction energy", E.Ep_hxc, 0)
    env.eq("electronic energy", E.Et, E.Ef + E.Ep)
    env.eq("nuclear repulsion", E.Vnn, Za * Zb / (2 * g.a))
    env.eq("total energy", E.E, E.Et + E.Vnn)
    for x, have in (("a", E.evals_a), ("b", E.evals_b)):
        want = [v for k, _ in fragments(p, x) for v in evs[k]]
        env.true(f"number of levels {x}", len(have) == len(want), f"{len(have)}")
        for i in range(len(want)):
            env.eq(f"level {i} of {x}", have[i], want[i])
