"""Protomolecular density, ensemble weights and weighing functions: a real Partition is executed on an arbitrary grid
with arbitrary component densities and ensemble mixing fractions.  z3 decides that the fragment densities are the
weighted component sums (with spin-flipped partners when asked), that the weighing functions are component over total,
zero where the total vanishes, and sum to one wherever it does not, and that mirroring makes fragment B the exact
reflection of fragment A with A's energies."""
from engine.run import harness
from .grids import abstract_grid, integral
from .part import partition, fragments, scale, flip, mirror, densities

BOUNDS = ("2 grid points (4 for reflection), 1-2 spins, plain / both-sided / one-sided ensembles, with and without "
          "spin-flipped partners; densities and mixing fractions symbolic")
ASSUMPTIONS = ["component densities are non-negative (C12)", "0 < nu <= 1"]
C = [dict(pol=p, ens=e, ss=False) for p in (1, 2) for e in (None, "both", "left", "right")]
C += [dict(pol=2, ens=e, ss=True) for e in (None, "both", "left", "right")]


def build(env, c, Nr=1, opt=None, **kw):
    g = abstract_grid(env, 2, Nr, ["Z", "Y"])
    nu = None
    if c.get("ens"):
        a = env.real("nu_a", pos=True, hi=1)
        b = env.real("nu_b", pos=True, hi=1)
        env.assume("<", a, 1)
        env.assume("<", b, 1)
        nu = dict(both=(a, b), left=(a, 1), right=(1, b), same=(a, a))[c["ens"]]
    o = dict(interaction_type="ni", ens_spin_sym=c.get("ss", False), ab_sym=c.get("ab", False))
    o.update(opt or {})
    p = partition(env, g, c["pol"], nu, o, **kw)
    return g, p, nu


@harness("C20", configs=C)
def protomolecule(env):
    c = env.cfg
    pol, ss = c["pol"], c["ss"]
    g, p, nu = build(env, c)
    P = g.Nelem
    env.true("ensemble recognised", bool(p.ens) == (nu is not None))
    densities(env, p, pol, nonneg=True)
    keep = {k: ks.n.copy() for k, ks in fragments(p)}
    for k, ks in fragments(p):
        env.eq(f"weight of {k}", ks.scale, scale(k, nu, ss))
    p.calc_protomolecule()
    spec = {}
    for side, have in (("a", p.na_frac), ("b", p.nb_frac)):
        s = env.np.zeros((P, pol))
        for k, ks in fragments(p, side):
            s = s + keep[k] * scale(k, nu, ss)
        if ss:
            s = s + flip(env, s)
        spec[side] = s
        env.eq(f"density of fragment {side}", have, s)
        if ss:
            env.eq(f"spin symmetric {side}", have, flip(env, have))
    env.eq("total density", p.nf, spec["a"] + spec["b"])
    for k, ks in fragments(p):
        env.eq(f"component density untouched {k}", ks.n, keep[k])


@harness("C20", configs=C)
def weighing(env):
    c = env.cfg
    pol, ss = c["pol"], c["ss"]
    env.div_ieee()
    g, p, nu = build(env, c)
    P = g.Nelem
    densities(env, p, pol, nonneg=True)
    p.calc_protomolecule()
    # the total may vanish at the first point: explored by giving it a value of its own
    p.calc_Q()
    nf = p.nf
    for s in range(pol):
        for q in range(P):
            zero = bool(nf[q, s] == 0)
            tot = 0
            for k, ks in fragments(p):
                if zero:
                    env.eq(f"no weight where there is no density {k} {q}{s}", ks.Q[q, s], 0)
                else:
                    env.eq(f"weighing function {k} {q}{s}", ks.Q[q, s] * nf[q, s], scale(k, nu, ss) * ks.n[q, s])
                    env.ge(f"not negative {k} {q}{s}", ks.Q[q, s], 0)
                tot = tot + ks.Q[q, s]
                if ss:
                    tot = tot + ks.Q[q, pol - 1 - s]
            if not zero:
                env.eq(f"partition of unity {q}{s}", tot, 1)


@harness("C20", configs=[dict(pol=p, ens=e, ss=False, ab=True) for p in (1, 2) for e in (None, "same")] +
         [dict(pol=2, ens=e, ss=True, ab=True) for e in (None, "same")])
def reflected_fragment(env):
    c = env.cfg
    pol = c["pol"]
    g, p, nu = build(env, c, Nr=2)
    P = g.Nelem
    names = ["vx", "vc", "vh", "vp", "ex", "ec", "eh"]
    keep = {}
    for k, ks in fragments(p, "a"):
        for f in ("n", "Q", "veff", "vext"):
            setattr(ks, f, env.array(f + k, (P, pol)))
            keep[k, f] = getattr(ks, f).copy()
        for f in names:
            x = env.array(f + k, P if f[0] == "e" else (P, pol))
            setattr(ks.V, f, x)
            keep[k, f] = x.copy()
        for f in ("E", "Ts", "Eks", "Enuc"):
            setattr(ks.E, f, env.real(f + k))
        ks.u = env.real("u" + k)
    p.mirrorAB()
    for k, ks in fragments(p, "a"):
        other = getattr(p, dict(KSa="KSb", KSA="KSB")[k])
        for f in ("n", "Q", "veff", "vext"):
            env.eq(f"{f} of the reflected {k}", getattr(other, f), mirror(env, g, keep[k, f]))
            env.eq(f"{f} of {k} untouched", getattr(ks, f), keep[k, f])
        for f in names:
            env.eq(f"{f} of the reflected {k}", getattr(other.V, f), mirror(env, g, keep[k, f]))
            env.eq(f"{f} of {k} untouched", getattr(ks.V, f), keep[k, f])
        for f in ("E", "Ts", "Eks", "Enuc"):
            env.eq(f"energy {f} of the reflected {k}", getattr(other.E, f), getattr(ks.E, f))
        env.eq(f"chemical potential of the reflected {k}", other.u, ks.u)
        # later changes of one fragment do not leak into the other
        ks.n[0, 0] = 0
        ks.E.E = 0
        env.eq(f"separate copies {k}", other.n[1, 0], keep[k, "n"][0, 0])
        env.true(f"separate energies {k}", other.E is not ks.E)
