"""Exchange-correlation energy and potential: the functional library is a contract returning arbitrary values per
(functional, spin treatment); the real wrapper is executed on an arbitrary grid with arbitrary gradient and
divergence operators; z3 decides that the library receives the density and the three contractions of its spin
gradients, that the energy is the integral of n eps, and that the potential is vrho minus the divergence of
2 vsigma_ss grad n_s + vsigma_ab grad n_s' for each spin, for LDA and GGA, spin-restricted and polarised."""
from engine.run import harness
from .grids import abstract_grid, integral

BOUNDS = "2x2 and 3x2 points, all operators, weights, densities and library outputs symbolic; 1 and 2 spins; LDA and GGA"
ASSUMPTIONS = ["pylibxc returns zk (points,1), vrho (points,spins), vsigma (points,1 or 3) for the inputs it is given"]
C = [dict(Na=a, Nr=2, pol=p, fam=f) for a in (2, 3) for p in (1, 2) for f in ("lda", "gga") if a == 2 or p == 2]


@harness("C10", configs=C)
def exchange_correlation(env):
    c = env.cfg
    pol, gga = c["pol"], c["fam"] == "gga"
    g = abstract_grid(env, c["Na"], c["Nr"], ["grada", "gradr", "diva", "divr"])
    N = g.Nelem
    calls = []

    def libxc(fid, p, inp):
        calls.append((fid, p, {k: env.np.asarray(v).copy() for k, v in inp.items()}))
        out = dict(zk=env.array(f"zk{fid}", (N, 1)), vrho=env.array(f"vrho{fid}", (N, p)))
        if "sigma" in inp:
            out["vsigma"] = env.array(f"vsigma{fid}", (N, 1 if p == 1 else 3))
        return out
    env.libxc = libxc
    X = env.mod("libxc.libxc").Libxc(g, c["fam"], 101)
    n = env.array("n", (N, pol))
    keep = n.copy()
    E, v = X.get_xc(n)
    E2, eps, v2 = X.get_xc(n, return_epsilon=True)
    env.true("library called", len(calls) >= 1)
    ga, gr = g.grada @ keep, g.gradr @ keep
    dot = lambda s, t: ga[:, s] * ga[:, t] + gr[:, s] * gr[:, t]     # noqa: E731
    for fid, p, inp in calls:
        env.true("functional id and spin treatment", fid == 101 and p == pol, f"{fid} {p}")
        env.eq("density ingredient", inp["rho"].reshape(N, pol), keep)
        if gga:
            s = inp["sigma"].reshape(N, -1)
            for k, (a, b) in enumerate([(0, 0)] if pol == 1 else [(0, 0), (0, 1), (1, 1)]):
                env.eq(f"contraction {k}", s[:, k], dot(a, b))
    zk, vrho = env.array("zk101", (N, 1)), env.array("vrho101", (N, pol))
    nt = [env.total(keep[i, s] for s in range(pol)) for i in range(N)]
    spec = integral(env, g, env.arr([zk[i, 0] * nt[i] for i in range(N)]))
    env.eq("energy", E, spec)
    env.eq("energy, with epsilon", E2, spec)
    env.eq("energy per particle", env.np.asarray(eps).reshape(N), zk[:, 0])
    for s in range(pol):
        spec = vrho[:, s]
        if gga:
            vs = env.array("vsigma101", (N, 1 if pol == 1 else 3))
            ss = vs[:, 0 if s == 0 else 2]
            fa, fr = 2 * ss * ga[:, s], 2 * ss * gr[:, s]
            if pol == 2:
                fa, fr = fa + vs[:, 1] * ga[:, 1 - s], fr + vs[:, 1] * gr[:, 1 - s]
            spec = spec - (g.diva @ fa + g.divr @ fr)
        env.eq(f"potential of spin {s}", v[:, s], spec)
        env.eq(f"potential of spin {s}, with epsilon", v2[:, s], spec)
    env.shape("potential per spin", v, (N, pol))
    env.eq("density untouched", n, keep)


@harness("C10", configs=[dict(fam="mgga"), dict(fam="")])
def unknown_family(env):
    g = abstract_grid(env, 2, 1)
    env.libxc = lambda fid, p, inp: dict(zk=env.array("zk", (2, 1)), vrho=env.array("v", (2, p)))
    X = env.mod("libxc.libxc").Libxc(g, env.cfg["fam"], 1)
    env.raises("unknown functional family is refused", ValueError, lambda: X.get_xc(env.array("n", (2, 1))))
