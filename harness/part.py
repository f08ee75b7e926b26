"""Partition objects with arbitrary contents.  The Hartree solver, the functional library and the eigensolver are
contracts (decided by C09, C10, C11); fragments carry arbitrary densities, potentials and energies; the partition
routines are the repository's code."""
from .grids import abstract_grid, integral

FIELDS = ("E", "Ts", "Enuc", "Ex", "Ec", "Eh", "Vhxc")


def partition(env, g, pol=1, ens=None, opt=None, rows=1, Nmo=1, N=None, Za=1, Zb=1, rows_b=None):
    """ens: None for nu = 1, else the pair (nu_a, nu_b) of numbers or symbols"""
    P = env.mod("partition.partition").Partition
    one = [[Nmo] * pol for _ in range(rows)]
    n = N if N is not None else [[1] * pol for _ in range(rows)]
    oneb, nb = one, n
    if rows_b is not None:
        oneb, nb = [[Nmo] * pol for _ in range(rows_b)], [[1] * pol for _ in range(rows_b)]
    if ens is None:
        return P(g, Za, Zb, pol, one, n, 1, oneb, nb, 1, dict(opt or {}))
    return P(g, Za, Zb, pol, [one, one], [n, n], ens[0], [oneb, oneb], [nb, nb], ens[1], dict(opt or {}))


def fragments(p, only=None):
    """(name, Kohn-Sham object) of every component, A side first"""
    a = ["KSa", "KSA"] if p.ens else ["KSa"]
    b = ["KSb", "KSB"] if p.ens else ["KSb"]
    nm = {None: a + b, "a": a, "b": b}[only]
    return [(k, getattr(p, k)) for k in nm]


def _half(w):
    from fractions import Fraction
    return Fraction(w) / 2 if isinstance(w, int) else w / 2


def scale(k, nu, ss):
    """weight of one component (halved when its spin-flipped partner is added separately)"""
    if nu is None:
        w = 1
    else:
        x = nu[0] if k[-1] in "aA" else nu[1]
        w = x if k[-1].isupper() else 1 - x
    return _half(w) if ss else w


def flip(env, a):
    n, s = a.shape
    return env.arr([a[q, s - 1 - j] for q in range(n) for j in range(s)], (n, s))


def mirror(env, g, a):
    Na = g.Na
    if len(a.shape) == 1:
        return env.arr([a[(Na - 1 - k % Na) + Na * (k // Na)] for k in range(a.shape[0])])
    return env.arr([a[(Na - 1 - k % Na) + Na * (k // Na), j] for k in range(a.shape[0]) for j in range(a.shape[1])],
                   a.shape)


def densities(env, p, pol, **dom):
    for k, ks in fragments(p):
        ks.n = env.array("n" + k, (p.grid.Nelem, pol), **(dom or dict(pos=True)))
