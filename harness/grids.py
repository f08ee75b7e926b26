"""Grid builders and discretisation oracles shared by the harnesses.

The oracles are written from the definitions (Taylor/Vandermonde conditions,
reflection parity, prolate-spheroidal metric), not from the repository code."""
from fractions import Fraction as F

import numpy as np

STENCIL = {p: list(range(-p, p + 1)) for p in range(1, 9)}


def real_grid(env, NP, NM, loc, factor=False, a=None, L=None):
    """A grid initialised by the real code, with symbolic a and L by default."""
    P = env.mod("psgrid.psgrid").Psgrid
    a = env.real("a", pos=True) if a is None else a
    L = env.real("L", pos=True) if L is None else L
    g = P(NP, list(NM), a, L, np.array(loc, dtype=int))
    if factor:
        g.initialize()
    else:
        env.mod("psgrid.initialize").initialize(g, factor=False)
    return g


_VEC = {"Xa": dict(pos=True), "Xr": dict(pos=True), "h1": dict(pos=True), "wi": dict(pos=True), "w": dict(pos=True),
        "f": dict(pos=True)}
_OPS = ("elap", "olap", "grada", "gradr", "diva", "divr")


def abstract_grid(env, Na, Nr, ops=()):
    """A Psgrid object whose state is arbitrary: weights, spacings and
    operators are fresh variables (created when first used), so what is shown
    for it holds for every grid of that shape.  The methods are the real ones."""
    base = env.mod("psgrid.psgrid").Psgrid
    n = Na * Nr

    def make(g, k):
        np = env.np
        if k in _VEC:
            return env.array({"f": "fcent"}.get(k, k), n, **_VEC[k])
        if k in ("hr", "ha"):
            return env.real(k, pos=True)
        if k in _OPS:
            return env.smat(env.array(k, (n, n)))
        if k == "R":
            return 2 * g.a
        if k == "h2":
            return g.h1.copy()
        if k == "h3":
            return g.w / (g.h1 * g.h1)
        if k == "Z":
            return env.array("Z", n) if "Z" in ops else g.a * np.cosh(g.Xr) * np.cos(g.Xa)
        if k == "Y":
            return env.array("Y", n, pos=True) if "Y" in ops else g.a * np.sinh(g.Xr) * np.sin(g.Xa)
        raise AttributeError(k)

    class Psgrid(base):
        def __getattr__(self, k):
            if k.startswith("__"):
                raise AttributeError(k)
            v = make(self, k)
            self.__dict__[k] = v
            return v
    a = env.real("a", pos=True)
    L = env.real("L", pos=True)
    g = Psgrid(2, [1, 1], a, L, np.array([-1, 0, 1]))
    for k in [k for k, v in g.__dict__.items() if v is None]:
        del g.__dict__[k]
    g.Na, g.Nr, g.Nelem = Na, Nr, n
    g.DISP = False
    return g


def weights(env, g):
    """quadrature weight per point, from the definition of the integral"""
    pref = 2 * env.pi * g.hr * g.ha
    return [pref * g.w[i] * g.wi[i] for i in range(g.Nelem)]


def integral(env, g, f):
    """2 pi hr ha sum w wi f"""
    return env.total(c * f[i] for i, c in enumerate(weights(env, g)))


def measure(env, g, f):
    """size of a (points, spins) field per spin, by the grid's own integral of the array (what that integral is, is the
    subject of C07)"""
    r = env.np.asarray(g.integrate(abs(f)))
    return [r] * f.shape[1] if r.ndim == 0 else [r.reshape(-1, f.shape[1])[0, s] for s in range(f.shape[1])]


def vandermonde_solve(nodes, rhs):
    """exact c with sum_j c_j nodes_j**k = rhs[k], k = 0..n-1"""
    n = len(nodes)
    M = [[F(x) ** k for x in nodes] + [F(rhs[k])] for k in range(n)]
    for c in range(n):
        p = next(r for r in range(c, n) if M[r][c] != 0)
        M[c], M[p] = M[p], M[c]
        d = M[c][c]
        M[c] = [x / d for x in M[c]]
        for r in range(n):
            if r != c and M[r][c] != 0:
                f = M[r][c]
                M[r] = [x - f * y for x, y in zip(M[r], M[c])]
    return [M[r][n] for r in range(n)]


def fd(loc, deriv):
    """stencil coefficients: exact on polynomials of degree < len(loc)"""
    import math
    return vandermonde_solve(loc, [math.factorial(deriv) if k == deriv else 0 for k in range(len(loc))])


def stencil_apply(env, coef, loc, u, h, parity, outer, ext=None):
    """sum_k coef_k u(i + loc_k) / h**order on a half-shifted line: values left
    of the line are parity * reflected values; right of it reflected with the
    same parity (outer='mirror'), zero, or taken from ext."""
    n = len(u)

    def val(i):
        if i < 0:
            return parity * u[-1 - i]
        if i >= n:
            if outer == "mirror":
                return parity * u[2 * n - 1 - i]
            if outer == "zero":
                return 0
            return ext[i - n]
        return u[i]
    return [env.total(c * val(i + l) for c, l in zip(coef, loc) if c != 0) / h for i in range(n)]


def angle(env, g_Na, i):
    return env.pi * F(2 * i + 1, 2 * g_Na)


def radius(env, L, Nr, i):
    return L * F(2 * i + 1, 2 * Nr)
