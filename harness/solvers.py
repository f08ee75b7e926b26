"""Helpers to set up orbital solvers with arbitrary contents."""
from fractions import Fraction as F

from .grids import abstract_grid, integral

# electrons per filled level: (m == 0?, pol) -> degeneracy
DEG = {(0, 1): 2, (0, 2): 1, (1, 1): 4, (1, 2): 2}


def deg(m, pol):
    return DEG[min(m, 1), pol]


def one_solver(env, g, Nmo, N, m=0, pol=1, opt=None, nopt=None):
    """the solver of angular momentum m and spin column 0, made by the real factory"""
    P = env.mod("pssolver.pssolver").Pssolver
    rows = m + 1
    Ns = [[0] * pol for _ in range(rows)]
    Nm = [[1] * pol for _ in range(rows)]
    for j in range(pol):
        Ns[m][j], Nm[m][j] = N, Nmo
    s = P(g, Nm, Ns, dict(opt or {}))
    return s[m, 0]


def occupations(env, N, d, Nmo, fractional):
    """level fillings for N electrons, d per level; forks on the integer part"""
    x = N / d if not isinstance(N, (int, F)) else F(N) / d
    full = 0
    while full < Nmo and x >= full + 1:
        full += 1
    occ = [1] * full
    nu = x - full
    part = bool(nu > 0)
    if fractional and part:
        occ.append(nu)
    occ += [0] * (Nmo - len(occ))
    return occ, full, nu, part


def norm2(env, g, phi, i):
    return integral(env, g, [phi[k, i] ** 2 for k in range(g.Nelem)])
