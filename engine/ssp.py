"""scipy stand-ins: sparse matrices of symbolic reals with spmatrix semantics,
and contract stubs for the iterative / factorising routines."""
import types
from fractions import Fraction

import numpy as np
import scipy

from . import sym as S
from . import snp
from . import poly as P
from .sym import Sym, EngineLimit, to_sym
from .snp import SArr, sarr, symbolise


class SymMat:
    """A sparse matrix: {(i, j): Sym}."""
    __array_ufunc__ = None
    __array_priority__ = 1000
    _is_symmat = True
    ndim = 2

    def __init__(self, shape, d, is_array=False):
        self.shape = (int(shape[0]), int(shape[1]))
        self.d = d
        self.is_array = is_array
        self.has_canonical_format = True
        self.has_sorted_indices = True

    # -- construction helpers
    @staticmethod
    def from_dense(a, is_array=False):
        a = np.asarray(a)
        if a.ndim == 1:
            a = a[None, :]
        if a.ndim == 0:
            a = a.reshape(1, 1)
        d = {}
        for i in range(a.shape[0]):
            for j in range(a.shape[1]):
                x = a[i, j]
                if not snp._iszero(x):
                    d[i, j] = to_sym(x)
        return SymMat(a.shape, d, is_array)

    def _new(self, shape, d):
        return SymMat(shape, d, self.is_array)

    def toarray(self, order=None, out=None):
        r = snp.zeros(self.shape)
        v = r.view(np.ndarray)
        for (i, j), x in self.d.items():
            v[i, j] = x
        return r

    todense = toarray

    @property
    def A(self):
        return self.toarray()

    @property
    def T(self):
        return self.transpose()

    @property
    def H(self):
        return self.transpose()

    def transpose(self, *a, **k):
        return self._new(self.shape[::-1], {(j, i): x for (i, j), x in self.d.items()})

    def conj(self, *a):
        return self

    conjugate = conj

    def copy(self):
        return self._new(self.shape, dict(self.d))

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def _same(self, *a, **k):
        return self.copy()

    tocsc = tocsr = tocoo = tolil = todia = todok = tobsr = asformat = asfptype = _same
    sorted_indices = _same

    def astype(self, *a, **k):
        return self.copy()

    def sum_duplicates(self):
        pass

    def sort_indices(self):
        pass

    def eliminate_zeros(self):
        pass

    @property
    def real(self):
        return self

    @property
    def dtype(self):
        return np.dtype(float)

    @property
    def nnz(self):
        return len(self.d)

    def getnnz(self, axis=None):
        return len(self.d)

    def count_nonzero(self):
        return len(self.d)

    @property
    def format(self):
        return "csc"

    def diagonal(self, k=0):
        n = min(self.shape[0] + min(k, 0), self.shape[1] - max(k, 0))
        return sarr(np.array([self.d.get((i + max(-k, 0), i + max(k, 0)), to_sym(0))
                              for i in range(n)] + [None], dtype=object)[:-1])

    def setdiag(self, values, k=0):
        v = np.broadcast_to(np.asarray(snp._o(values), dtype=object), (min(self.shape),))
        for i in range(min(self.shape)):
            self.d[i + max(-k, 0), i + max(k, 0)] = to_sym(v[i])

    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and isinstance(shape[0], tuple):
            shape = shape[0]
        return SymMat.from_dense(self.toarray().reshape(shape, order=order), self.is_array)

    def sum(self, axis=None, **k):
        if axis is None:
            t = to_sym(0)
            for x in self.d.values():
                t = t + x
            return t
        return self.toarray().sum(axis=axis, keepdims=True)

    def trace(self):
        t = to_sym(0)
        for (i, j), x in self.d.items():
            if i == j:
                t = t + x
        return t

    def max(self, axis=None):
        return self.toarray().max(axis)

    # -- arithmetic
    def _addm(self, o, sign):
        if self.shape != o.shape:
            raise ValueError("inconsistent shapes")
        d = dict(self.d)
        for k, x in o.d.items():
            y = d.get(k)
            s = (x if sign > 0 else -x) if y is None else (y + x if sign > 0 else y - x)
            if snp._iszero(s):
                d.pop(k, None)
            else:
                d[k] = s
        return self._new(self.shape, d)

    def __add__(self, o):
        if getattr(o, "_is_symmat", False):
            return self._addm(o, 1)
        if _scalar(o):
            if snp._iszero(to_sym(o)):
                return self.copy()
            raise NotImplementedError("adding a nonzero scalar to a sparse array is not supported")
        return self.toarray() + sarr(o)

    __radd__ = __add__

    def __sub__(self, o):
        if getattr(o, "_is_symmat", False):
            return self._addm(o, -1)
        if _scalar(o):
            if snp._iszero(to_sym(o)):
                return self.copy()
            raise NotImplementedError("subtracting a nonzero scalar from a sparse array is not supported")
        return self.toarray() - sarr(o)

    def __rsub__(self, o):
        if _scalar(o):
            if snp._iszero(to_sym(o)):
                return -self
            raise NotImplementedError("subtracting a sparse array from a nonzero scalar is not supported")
        return sarr(o) - self.toarray()

    def __neg__(self):
        return self._new(self.shape, {k: -x for k, x in self.d.items()})

    def _scale(self, c):
        c = to_sym(c)
        if snp._iszero(c):
            return self._new(self.shape, {})
        return self._new(self.shape, {k: x * c for k, x in self.d.items()})

    def __mul__(self, o):
        if _scalar(o):
            return self._scale(o)
        if self.is_array:
            return self.multiply(o)
        return self.__matmul__(o)

    def __rmul__(self, o):
        if _scalar(o):
            return self._scale(o)
        if self.is_array:
            return self.multiply(o)
        return self.__rmatmul__(o)

    def dot(self, o):
        if _scalar(o):
            return self._scale(o)
        return self.__matmul__(o)

    def __matmul__(self, o):
        if _scalar(o):
            raise ValueError("Scalar operands are not allowed, use '*' instead")
        if getattr(o, "_is_symmat", False):
            if self.shape[1] != o.shape[0]:
                raise ValueError("dimension mismatch")
            rows = {}
            for (k, j), y in o.d.items():
                rows.setdefault(k, []).append((j, y))
            d = {}
            for (i, k), x in self.d.items():
                for j, y in rows.get(k, ()):
                    z = x * y
                    w = d.get((i, j))
                    d[i, j] = z if w is None else w + z
            return self._new((self.shape[0], o.shape[1]),
                             {k: v for k, v in d.items() if not snp._iszero(v)})
        a = np.asarray(snp._o(o))
        if a.ndim == 1:
            if a.shape[0] != self.shape[1]:
                raise ValueError("dimension mismatch")
            out = np.empty(self.shape[0], dtype=object)
            out.fill(to_sym(0))
            for (i, j), x in self.d.items():
                y = a[j]
                if not snp._iszero(y):
                    out[i] = out[i] + x * y
            return out.view(SArr)
        if a.ndim != 2 or a.shape[0] != self.shape[1]:
            raise ValueError("dimension mismatch")
        out = np.empty((self.shape[0], a.shape[1]), dtype=object)
        out.fill(to_sym(0))
        for (i, j), x in self.d.items():
            for c in range(a.shape[1]):
                y = a[j, c]
                if not snp._iszero(y):
                    out[i, c] = out[i, c] + x * y
        return out.view(SArr)

    def __rmatmul__(self, o):
        a = sarr(np.asarray(snp._o(o)))
        if a.ndim == 1:
            return self.transpose().__matmul__(a)
        return self.transpose().__matmul__(a.T).T

    def __truediv__(self, o):
        if _scalar(o):
            o = to_sym(o)
            return self._new(self.shape, {k: x / o for k, x in self.d.items()})
        if getattr(o, "_is_symmat", False):
            return self.toarray() / o.toarray()
        return self.multiply(1 / sarr(o))

    def __pow__(self, n):
        if self.is_array:
            return self.power(n)
        r = eye(self.shape[0])
        for _ in range(int(n)):
            r = r @ self
        return r

    def power(self, n, **k):
        return self._new(self.shape, {k2: x ** n for k2, x in self.d.items()})

    def multiply(self, o):
        if _scalar(o):
            return self._scale(o)
        if getattr(o, "_is_symmat", False) and o.shape == self.shape:
            d = {}
            for k, x in self.d.items():
                y = o.d.get(k)
                if y is not None:
                    d[k] = x * y
            return self._new(self.shape, d)
        b = o.toarray() if getattr(o, "_is_symmat", False) else sarr(o)
        b = np.asarray(b)
        if b.ndim == 1:
            b = b[None, :]
        shape = np.broadcast_shapes(self.shape, b.shape)
        if shape != self.shape:
            return SymMat.from_dense(self.toarray() * b)
        b = np.broadcast_to(b, shape)
        return self._new(shape, {k: x * b[k] for k, x in self.d.items() if not snp._iszero(b[k])})

    def __abs__(self):
        return self._new(self.shape, {k: abs(x) for k, x in self.d.items()})

    def __iadd__(self, o):
        return self + o

    def __isub__(self, o):
        return self - o

    # -- indexing
    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key, slice(None))
        i, j = key
        isc = isinstance(i, (int, np.integer)) and not isinstance(i, bool)
        jsc = isinstance(j, (int, np.integer)) and not isinstance(j, bool)
        if isc and jsc:
            ii, jj = int(i), int(j)
            if ii < 0:
                ii += self.shape[0]
            if jj < 0:
                jj += self.shape[1]
            if not (0 <= ii < self.shape[0] and 0 <= jj < self.shape[1]):
                raise IndexError("index out of range")
            return self.d.get((ii, jj), to_sym(0))
        dense = np.asarray(self.toarray())
        i2 = slice(int(i), int(i) + 1 if int(i) != -1 else None) if isc else i
        j2 = slice(int(j), int(j) + 1 if int(j) != -1 else None) if jsc else j
        r = dense[i2, j2]
        if r.ndim == 1:
            r = r[None, :]
        return SymMat.from_dense(r, self.is_array)

    def __setitem__(self, key, val):
        dense = np.asarray(self.toarray())
        if getattr(val, "_is_symmat", False):
            val = val.toarray()
        dense[key] = snp._o(val)
        self.d = SymMat.from_dense(dense).d

    def getrow(self, i):
        return self[i, :]

    def getcol(self, j):
        return self[:, j]

    def __len__(self):
        raise TypeError("sparse matrix length is ambiguous; use getnnz() or shape[0]")

    def __bool__(self):
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    @property
    def data(self):
        return sarr(np.array(list(self.d.values()) + [None], dtype=object)[:-1])

    @property
    def size(self):
        return len(self.d)

    def nonzero(self):
        ks = sorted(self.d)
        return np.array([k[0] for k in ks], dtype=int), np.array([k[1] for k in ks], dtype=int)

    def __repr__(self):
        return f"<SymMat {self.shape} nnz={len(self.d)}>"


def _scalar(o):
    return isinstance(o, Sym) or S.is_number(o) or (isinstance(o, np.ndarray) and o.ndim == 0)


def issparse(x):
    return getattr(x, "_is_symmat", False)


def _construct(is_array):
    def f(arg, shape=None, dtype=None, copy=False):
        if getattr(arg, "_is_symmat", False):
            r = arg.copy()
            r.is_array = is_array
            return r
        if isinstance(arg, tuple):
            if len(arg) == 2 and all(isinstance(x, (int, np.integer)) for x in arg):
                return SymMat(arg, {}, is_array)
            if len(arg) == 2 and isinstance(arg[1], (tuple, list)):
                data, (ri, ci) = arg
                data = np.asarray(snp._o(snp.array(data)), dtype=object)
                d = {}
                for x, i, j in zip(data.ravel(), np.asarray(ri).ravel(), np.asarray(ci).ravel()):
                    k = (int(i), int(j))
                    d[k] = to_sym(x) + d[k] if k in d else to_sym(x)
                if shape is None:
                    shape = (max(k[0] for k in d) + 1, max(k[1] for k in d) + 1)
                return SymMat(shape, d, is_array)
            raise EngineLimit("sparse construction from (data, indices, indptr)")
        return SymMat.from_dense(snp._o(arg) if isinstance(arg, np.ndarray) else snp.array(arg), is_array)
    return f


def eye(m, n=None, k=0, dtype=float, format=None):
    n = m if n is None else n
    d = {}
    for i in range(int(m)):
        if 0 <= i + k < n:
            d[i, i + k] = to_sym(1)
    return SymMat((m, n), d)


def identity(n, dtype="d", format=None):
    return eye(n)


def spdiags(data, diags, m=None, n=None, format=None):
    if m is None and n is None:
        m = n = len(np.atleast_1d(np.asarray(data))[0]) if np.ndim(data) > 1 else len(data)
    elif n is None:
        m, n = m
    data = np.asarray(snp._o(data if isinstance(data, np.ndarray) else snp.array(data)))
    if data.ndim == 1:
        data = data[None, :]
    elif data.ndim > 2:
        raise ValueError("data array must have rank 2")
    offs = np.atleast_1d(np.asarray(diags))
    if data.shape[0] != len(offs):
        raise ValueError("number of diagonals (%d) does not match the number of offsets (%d)"
                         % (data.shape[0], len(offs)))
    d = {}
    for r, k in enumerate(offs):
        k = int(k)
        for j in range(min(n, data.shape[1])):
            i = j - k
            if 0 <= i < m:
                x = data[r, j]
                if not snp._iszero(x):
                    d[i, j] = to_sym(x)
    return SymMat((m, n), d)


def diags(diagonals, offsets=0, shape=None, format=None, dtype=None):
    if np.ndim(offsets) == 0 and not isinstance(offsets, (list, tuple)):
        if isinstance(diagonals, np.ndarray) and diagonals.ndim == 1 or \
                (isinstance(diagonals, (list, tuple)) and diagonals and np.ndim(diagonals[0]) == 0
                 and not isinstance(diagonals[0], np.ndarray)):
            diagonals = [diagonals]
        offsets = [offsets]
    if shape is None:
        k = len(np.asarray(diagonals[0]).ravel()) + abs(int(offsets[0]))
        shape = (k, k)
    d = {}
    for v, k in zip(diagonals, offsets):
        v = np.asarray(snp._o(v if isinstance(v, np.ndarray) else snp.array(v)), dtype=object).ravel()
        k = int(k)
        ln = min(shape[0] + min(k, 0), shape[1] - max(k, 0))
        if len(v) == 1:
            v = [v[0]] * ln
        for t in range(ln):
            x = v[t]
            if not snp._iszero(x):
                d[t + max(-k, 0), t + max(k, 0)] = to_sym(x)
    return SymMat(shape, d)


def _m(x):
    if getattr(x, "_is_symmat", False):
        return x
    return SymMat.from_dense(snp._o(x if isinstance(x, np.ndarray) else snp.array(x)))


def kron(A, B, format=None):
    A, B = _m(A), _m(B)
    d = {}
    for (i, j), x in A.d.items():
        for (k, l), y in B.d.items():
            d[i * B.shape[0] + k, j * B.shape[1] + l] = x * y
    return SymMat((A.shape[0] * B.shape[0], A.shape[1] * B.shape[1]), d)


def bmat(blocks, format=None, dtype=None):
    rows = len(blocks)
    cols = len(blocks[0])
    B = [[None if b is None else _m(b) for b in r] for r in blocks]
    h = [None] * rows
    w = [None] * cols
    for i in range(rows):
        for j in range(cols):
            b = B[i][j]
            if b is None:
                continue
            if h[i] is None:
                h[i] = b.shape[0]
            elif h[i] != b.shape[0]:
                raise ValueError(f"blocks[{i},:] has incompatible row dimensions")
            if w[j] is None:
                w[j] = b.shape[1]
            elif w[j] != b.shape[1]:
                raise ValueError(f"blocks[:,{j}] has incompatible column dimensions")
    d = {}
    ro = 0
    for i in range(rows):
        co = 0
        for j in range(cols):
            b = B[i][j]
            if b is not None:
                for (k, l), x in b.d.items():
                    d[ro + k, co + l] = x
            co += w[j]
        ro += h[i]
    return SymMat((ro, co), d)


def hstack(blocks, format=None, dtype=None):
    return bmat([list(blocks)])


def vstack(blocks, format=None, dtype=None):
    return bmat([[b] for b in blocks])


def block_diag(mats, format=None, dtype=None):
    mats = list(mats)
    n = len(mats)
    ms = [_m(x) for x in mats]
    return bmat([[ms[i] if i == j else SymMat((ms[i].shape[0], ms[j].shape[1]), {})
                  for j in range(n)] for i in range(n)])


def _tri(keep):
    def f(A, k=0, format=None):
        A = _m(A)
        return SymMat(A.shape, {ij: x for ij, x in A.d.items() if keep(ij[0], ij[1], k)})
    return f


# -- linear solvers ---------------------------------------------------------

def _structure(A):
    n = A.shape[0]
    lower = all(i >= j for i, j in A.d)
    upper = all(i <= j for i, j in A.d)
    full = all((i, i) in A.d for i in range(n))
    return lower and full, upper and full


def solve_dense(A, B):
    """x with A x = B (B: n x k object array)."""
    n = A.shape[0]
    if A.shape[0] != A.shape[1]:
        raise ValueError(f"matrix must be square (has shape {A.shape})")
    if B.shape[0] != n:
        raise ValueError(f"matrix - rhs dimension mismatch ({A.shape} - {B.shape[0]})")
    lo, up = _structure(A)
    k = B.shape[1]
    X = np.empty((n, k), dtype=object)
    if lo or up:
        rows = {}
        for (i, j), x in A.d.items():
            if i != j:
                rows.setdefault(i, []).append((j, x))
        order = range(n) if lo else range(n - 1, -1, -1)
        for c in range(k):
            for i in order:
                t = to_sym(B[i, c])
                for j, x in rows.get(i, ()):
                    t = t - x * X[j, c]
                X[i, c] = t / A.d[i, i]
        return X
    if all(x.is_const for x in A.d.values()):
        return snp.solve_exact(np.asarray(A.toarray()), B)
    return contract_solve(A, B)


def contract_solve(A, B):
    """fresh unknowns constrained by A x = B, unique for given (A, B)."""
    import hashlib
    n, k = B.shape
    keyA = str(sorted((ij, sorted(map(str, P.freeze(x.p)))) for ij, x in A.d.items()))
    X = np.empty((n, k), dtype=object)
    for c in range(k):
        b = [to_sym(v) for v in B[:, c]]
        if all(snp._iszero(v) for v in b):
            X[:, c] = [to_sym(0)] * n
            continue
        h = hashlib.sha1((keyA + str([sorted(map(str, P.freeze(v.p))) for v in b])).encode()).hexdigest()[:12]
        vs = [P.U.var(f"solve:{h}:{i}", "contract") for i in range(n)]
        if vs[0].numeric is None:
            cell = {}

            def num(ev, A=A, b=b, n=n, cell=cell):
                if cell.get("ev") is not ev:
                    M = np.zeros((n, n))
                    for (i, j), x in A.d.items():
                        M[i, j] = ev.poly(x.p)
                    cell["x"] = np.linalg.solve(M, np.array([ev.poly(v.p) for v in b]))
                    cell["ev"] = ev
                return cell["x"]
            for i, v in enumerate(vs):
                v.numeric = (lambda ev, i=i, num=num: num(ev)[i])
        xs = [Sym(P.from_var(v)) for v in vs]
        rows = {}
        for (i, j), a in A.d.items():
            rows.setdefault(i, []).append((j, a))
        for i in range(n):
            t = -b[i]
            for j, a in rows.get(i, ()):
                t = t + a * xs[j]
            S.ctx().assumed.append(("==", t.p))
        X[:, c] = xs
    return X


class OpaqueSolve:
    """handle returned by splu / spilu / factorized"""

    def __init__(self, A, natural):
        self._A = A
        self.shape = A.shape
        self._natural = natural
        self._lu = None

    @property
    def perm_r(self):
        return self._factor()[2]

    @property
    def perm_c(self):
        n = self.shape[0]
        return np.arange(n) if self._natural else np.arange(n)[::-1].copy()

    def solve(self, rhs, trans="N"):
        A = self._A if trans == "N" else self._A.T
        b = np.asarray(snp._o(rhs), dtype=object)
        x = solve_dense(A, b[:, None] if b.ndim == 1 else b)
        return sarr(x[:, 0] if b.ndim == 1 else x)

    def _factor(self):
        if self._lu is None:
            A = self._A
            if not self._natural:
                # SuperLU is free to permute: model with the reversed column order
                n = A.shape[1]
                A = SymMat(A.shape, {(i, n - 1 - j): x for (i, j), x in A.d.items()})
            self._lu = lu_exact(A)
        return self._lu

    @property
    def L(self):
        return self._factor()[0]

    @property
    def U(self):
        return self._factor()[1]

    @property
    def nnz(self):
        return len(self._A.d)


class LazyFactor(SymMat):
    """L or U of a symbolic matrix, kept implicit: only usable in spsolve."""

    def __init__(self, A, which):
        SymMat.__init__(self, A.shape, {})
        self.parent = A
        self.which = which

    def copy(self):
        return self

    def _no(self, *a, **k):
        raise EngineLimit("explicit use of a symbolic LU factor")

    def __getitem__(self, k):
        ks = k if isinstance(k, tuple) else (k,)
        for x in ks:
            if not (isinstance(x, slice) and x == slice(None)) and list(np.asarray(snp._o(x)).ravel()) != list(range(self.shape[0])):
                self._no()
        return self

    toarray = __matmul__ = __rmatmul__ = __add__ = __sub__ = __mul__ = transpose = _no


def lu_exact(A):
    if not all(x.is_const for x in A.d.values()):
        # no row interchange is modelled for a matrix that is not a constant one
        return LazyFactor(A, "L"), LazyFactor(A, "U"), np.arange(A.shape[0])
    # partial pivoting as SuperLU does it: the diagonal unless another entry of the column is larger
    n = A.shape[0]
    M = [[A.d.get((i, j), to_sym(0)).const() for j in range(n)] for i in range(n)]
    row = list(range(n))
    Lm = [dict() for _ in range(n)]
    for c in range(n):
        best = max(range(c, n), key=lambda r: (abs(M[r][c]), r == c, -r))
        if M[best][c] == 0:
            raise EngineLimit("LU of a singular matrix")
        M[c], M[best] = M[best], M[c]
        Lm[c], Lm[best] = Lm[best], Lm[c]
        row[c], row[best] = row[best], row[c]
        for r in range(c + 1, n):
            if M[r][c] != 0:
                f = M[r][c] / M[c][c]
                Lm[r][c] = f
                for k in range(c, n):
                    if M[c][k] != 0:
                        M[r][k] -= f * M[c][k]
    Ud = {(i, j): to_sym(M[i][j]) for i in range(n) for j in range(i, n) if M[i][j] != 0}
    Ld = {(i, j): to_sym(f) for i in range(n) for j, f in list(Lm[i].items()) + [(i, 1)]}
    perm = np.empty(n, dtype=int)
    perm[row] = np.arange(n)
    return SymMat((n, n), Ld), SymMat((n, n), Ud), perm


def _rhs(b):
    if getattr(b, "_is_symmat", False):
        vec = b.shape[1] == 1
        return np.asarray(b.toarray()), vec, not vec
    a = np.asarray(snp._o(b if isinstance(b, np.ndarray) else snp.array(b)), dtype=object)
    if a.ndim == 1:
        return a[:, None], True, False
    return a, a.shape[1] == 1, False


def spsolve(A, b, permc_spec=None, use_umfpack=True):
    B, vec, sparse = _rhs(b)
    if isinstance(A, LazyFactor):
        # half solves of an implicit LU factorisation
        if A.which == "L":
            X = np.empty(B.shape, dtype=object)
            for c in range(B.shape[1]):
                h = half_symbols(A.parent, B[:, c])
                X[:, c] = h
        else:
            X = np.empty(B.shape, dtype=object)
            for c in range(B.shape[1]):
                src = HALF.get(tuple(str(to_sym(v)) for v in B[:, c]))
                if src is None or src[0] is not A.parent:
                    raise EngineLimit("back substitution of something that is not a forward solve")
                X[:, c] = contract_solve(A.parent, np.array(list(src[1]) + [None], dtype=object)[:-1, None])[:, 0]
    else:
        if not getattr(A, "_is_symmat", False):
            A = _m(A)
        X = solve_dense(A, B)
    if vec:
        return sarr(X[:, 0])
    if sparse:
        return SymMat.from_dense(X)
    return sarr(X)


HALF = {}


def half_symbols(A, b):
    import hashlib
    b = [to_sym(v) for v in b]
    h = hashlib.sha1(str([sorted(map(str, P.freeze(v.p))) for v in b]).encode()).hexdigest()[:10]
    xs = [Sym(P.from_var(P.U.var(f"half:{h}:{i}", "contract"))) for i in range(len(b))]
    HALF[tuple(str(x) for x in xs)] = (A, b)
    return xs


def splu(A, permc_spec=None, **k):
    return OpaqueSolve(_m(A), permc_spec == "NATURAL")


def spilu(A, **k):
    return OpaqueSolve(_m(A), False)


def factorized(A):
    o = OpaqueSolve(_m(A), False)
    return o.solve


def _iterative(A, b, x0=None, *a, **k):
    """contract: a converged iterative solver returns x with A x = b."""
    B, vec, _ = _rhs(b)
    if not getattr(A, "_is_symmat", False):
        A = _m(A)
    X = solve_dense(A, B)
    return sarr(X[:, 0]), 0


class LinearOperator:
    def __init__(self, shape, matvec=None, *a, **k):
        self.shape = shape
        self.matvec = matvec


def _need_stub(name):
    def f(*a, **k):
        raise EngineLimit(f"{name}: no contract supplied by the harness")
    return f


# -- scipy.special ------------------------------------------------------------

def _legendre(k, x):
    if k == 0:
        return to_sym(1)
    p0, p1 = to_sym(1), x
    for n in range(1, k):
        p0, p1 = p1, (Fraction(2 * n + 1) * x * p1 - Fraction(n) * p0) / (n + 1)
    return p1


def lpmv(m, v, x):
    if int(m) != 0:
        raise EngineLimit("lpmv with m != 0")
    v = int(v)
    return snp._emap(lambda t: _legendre(v, t), x)


def eval_legendre(n, x, **k):
    return snp._emap(lambda t: _legendre(int(n), t), x)


def erf(x):
    return snp._emap(lambda t: S.fn("erf", t), x)


def erfc(x):
    return snp._emap(lambda t: 1 - S.fn("erf", t), x)


# functions that only move, add and multiply entries: the real ones work on object arrays
_MOVES = {"toeplitz", "hankel", "circulant", "kron", "khatri_rao", "trapezoid", "trapz", "simpson",
          "cumulative_trapezoid"}


def _symbolic(x):
    if isinstance(x, (list, tuple)):
        return any(_symbolic(y) for y in x)
    if isinstance(x, np.ndarray):
        return x.dtype.kind == "O"
    return isinstance(x, (S.Sym, SymMat)) or callable(x)


class _Mod(types.ModuleType):
    def __init__(self, name, real):
        types.ModuleType.__init__(self, name)
        self._real = real

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        real = getattr(self._real, n)
        if isinstance(real, types.ModuleType) or isinstance(real, type):
            return real
        if callable(real):
            def g(*a, **k):
                if n in _MOVES or not any(_symbolic(x) for x in list(a) + list(k.values())):
                    return snp.wrap(real(*a, **k))
                raise EngineLimit(f"{self.__name__}.{n} on symbolic data")
            g.__name__ = n
            return g
        return real


def make(np_proxy, stubs):
    import scipy.sparse
    import scipy.sparse.linalg
    import scipy.special
    import scipy.optimize
    import scipy.linalg
    import scipy.integrate
    sc = _Mod("scipy", scipy)
    sp = _Mod("scipy.sparse", scipy.sparse)
    for fmt in ("csc", "csr", "coo", "lil", "dok", "bsr", "dia"):
        setattr(sp, fmt + "_matrix", _construct(False))
        setattr(sp, fmt + "_array", _construct(True))
    sp.eye, sp.identity, sp.spdiags, sp.diags, sp.kron = eye, identity, spdiags, diags, kron
    sp.hstack, sp.vstack, sp.bmat, sp.block_diag = hstack, vstack, bmat, block_diag
    sp.issparse = sp.isspmatrix = sp.isspmatrix_csc = sp.isspmatrix_csr = issparse
    sp.tril, sp.triu = _tri(lambda i, j, k: j - i <= k), _tri(lambda i, j, k: j - i >= k)
    la = _Mod("scipy.sparse.linalg", scipy.sparse.linalg)
    la.spsolve, la.splu, la.spilu, la.factorized = spsolve, splu, spilu, factorized
    la.inv = lambda A: SymMat.from_dense(solve_dense(_m(A), np.asarray(symbolise(np.eye(A.shape[0])))))
    la.norm = snp.norm
    la.spsolve_triangular = lambda A, b, lower=True, **k: spsolve(A, b)
    for n in ("bicgstab", "bicg", "cg", "gmres", "lgmres", "minres", "qmr", "cgs", "gcrotmk"):
        setattr(la, n, _iterative)
    la.LinearOperator = LinearOperator
    la.aslinearoperator = lambda A: A
    la.eigs, la.eigsh = _need_stub("eigs"), _need_stub("eigsh")
    special = _Mod("scipy.special", scipy.special)
    special.lpmv, special.erf, special.erfc = lpmv, erf, erfc
    special.eval_legendre = eval_legendre
    special.legendre = lambda n: (lambda x: eval_legendre(n, x))
    special.factorial = scipy.special.factorial
    opt = _Mod("scipy.optimize", scipy.optimize)
    opt.root = opt.minimize = opt.root_scalar = opt.brentq = opt.fsolve = _need_stub("scipy.optimize")
    dla = _Mod("scipy.linalg", scipy.linalg)
    dla.norm, dla.solve, dla.inv, dla.lstsq = snp.norm, (lambda a, b, **k: snp.solve(a, b)), snp.inv, snp.lstsq
    dla.block_diag = lambda *m: block_diag(list(m)).toarray()
    sc.sparse, sc.special, sc.optimize, sc.linalg = sp, special, opt, dla
    sc.integrate = _Mod("scipy.integrate", scipy.integrate)
    sp.linalg = la
    mods = {"scipy": sc, "scipy.sparse": sp, "scipy.sparse.linalg": la, "scipy.special": special,
            "scipy.optimize": opt, "scipy.linalg": dla, "scipy.integrate": sc.integrate}
    for k, f in stubs.items():
        m, n = k.rsplit(".", 1)
        if m in mods:
            setattr(mods[m], n, f)
    return mods
