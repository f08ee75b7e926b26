"""A numpy stand-in: the real numpy, with floating-point arrays replaced by
object arrays of exact symbolic reals (`SArr`).  Integer, boolean and plain
object arrays keep their numpy behaviour."""
import builtins
import types
from fractions import Fraction

import numpy as np

from . import sym as S
from .sym import Sym, EngineLimit, to_sym


def _is_float_dtype(dt):
    if dt is None:
        return True
    if isinstance(dt, type) and issubclass(dt, float):
        return True
    if isinstance(dt, type) and issubclass(dt, complex):
        return True
    return np.dtype(dt).kind in "fc"


def _conv(x):
    t = type(x)
    if t is Sym:
        return x
    if t is float or t is Fraction:
        return to_sym(x)
    if isinstance(x, (np.floating, np.complexfloating, complex)):
        return to_sym(x)
    return x


def _conv_int(x):
    if type(x) is Sym:
        return x
    if S.is_number(x) and not isinstance(x, (bool, np.bool_)):
        return to_sym(x)
    return x


def _needs(a):
    """does an object array hold floats / ints next to symbolic values?"""
    has_sym = bad = False
    for x in a.reshape(-1) if a.flags.c_contiguous else a.ravel():
        t = type(x)
        if t is Sym:
            has_sym = True
        elif t is float or t is int or t is Fraction or isinstance(x, (np.floating, np.integer)):
            bad = True
    return bad, has_sym


def sarr(x):
    """Wrap any array-like as SArr; floats become exact Syms."""
    if isinstance(x, SArr) and x.dtype.kind in "iubO":
        if x.dtype.kind != "O":
            return x
        return x
    a = np.asarray(x)
    if a.dtype.kind in "fc":
        return symbolise(a)
    if a.dtype.kind == "O" and a.size:
        bad, has = _needs(a)
        if bad and (has or any(isinstance(v, (float, np.floating)) for v in a.ravel())):
            b = np.empty(a.shape, dtype=object)
            bf = b.reshape(-1)
            for i, v in enumerate(a.ravel()):
                bf[i] = _conv_int(v)
            a = b
    return a.view(SArr)


def symbolise(a):
    """Exact Sym object array from a numeric array."""
    a = np.asarray(a)
    b = np.empty(a.shape, dtype=object)
    bf = b.reshape(-1)
    for i, v in enumerate(a.ravel()):
        bf[i] = to_sym(v)
    return b.view(SArr)


def wrap(r):
    if isinstance(r, np.matrix):
        r = np.asarray(r)
    if isinstance(r, np.ndarray):
        if r.ndim == 0 and r.dtype.kind in "fcO" and not isinstance(r, SArr):
            v = r.item()
            return to_sym(v) if S.is_number(v) or isinstance(v, (float, complex)) else (
                v if isinstance(v, Sym) else r)
        return sarr(r)
    if isinstance(r, (np.floating, float, np.complexfloating)):
        return to_sym(r)
    if type(r) is tuple:
        return tuple(wrap(x) for x in r)
    if type(r) is list:
        return [wrap(x) for x in r]
    return r


def _o(x):
    """ufunc operand -> plain ndarray / scalar with exact entries"""
    if isinstance(x, SArr):
        return x.view(np.ndarray)
    if isinstance(x, np.ndarray):
        if x.dtype.kind in "fc":
            return symbolise(x).view(np.ndarray)
        return x
    if isinstance(x, (float, np.floating, complex, np.complexfloating)):
        return to_sym(x)
    if isinstance(x, (list, tuple)):
        return sarr(np.array(x, dtype=object) if _ragged_obj(x) else np.array(x)).view(np.ndarray)
    return x


def _ragged_obj(x):
    for v in x:
        if isinstance(v, Sym):
            return True
        if isinstance(v, (list, tuple)) and _ragged_obj(v):
            return True
        if isinstance(v, np.ndarray) and v.dtype.kind == "O":
            return True
    return False


def _kind_test(f):
    def g(x):
        if isinstance(x, Sym):
            return f(x)
        if S.is_number(x) or isinstance(x, float):
            return f(to_sym(x))
        a = np.asarray(x)
        out = np.empty(a.shape, dtype=bool)
        of = out.reshape(-1)
        for i, v in enumerate(a.ravel()):
            of[i] = f(to_sym(v))
        if a.ndim == 0:
            return bool(out)
        return out.view(SArr)
    return g


isnan = _kind_test(lambda v: v.k == S.NAN)
isinf = _kind_test(lambda v: v.k in (S.PINF, S.NINF))
isfinite = _kind_test(lambda v: v.k == S.FIN)
isposinf = _kind_test(lambda v: v.k == S.PINF)
isneginf = _kind_test(lambda v: v.k == S.NINF)


def _emap(f, *args):
    arrs = [np.asarray(_o(a) if not isinstance(a, Sym) else a, dtype=object) for a in args]
    bs = np.broadcast_arrays(*arrs)
    out = np.empty(bs[0].shape, dtype=object)
    of = out.reshape(-1)
    fl = [b.ravel() for b in bs]
    for i in range(of.size):
        of[i] = f(*[to_sym(b[i]) for b in fl])
    if out.ndim == 0:
        return out.item()
    return out.view(SArr)


def _max2(a, b):
    return S.max_atom([a, b], "max")


def _min2(a, b):
    return S.max_atom([a, b], "min")


def _fmax2(a, b):
    if a.k == S.NAN:
        return b
    if b.k == S.NAN:
        return a
    return _max2(a, b)


def _fmin2(a, b):
    if a.k == S.NAN:
        return b
    if b.k == S.NAN:
        return a
    return _min2(a, b)


def _reduce_axis(f, a, axis, keepdims=False):
    a = np.asarray(_o(a), dtype=object)
    if axis is None:
        r = f(list(a.ravel()))
        if keepdims:
            o = np.empty((1,) * a.ndim, dtype=object)
            o[(0,) * a.ndim] = r
            return o.view(SArr)
        return r
    if isinstance(axis, tuple):
        axes = sorted((x % a.ndim for x in axis), reverse=True)
        r = a
        # flatten reduced axes together
        rest = [i for i in range(a.ndim) if i not in axes]
        t = a.transpose(rest + sorted(axes)).reshape([a.shape[i] for i in rest] + [-1])
        out = _reduce_axis(f, t, -1)
        if keepdims:
            out = np.asarray(out, dtype=object).reshape(
                [1 if i in axes else a.shape[i] for i in range(a.ndim)]).view(SArr)
        return out
    axis = axis % a.ndim
    t = np.moveaxis(a, axis, -1)
    out = np.empty(t.shape[:-1], dtype=object)
    for ix in np.ndindex(*t.shape[:-1]):
        out[ix] = f(list(t[ix]))
    if keepdims:
        out = np.expand_dims(out, axis)
    if out.ndim == 0:
        return out.item()
    return out.view(SArr)


def _maxlist(xs):
    return S.max_atom(xs, "max")


def _minlist(xs):
    return S.max_atom(xs, "min")


_SPECIAL_UNARY = {"isnan": isnan, "isinf": isinf, "isfinite": isfinite}
_SPECIAL_BINARY = {"maximum": _max2, "minimum": _min2, "fmax": _fmax2, "fmin": _fmin2,
                   "arctan2": lambda a, b: S.fn("atan", a / b),
                   "hypot": lambda a, b: (a * a + b * b).sqrt(),
                   "copysign": lambda a, b: abs(a) if b >= 0 else -abs(a),
                   "float_power": lambda a, b: a ** b,
                   "heaviside": lambda a, b: to_sym(0) if a < 0 else (b if a == 0 else to_sym(1))}
_UN_METHOD = {"sqrt", "cbrt", "sin", "cos", "tan", "sinh", "cosh", "tanh", "exp", "log", "log2",
              "log10", "exp2", "expm1", "log1p", "arccos", "arcsin", "arctan", "arccosh",
              "arcsinh", "fabs", "rint", "trunc", "floor", "ceil", "reciprocal", "square"}


def _masked_ufunc(ufunc, method, inputs, out, mask, kw):
    """ufunc(..., where=mask): only the selected elements are computed, the others keep what `out` held."""
    ins = [_o(x) if isinstance(x, (np.ndarray, list, tuple)) else x for x in inputs]
    m = np.asarray(_o(mask) if isinstance(mask, (np.ndarray, list, tuple)) else mask)
    if method == "reduce":
        a = np.asarray(ins[0])
        m = np.broadcast_to(m, a.shape)
        if ufunc.__name__ not in ("add", "multiply", "maximum", "minimum", "logical_or", "logical_and"):
            raise EngineLimit(f"np.{ufunc.__name__}.reduce with where")
        unit = {"add": 0, "multiply": 1, "logical_or": False, "logical_and": True}.get(ufunc.__name__)
        unit = kw.get("initial", None) if unit is None else unit
        if unit is None or unit is np._NoValue:
            raise EngineLimit(f"np.{ufunc.__name__}.reduce with where and no initial value")
        full = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            full[i] = a[i] if bool(m[i]) else to_sym(unit) if not isinstance(unit, bool) else unit
        return getattr(ufunc, method)(full.view(SArr), out=out, **kw) if out is not None else \
            getattr(ufunc, method)(full.view(SArr), **kw)
    if method != "__call__" or ufunc.nout != 1:
        raise EngineLimit(f"np.{ufunc.__name__}.{method} with where")
    arrs = [np.asarray(x, dtype=None if isinstance(x, np.ndarray) else object) for x in ins]
    shape = np.broadcast_shapes(m.shape, *[x.shape for x in arrs], *([out[0].shape] if out is not None else []))
    m = np.broadcast_to(m, shape)
    sel = np.zeros(shape, dtype=bool)
    for i in np.ndindex(shape):
        sel[i] = bool(m[i])
    if out is None and not sel.all():
        raise EngineLimit(f"np.{ufunc.__name__} with where leaves elements uninitialised")
    r = ufunc(*[np.broadcast_to(x, shape)[sel].view(SArr) for x in arrs], **kw)
    if out is None:
        return sarr(r).reshape(shape)
    t = out[0]
    if t.dtype.kind == "O" or not isinstance(r, np.ndarray) or r.dtype.kind != "O":
        t[sel] = r
    else:
        raise EngineLimit(f"np.{ufunc.__name__} with where into an array of {t.dtype}")
    return t


class SArr(np.ndarray):
    __array_priority__ = 100

    def __array_finalize__(self, obj):
        pass

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        for x in inputs:
            if not isinstance(x, (np.ndarray, Sym)) and getattr(x, "__array_ufunc__", 1) is None:
                return NotImplemented
        name = ufunc.__name__
        if "dtype" in kw and kw["dtype"] is not None and _is_float_dtype(kw["dtype"]):
            kw.pop("dtype")
        res = None
        done = False
        mask = kw.pop("where", True)
        if mask is not True:
            return _masked_ufunc(ufunc, method, inputs, out, mask, kw)
        if method == "__call__":
            if name in _SPECIAL_UNARY:
                res, done = _SPECIAL_UNARY[name](inputs[0]), True
            elif name in _SPECIAL_BINARY and any(_symlike(x) for x in inputs):
                res, done = _emap(_SPECIAL_BINARY[name], *inputs), True
            elif name in _UN_METHOD and _symlike(inputs[0]):
                res, done = _emap(lambda v: to_sym(getattr(v, name)()), inputs[0]), True
            elif name == "sign" and _symlike(inputs[0]):
                res, done = _emap(lambda v: to_sym(v.sign()), inputs[0]), True
        elif method == "reduce" and name in ("maximum", "minimum", "fmax", "fmin") and \
                _symlike(inputs[0]):
            res = _reduce_axis(_maxlist if "max" in name else _minlist, inputs[0],
                               kw.get("axis", 0), kw.get("keepdims", False))
            if kw.get("initial", None) not in (None, np._NoValue):
                res = _emap(_max2 if "max" in name else _min2, res, kw["initial"])
            done = True
        if done:
            if out is not None:
                out[0][...] = res
                return out[0]
            return res
        ins = [_o(x) for x in inputs]
        kinds = [(_k(x)) for x in ins]
        if "O" not in kinds and ufunc.nout == 1:
            # all integers / booleans: numpy's own result unless it is floating
            kw2 = dict(kw)
            if out is not None:
                kw2["out"] = tuple(o.view(np.ndarray) if isinstance(o, SArr) else o for o in out)
                if out[0].dtype.kind != "O":
                    getattr(ufunc, method)(*ins, **kw2)
                    return out[0]
            else:
                try:
                    r = getattr(ufunc, method)(*ins, **kw2)
                except TypeError:
                    r = NotImplemented
                if r is not NotImplemented:
                    rk = r.dtype.kind if isinstance(r, (np.ndarray, np.generic)) else "x"
                    if rk not in "fc":
                        return r.view(SArr) if isinstance(r, np.ndarray) else r
            ins = [symbolise(x).view(np.ndarray) if isinstance(x, np.ndarray) else
                   (to_sym(x) if S.is_number(x) else x) for x in ins]
            if name in _UN_METHOD or name in _SPECIAL_BINARY:
                return SArr.__array_ufunc__(self, ufunc, method,
                                            *[x.view(SArr) if isinstance(x, np.ndarray) else x for x in ins],
                                            out=out, **kw)
        elif any(k in "iub" for k in kinds) and name in ("divide", "true_divide", "power"):
            ins = [symbolise(x).view(np.ndarray) if isinstance(x, np.ndarray) and
                   x.dtype.kind in "iu" and not (name == "power") else x for x in ins]
        if out is not None:
            if any(o.dtype.kind != "O" for o in out) and \
                    name not in ("less", "greater", "equal", "not_equal", "less_equal", "greater_equal"):
                raise np.core._exceptions._UFuncOutputCastingError(
                    ufunc, "same_kind", np.dtype(float), out[0].dtype, 0)
            kw["out"] = tuple(o.view(np.ndarray) if isinstance(o, SArr) else o for o in out)
        r = getattr(ufunc, method)(*ins, **kw)
        if out is not None:
            return out[0] if len(out) == 1 else out
        if isinstance(r, tuple):
            return tuple(_w(x) for x in r)
        return _w(r)

    def __setitem__(self, key, val):
        if self.dtype.kind == "O":
            if isinstance(val, (float, np.floating)):
                val = to_sym(val)
            elif isinstance(val, np.ndarray) and val.dtype.kind in "fc":
                val = symbolise(val)
            elif isinstance(val, (list, tuple)) and not isinstance(val, str):
                val = _o(val)
            elif isinstance(val, np.ndarray) and val.dtype.kind in "iu" and val.ndim:
                val = symbolise(val) if _holds_sym(self) else val
            elif type(val) is int and _holds_sym(self):
                val = to_sym(val)
        np.ndarray.__setitem__(self, key, val)

    def __getitem__(self, key):
        r = np.ndarray.__getitem__(self, key)
        return r

    def __iadd__(self, o):
        return _inplace(self, o, np.add)

    def __isub__(self, o):
        return _inplace(self, o, np.subtract)

    def __imul__(self, o):
        return _inplace(self, o, np.multiply)

    def __itruediv__(self, o):
        return _inplace(self, o, np.true_divide)

    def __ipow__(self, o):
        return _inplace(self, o, np.power)

    # -- methods that differ from the object defaults
    def astype(self, dtype, *a, **k):
        if _is_float_dtype(dtype):
            if self.dtype.kind == "O":
                return self.copy()
            return symbolise(self)
        if np.dtype(dtype).kind in "iu" and self.dtype.kind == "O":
            out = np.empty(self.shape, dtype=np.dtype(dtype))
            of = out.reshape(-1)
            for i, v in enumerate(np.asarray(self).ravel()):
                of[i] = int(v)
            return out.view(SArr)
        return np.ndarray.astype(self, dtype, *a, **k)

    @property
    def real(self):
        if self.dtype.kind == "O":
            return self
        return np.ndarray.real.__get__(self)

    @property
    def imag(self):
        if self.dtype.kind == "O":
            return zeros(self.shape)
        return np.ndarray.imag.__get__(self)

    def conj(self):
        return self

    conjugate = conj

    def any(self, axis=None, out=None, keepdims=False, **k):
        return np.ndarray.any(_truth(self), axis=axis, keepdims=keepdims)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return np.ndarray.all(_truth(self), axis=axis, keepdims=keepdims)

    def max(self, axis=None, out=None, keepdims=False, **k):
        if self.dtype.kind == "O":
            return _reduce_axis(_maxlist, self, axis, keepdims)
        return np.ndarray.max(self.view(np.ndarray), axis=axis, keepdims=keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        if self.dtype.kind == "O":
            return _reduce_axis(_minlist, self, axis, keepdims)
        return np.ndarray.min(self.view(np.ndarray), axis=axis, keepdims=keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        a = symbolise(self) if self.dtype.kind != "O" else self
        n = a.size if axis is None else int(np.prod([a.shape[i] for i in np.atleast_1d(axis)]))
        return a.sum(axis=axis, keepdims=keepdims) / n

    def var(self, axis=None, ddof=0, **k):
        a = symbolise(self) if self.dtype.kind != "O" else self
        n = a.size if axis is None else a.shape[axis]
        d = a - a.mean(axis=axis, keepdims=True)
        return (d * d).sum(axis=axis) / (n - ddof)

    def std(self, axis=None, ddof=0, **k):
        v = self.var(axis=axis, ddof=ddof)
        return v.sqrt() if isinstance(v, Sym) else np.sqrt(v)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        if self.dtype.kind == "O":
            def f(xs):
                t = to_sym(0)
                for x in xs:
                    t = x + t
                return t
            if self.size and not _holds_sym(self):
                return np.ndarray.sum(self.view(np.ndarray), axis=axis, keepdims=keepdims)
            return _reduce_axis(f, self, axis, keepdims)
        if self.dtype.kind == "b":
            return np.ndarray.sum(self.view(np.ndarray), axis=axis, keepdims=keepdims)
        r = np.ndarray.sum(self.view(np.ndarray), axis=axis, keepdims=keepdims)
        return r.view(SArr) if isinstance(r, np.ndarray) else r

    def dot(self, o, out=None):
        return dot(self, o)

    def round(self, decimals=0, out=None):
        if self.dtype.kind == "O":
            return _emap(lambda v: v.__round__(decimals), self)
        return np.ndarray.round(self, decimals)

    def item(self, *a):
        return np.ndarray.item(self, *a)

    def copy(self, order="C"):
        return np.ndarray.copy(self, order)

    def nonzero(self):
        return np.ndarray.nonzero(_truth(self).view(np.ndarray))

    def argsort(self, axis=-1, kind=None, order=None):
        if self.dtype.kind != "O":
            return np.ndarray.argsort(self.view(np.ndarray), axis=axis).view(SArr)
        a = np.asarray(self)
        if a.ndim != 1:
            raise EngineLimit("argsort of a multidimensional symbolic array")
        import functools

        def cmp(i, j):
            d = a[i] - a[j]
            if d < 0:
                return -1
            if d > 0:
                return 1
            return 0
        idx = []
        for i in range(a.size):          # insertion sort: stable, few forks
            k = len(idx)
            while k > 0 and a[i] < a[idx[k - 1]]:
                k -= 1
            idx.insert(k, i)
        return np.array(idx, dtype=int).view(SArr)

    def sort(self, axis=-1, kind=None, order=None):
        if self.dtype.kind != "O":
            return np.ndarray.sort(self, axis=axis)
        self[...] = self[self.argsort()]

    def argmax(self, axis=None, out=None, **k):
        return _arg(self, axis, lambda x, y: x > y)

    def argmin(self, axis=None, out=None, **k):
        return _arg(self, axis, lambda x, y: x < y)

    def prod(self, axis=None, **k):
        if self.dtype.kind == "O":
            def f(xs):
                t = to_sym(1)
                for x in xs:
                    t = x * t
                return t
            return _reduce_axis(f, self, axis)
        return np.ndarray.prod(self.view(np.ndarray), axis=axis)

    def clip(self, min=None, max=None, out=None, **k):
        r = self
        if min is not None:
            r = _emap(_max2, r, min)
        if max is not None:
            r = _emap(_min2, r, max)
        return r

    def __matmul__(self, o):
        if getattr(o, "__array_ufunc__", 1) is None:
            return NotImplemented
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def __reduce__(self):
        return np.ndarray.__reduce__(self)


def _arg(a, axis, better):
    x = np.asarray(a)
    if x.dtype.kind != "O":
        raise EngineLimit("arg extremum")
    if axis is None or x.ndim == 1:
        f = x.ravel()
        b = 0
        for i in range(1, f.size):
            if better(f[i], f[b]):
                b = i
        return b
    t = np.moveaxis(x, axis, -1)
    out = np.empty(t.shape[:-1], dtype=int)
    for ix in np.ndindex(*t.shape[:-1]):
        out[ix] = _arg(t[ix], None, better)
    return out.view(SArr)


def _truth(a):
    if a.dtype.kind == "O":
        out = np.empty(a.shape, dtype=bool)
        of = out.reshape(-1)
        for i, v in enumerate(np.asarray(a).ravel()):
            of[i] = bool(v)
        return out
    return a.view(np.ndarray)


def _holds_sym(a):
    f = a.view(np.ndarray).ravel() if a.size else ()
    for x in f:
        return type(x) is Sym
    return True


def _inplace(self, o, uf):
    if getattr(o, "__array_ufunc__", 1) is None:
        return NotImplemented          # as numpy: falls back to the sparse operand, and rebinds
    r = uf(self, o)
    if self.dtype.kind in "iu" and isinstance(r, np.ndarray) and r.dtype.kind == "O":
        raise np.core._exceptions._UFuncOutputCastingError(
            uf, "same_kind", np.dtype(float), self.dtype, 0)
    if np.shape(r) != self.shape:
        raise ValueError(f"non-broadcastable output operand with shape {self.shape} "
                         f"doesn't match the broadcast shape {np.shape(r)}")
    np.ndarray.__setitem__(self, Ellipsis, r)
    return self


def _k(x):
    if isinstance(x, np.ndarray):
        return x.dtype.kind
    if isinstance(x, Sym):
        return "O"
    if isinstance(x, (bool, np.bool_)):
        return "b"
    if isinstance(x, (int, np.integer)):
        return "i"
    return "O"


def _symlike(x):
    if isinstance(x, Sym):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype.kind in "Of"
    return False


def _w(r):
    if isinstance(r, np.ndarray):
        return r.view(SArr) if r.ndim else r.item()
    if isinstance(r, (float, np.floating)):
        return to_sym(r)
    return r


# -- linear algebra on dense symbolic arrays -------------------------------

def matmul(a, b):
    if getattr(b, "_is_symmat", False):
        return b.__rmatmul__(a)
    if getattr(a, "_is_symmat", False):
        return a.__matmul__(b)
    A, B = np.asarray(_o(a)), np.asarray(_o(b))
    if A.ndim == 0 or B.ndim == 0:
        raise ValueError("matmul: Input operand 0 does not have enough dimensions")
    if A.dtype.kind in "iub" and B.dtype.kind in "iub":
        r = A @ B
        return r.view(SArr) if isinstance(r, np.ndarray) else r
    if A.ndim > 2 or B.ndim > 2:
        return np.matmul(A, B).view(SArr)
    va, vb = A.ndim == 1, B.ndim == 1
    A2 = A[None, :] if va else A
    B2 = B[:, None] if vb else B
    if A2.shape[1] != B2.shape[0]:
        raise ValueError(f"matmul: Input operand 1 has a mismatch in its core dimension 0 "
                         f"(size {B2.shape[0]} is different from {A2.shape[1]})")
    n, k = A2.shape
    m = B2.shape[1]
    out = np.empty((n, m), dtype=object)
    cols = [[(l, to_sym(B2[l, j])) for l in range(k) if not _iszero(B2[l, j])] for j in range(m)]
    for i in range(n):
        row = [None if _iszero(x) else to_sym(x) for x in A2[i]]
        for j in range(m):
            t = to_sym(0)
            for l, y in cols[j]:
                if row[l] is not None:
                    t = t + row[l] * y
            out[i, j] = t
    if va and vb:
        return out[0, 0]
    if va:
        return out[0].view(SArr)
    if vb:
        return out[:, 0].view(SArr)
    return out.view(SArr)


def _iszero(x):
    if type(x) is Sym:
        return x.k == S.FIN and not x.p
    return x == 0


def dot(a, b, out=None):
    if getattr(b, "_is_symmat", False) or getattr(a, "_is_symmat", False):
        return a * b
    A, B = np.asarray(_o(a)), np.asarray(_o(b))
    if A.ndim == 0 or B.ndim == 0:
        return a * b
    if A.ndim <= 2 and B.ndim <= 2:
        return matmul(a, b)
    return sarr(np.dot(A, B))


def solve_exact(A, B):
    """Gaussian elimination; symbolic entries use known-nonzero pivots."""
    n = A.shape[0]
    M = [[to_sym(A[i, j]) for j in range(n)] + [to_sym(B[i, j]) for j in range(B.shape[1])]
         for i in range(n)]
    for c in range(n):
        piv = None
        for r in range(c, n):
            x = M[r][c]
            if x.is_const and x.const() != 0:
                piv = r
                break
        if piv is None:
            for r in range(c, n):
                if S.known("!=", M[r][c].p) is True:
                    piv = r
                    break
        if piv is None:
            best = None
            for r in range(c, n):
                if M[r][c].p and not S.P.identically_zero(M[r][c].p):
                    if best is None or len(M[r][c].p) < len(M[best][c].p):
                        best = r
            piv = best
        if piv is None:
            raise np.linalg.LinAlgError("Singular matrix")
        M[c], M[piv] = M[piv], M[c]
        inv = 1 / M[c][c]
        M[c] = [x * inv if x.p else x for x in M[c]]
        M[c][c] = to_sym(1)
        for r in range(n):
            if r != c and M[r][c].p:
                f = M[r][c]
                M[r] = [x - f * y if y.p else x for x, y in zip(M[r], M[c])]
                M[r][c] = to_sym(0)
    out = np.empty((n, B.shape[1]), dtype=object)
    for i in range(n):
        for j in range(B.shape[1]):
            out[i, j] = M[i][n + j]
    return out


def lstsq(a, b, rcond=None):
    A = np.asarray(_o(sarr(a)), dtype=object)
    Bb = np.asarray(_o(sarr(b)), dtype=object)
    B = Bb[:, None] if Bb.ndim == 1 else Bb
    m, n = A.shape
    if m == n:
        x = solve_exact(A, B)
    elif m > n:
        x = solve_exact(np.asarray(matmul(A.T, A)), np.asarray(matmul(A.T, B)))
    else:
        y = solve_exact(np.asarray(matmul(A, A.T)), B)
        x = np.asarray(matmul(A.T, y))
    if Bb.ndim == 1:
        x = x[:, 0]
    return sarr(x), sarr(np.zeros(0)), min(m, n), sarr(np.ones(min(m, n)))


def solve(a, b):
    A = np.asarray(_o(sarr(a)), dtype=object)
    Bb = np.asarray(_o(sarr(b)), dtype=object)
    B = Bb[:, None] if Bb.ndim == 1 else Bb
    x = solve_exact(A, B)
    return sarr(x[:, 0] if Bb.ndim == 1 else x)


def inv(a):
    A = np.asarray(_o(sarr(a)), dtype=object)
    return sarr(solve_exact(A, np.asarray(symbolise(np.eye(A.shape[0])))))


def norm(x, ord=None, axis=None, keepdims=False):
    if getattr(x, "_is_symmat", False):
        x = x.toarray()
    a = sarr(np.asarray(_o(x)))
    if a.dtype.kind != "O":
        a = symbolise(a)
    if ord in (None, 2, "fro"):
        if ord == 2 and a.ndim == 2 and axis is None:
            if 1 not in a.shape:
                raise EngineLimit("spectral norm of a symbolic matrix")
        s = (a * a).sum(axis=axis, keepdims=keepdims)
        return s.sqrt() if isinstance(s, Sym) else np.sqrt(s)
    if ord == np.inf and (a.ndim == 1 or axis is not None):
        return abs(a).max(axis=axis, keepdims=keepdims)
    if ord == 1 and (a.ndim == 1 or axis is not None):
        return abs(a).sum(axis=axis, keepdims=keepdims)
    raise EngineLimit(f"norm ord={ord}")


# -- creation -----------------------------------------------------------------

def _full(shape, v, dtype):
    if dtype is not None and not _is_float_dtype(dtype):
        return np.full(shape, v, dtype=dtype).view(SArr)
    a = np.empty(shape, dtype=object)
    a.fill(to_sym(v))
    return a.view(SArr)


def zeros(shape, dtype=float, order="C", **k):
    if isinstance(shape, (SArr,)):
        shape = tuple(int(i) for i in shape)
    return _full(_shape(shape), 0, dtype)


def _shape(s):
    if isinstance(s, (tuple, list, np.ndarray)):
        return tuple(_idx(i) for i in s)
    return _idx(s)


def _idx(i):
    if isinstance(i, Sym):
        raise TypeError("'float' object cannot be interpreted as an integer")
    return i


def ones(shape, dtype=float, order="C", **k):
    return _full(_shape(shape), 1, dtype)


def empty(shape, dtype=float, order="C", **k):
    if dtype is not None and not _is_float_dtype(dtype):
        return np.empty(_shape(shape), dtype=dtype).view(SArr)
    return _full(_shape(shape), 0, float)


def full(shape, fill_value, dtype=None, order="C", **k):
    if dtype is None:
        if isinstance(fill_value, (bool, int, np.integer)):
            return np.full(_shape(shape), fill_value).view(SArr)
        if isinstance(fill_value, np.ndarray):
            r = np.empty(_shape(shape), dtype=object)
            r[...] = _o(fill_value)
            return sarr(r)
        return _full(_shape(shape), fill_value, float)
    return _full(_shape(shape), fill_value, dtype)


def _like(v):
    def f(a, dtype=None, order="K", subok=True, shape=None):
        sh = np.shape(a) if shape is None else shape
        if getattr(a, "_is_symmat", False):
            raise EngineLimit("zeros_like(sparse)")
        if dtype is None:
            k = a.dtype.kind if isinstance(a, np.ndarray) else np.asarray(a).dtype.kind
            if k in "iub":
                return np.full(sh, v, dtype=np.asarray(a).dtype).view(SArr)
            return _full(sh, v, float)
        return _full(sh, v, dtype)
    return f


def full_like(a, fill_value, dtype=None, **k):
    sh = np.shape(a)
    if dtype is None and np.asarray(a).dtype.kind in "iub":
        return np.full(sh, fill_value, dtype=np.asarray(a).dtype).view(SArr)
    return _full(sh, fill_value, float if dtype is None else dtype)


def array(x, dtype=None, copy=True, order="K", ndmin=0, subok=False, **k):
    if getattr(x, "_is_symmat", False):
        o = np.empty((), dtype=object)
        o[()] = x
        return o
    if isinstance(x, np.ndarray):
        r = x
        if dtype is not None:
            r = sarr(x).astype(dtype)
        else:
            r = sarr(x)
        if copy:
            r = r.copy()
    else:
        if dtype is not None and not _is_float_dtype(dtype):
            r = np.array(x, dtype=dtype).view(SArr)
        else:
            r = _from_nested(x)
            if dtype is not None or r.dtype.kind in "fc":
                r = symbolise(r)
            r = sarr(r)
    if ndmin and r.ndim < ndmin:
        r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
    return r


def _from_nested(x):
    if _ragged_obj(x) if isinstance(x, (list, tuple)) else False:
        return np.array(x, dtype=object)
    return np.array(x)


def asarray(x, dtype=None, order=None, **k):
    if isinstance(x, SArr) and dtype is None:
        return x
    return array(x, dtype=dtype, copy=False)


def arange(*a, dtype=None, **k):
    if any(isinstance(v, (float, Sym, np.floating)) for v in a) or \
            (dtype is not None and _is_float_dtype(dtype)):
        a = [to_sym(v) for v in a]
        start, stop, step = (to_sym(0), a[0], to_sym(1)) if len(a) == 1 else \
            (a[0], a[1], a[2] if len(a) > 2 else to_sym(1))
        n = -S.floor_sym(-((stop - start) / step))
        return sarr(np.array([start + step * i for i in range(max(n, 0))], dtype=object))
    return np.arange(*a, dtype=dtype).view(SArr)


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(num)
    start, stop = to_sym(start), to_sym(stop)
    div = num - 1 if endpoint else num
    step = (stop - start) / div if div > 0 else to_sym(0)
    out = np.empty(num, dtype=object)
    for i in range(num):
        out[i] = start + step * i
    if dtype is not None and not _is_float_dtype(dtype):
        out = sarr(out).astype(dtype)
    out = sarr(out)
    return (out, step) if retstep else out


def eye(N, M=None, k=0, dtype=float, order="C", **kw):
    if not _is_float_dtype(dtype):
        return np.eye(N, M, k, dtype=dtype).view(SArr)
    return symbolise(np.eye(N, M, k, dtype=int))


def identity(n, dtype=float, **k):
    return eye(n, dtype=dtype)


# -- misc -----------------------------------------------------------------------

def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    big = 1.7976931348623157e308

    def f(v):
        if v.k == S.NAN:
            return to_sym(nan)
        if v.k == S.PINF:
            return to_sym(big if posinf is None else posinf)
        if v.k == S.NINF:
            return to_sym(-big if neginf is None else neginf)
        return v
    r = _emap(f, x)
    if not copy and isinstance(x, np.ndarray):
        x[...] = r
        return x
    return r


def where(cond, *xy):
    if not xy:
        c = _truth(sarr(cond)) if not isinstance(cond, (bool, np.bool_)) else np.asarray(cond)
        return tuple(i.view(SArr) for i in np.where(np.asarray(c)))
    c = cond
    if isinstance(c, Sym):
        c = bool(c)
    if isinstance(c, np.ndarray):
        c = _truth(sarr(c))
    a, b = (np.asarray(_o(v) if not isinstance(v, Sym) else v) for v in xy)
    if a.dtype.kind in "iub" and b.dtype.kind in "iub":
        r = np.where(c, a, b)
    else:
        r = np.where(c, a.astype(object), b.astype(object))
    return wrap(r) if r.ndim else r.item()


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        if x.k != S.FIN or y.k != S.FIN:
            return x.k == y.k and (x.k != S.NAN or equal_nan)
        return bool(abs(x - y) <= to_sym(atol) + to_sym(rtol) * abs(y))
    A = np.asarray(_o(a) if not isinstance(a, Sym) else a, dtype=object)
    B = np.asarray(_o(b) if not isinstance(b, Sym) else b, dtype=object)
    A, B = np.broadcast_arrays(A, B)
    out = np.empty(A.shape, dtype=bool)
    of = out.reshape(-1)
    for i, (x, y) in enumerate(zip(A.ravel(), B.ravel())):
        of[i] = f(to_sym(x), to_sym(y))
    return bool(out) if out.ndim == 0 else out.view(SArr)


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(np.all(np.asarray(isclose(a, b, rtol, atol, equal_nan))))


def amax(a, axis=None, out=None, keepdims=False, **k):
    a = sarr(a)
    return a.max(axis=axis, keepdims=keepdims)


def amin(a, axis=None, out=None, keepdims=False, **k):
    a = sarr(a)
    return a.min(axis=axis, keepdims=keepdims)


def nanmax(a, axis=None, **k):
    return _reduce_axis(lambda xs: S.max_atom([x for x in xs if to_sym(x).k != S.NAN], "max"), sarr(a), axis)


def nanmin(a, axis=None, **k):
    return _reduce_axis(lambda xs: S.max_atom([x for x in xs if to_sym(x).k != S.NAN], "min"), sarr(a), axis)


def np_sum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    if getattr(a, "_is_symmat", False):
        return a.sum(axis)
    if isinstance(a, Sym):
        return a
    if isinstance(a, types.GeneratorType):
        a = list(a)
    return sarr(a if isinstance(a, np.ndarray) else array(a)).sum(axis=axis, keepdims=keepdims)


def nansum(a, axis=None, **k):
    z = _emap(lambda v: to_sym(0) if v.k == S.NAN else v, sarr(a))
    return z.sum(axis=axis) if isinstance(z, np.ndarray) else z


def meth(name):
    def f(a, *args, **k):
        if isinstance(a, Sym) and hasattr(a, name):
            return getattr(a, name)()
        a = sarr(a if isinstance(a, np.ndarray) else array(a))
        r = getattr(a, name)(*args, **k)
        return wrap(r)
    return f


def np_any(a, axis=None, **k):
    if isinstance(a, (bool, np.bool_)):
        return bool(a)
    return sarr(a if isinstance(a, np.ndarray) else array(a)).any(axis=axis)


def np_all(a, axis=None, **k):
    if isinstance(a, (bool, np.bool_)):
        return bool(a)
    return sarr(a if isinstance(a, np.ndarray) else array(a)).all(axis=axis)


def einsum(spec, *ops, **k):
    spec = spec.replace(" ", "")
    ins, outp = spec.split("->") if "->" in spec else (spec, None)
    ins = ins.split(",")
    arrs = [np.asarray(_o(o)) for o in ops]
    if outp is None:
        from collections import Counter
        c = Counter("".join(ins))
        outp = "".join(sorted(x for x in c if c[x] == 1))
    dims = {}
    for s, a in zip(ins, arrs):
        for ch, d in zip(s, a.shape):
            dims[ch] = d
    summed = [ch for ch in dims if ch not in outp]
    out = np.empty([dims[ch] for ch in outp], dtype=object)
    for ix in np.ndindex(*out.shape):
        env = dict(zip(outp, ix))
        t = to_sym(0)
        for jx in np.ndindex(*[dims[ch] for ch in summed]):
            env.update(zip(summed, jx))
            pr = to_sym(1)
            for s, a in zip(ins, arrs):
                pr = pr * to_sym(a[tuple(env[ch] for ch in s)])
                if not pr.p and pr.k == S.FIN:
                    break
            t = t + pr
        out[ix] = t
    return out.view(SArr) if out.ndim else out.item()


def diagflat(v, k=0):
    a = np.asarray(_o(v)).ravel()
    n = a.size + abs(k)
    r = np.empty((n, n), dtype=object)
    r.fill(to_sym(0))
    for i in range(a.size):
        r[i + max(-k, 0), i + max(k, 0)] = to_sym(a[i])
    return r.view(SArr)


def diag(v, k=0):
    a = np.asarray(_o(v))
    if a.ndim == 1:
        if a.dtype.kind in "iub":
            return np.diag(a, k).view(SArr)
        return diagflat(a, k)
    return sarr(np.diag(a, k).copy())


def trapz(y, x=None, dx=1.0, axis=-1):
    y = sarr(y)
    if x is None:
        d = dx
    else:
        x = sarr(x)
        d = x[1:] - x[:-1]
    return (d * (y[1:] + y[:-1]) / 2).sum()


class FInfo:
    def __init__(self, real):
        self._r = real

    def __getattr__(self, n):
        v = getattr(self._r, n)
        return v


def finfo(dt=float):
    return np.finfo(float)


def isscalar(x):
    return True if isinstance(x, Sym) else np.isscalar(x)


def spacing(x):
    return np.spacing(float(x)) if not isinstance(x, Sym) or x.is_const else _raise("spacing")


def _raise(m):
    raise EngineLimit(m)


class LinalgProxy(types.ModuleType):
    LinAlgError = np.linalg.LinAlgError

    def __getattr__(self, n):
        f = getattr(np.linalg, n)
        if callable(f) and not isinstance(f, type):
            def g(*a, **k):
                raise EngineLimit(f"numpy.linalg.{n} on symbolic data")
            return g
        return f


class NumpyProxy(types.ModuleType):
    def __getattr__(self, n):
        if n == "pi":
            return S.pi_sym()
        if n == "e":
            return S.fn("exp", to_sym(1))
        if n.startswith("__"):
            raise AttributeError(n)
        real = getattr(np, n)
        if isinstance(real, type):
            return real
        if isinstance(real, np.ufunc):
            w = _UfuncProxy(real)
        elif callable(real):
            def w(*a, _f=real, **k):
                a = [sarr(_o(x)) if isinstance(x, np.ndarray) and x.dtype.kind in "fc" else x for x in a]
                if "dtype" in k and k["dtype"] is not None and _is_float_dtype(k["dtype"]):
                    k.pop("dtype")
                return wrap(_f(*a, **k))
            w.__name__ = n
        else:
            return real
        setattr(self, n, w)
        return w


class _UfuncProxy:
    def __init__(self, u):
        self.u = u
        self.__name__ = u.__name__

    def __call__(self, *a, **k):
        if any(getattr(x, "_is_symmat", False) for x in a):
            return _sparse_ufunc(self.u, a)
        if any(isinstance(x, Sym) for x in a) and not any(isinstance(x, np.ndarray) for x in a):
            n = self.u.__name__
            if n in _SPECIAL_UNARY:
                return _SPECIAL_UNARY[n](a[0])
            if n in _SPECIAL_BINARY:
                return _emap(_SPECIAL_BINARY[n], *a)
            if n in _UN_METHOD:
                return to_sym(getattr(a[0], n)())
            if n == "absolute":
                return abs(a[0])
            if n == "sign":
                return to_sym(a[0].sign())
        b = [sarr(x if not isinstance(x, (list, tuple)) else array(x))
             if isinstance(x, (np.ndarray, list, tuple)) else x for x in a]
        if not any(isinstance(x, (np.ndarray, Sym)) for x in b):
            r = self.u(*b, **k)
            return r
        if "dtype" in k and k["dtype"] is not None and _is_float_dtype(k["dtype"]):
            k.pop("dtype")
        return _w(self.u(*b, **k))

    def __getattr__(self, n):
        f = getattr(self.u, n)
        if callable(f):
            def g(a, *r, **k):
                return _w(f(sarr(a), *[sarr(x) if isinstance(x, np.ndarray) else x for x in r], **k))
            return g
        return f


def _sparse_ufunc(u, a):
    n = u.__name__
    import operator
    ops = {"add": operator.add, "subtract": operator.sub, "multiply": operator.mul,
           "true_divide": operator.truediv, "divide": operator.truediv, "matmul": operator.matmul,
           "negative": operator.neg, "absolute": abs}
    if n in ops:
        return ops[n](*a)
    raise EngineLimit(f"np.{n} on sparse matrices")


def make():
    m = NumpyProxy("numpy")
    for n in ("zeros", "ones", "empty", "full", "full_like", "array", "asarray", "arange",
              "linspace", "eye", "identity", "isnan", "isinf", "isfinite", "isposinf", "isneginf",
              "nan_to_num", "where", "isclose", "allclose", "amax", "amin", "nanmax", "nanmin",
              "einsum", "matmul", "dot", "diagflat", "diag", "finfo", "isscalar", "nansum", "trapz",
              "spacing"):
        setattr(m, n, globals()[n])
    m.max, m.min = amax, amin
    m.asanyarray = m.ascontiguousarray = m.asfortranarray = asarray
    m.copy = lambda a, *x, **k: array(a)
    m.sum = np_sum
    m.any, m.all = np_any, np_all
    m.mean, m.std, m.var, m.prod = meth("mean"), meth("std"), meth("var"), meth("prod")
    m.argsort, m.argmax, m.argmin = meth("argsort"), meth("argmax"), meth("argmin")
    m.sort = lambda a, axis=-1, **k: (lambda b: (b.sort(), b)[1])(sarr(a).copy())
    m.clip = lambda a, lo, hi, **k: sarr(a).clip(lo, hi) if not isinstance(a, Sym) else _emap(
        lambda v: _min2(_max2(v, to_sym(lo)), to_sym(hi)), a)
    m.zeros_like, m.ones_like, m.empty_like = _like(0), _like(1), _like(0)
    m.vdot = m.inner = lambda a, b: matmul(sarr(a).ravel(), sarr(b).ravel()) \
        if np.ndim(a) <= 1 else matmul(a, sarr(b).T)
    m.real = lambda a: a.real if isinstance(a, (Sym, np.ndarray)) else wrap(np.real(a))
    m.imag = lambda a: a.imag if isinstance(a, (Sym, np.ndarray)) else wrap(np.imag(a))
    m.conj = m.conjugate = lambda a: a
    m.outer = lambda a, b: sarr(a if isinstance(a, np.ndarray) else array(a)).ravel()[:, None] * \
        sarr(b if isinstance(b, np.ndarray) else array(b)).ravel()[None, :]
    m.array_equal = lambda a, b, **k: np.shape(a) == np.shape(b) and bool(
        np.all(np.asarray(sarr(a) == sarr(b), dtype=bool)))
    m.nonzero = lambda a: tuple(x.view(SArr) for x in sarr(a).nonzero())
    m.flatnonzero = lambda a: sarr(a).ravel().nonzero()[0].view(SArr)
    m.argwhere = lambda a: np.argwhere(_truth(sarr(a))).view(SArr)
    m.count_nonzero = lambda a, **k: int(np.count_nonzero(_truth(sarr(a))))
    m.round = m.around = lambda a, d=0, **k: a.__round__(d) if isinstance(a, Sym) else sarr(a).round(d)
    m.errstate = np.errstate
    m.ndarray = np.ndarray
    m.float64 = m.float_ = m.double = FloatType
    m.nan, m.inf, m.NaN, m.Inf = np.nan, np.inf, np.nan, np.inf
    m.newaxis = None
    m.r_, m.c_ = np.r_, np.c_
    la = LinalgProxy("numpy.linalg")
    la.lstsq, la.solve, la.inv, la.norm = lstsq, solve, inv, norm
    la.pinv = inv
    m.linalg = la
    ml = types.ModuleType("numpy.matlib")
    ml.repmat = lambda a, r, c: sarr(np.tile(np.atleast_2d(np.asarray(a)), (int(r), int(c))))
    ml.zeros, ml.ones, ml.eye = zeros, ones, eye
    m.matlib = ml
    return m


class _FM(type(float)):
    def __instancecheck__(cls, o):
        return isinstance(o, builtins.float) or isinstance(o, Sym)

    def __subclasscheck__(cls, o):
        return builtins.issubclass(o, builtins.float) or o is Sym


class FloatType(float, metaclass=_FM):
    """`float` as seen by the code under analysis."""
    def __new__(cls, x=0.0):
        if isinstance(x, Sym):
            return x
        if isinstance(x, np.ndarray) and x.size == 1:
            v = x.reshape(-1)[0]
            if isinstance(v, Sym):
                return v
        return builtins.float(x)
