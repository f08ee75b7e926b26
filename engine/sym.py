"""Symbolic reals, the path context and the translation to SMT.

`Sym` is an exact real-valued symbolic scalar (a normal-form Laurent polynomial
over input variables and interned atoms) with an IEEE "kind" for nan / +-inf.
Comparisons fork the execution: the context replays the harness once per
feasible combination of branch decisions, feasibility being decided by z3.
"""
import math
import numbers
from fractions import Fraction

from . import poly as P

import z3


class EngineLimit(Exception):
    """The engine cannot encode something: the check has no answer."""


class Infeasible(BaseException):
    """The current path contradicts an assumption; drop it."""


FIN, NAN, PINF, NINF = "fin", "nan", "+inf", "-inf"

# --------------------------------------------------------------------------
# context
# --------------------------------------------------------------------------


class Ctx:
    def __init__(self):
        self.prefix = []            # decisions to replay
        self.decisions = []         # decisions of this run
        self.pending = []           # alternative prefixes to explore
        self.pc = []                # [(op, poly)] branch facts of this run
        self.assumed = []           # [(op, poly)] harness assumptions
        self.extra = []             # [callable(tr)->z3 expr]: disjunctive facts
        self.div_mode = "assume"    # or "ieee"
        self.nonzero_notes = {}     # human readable: divisors assumed nonzero
        self.solver = None
        self.pushed = 0
        self.nq = 0                 # feasibility queries
        self.qtime = 0.0
        self.timeout_ms = 3000
        self.max_paths = 4000
        self.fresh = {}
        self.unknown_feas = 0

    def start_run(self, prefix):
        self.prefix = list(prefix)
        self.decisions = []
        self.pc = []
        self.assumed = []
        self.extra = []
        self.div_mode = "assume"
        self.fresh = {}

    def fresh_name(self, base):
        k = self.fresh.get(base, 0)
        self.fresh[base] = k + 1
        return base if k == 0 else f"{base}!{k}"

    # -- facts -----------------------------------------------------------
    def facts(self):
        return self.assumed + self.pc

    def feasible(self, extra):
        import time
        t = time.time()
        tr = Translator(self)
        exprs = [tr.constraint(op, p) for op, p in self.facts() + extra]
        exprs += [f(tr) for f in self.extra]
        exprs += tr.side_conditions()
        s = z3.Solver()
        s.set("timeout", self.timeout_ms)
        s.add(*exprs)
        r = s.check()
        self.nq += 1
        self.qtime += time.time() - t
        if r == z3.unknown:
            self.unknown_feas += 1
        return r != z3.unsat

    def decide(self, op, p):
        """Truth value of `p op 0` on this path (op in '<','<=','==')."""
        v = known(op, p)
        if v is not None:
            return v
        key = (op, P.freeze(p))
        for o2, p2 in self.pc:
            if (o2, P.freeze(p2)) == key:
                return True
            if (NEGOP[o2], P.freeze(p2)) == key:
                return False
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            t = self.feasible([(op, p)])
            f = self.feasible([(NEGOP[op], p)])
            if not t and not f:
                raise Infeasible()
            if t and f:
                d = True
                self.pending.append(self.decisions + [False])
            else:
                d = t
        self.decisions.append(d)
        self.pc.append((op if d else NEGOP[op], p))
        return d

    def choose(self, options, cond):
        """Fork over a finite list; cond(o) -> [(op, poly)] facts for option o."""
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            feas = [k for k, o in enumerate(options) if self.feasible(cond(o))]
            if not feas:
                raise Infeasible()
            d = feas[0]
            for k in reversed(feas[1:]):
                self.pending.append(self.decisions + [k])
        self.decisions.append(d)
        self.pc.extend(cond(options[d]))
        return options[d]

    def assume(self, op, p):
        v = known(op, p)
        if v is True:
            return
        if v is False:
            raise Infeasible()
        self.assumed.append((op, p))


NEGOP = {"<": ">=", "<=": ">", "==": "!=", ">": "<=", ">=": "<", "!=": "=="}

CTX = Ctx()


def new_context():
    global CTX
    CTX = Ctx()
    P.reset()
    return CTX


def ctx():
    return CTX


def known(op, p):
    """Truth value of p op 0 when it follows syntactically, else None."""
    if P.is_const(p):
        c = P.const_value(p)
        return {"<": c < 0, "<=": c <= 0, "==": c == 0,
                ">": c > 0, ">=": c >= 0, "!=": c != 0}[op]
    if P.positive(p):
        return {"<": False, "<=": False, "==": False, ">": True, ">=": True, "!=": True}[op]
    n = P.neg(p)
    if P.positive(n):
        return {"<": True, "<=": True, "==": False, ">": False, ">=": False, "!=": True}[op]
    if P.nonneg(p) and op in ("<", ">="):
        return op == ">="
    if P.nonneg(n) and op in (">", "<="):
        return op == "<="
    if op in ("==", "!=") and len(p) == 1 and P.nonzero_mono(next(iter(p))):
        return op == "!="
    return None


# --------------------------------------------------------------------------
# numbers
# --------------------------------------------------------------------------
_FLOAT_CACHE = {}
_SMALL_PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47]


def _simple(x, maxden, rel):
    f = Fraction(x).limit_denominator(maxden)
    if f != 0 and abs(float(f) - x) <= rel * abs(x):
        return f
    return None


def float_poly(x):
    """Exact value a float literal stands for, as a polynomial."""
    r = _FLOAT_CACHE.get(x)
    if r is not None:
        if r[0] == "q":
            return P.const(r[1])
        return const_pow(r[1], r[2])
    if x == int(x) and abs(x) < 2 ** 62:
        r = ("q", int(x))
    else:
        rep = repr(x)
        mant = rep.lower().split("e")[0].replace(".", "").lstrip("-").strip("0")
        if len(mant) <= 12:
            r = ("q", Fraction(rep))
        else:
            f = _simple(x, 5000, 4e-16) or _simple(x, 100000, 4e-16) or _simple(x, 4000000, 4e-16)
            if f is None and abs(x) < 20:            # a product of small integers over a factorial
                k = Fraction(round(x * 479001600), 479001600)
                if abs(float(k) - x) <= 2.3e-16 * abs(x):
                    f = k
            if f is not None:
                r = ("q", f)
            else:
                for k in (2, 3):
                    g = _simple(abs(x) ** k, 600, 9e-16)
                    if g is not None and g.numerator < 10000 and x > 0:
                        r = ("r", g, Fraction(1, k))
                        break
                if r is None and x < 0:
                    for k in (2, 3):
                        g = _simple(abs(x) ** k, 600, 9e-16)
                        if g is not None and g.numerator < 10000:
                            r = ("n", g, Fraction(1, k))
                            break
                if r is None:
                    r = ("q", Fraction(rep))
    if r[0] == "n":
        return P.neg(const_pow(r[1], r[2]))
    _FLOAT_CACHE[x] = r
    if r[0] == "q":
        return P.const(r[1])
    return const_pow(r[1], r[2])


def _factor(n):
    out = {}
    for p in _SMALL_PRIMES:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def const_pow(c, e):
    """c**e for a positive rational c and rational e, exactly."""
    c = Fraction(c)
    e = Fraction(e)
    if e.denominator == 1:
        return P.const(c ** e.numerator)
    coeff = Fraction(1)
    mono = []
    fac = _factor(c.numerator)
    for p, k in _factor(c.denominator).items():
        fac[p] = fac.get(p, 0) - k
    for p, k in sorted(fac.items()):
        ex = k * e
        ip = ex.numerator // ex.denominator
        coeff *= Fraction(p) ** ip
        fr = ex - ip
        if fr:
            mono.append((prime_var(p).vid, fr))
    return {tuple(sorted(mono)): P.cnorm(coeff)}


def prime_var(p):
    v = P.U.by_name.get(f"#{p}")
    if v is None:
        v = P.U.var(f"#{p}", "prime")
        v.pos = v.nonneg = v.nonzero = True
        v.numeric = float(p)
        v.rule = (1, P.const(p))
        P.U.reducible.add(v.vid)
    return v


def pi_sym():
    v = P.U.by_name.get("pi")
    if v is None:
        v = P.U.var("pi", "pi")
        v.pos = v.nonneg = v.nonzero = True
        v.numeric = math.pi
        v.lo, v.hi = Fraction(314159, 100000), Fraction(314160, 100000)
    return Sym(P.from_var(v))


def is_number(x):
    import numpy as np
    return isinstance(x, (int, float, Fraction, np.integer, np.floating, np.bool_)) or \
        (isinstance(x, complex) and x.imag == 0)


def to_sym(x):
    if isinstance(x, Sym):
        return x
    if isinstance(x, (bool, int)):
        return Sym(P.const(int(x)))
    if isinstance(x, Fraction):
        return Sym(P.const(x))
    if isinstance(x, complex):
        if x.imag != 0:
            raise EngineLimit("complex number")
        x = x.real
    if isinstance(x, float):
        x = float(x)
        if x != x:
            return Sym({}, NAN)
        if x == math.inf:
            return Sym({}, PINF)
        if x == -math.inf:
            return Sym({}, NINF)
        return Sym(float_poly(x))
    import numpy as np
    if isinstance(x, (np.integer, np.bool_)):
        return Sym(P.const(int(x)))
    if isinstance(x, np.floating):
        return to_sym(float(x))
    if isinstance(x, np.complexfloating):
        return to_sym(complex(x))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return to_sym(x.item())
    if isinstance(x, np.ndarray) and x.size == 1:
        return to_sym(x.reshape(-1)[0])
    raise EngineLimit(f"cannot treat {type(x)} as a real number")


# --------------------------------------------------------------------------
# symbolic scalar
# --------------------------------------------------------------------------


class Sym:
    __slots__ = ("p", "k")

    def __init__(self, p, k=FIN):
        self.p = p
        self.k = k

    # -- predicates
    @property
    def is_const(self):
        return self.k == FIN and P.is_const(self.p)

    def const(self):
        return Fraction(P.const_value(self.p))

    # -- arithmetic
    def __add__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        if self.k == FIN and o.k == FIN:
            return Sym(P.add(self.p, o.p))
        if NAN in (self.k, o.k):
            return Sym({}, NAN)
        if self.k == FIN:
            return Sym({}, o.k)
        if o.k == FIN or o.k == self.k:
            return Sym({}, self.k)
        return Sym({}, NAN)

    __radd__ = __add__

    def __neg__(self):
        if self.k == FIN:
            return Sym(P.neg(self.p))
        return Sym({}, {NAN: NAN, PINF: NINF, NINF: PINF}[self.k])

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        return self + (-o)

    def __rsub__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        return o + (-self)

    def __mul__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        if self.k == FIN and o.k == FIN:
            return Sym(P.mul(self.p, o.p))
        if NAN in (self.k, o.k):
            return Sym({}, NAN)
        s = self.sign() * o.sign()
        if s == 0:
            return Sym({}, NAN)
        return Sym({}, PINF if s > 0 else NINF)

    __rmul__ = __mul__

    def sign(self):
        if self.k == PINF:
            return 1
        if self.k == NINF:
            return -1
        if CTX.decide("==", self.p):
            return 0
        return -1 if CTX.decide("<", self.p) else 1

    def __truediv__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        if NAN in (self.k, o.k):
            return Sym({}, NAN)
        if o.k != FIN:
            return Sym({}) if self.k == FIN else Sym({}, NAN)
        if self.k != FIN:
            s = o.sign()
            if s == 0:
                s = 1
            return self if s > 0 else -self
        if P.is_const(o.p):
            c = P.const_value(o.p)
            if c == 0:
                return self._div_zero()
            return Sym(P.scale(self.p, Fraction(1) / Fraction(c)))
        if CTX.div_mode == "ieee":
            if known("==", o.p) is None and CTX.decide("==", o.p):
                return self._div_zero()
        return Sym(P.mul(self.p, inverse(o.p)))

    def _div_zero(self):
        s = self.sign() if self.k != NAN else 0
        if s == 0:
            return Sym({}, NAN)
        return Sym({}, PINF if s > 0 else NINF)

    def __rtruediv__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        return o / self

    def __pow__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        if self.k != FIN or o.k != FIN:
            if o.k == FIN and o.is_const:
                e = o.const()
                if e == 0:
                    return Sym({P.ONE: 1})
                if self.k == NAN:
                    return self
                if e < 0:
                    return Sym({})
                if self.k == PINF:
                    return self
                if e.denominator == 1:
                    return Sym({}, PINF if e.numerator % 2 == 0 else NINF)
            return Sym({}, NAN)
        if not o.is_const:
            if self.is_const and self.const() > 0:
                # c**x = exp(x log c)
                return fn("exp", o * fn("log", self))
            return fn("pow", self, o)
        e = o.const()
        if e == 0:
            return Sym({P.ONE: 1})
        if e.denominator == 1 and e > 0:
            return Sym(P.ipow(self.p, e.numerator))
        if not self.p and e > 0:
            return Sym({})
        if CTX.div_mode == "ieee" and e < 0:
            if known("==", self.p) is None and CTX.decide("==", self.p):
                return Sym({}, PINF)
        if not self.p:
            return Sym({}, PINF)
        if CTX.div_mode == "ieee" and e.denominator != 1:
            if known("<", self.p) is None and CTX.decide("<", self.p):
                return Sym({}, NAN)
        return Sym(ppow(self.p, e))

    def __rpow__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        return o ** self

    def __abs__(self):
        if self.k in (PINF, NINF):
            return Sym({}, PINF)
        if self.k == NAN:
            return self
        v = known(">=", self.p)
        if v is True:
            return self
        if v is False:
            return -self
        return Sym(pabs(self.p))

    # -- comparisons (fork)
    def _cmp(self, o, op):
        if o is None or isinstance(o, str):
            return NotImplemented
        o = coerce(o)
        if o is NotImplemented:
            return o
        if NAN in (self.k, o.k):
            return op == "!="
        if self.k != FIN or o.k != FIN:
            rank = {NINF: -1, FIN: 0, PINF: 1}
            a, b = rank[self.k], rank[o.k]
            return {"<": a < b, "<=": a <= b, "==": a == b,
                    ">": a > b, ">=": a >= b, "!=": a != b}[op]
        d = P.sub(self.p, o.p)
        if op in (">", ">=", "!="):
            return not CTX.decide(NEGOP[op], d)
        return CTX.decide(op, d)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        if o is None or isinstance(o, (str, list, tuple, dict)):
            return False
        r = self._cmp(o, "==")
        return r

    def __ne__(self, o):
        if o is None or isinstance(o, (str, list, tuple, dict)):
            return True
        return self._cmp(o, "!=")

    def __hash__(self):
        if self.is_const:
            c = self.const()
            return hash(c)
        return hash((self.k, P.freeze(self.p)))

    def __bool__(self):
        if self.k != FIN:
            return True
        return not CTX.decide("==", self.p)

    # -- conversions
    def __float__(self):
        if self.is_const:
            return float(self.const())
        if self.k == NAN:
            return math.nan
        if self.k == PINF:
            return math.inf
        if self.k == NINF:
            return -math.inf
        raise EngineLimit("float() of a symbolic value")

    def __complex__(self):
        return complex(float(self))

    def __floor__(self):
        return floor_sym(self)

    def floor(self):
        return to_sym(floor_sym(self))

    def __ceil__(self):
        return -floor_sym(-self)

    def ceil(self):
        return to_sym(-floor_sym(-self))

    def __trunc__(self):
        if self.is_const:
            return math.trunc(self.const())
        if self >= 0:
            return floor_sym(self)
        return -floor_sym(-self)

    __int__ = __trunc__

    def trunc(self):
        return to_sym(self.__trunc__())

    def __round__(self, n=None):
        if self.is_const:
            c = self.const()
            return to_sym(round(c, n)) if n is not None else round(c)
        raise EngineLimit("round() of a symbolic value")

    def rint(self):
        return to_sym(self.__round__())

    def __index__(self):
        if self.is_const and self.const().denominator == 1:
            raise TypeError("'float' object cannot be interpreted as an integer")
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __mod__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        if self.is_const and o.is_const:
            return to_sym(self.const() % o.const())
        q = floor_sym(self / o)
        return self - o * q

    def __rmod__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        return o % self

    def __floordiv__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        return to_sym(floor_sym(self / o))

    def __rfloordiv__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        return o // self

    def __divmod__(self, o):
        return self // o, self % o

    # -- numpy element protocol
    def conjugate(self):
        return self

    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return Sym({})

    @property
    def T(self):
        return self

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def dtype(self):
        import numpy as np
        return np.dtype(float)

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, dt, *a, **k):
        import numpy as np
        if np.dtype(dt).kind in "iu":
            return int(self)
        return self

    def sum(self, *a, **k):
        return self

    def squeeze(self, *a, **k):
        return self

    max = min = mean = prod = sum

    def _arr(self):
        import numpy as np
        from .snp import sarr
        a = np.empty((), dtype=object)
        a[()] = self
        return sarr(a)

    def all(self, *a, **k):
        return bool(self)

    any = all

    def ravel(self, *a, **k):
        return self._arr().reshape(-1)

    flatten = ravel

    def reshape(self, *a, **k):
        return self._arr().reshape(*a)

    def repeat(self, *a, **k):
        return self._arr().reshape(-1).repeat(*a)

    def transpose(self, *a):
        return self

    def tolist(self):
        return self

    def clip(self, lo=None, hi=None, **k):
        from . import snp
        r = self if lo is None else snp.maximum(self, lo)
        return r if hi is None else snp.minimum(r, hi)

    def round(self, n=0, **k):
        return round(self, n) if n else self.rint()

    def dot(self, o):
        return self * o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def is_integer(self):
        return bool(self.is_const and self.const().denominator == 1)

    def sqrt(self):
        return self ** Fraction(1, 2)

    def cbrt(self):
        return self ** Fraction(1, 3)

    def square(self):
        return self * self

    def reciprocal(self):
        return 1 / self

    def fabs(self):
        return abs(self)

    absolute = fabs

    def sin(self):
        return trig("sin", self)

    def cos(self):
        return trig("cos", self)

    def tan(self):
        return trig("sin", self) / trig("cos", self)

    def sinh(self):
        return hyp("sinh", self)

    def cosh(self):
        return hyp("cosh", self)

    def tanh(self):
        return hyp("sinh", self) / hyp("cosh", self)

    def exp(self):
        return fn("exp", self)

    def log(self):
        return fn("log", self)

    def log2(self):
        return fn("log", self) / fn("log", to_sym(2))

    def log10(self):
        return fn("log", self) / fn("log", to_sym(10))

    def exp2(self):
        return to_sym(2) ** self

    def expm1(self):
        return fn("exp", self) - 1

    def log1p(self):
        return fn("log", self + 1)

    def arccos(self):
        return fn("acos", self)

    def arcsin(self):
        return fn("asin", self)

    def arctan(self):
        return fn("atan", self)

    def arccosh(self):
        return fn("acosh", self)

    def arcsinh(self):
        return fn("asinh", self)

    def __repr__(self):
        if self.k != FIN:
            return f"Sym({self.k})"
        return f"Sym({show(self.p)})"

    __str__ = __repr__

    def __format__(self, spec):
        if self.is_const or self.k != FIN:
            try:
                return format(float(self), spec)
            except ValueError:
                return repr(self)
        return "<sym>"


numbers.Number.register(Sym)


def coerce(o):
    if type(o) is Sym:
        return o
    if isinstance(o, (int, float, Fraction)) or is_number(o):
        return to_sym(o)
    return NotImplemented


def show(p, limit=6):
    if not p:
        return "0"
    out = []
    for m, c in list(p.items())[:limit]:
        s = str(c)
        for v, e in m:
            s += f"*{P.U.vars[v].name}" + (f"^{e}" if e != 1 else "")
        out.append(s)
    return " + ".join(out) + (f" + ...({len(p)} terms)" if len(p) > limit else "")


# --------------------------------------------------------------------------
# atoms
# --------------------------------------------------------------------------

def note_nonzero(vid):
    CTX.nonzero_notes.setdefault(vid, P.U.vars[vid].name)


def inverse(p):
    if len(p) == 1:
        (m, c), = p.items()
        for v, _ in m:
            if not P.U.vars[v].nonzero and not P.U.vars[v].pos:
                note_nonzero(v)
        return P.reduce_rules({P.minv(m): P.cnorm(Fraction(1) / Fraction(c))}) \
            if not has_prime(m) else prime_norm(P.minv(m), Fraction(1) / Fraction(c))
    return ppow(p, Fraction(-1))


def has_prime(m):
    for v, _ in m:
        if P.U.vars[v].kind == "prime":
            return True
    return False


def prime_norm(m, c):
    """Bring exponents of prime atoms into (0, 1)."""
    out = []
    for v, e in m:
        var = P.U.vars[v]
        if var.kind == "prime":
            p = int(var.name[1:])
            e = Fraction(e)
            ip = e.numerator // e.denominator
            c = Fraction(c) * Fraction(p) ** ip
            e -= ip
            if e == 0:
                continue
        out.append((v, P.cnorm(e) if isinstance(e, Fraction) else e))
    return P.reduce_rules({tuple(out): P.cnorm(Fraction(c))})


def den_atom(q, signed):
    """Interned atom equal to polynomial q (content already removed)."""
    key = P.freeze(q)
    vid = P.U.den_key.get(key)
    if vid is not None:
        return P.U.vars[vid]
    v = P.U.var(f"D{len(P.U.den_key)}", "den")
    v.defn = q
    v.pos = P.positive(q)
    v.nonneg = v.pos or P.nonneg(q)
    v.nonzero = v.pos or P.positive(P.neg(q))
    if not v.nonzero and len(q) <= 24:
        r, _, _ = solve_query(CTX, [("<=", q)], [], 400, noextra=True)
        if r == z3.unsat:
            v.pos = v.nonneg = v.nonzero = True
        else:
            r, _, _ = solve_query(CTX, [(">=", q)], [], 400, noextra=True)
            v.nonzero = r == z3.unsat
    P.U.den_key[key] = v.vid
    P.U.dens.add(v.vid)
    return v


def ppow(p, e):
    """p**e for a rational e (p != 0; fractional e means p >= 0 is assumed)."""
    e = Fraction(e)
    if len(p) == 1 and not has_prime(next(iter(p))) or not p:
        m, = p
        rest = None
    else:
        m = P.content(p)
        # prime atoms stay inside
        m = tuple(x for x in m if P.U.vars[x[0]].kind != "prime")
        rest = P.shift(p, P.minv(m)) if m else p
        if len(rest) == 1 and P.ONE in rest:
            rest = None
    frac = e.denominator != 1
    if rest is None:
        c = Fraction(p[m] if m in p else next(iter(p.values())))
    else:
        # leading coefficient -> content coefficient
        lead = rest[P.leading(rest)]
        c = Fraction(lead)
        if frac and c < 0:
            c = -c
        rest = P.scale(rest, Fraction(1) / c)
    if frac and rest is None and c < 0:
        # a negative constant under a root: keep the sign inside an atom
        if all(P.U.vars[v].nonneg or P.U.vars[v].pos or (isinstance(x, int) and x % 2 == 0)
               for v, x in m) and all(P.U.vars[v].pos or P.U.vars[v].nonzero for v, x in m):
            raise NegativeRoot()
        rest = {m: -1}
        m = ()
        c = -c
    out = const_pow(c, e) if frac else P.const(c ** e.numerator)
    mono = []
    oddpart = []
    for v, x in m:
        var = P.U.vars[v]
        if not frac:
            if e < 0 and not (var.pos or var.nonzero):
                note_nonzero(v)
            mono.append((v, P.cnorm(Fraction(x) * e)))
        elif var.pos or var.nonneg:
            mono.append((v, P.cnorm(Fraction(x) * e)))
        elif isinstance(x, int) and x % 2 == 0:
            a = abs_atom(P.from_var(var))
            mono.append((a.vid, P.cnorm(Fraction(x) * e)))
        else:
            oddpart.append((v, x))
    if oddpart:
        base = {tuple(oddpart): 1}
        if rest is not None:
            base = P.mul(base, rest)
        rest = base
    d = {}
    for v, x in mono:
        d[v] = d.get(v, 0) + x
    res = P.mul(out, P.reduce_rules({tuple(sorted((v, P.cnorm(Fraction(x))) for v, x in d.items()
                                                  if x != 0)): 1}))
    if rest is not None:
        D = den_atom(rest, frac)
        if e < 0 and not (D.pos or D.nonzero):
            note_nonzero(D.vid)
        if frac and not (D.nonneg or D.pos):
            CTX.nonzero_notes.setdefault(("nonneg", D.vid), f"{D.name} >= 0")
        res = P.mul(res, P.reduce_rules({((D.vid, P.cnorm(e)),): 1}))
    return res


class NegativeRoot(EngineLimit):
    pass


def abs_atom(base):
    """|base| for a polynomial with unknown sign."""
    n = P.neg(base)
    key = min(P.freeze(base), P.freeze(n), key=lambda f: sorted(map(str, f)))
    name = "abs:" + str(sorted(map(str, key)))
    v = P.U.by_name.get(name)
    if v is None:
        v = P.U.var(name, "abs")
        v.nonneg = True
        v.args = [dict(key)]
        sq = P.mul(dict(key), dict(key))
        v.rule = (2, sq)
        P.U.reducible.add(v.vid)
        if known("!=", base) is True:
            v.pos = v.nonzero = True
        v.axioms.append((">=", P.from_var(v)))
    return v


def pabs(p):
    m = P.content(p) if len(p) > 1 else next(iter(p))
    m = tuple(x for x in m if P.U.vars[x[0]].kind != "prime")
    rest = P.shift(p, P.minv(m)) if m else p
    lead = Fraction(rest[P.leading(rest)])
    rest = P.scale(rest, Fraction(1) / lead)
    res = P.const(abs(lead))
    for v, x in m:
        var = P.U.vars[v]
        if var.pos or var.nonneg or (isinstance(x, int) and x % 2 == 0):
            t = {((v, x),): 1}
        else:
            a = abs_atom(P.from_var(var))
            t = P.reduce_rules({((a.vid, x),): 1}) if x > 0 else \
                P.reduce_rules({((a.vid, x),): 1})
        res = P.mul(res, t)
    if not P.is_const(rest):
        s = known(">=", rest)
        if s is True:
            res = P.mul(res, rest)
        else:
            a = abs_atom(rest)
            res = P.mul(res, P.from_var(a))
    return res


def _is_neg(p):
    """canonical sign: is the leading coefficient negative?"""
    return p[P.leading(p)] < 0


def fn(name, *args):
    """Uninterpreted function atom with congruence (by normal-form arguments)."""
    for a in args:
        if a.k != FIN:
            if name == "exp":
                return Sym({}) if a.k == NINF else a
            if name == "log" and a.k == PINF:
                return a
            return Sym({}, NAN)
    a0 = args[0]
    if len(args) == 1 and a0.is_const:
        c = a0.const()
        if name == "exp" and c == 0:
            return Sym({P.ONE: 1})
        if name == "log":
            if c == 1:
                return Sym({})
            if c == 0:
                return Sym({}, NINF)
            if c < 0:
                return Sym({}, NAN)
            # log of a rational: split into primes so log identities hold
            fac = _factor(c.numerator)
            for p_, k in _factor(c.denominator).items():
                fac[p_] = fac.get(p_, 0) - k
            if len(fac) != 1 or list(fac.values()) != [1]:
                out = Sym({})
                for p_, k in sorted(fac.items()):
                    out = out + k * fn("log", to_sym(p_))
                return out
        if name in ("erf", "asin", "atan", "asinh") and c == 0:
            return Sym({})
    if name == "log" and len(a0.p) == 1:
        (m, c), = a0.p.items()
        if m and c > 0 and all(P.U.vars[v].pos for v, _ in m) and \
                (c != 1 or len(m) > 1 or m[0][1] != 1):
            out = fn("log", to_sym(Fraction(c)))
            for v, e in m:
                out = out + e * fn("log", Sym(P.from_var(P.U.vars[v])))
            return out
    sgn = 1
    if name in ("erf", "asin", "atan", "asinh") and _is_neg(a0.p):
        a0 = -a0
        args = (a0,) + args[1:]
        sgn = -1
    key = name + ":" + str([sorted(map(str, P.freeze(a.p))) for a in args])
    v = P.U.by_name.get(key)
    if v is None:
        v = P.U.var(key, "fn")
        v.fn = name
        v.args = [a.p for a in args]
        P.U.fn_apps.setdefault(name, []).append((v.args, v.vid))
        if name in ("exp", "cosh"):
            v.pos = v.nonneg = v.nonzero = True
        if name == "cosh":
            v.axioms.append((">=", P.sub(P.from_var(v), P.const(1))))
        if name == "log":
            if a0.is_const and a0.const() > 1:
                v.pos = v.nonneg = v.nonzero = True
        if name == "erf":
            v.axioms.append(("<", P.sub(P.from_var(v), P.const(1))))
            v.axioms.append((">", P.add(P.from_var(v), P.const(1))))
            if known(">", a0.p):
                v.pos = v.nonneg = v.nonzero = True
    r = Sym(P.from_var(v))
    return r if sgn == 1 else -r


def known_value(name, x):
    """exact value of a function at an input whose value there is declared"""
    if len(x.p) == 1:
        (m, c), = x.p.items()
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
            kv = getattr(P.U.vars[m[0][0]], "known", None)
            if kv and name in kv:
                r = to_sym(kv[name])
                return -r if c < 0 and name in ("sin", "sinh") else r
    return None


def hyp(name, x):
    if x.k == FIN:
        r = known_value(name, x)
        if r is not None:
            return r
    if x.k != FIN:
        if x.k == NAN:
            return x
        return Sym({}, PINF) if name == "cosh" else x
    if not x.p:
        return Sym({P.ONE: 1}) if name == "cosh" else Sym({})
    neg = _is_neg(x.p)
    if neg:
        x = -x
    s = fn("sinh", x)
    c = fn("cosh", x)
    cv = P.U.vars[next(iter(c.p))[0][0]]
    sv = P.U.vars[next(iter(s.p))[0][0]]
    if cv.rule is None:
        cv.rule = (2, {P.ONE: 1, ((sv.vid, 2),): 1})
        P.U.reducible.add(cv.vid)
        if known(">", x.p):
            sv.pos = sv.nonneg = sv.nonzero = True
        # cosh > |sinh|
        cv.axioms.append((">", P.sub(P.from_var(cv), P.from_var(sv))))
    if name == "cosh":
        return c
    return -s if neg else s


def _trig_pi(name, q):
    """sin or cos of q*pi for rational q, reduced to the first octant."""
    q = Fraction(q) % 2
    sgn = 1
    if name == "cos":
        q = (q + Fraction(1, 2)) % 2       # cos(x) = sin(x + pi/2)
    if q >= 1:
        q -= 1
        sgn = -1
    if q > Fraction(1, 2):
        q = 1 - q
    special = {Fraction(0): P.const(0), Fraction(1, 2): P.const(1),
               Fraction(1, 6): P.const(Fraction(1, 2)),
               Fraction(1, 4): P.scale(const_pow(2, Fraction(1, 2)), Fraction(1, 2)),
               Fraction(1, 3): P.scale(const_pow(3, Fraction(1, 2)), Fraction(1, 2))}
    if q in special:
        r = special[q]
    else:
        if q < Fraction(1, 4):
            b, kind = q, "s"
        else:
            b, kind = Fraction(1, 2) - q, "c"
        sn, cn = f"sin({b}pi)", f"cos({b}pi)"
        sv = P.U.by_name.get(sn)
        if sv is None:
            sv = P.U.var(sn, "trig")
            cv = P.U.var(cn, "trig")
            for v, val in ((sv, math.sin(float(b) * math.pi)), (cv, math.cos(float(b) * math.pi))):
                v.pos = v.nonneg = v.nonzero = True
                v.numeric = val
                f = Fraction(val).limit_denominator(10 ** 9)
                v.lo, v.hi = f - Fraction(1, 10 ** 8), f + Fraction(1, 10 ** 8)
            cv.rule = (2, {P.ONE: 1, ((sv.vid, 2),): -1})
            P.U.reducible.add(cv.vid)
        r = P.from_var(sv if kind == "s" else P.U.by_name[cn])
    return Sym(r if sgn == 1 else P.neg(r))


def trig(name, x):
    if x.k != FIN:
        return Sym({}, NAN)
    r = known_value(name, x)
    if r is not None:
        return r
    pv = P.U.by_name.get("pi")
    if not x.p:
        return Sym({}) if name == "sin" else Sym({P.ONE: 1})
    if pv is not None and len(x.p) == 1:
        m, = x.p
        if m == ((pv.vid, 1),):
            return _trig_pi(name, Fraction(x.p[m]))
    if x.is_const:
        # a float multiple of pi?
        q = Fraction(float(x.const()) / math.pi).limit_denominator(2000)
        if abs(float(q) * math.pi - float(x.const())) < 1e-14:
            pi_sym()
            return _trig_pi(name, q)
    if pv is not None and len(x.p) > 1 and Fraction(x.p.get(((pv.vid, 1),), 0)).denominator == 1 and ((pv.vid, 1),) in x.p:
        # whole half-turns
        k = int(x.p[((pv.vid, 1),)])
        r = trig(name, Sym({m: c for m, c in x.p.items() if m != ((pv.vid, 1),)}))
        return -r if k % 2 else r
    neg = _is_neg(x.p)
    if neg:
        x = -x
    s = fn("sin", x)
    c = fn("cos", x)
    cv = P.U.vars[next(iter(c.p))[0][0]]
    sv = P.U.vars[next(iter(s.p))[0][0]]
    if cv.rule is None:
        cv.rule = (2, {P.ONE: 1, ((sv.vid, 2),): -1})
        P.U.reducible.add(cv.vid)
    if name == "cos":
        return c
    return -s if neg else s


def floor_sym(x):
    """Exact floor of x; forks over the feasible integers."""
    if x.k != FIN:
        raise (ValueError if x.k == NAN else OverflowError)("cannot convert float to integer")
    if x.is_const:
        return math.floor(x.const())
    lo, hi = bounds(x)
    if lo is None or hi is None or hi - lo > 64:
        raise EngineLimit("floor of an unbounded symbolic value")
    opts = list(range(math.floor(lo), math.floor(hi) + 1))
    return CTX.choose(opts, lambda k: [(">=", P.sub(x.p, P.const(k))),
                                       ("<", P.sub(x.p, P.const(k + 1)))])


def bounds(x):
    """Interval bounds of a polynomial from the variables' declared ranges."""
    lo = hi = Fraction(0)
    for m, c in x.p.items():
        a = b = Fraction(c)
        for v, e in m:
            var = P.U.vars[v]
            if var.lo is None or var.hi is None or e != 1:
                return None, None
            cand = [a * var.lo, a * var.hi, b * var.lo, b * var.hi]
            a, b = min(cand), max(cand)
        lo += a
        hi += b
    return lo, hi


def max_atom(items, which="max"):
    """max (min) of finitely many Syms as an atom with exact axioms."""
    items = [to_sym(i) for i in items]
    for i in items:
        if i.k == NAN:
            return i
    fin = []
    seen = set()
    for i in items:
        if i.k == (PINF if which == "max" else NINF):
            return i
        if i.k == FIN:
            k = P.freeze(i.p)
            if k not in seen:
                seen.add(k)
                fin.append(i)
    if not fin:
        return items[0]
    if all(i.is_const for i in fin):
        f = max if which == "max" else min
        return to_sym(f(i.const() for i in fin))
    # syntactic domination
    keep = []
    for i in fin:
        dom = False
        for j in fin:
            if i is j:
                continue
            d = P.sub(j.p, i.p) if which == "max" else P.sub(i.p, j.p)
            if known(">=", d) is True and not (known("<=", d) is True and fin.index(j) > fin.index(i)):
                dom = True
                break
        if not dom:
            keep.append(i)
    fin = keep
    if len(fin) == 1:
        return fin[0]
    key = which + ":" + str(sorted(str(sorted(map(str, P.freeze(i.p)))) for i in fin))
    v = P.U.by_name.get(key)
    if v is None:
        v = P.U.var(key, which)
        v.args = [i.p for i in fin]
        if which == "max":
            v.pos = v.nonzero = any(known(">", i.p) is True for i in fin)
            v.nonneg = any(known(">=", i.p) is True for i in fin)
        else:
            v.pos = v.nonzero = all(known(">", i.p) is True for i in fin)
            v.nonneg = all(known(">=", i.p) is True for i in fin)
        op = ">=" if which == "max" else "<="
        for i in fin:
            v.axioms.append((op, P.sub(P.from_var(v), i.p)))
    return Sym(P.from_var(v))


# --------------------------------------------------------------------------
# translation to z3
# --------------------------------------------------------------------------


class Translator:
    def __init__(self, c):
        self.c = c
        self.vars = {}       # vid -> (root z3 var, q)
        self.seen = set()
        self.queue = []
        self.qden = {}
        self.conds = []

    # every polynomial must be announced (scan) before exprs are built so that
    # fractional exponents get a common root variable; constraint() delays.
    def constraint(self, op, p):
        return _Delayed(self, op, p)

    def _scan(self, p):
        for m in p:
            for v, e in m:
                q = e.denominator if isinstance(e, Fraction) else 1
                old = self.qden.get(v)
                if old is None:
                    self.qden[v] = q
                    self.queue.append(v)
                elif old % q:
                    self.qden[v] = old * q // math.gcd(old, q)

    def zvar(self, v):
        z = self.vars.get(v)
        if z is None:
            z = z3.Real(f"v{v}")
            self.vars[v] = z
        return z

    def mono(self, c, m):
        t = []
        for v, e in m:
            k = int(e * self.qden[v])
            z = self.zvar(v)
            for _ in range(k):
                t.append(z)
        c = Fraction(c)
        r = z3.RatVal(c.numerator, c.denominator)
        if not t:
            return r
        pr = t[0]
        if len(t) > 1:
            pr = z3.Product(*t)
        return pr if c == 1 else r * pr

    def poly(self, p):
        if not p:
            return z3.RealVal(0)
        ts = [self.mono(c, m) for m, c in p.items()]
        return ts[0] if len(ts) == 1 else z3.Sum(*ts)

    def clear(self, p, op):
        """Multiply by a monomial that keeps `p op 0` and has no negatives."""
        mins = {}
        for m in p:
            for v, e in m:
                if e < 0 and e < mins.get(v, 0):
                    mins[v] = e
        if not mins:
            return p
        mono = []
        for v, e in mins.items():
            k = -e
            var = P.U.vars[v]
            if op not in ("==", "!=") and not var.pos:
                k = math.ceil(k)
                if k % 2:
                    k += 1
            mono.append((v, P.cnorm(Fraction(k))))
        return P.shift(p, tuple(sorted(mono)))

    def build(self, op, p):
        e = self.poly(self.clear(p, op))
        z = z3.RealVal(0)
        return {"<": e < z, "<=": e <= z, "==": e == z,
                ">": e > z, ">=": e >= z, "!=": e != z}[op]

    def close(self, exprs):
        """Scan polynomials of delayed constraints and all atom definitions."""
        defs = []
        for x in exprs:
            if isinstance(x, _Delayed):
                self._scan(self.clear(x.p, x.op))
                self._scan(x.p)
        while self.queue:
            v = self.queue.pop()
            var = P.U.vars[v]
            x = P.from_var(var)
            loc = []
            if var.kind == "den":
                loc.append(("==", P.sub(x, var.defn), True))
            if var.rule is not None and var.kind != "prime":
                k, rp = var.rule
                loc.append(("==", P.sub({((v, k),): 1}, rp), True))
            if var.kind == "prime":
                loc.append(("==", P.sub(x, P.const(int(var.name[1:]))), True))
            for op, a in var.axioms:
                loc.append((op, a, True))
            if var.pos:
                loc.append((">", x, True))
            elif var.nonneg:
                loc.append((">=", x, True))
            if var.nonzero and not var.pos:
                loc.append(("!=", x, True))
            if var.lo is not None:
                loc.append((">=", P.sub(x, P.const(var.lo)), True))
            if var.hi is not None:
                loc.append(("<=", P.sub(x, P.const(var.hi)), True))
            for op, a, _ in loc:
                self._scan(a)
                self._scan(self.clear(a, op))
                defs.append((op, a))
            if var.kind in ("max", "min"):
                for a in var.args:
                    self._scan(a)
                defs.append(("oneof", v))
        # negative exponents => nonzero
        for v in list(self.qden):
            var = P.U.vars[v]
            if v in self.c.nonzero_notes and not var.pos and not var.nonzero:
                defs.append(("!=", P.from_var(var)))
            if self.qden[v] > 1:
                defs.append(("root", v))
            if ("nonneg", v) in self.c.nonzero_notes:
                defs.append((">=", P.from_var(var)))
        # congruence
        for name, apps in P.U.fn_apps.items():
            act = [(a, v) for a, v in apps if v in self.qden]
            if 1 < len(act) <= 12:
                for i in range(len(act)):
                    for j in range(i):
                        if len(act[i][0]) != len(act[j][0]):
                            continue
                        ds = [P.sub(x, y) for x, y in zip(act[i][0], act[j][0])]
                        if any(P.is_const(d) and d for d in ds):
                            continue
                        if all(P.variables(d) <= set(self.qden) for d in ds):
                            defs.append(("cong", (ds, act[i][1], act[j][1])))
        out = []
        for op, a in defs:
            if op == "root":
                out.append(self.zvar(a) >= 0)
            elif op == "oneof":
                x = P.from_var(P.U.vars[a])
                out.append(z3.Or(*[self.build("==", P.sub(x, b)) for b in P.U.vars[a].args]))
            elif op == "cong":
                ds, v, w = a
                for d in ds:
                    self._scan(d)
                out.append(z3.Or(*[self.build("!=", d) for d in ds],
                                 self.zvar(v) == self.zvar(w)))
            else:
                out.append(self.build(op, a))
        return out

    def finish(self, exprs):
        side = self.close(exprs)
        main = [self.build(x.op, x.p) if isinstance(x, _Delayed) else x for x in exprs]
        return main, side

    def side_conditions(self):
        return []


class _Delayed:
    def __init__(self, tr, op, p):
        self.tr, self.op, self.p = tr, op, p


class OrOf:
    def __init__(self, items):
        self.items = items       # list of (op, poly)


def solve_query(c, facts, goal, timeout_ms, pins=None, want_model=False, noextra=False):
    """Is  facts AND (one of goal) satisfiable?  goal: list of (op, poly)."""
    tr = Translator(c)
    ds = [tr.constraint(op, p) for op, p in facts]
    gs = [tr.constraint(op, p) for op, p in goal]
    extra_polys = []
    main, side = tr.finish(ds + gs)
    fx = main[:len(ds)]
    gx = main[len(ds):]
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    s.add(*fx)
    s.add(*side)
    for f in () if noextra else c.extra:
        s.add(f(tr))
    if gx:
        s.add(z3.Or(*gx) if len(gx) > 1 else gx[0])
    if pins:
        for v, val in pins.items():
            if v in tr.qden:
                q = tr.qden[v]
                z = tr.zvar(v)
                val = Fraction(val)
                e = z
                for _ in range(q - 1):
                    e = e * z
                s.add(e == z3.RatVal(val.numerator, val.denominator))
    r = s.check()
    model = None
    if r == z3.sat and want_model:
        m = s.model()
        model = {}
        for v, z in tr.vars.items():
            val = m.eval(z, model_completion=True)
            model[v] = (z3_float(val)) ** tr.qden[v]
    return r, model, s


def solve_linear(facts, goal, timeout_ms=3000):
    """The same question with every nonlinear monomial an independent real: unsat here is unsat of the original."""
    ids = {}

    def lin(p):
        t = []
        for m, k in p.items():
            k = z3.RatVal(k.numerator, k.denominator) if not isinstance(k, int) else z3.RealVal(k)
            t.append(k if m == () else k * ids.setdefault(m, z3.Real(f"m{len(ids)}")))
        return z3.Sum(*t) if len(t) > 1 else t[0] if t else z3.RealVal(0)
    ops = {"<": lambda a: a < 0, "<=": lambda a: a <= 0, "==": lambda a: a == 0, "!=": lambda a: a != 0,
           ">": lambda a: a > 0, ">=": lambda a: a >= 0}
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    todo = list(facts) + list(goal)
    seen, room = set(), 3000
    while todo and room:
        op, p = todo.pop()
        s.add(ops[op](lin(p)))
        room -= 1
        for m in p:                        # |x|, max and min bound their arguments, also times something nonnegative
            if m in seen:
                continue
            seen.add(m)
            for i, (v, e) in enumerate(m):
                var = P.U.vars[v]
                if e != 1 or var.kind not in ("abs", "max", "min"):
                    continue
                rest = {m[:i] + m[i + 1:]: 1}
                if known(">=", rest) is not True:
                    continue
                a = P.from_var(var)
                for x in var.args:
                    ds = [P.sub(a, x)] if var.kind != "min" else [P.sub(x, a)]
                    if var.kind == "abs":
                        ds.append(P.add(a, x))
                    todo += [(">=", P.mul(d, rest)) for d in ds]
                one = var.args if var.kind != "abs" else [var.args[0], P.neg(var.args[0])]
                if len(one) < 12:
                    zero = [P.mul(P.sub(a, x), rest) for x in one]
                    s.add(z3.Or(*[lin(z) == 0 for z in zero]))
    return s.check()


def z3_float(val):
    try:
        if z3.is_rational_value(val):
            return float(Fraction(val.numerator_as_long(), val.denominator_as_long()))
        if z3.is_algebraic_value(val):
            return float(val.approx(20).as_fraction())
    except Exception:
        pass
    return 0.0


def _feasible(self, extra):
    import time
    t = time.time()
    fs = self.facts() + extra
    self.nq += 1
    if len(fs) > 1 and sum(len(p) for _, p in fs) < 3000 and solve_linear(fs, [], 1000) == z3.unsat:
        self.qtime += time.time() - t
        return False
    r, _, _ = solve_query(self, fs, [], self.timeout_ms)
    self.qtime += time.time() - t
    if r == z3.unknown:
        self.unknown_feas += 1
    return r != z3.unsat


Ctx.feasible = _feasible

# --------------------------------------------------------------------------
# numeric evaluation (for replay, validation and generic points)
# --------------------------------------------------------------------------


class Evaluator:
    def __init__(self, values):
        self.values = values     # input name -> float
        self.cache = {}

    def var(self, vid):
        r = self.cache.get(vid)
        if r is not None:
            return r
        v = P.U.vars[vid]
        if v.kind == "den":
            r = self.poly(v.defn)
        elif v.kind == "abs":
            r = abs(self.poly(v.args[0]))
        elif v.kind in ("max", "min"):
            r = (max if v.kind == "max" else min)(self.poly(a) for a in v.args)
        elif v.kind == "fn":
            import scipy.special as sp
            a = [self.poly(x) for x in v.args]
            f = {"exp": math.exp, "log": math.log, "sinh": math.sinh, "cosh": math.cosh,
                 "sin": math.sin, "cos": math.cos, "erf": math.erf, "pow": lambda x, y: x ** y,
                 "acos": math.acos, "asin": math.asin, "atan": math.atan,
                 "acosh": math.acosh, "asinh": math.asinh}[v.fn]
            r = f(*a)
        elif callable(v.numeric):
            r = v.numeric(self)
        elif v.numeric is not None:
            r = v.numeric
        elif v.name in self.values:
            r = float(self.values[v.name])
        else:
            raise KeyError(v.name)
        self.cache[vid] = r
        return r

    def poly(self, p):
        t = 0.0
        for m, c in p.items():
            x = float(c)
            for v, e in m:
                b = self.var(v)
                x *= b ** (e if isinstance(e, int) else float(e))
            t += x
        return t

    def sym(self, s):
        if s.k != FIN:
            return float(s)
        return self.poly(s.p)

    def holds(self, op, p, slack=0.0):
        x = self.poly(p)
        return {"<": x < 0, "<=": x <= 0, "==": abs(x) <= 1e-12, "!=": x != 0,
                ">": x > 0, ">=": x >= 0}[op]
