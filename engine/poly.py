"""Generalised (Laurent, fractional-exponent) polynomials over the rationals.

A polynomial is a dict {monomial: coefficient}; a monomial is a tuple of
(variable id, exponent) sorted by id, exponents are ints or Fractions != 0.
Variables carry facts (sign, bounds) and, for derived atoms, a definition.
Everything here is exact; numbers are int or Fraction.
"""
from fractions import Fraction

ONE = ()          # the empty monomial


class Var:
    __slots__ = ("vid", "name", "kind", "pos", "nonneg", "nonzero", "lo", "hi",
                 "defn", "rule", "fn", "args", "axioms", "numeric", "linrule", "known")

    def __init__(self, vid, name, kind):
        self.vid, self.name, self.kind = vid, name, kind
        self.pos = self.nonneg = self.nonzero = False
        self.lo = self.hi = None
        self.defn = None      # for kind 'den': polynomial this atom equals
        self.rule = None      # (k, poly): var**k -> poly   (k >= 2)
        self.fn = None        # function name for kind 'fn'
        self.args = None      # argument polynomials for kind 'fn'
        self.axioms = []      # list of (op, poly): facts about the atom
        self.numeric = None   # known numeric value (float), for evaluation
        self.linrule = None   # poly this variable rewrites to (exponent 1), lazily
        self.known = None     # exact values of functions at this input


class Universe:
    """All variables of one harness job."""

    def __init__(self):
        self.vars = []
        self.by_name = {}
        self.reducible = set()     # vids with a rule
        self.dens = set()          # vids of denominators/base atoms
        self.den_key = {}          # frozen poly -> vid
        self.fn_apps = {}          # fname -> list of (args, vid)

    def var(self, name, kind="input"):
        v = self.by_name.get(name)
        if v is None:
            v = Var(len(self.vars), name, kind)
            self.vars.append(v)
            self.by_name[name] = v
        return v


U = Universe()


def reset():
    global U
    U = Universe()
    return U


def cnorm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


def const(c):
    return {ONE: cnorm(c)} if c != 0 else {}


def from_var(v, e=1):
    return {((v.vid, e),): 1}


def is_const(p):
    return not p or (len(p) == 1 and ONE in p)


def const_value(p):
    return p.get(ONE, 0) if p else 0


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    r = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] < y[0]:
            r.append(x); i += 1
        elif x[0] > y[0]:
            r.append(y); j += 1
        else:
            e = x[1] + y[1]
            if e != 0:
                if type(e) is Fraction and e.denominator == 1:
                    e = e.numerator
                r.append((x[0], e))
            i += 1; j += 1
    if i < la:
        r.extend(a[i:])
    elif j < lb:
        r.extend(b[j:])
    return tuple(r)


def add(a, b):
    if not a:
        return b
    if not b:
        return a
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        s = r.get(m)
        if s is None:
            r[m] = c
        else:
            s = s + c
            if s == 0:
                del r[m]
            else:
                r[m] = s if type(s) is int or s.denominator != 1 else s.numerator
    return r


def neg(a):
    return {m: -c for m, c in a.items()}


def sub(a, b):
    return add(a, neg(b))


def scale(a, k):
    if k == 0:
        return {}
    if k == 1:
        return a
    r = {}
    for m, c in a.items():
        s = c * k
        r[m] = s if type(s) is int or s.denominator != 1 else s.numerator
    return r


def _needs_reduce(m):
    red, dens = U.reducible, U.dens
    for v, e in m:
        if v in red:
            if e >= U.vars[v].rule[0]:
                return v
        elif v in dens and e >= 1:
            return v
    return None


def reduce_rules(p):
    """Apply var**k -> poly rules and expand positive powers of base atoms."""
    if not (U.reducible or U.dens):
        return p
    work = None
    for m in p:
        if _needs_reduce(m) is not None:
            work = True
            break
    if not work:
        return p
    out = {}
    todo = list(p.items())
    while todo:
        m, c = todo.pop()
        v = _needs_reduce(m)
        if v is None:
            s = out.get(m, 0) + c
            if s == 0:
                out.pop(m, None)
            else:
                out[m] = s if type(s) is int or s.denominator != 1 else s.numerator
            continue
        var = U.vars[v]
        if var.rule is not None:
            k, rp = var.rule
        else:
            k, rp = 1, var.defn
        rest = mmul(m, ((v, -k),))
        for m2, c2 in rp.items():
            todo.append((mmul(rest, m2), c * c2))
    return out


def mul(a, b):
    if not a or not b:
        return {}
    if len(a) > len(b):
        a, b = b, a
    if len(a) == 1:
        (ma, ca), = a.items()
        if not ma:
            return scale(b, ca)
        r = {}
        for mb, cb in b.items():
            s = ca * cb
            r[mmul(ma, mb)] = s if type(s) is int or s.denominator != 1 else s.numerator
    else:
        r = {}
        for ma, ca in a.items():
            for mb, cb in b.items():
                m = mmul(ma, mb)
                s = ca * cb
                t = r.get(m)
                if t is not None:
                    s = s + t
                    if s == 0:
                        del r[m]
                        continue
                r[m] = s if type(s) is int or s.denominator != 1 else s.numerator
    return reduce_rules(r)


def ipow(a, n):
    if n == 0:
        return {ONE: 1}
    r = a
    for _ in range(n - 1):
        r = mul(r, a)
    return r


def variables(p):
    s = set()
    for m in p:
        for v, _ in m:
            s.add(v)
    return s


def content(p):
    """(coefficient, monomial) to factor out so that the rest is canonical:
    every variable's least exponent becomes 0, leading coefficient 1."""
    it = iter(p)
    first = next(it)
    mins = dict(first)
    for m in it:
        d = dict(m)
        for v in list(mins):
            e = d.get(v, 0)
            if e < mins[v]:
                mins[v] = e
        for v, e in d.items():
            if v not in mins and e < 0:
                mins[v] = e
    # variables absent from `first` but negative elsewhere are handled above;
    # those absent somewhere have minimum <= 0
    for m in p:
        d = dict(m)
        for v in list(mins):
            e = d.get(v, 0)
            if e < mins[v]:
                mins[v] = e
    mono = tuple(sorted((v, e) for v, e in mins.items() if e != 0))
    return mono


def minv(m):
    return tuple((v, -e) for v, e in m)


def shift(p, m):
    if not m:
        return p
    return {mmul(k, m): c for k, c in p.items()}


def leading(p):
    return max(p, key=lambda m: (len(m), m_key(m)))


def m_key(m):
    return tuple((v, float(e)) for v, e in m)


def freeze(p):
    return frozenset(p.items())


def positive(p):
    """Syntactic: p > 0 for all admissible values.  True or False (unknown)."""
    if not p:
        return False
    strict = False
    for m, c in p.items():
        if c <= 0:
            return False
        st = True
        for v, e in m:
            var = U.vars[v]
            if var.pos:
                continue
            if var.nonneg or (type(e) is int and e % 2 == 0):
                if e < 0 or var.nonzero:
                    continue
                st = False
                continue
            return False
        strict = strict or st
    return strict


def nonneg(p):
    for m, c in p.items():
        if c < 0:
            return False
        for v, e in m:
            var = U.vars[v]
            if var.pos or var.nonneg or (type(e) is int and e % 2 == 0):
                continue
            return False
    return True


def nonzero_mono(m):
    for v, _ in m:
        var = U.vars[v]
        if not (var.pos or var.nonzero):
            return False
    return True


class TooBig(Exception):
    pass


def clear_and_expand(p, limit=400000):
    """Eliminate base atoms exactly.  Returns a list of polynomials; p is
    identically zero (wherever the base atoms are nonzero) if all are {}."""
    out = []
    todo = [p]
    while todo:
        q = reduce_rules(todo.pop())
        if not q:
            continue
        vs = variables(q)
        ds = [v for v in vs if v in U.dens]
        # remaining negative exponents of other variables: clear them
        if not ds:
            neg_m = [v for v in vs if any(e < 0 for m in q for w, e in m if w == v)]
            if neg_m:
                q2 = shift(q, tuple(sorted((v, -min(e for m in q for w, e in m if w == v))
                                           for v in neg_m)))
                q2 = reduce_rules(q2)
                if q2:
                    if any(e < 0 for m in q2 for w, e in m):
                        todo.append(q2)
                    else:
                        out.append(q2)
                continue
            out.append(q)
            continue
        d = max(ds)
        classes = {}
        for m, c in q.items():
            e = 0
            for v, x in m:
                if v == d:
                    e = x
            f = e - (e.numerator // e.denominator if type(e) is Fraction else e)
            classes.setdefault(f, []).append((m, c, e))
        defn = U.vars[d].defn
        for f, items in classes.items():
            emin = min(e for _, _, e in items)
            powers = {0: {ONE: 1}}
            groups = {}
            for m, c, e in items:
                k = int(e - emin)
                rest = tuple(x for x in m if x[0] != d)
                g = groups.setdefault(k, {})
                g[rest] = g.get(rest, 0) + c
            acc = {}
            for k in sorted(groups):
                kk = max(x for x in powers if x <= k)
                pw = powers[kk]
                for _ in range(k - kk):
                    pw = mul(pw, defn)
                powers[k] = pw
                acc = add(acc, mul(pw, {m: c for m, c in groups[k].items() if c != 0}))
                if len(acc) > limit:
                    raise TooBig(len(acc))
            if acc:
                todo.append(acc)
    return out


def identically_zero(p):
    if not p:
        return True
    return not clear_and_expand(p)
