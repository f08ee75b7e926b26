"""Harness runner: one harness text, run symbolically (the verdict) and
concretely on the real numpy/scipy (validation of the encoding and replay)."""
import copy
import hashlib
import importlib
import json
import math
import os
import random
import sys
import time
import traceback
import types
import warnings
from fractions import Fraction

import numpy as np

from . import poly as P
from . import sym as S
from . import snp, ssp, loader, mp
from .sym import Sym, EngineLimit, Infeasible, to_sym

warnings.filterwarnings("ignore")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

REGISTRY = {}


class Harness:
    def __init__(self, prop, name, fn, configs, thorough, kw):
        self.prop, self.name, self.fn = prop, name, fn
        self.configs, self.thorough = configs, thorough
        self.kw = kw


def harness(prop, configs=({},), thorough=(), name=None, **kw):
    def deco(fn):
        h = Harness(prop, name or fn.__name__, fn, list(configs), list(thorough), kw)
        REGISTRY.setdefault(prop, []).append(h)
        return fn
    return deco


class Stop(Exception):
    """the harness asks to end this path early"""


class Obligation:
    __slots__ = ("name", "kind", "lhs", "rhs", "tol")

    def __init__(self, name, kind, lhs, rhs, tol):
        self.name, self.kind, self.lhs, self.rhs, self.tol = name, kind, lhs, rhs, tol


class Env:
    """What a harness sees.  Subclasses: SymEnv, NumEnv."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.obligations = []
        self.names = {}
        self.stubs = {}
        self.loader = None
        self.notes = []
        self.proc_order = None
        self.mpmod = None

    def _uname(self, name):
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        return name if k == 0 else f"{name}#{k}"

    def stub(self, dotted, f):
        """Replace a third-party function for this run (before mod())."""
        assert self.loader is None, "stub() must come before mod()"
        self.stubs[dotted] = f

    def mod(self, name):
        if self.loader is None:
            self._make_loader()
        return self.loader.load("CADMium." + name if name else "CADMium")

    def _flat(self, x):
        if getattr(x, "_is_symmat", False):
            x = x.toarray()
        if hasattr(x, "toarray"):
            x = x.toarray()
        a = np.asarray(x) if not isinstance(x, Sym) else np.array(x, dtype=object)
        return a

    def eq(self, name, lhs, rhs, tol=1e-7):
        """lhs == rhs, elementwise; rhs broadcasts to lhs's shape only if scalar."""
        name = self._uname(name)
        a, b = self._flat(lhs), self._flat(rhs)
        if b.ndim and a.shape != b.shape:
            self.obligations.append(Obligation(name + ".shape", "bool", [a.shape == b.shape],
                                               [f"{a.shape} vs {b.shape}"], 0))
            return
        if not b.ndim and a.ndim:
            b = np.broadcast_to(b, a.shape)
        self.obligations.append(Obligation(name, "==", list(a.ravel()), list(b.ravel()), tol))

    def shape(self, name, x, shape):
        s = tuple(np.shape(x)) if not hasattr(x, "shape") else tuple(x.shape)
        self.true(name, s == tuple(shape), f"{s} vs {shape}")

    def cmp(self, name, op, lhs, rhs, tol=1e-9):
        name = self._uname(name)
        a, b = self._flat(lhs), self._flat(rhs)
        a, b = np.broadcast_arrays(a, b)
        self.obligations.append(Obligation(name, op, list(a.ravel()), list(b.ravel()), tol))

    def ge(self, name, l, r=0):
        self.cmp(name, ">=", l, r)

    def gt(self, name, l, r=0):
        self.cmp(name, ">", l, r)

    def le(self, name, l, r):
        self.cmp(name, "<=", l, r)

    def lt(self, name, l, r):
        self.cmp(name, "<", l, r)

    def true(self, name, cond, detail=""):
        name = self._uname(name)
        self.obligations.append(Obligation(name, "bool", [bool(cond)], [detail], 0))

    def raises(self, name, exc, f):
        try:
            f()
        except exc:
            self.true(name, True)
            return True
        except (EngineLimit, Infeasible, Stop):
            raise
        except Exception as e:
            self.true(name, False, f"raised {type(e).__name__}: {e}")
            return False
        self.true(name, False, "did not raise")
        return False

    def stop(self):
        raise Stop()

    def total(self, xs):
        t = 0
        for x in xs:
            t = t + x
        return t

    def arr(self, xs, shape=None):
        """array of given scalars in the mode's own representation"""
        raise NotImplementedError


class SymEnv(Env):
    mode = "sym"

    def __init__(self, cfg):
        super().__init__(cfg)
        self.np = snp.make()
        self.ctx = S.ctx()
        self.inputs = {}

    @property
    def pi(self):
        return S.pi_sym()

    def _make_loader(self):
        mods = {"numpy": self.np, "numpy.linalg": self.np.linalg, "numpy.matlib": self.np.matlib}
        mods.update(ssp.make(self.np, self.stubs))
        self.sp = mods["scipy.sparse"]
        mods.update(mp.modules(self))
        m = _MathProxy("math")
        mods["math"] = m
        mods["cmath"] = m
        for k, f in self.stubs.items():
            a, b = k.rsplit(".", 1)
            if a in mods:
                setattr(mods[a], b, f)
        loader._lenient_numbers(Sym)
        self.loader = loader.Loader(mods, float_type=snp.FloatType, extra_builtins={
            "max": _bmax, "min": _bmin, "sum": sum, "round": round})
        self.mods = mods

    @property
    def sparse(self):
        if self.loader is None:
            self._make_loader()
        return self.mods["scipy.sparse"]

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, nonzero=False, val=None, hint=None):
        v = P.U.var(name)
        v.pos = pos or (lo is not None and lo > 0)
        v.nonneg = v.pos or nonneg or (lo is not None and lo >= 0)
        v.nonzero = v.pos or nonzero
        if lo is not None:
            v.lo = Fraction(lo)
        if hi is not None:
            v.hi = Fraction(hi)
        self.inputs[name] = v
        return Sym(P.from_var(v))

    def angle(self, name, s, c):
        """an angle in (0, pi) with sin = s, cos = c (rationals)"""
        r = self.real(name, pos=True)
        self.inputs[name].known = {"sin": Fraction(s), "cos": Fraction(c)}
        return r

    def radius(self, name, s, c):
        """a positive number with sinh = s, cosh = c (rationals)"""
        r = self.real(name, pos=True)
        self.inputs[name].known = {"sinh": Fraction(s), "cosh": Fraction(c)}
        return r

    def array(self, name, shape, **dom):
        shape = (int(shape),) if np.ndim(shape) == 0 else tuple(shape)
        a = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            a[ix] = self.real(name + "[" + ",".join(map(str, ix)) + "]", **dom)
        return a.view(snp.SArr)

    def arr(self, xs, shape=None):
        a = np.empty(len(xs), dtype=object)
        for i, x in enumerate(xs):
            a[i] = to_sym(x)
        a = a.view(snp.SArr)
        return a if shape is None else a.reshape(shape)

    def num(self, x):
        """exact constant(s) from concrete numbers"""
        if isinstance(x, np.ndarray):
            return snp.symbolise(x)
        return to_sym(x)

    def smat(self, dense):
        return ssp.SymMat.from_dense(dense)

    def assume(self, op, a, b=0):
        d = to_sym(a) - to_sym(b)
        self.ctx.assume(op, d.p)

    def div_ieee(self):
        self.ctx.div_mode = "ieee"


class NumEnv(Env):
    mode = "num"

    def __init__(self, cfg, values, seed):
        super().__init__(cfg)
        self.np = np
        self.values = dict(values)
        self.used = {}
        self.rng = random.Random(seed)
        self.violated_assumption = False
        self.seed = seed

    pi = math.pi

    def _make_loader(self):
        import scipy
        mods = {}
        mods.update(_num_mods(self.stubs))
        mods.update(mp.modules(self))
        for k, f in self.stubs.items():
            a, b = k.rsplit(".", 1)
            if a in mods:
                setattr(mods[a], b, f)
        self.loader = loader.Loader(mods)
        self.mods = mods

    @property
    def sparse(self):
        import scipy.sparse
        return scipy.sparse

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, nonzero=False, val=None, hint=None):
        if name in self.used:
            return self.used[name]
        if lo is None and hi is not None and (pos or nonneg):
            lo = 0
        if name in self.values:
            v = float(self.values[name])
            if (pos and v <= 0) or (nonneg and v < 0) or (nonzero and v == 0) or \
                    (lo is not None and v < float(lo)) or (hi is not None and v > float(hi)):
                raise BadPoint()
        elif val is not None and self.rng.random() < 0.5:
            v = float(val)
        elif hint is not None:                # where to sample concrete points; not a restriction
            v = self.rng.uniform(*hint)
        elif lo is not None and hi is not None:
            v = self.rng.uniform(float(lo), float(hi))
        elif lo is not None:
            v = float(lo) + self.rng.uniform(0.1, 2.0)
        elif hi is not None:
            v = float(hi) - self.rng.uniform(0.1, 2.0)
        elif pos or nonneg:
            v = self.rng.uniform(0.3, 2.0)
        else:
            v = self.rng.uniform(0.2, 2.0) * self.rng.choice([-1, 1])
        self.used[name] = v
        return v

    def angle(self, name, s, c):
        v = self.used[name] = math.atan2(float(s), float(c))
        return v

    def radius(self, name, s, c):
        v = self.used[name] = math.asinh(float(s))
        return v

    def array(self, name, shape, **dom):
        shape = (int(shape),) if np.ndim(shape) == 0 else tuple(shape)
        a = np.empty(shape)
        for ix in np.ndindex(*shape):
            a[ix] = self.real(name + "[" + ",".join(map(str, ix)) + "]", **dom)
        return a

    def arr(self, xs, shape=None):
        a = np.array([float(x) for x in xs])
        return a if shape is None else a.reshape(shape)

    def num(self, x):
        if isinstance(x, np.ndarray):
            return x.astype(float)
        return float(x)

    def smat(self, dense):
        import scipy.sparse
        return scipy.sparse.csc_matrix(np.asarray(dense, dtype=float))

    def assume(self, op, a, b=0):
        d = float(a) - float(b)
        ok = {"<": d < 0, "<=": d <= 0, "==": abs(d) < 1e-9, "!=": d != 0,
              ">": d > 0, ">=": d >= 0}[op]
        if not ok:
            raise BadPoint()

    def div_ieee(self):
        pass


class BadPoint(Exception):
    """a concrete point outside the harness's assumptions"""


class _MathProxy(types.ModuleType):
    _M = {"sqrt": "sqrt", "sin": "sin", "cos": "cos", "tan": "tan", "sinh": "sinh", "cosh": "cosh",
          "tanh": "tanh", "exp": "exp", "log2": "log2", "log10": "log10", "fabs": "fabs",
          "acos": "arccos", "asin": "arcsin", "atan": "arctan", "acosh": "arccosh", "asinh": "arcsinh"}

    def __getattr__(self, n):
        if n == "pi":
            return S.pi_sym()
        if n.startswith("__"):
            raise AttributeError(n)
        real = getattr(math, n)
        if n == "log":
            def log(x, base=None):
                if isinstance(x, Sym) or isinstance(base, Sym):
                    r = to_sym(x).log()
                    return r if base is None else r / to_sym(base).log()
                return math.log(x) if base is None else math.log(x, base)
            return log
        if n in ("floor", "ceil", "trunc"):
            return real
        if n == "isnan":
            return lambda x: bool(snp.isnan(x))
        if n == "isinf":
            return lambda x: bool(snp.isinf(x))
        if n == "isfinite":
            return lambda x: bool(snp.isfinite(x))
        if n == "isclose":
            def isclose(a, b, rel_tol=1e-09, abs_tol=0.0):
                d = abs(to_sym(a) - to_sym(b))
                return bool(d <= to_sym(rel_tol) * abs(to_sym(a))) or bool(d <= to_sym(rel_tol) * abs(to_sym(b))) \
                    or bool(d <= to_sym(abs_tol))
            return isclose
        if n == "pow":
            return lambda a, b: to_sym(a) ** to_sym(b)
        if n == "erf":
            return lambda a: S.fn("erf", to_sym(a))
        if n in self._M:
            m = self._M[n]

            def f(x):
                if isinstance(x, Sym) or (isinstance(x, np.ndarray) and x.size == 1):
                    return to_sym(getattr(to_sym(x), m)())
                return real(x)
            return f
        return real


def _anysym(xs):
    return any(isinstance(x, Sym) for x in xs)


def _bmax(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not k and _anysym(xs):
        # the built-in compares in turn: nothing beats a NaN that comes first, a later NaN beats nothing
        if to_sym(xs[0]).k == S.NAN:
            return xs[0]
        return S.max_atom([x for x in xs if to_sym(x).k != S.NAN], "max")
    if len(a) == 1:
        return max(xs, **k)
    return max(*a, **k)


def _bmin(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not k and _anysym(xs):
        # the built-in compares in turn: nothing beats a NaN that comes first, a later NaN beats nothing
        if to_sym(xs[0]).k == S.NAN:
            return xs[0]
        return S.max_atom([x for x in xs if to_sym(x).k != S.NAN], "min")
    if len(a) == 1:
        return min(xs, **k)
    return min(*a, **k)


class _Thin(types.ModuleType):
    def __init__(self, name, real):
        types.ModuleType.__init__(self, name)
        self.__dict__["_real"] = real

    def __getattr__(self, n):
        return getattr(self.__dict__["_real"], n)


def _num_mods(stubs):
    import scipy.sparse.linalg
    import scipy.optimize
    import scipy.special
    import scipy.linalg
    out = {}
    real = {"scipy": scipy, "scipy.sparse": scipy.sparse, "scipy.sparse.linalg": scipy.sparse.linalg,
            "scipy.optimize": scipy.optimize, "scipy.linalg": scipy.linalg}
    need = set()
    for k in stubs:
        m = k.rsplit(".", 1)[0]
        if m in real:
            need.add(m)
    if need:
        for n, r in real.items():
            out[n] = _Thin(n, r)
        out["scipy"].sparse = out["scipy.sparse"]
        out["scipy"].optimize = out["scipy.optimize"]
        out["scipy.sparse"].linalg = out["scipy.sparse.linalg"]
        out["scipy.special"] = scipy.special
        out["scipy"].linalg = out["scipy.linalg"]
    if any(k.startswith("numpy.linalg.") for k in stubs):
        out["numpy"] = _Thin("numpy", np)
        out["numpy.linalg"] = _Thin("numpy.linalg", np.linalg)
        out["numpy"].linalg = out["numpy.linalg"]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            import numpy.matlib
        out["numpy.matlib"] = out["numpy"].matlib = numpy.matlib
    return out


# --------------------------------------------------------------------------
# one job = one harness + one configuration
# --------------------------------------------------------------------------

def _tb(e):
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f"{os.path.relpath(f.filename, loader.REPO) if f.filename.startswith(loader.REPO) else os.path.basename(f.filename)}:{f.lineno}"
          for f in tb][-4:]
    return f"{type(e).__name__}: {e} @ " + " < ".join(reversed(fr))


class Job:
    known = ()        # obligations listed as known findings: they do not end the exploration

    def __init__(self, h, cfg, seed, thorough):
        self.h, self.cfg, self.seed, self.thorough = h, cfg, seed, thorough
        self.failures = []     # (name, reason, values)
        self.inconclusive = []
        self.known = []
        self.stats = dict(paths=0, obligations=0, elements=0, discharged=0, queries=0,
                          solver_s=0.0, feas_queries=0, validated=0, replays=0, exprs=0,
                          cvc5=0, terms=0)
        self.samples = []
        self.functions = set()
        self.assumptions = set()

    # -- concrete execution
    def concrete(self, values, seed):
        env = NumEnv(self.cfg, values, seed)
        exc = None
        st = np.geterr()
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                np.seterr(all="ignore")
                self.h.fn(env)
        except Stop:
            pass
        except BadPoint:
            return None
        except Exception as e:
            exc = e
        finally:
            np.seterr(**st)
        self.stats["replays"] += 1
        return env, exc

    @staticmethod
    def check_concrete(o):
        """None if the concrete obligation holds, else a description."""
        if o.kind == "bool":
            return None if o.lhs[0] else f"{o.rhs[0] or 'condition is false'}"
        try:
            l = np.array([float(x) for x in o.lhs])
            r = np.array([float(x) for x in o.rhs])
        except TypeError as e:
            return f"not numbers: {e}"
        if o.kind == "==":
            sc = max(1e-6, np.nanmax(np.abs(np.where(np.isfinite(r), r, 0))) if r.size else 0,
                     min(np.nanmax(np.abs(np.where(np.isfinite(l), l, 0))) if l.size else 0, 1e6))
            for i, (x, y) in enumerate(zip(l, r)):
                if math.isnan(x) and math.isnan(y) or x == y:
                    continue
                if not abs(x - y) <= o.tol * max(sc, 1e-6):
                    return f"element {i}: {x!r} should be {y!r}"
            return None
        for i, (x, y) in enumerate(zip(l, r)):
            s = o.tol * (1 + abs(x) + abs(y))
            ok = {">=": x >= y - s, ">": x > y - s, "<=": x <= y + s, "<": x < y + s,
                  "!=": x != y}[o.kind]
            if not ok:
                return f"element {i}: {x!r} {o.kind} {y!r} is false"
        return None

    def try_points(self, name, points):
        """Replay candidate points; report the first that shows a violation of
        obligation `name` (or of any obligation when name is None)."""
        for vals, sd in points:
            r = self.concrete(vals, sd)
            if r is None:
                continue
            env, exc = r
            degenerate = False
            held = None            # a listed finding showing at this point: reported only if nothing else does
            for o in env.obligations:
                if o.name in self.known and (held or name is not None and name not in self.known):
                    continue
                bad = self.check_concrete(o)
                if bad is not None:
                    # a solver-chosen point may be singular (0/0): not a finding by itself
                    if vals and o.kind != "bool" and not np.all(np.isfinite(np.array(o.lhs, dtype=float))):
                        degenerate = True
                        continue
                    if degenerate:
                        continue
                    if o.name in self.known:
                        held = o.name, bad, dict(env.used), sd
                        continue
                    return o.name, bad, dict(env.used), sd
            if exc is not None:
                if isinstance(exc, EngineLimit):
                    continue
                if vals and (isinstance(exc, (np.linalg.LinAlgError, ZeroDivisionError)) or "singular" in str(exc)):
                    continue
                return "exception", _tb(exc), dict(env.used), sd
            if held:
                return held
        return None

    def points(self, base=None, n=8):
        pts = []
        if base:
            pts.append((base, self.seed * 1000 + 7))
        for i in range(n):
            pts.append(({}, self.seed * 1000 + 100 + i))
        return pts

    # -- symbolic execution
    def run(self):
        t0 = time.time()
        c = S.new_context()
        ssp.HALF.clear()
        c.timeout_ms = self.h.kw.get("feas_ms", 3000)
        self.paths = []
        queue = [[]]
        limit = self.h.kw.get("max_paths", 600)
        limit_reason = None
        while queue:
            prefix = queue.pop()
            c.start_run(prefix)
            c.pending = []
            env = SymEnv(self.cfg)
            exc = None
            try:
                self.h.fn(env)
            except Infeasible:
                queue.extend(c.pending)
                continue
            except Stop:
                pass
            except EngineLimit as e:
                limit_reason = "engine: " + _tb(e)
                queue.extend(c.pending)
                self.paths.append((list(c.facts()), list(c.extra), env, None))
                break
            except RecursionError as e:
                limit_reason = "engine: recursion"
                break
            except Exception as e:
                exc = e
            queue.extend(c.pending)
            self.stats["paths"] += 1
            if env.loader:
                self.functions |= env.loader.executed
            self.paths.append((list(c.facts()), list(c.extra), env, exc))
            self.decide_path(c, env, exc)
            if any(f[0] not in self.known for f in self.failures):
                break                      # one confirmed violation decides this configuration
            if len(self.paths) > limit:
                limit_reason = f"more than {limit} paths"
                break
            if time.time() - t0 > self.h.kw.get("budget", 600):
                limit_reason = "time budget"
                break
        self.stats["feas_queries"] = c.nq
        self.stats["solver_s"] += c.qtime
        for k, v in c.nonzero_notes.items():
            pass
        if limit_reason and not self.failures:
            r = self.try_points(None, self.points())
            if r:
                self.fail(*r)
            else:
                self.inconclusive.append(limit_reason)
        if not self.failures and not self.inconclusive:
            self.validate()
        if not self.stats["paths"] and not self.failures and not self.inconclusive:
            self.inconclusive.append("no feasible path")
        self.stats["wall"] = time.time() - t0
        return self

    def fail(self, name, desc, values, seed):
        if any(f[0] == name for f in self.failures):
            return
        self.failures.append((name, desc, values, seed))

    def decide_path(self, c, env, exc):
        if exc is not None:
            # does the exception path exist concretely?
            r, model, _ = S.solve_query(c, c.facts(), [], 20000, want_model=True)
            base = self.model_values(env, model)
            pts = [(base, 7)] + self.points(n=6) if base else self.points(n=6)
            got = self.try_points(None, pts)
            if got:
                self.fail(*got)
            else:
                if r != S.z3.unsat:
                    self.inconclusive.append("symbolic run raised, concrete run did not: " + _tb(exc))
            return
        # reachability witness: the end of the harness is reachable
        facts = c.facts()
        if not env.obligations:
            self.inconclusive.append("a path ended without obligations")
            return
        tq = time.time()
        reach = self.witness(c, env, facts)
        self.stats["solver_s"] += time.time() - tq
        if reach == "unsat":
            return
        if reach == "unknown":
            self.stats["unknown_reach"] = self.stats.get("unknown_reach", 0) + 1
        for o in env.obligations:
            self.decide(c, env, o, facts)
            if len([f for f in self.failures if f[0] not in self.known]) >= 2:
                return

    def witness(self, c, env, facts):
        if not facts:
            return "sat"
        r, m, _ = S.solve_query(c, facts, [], self.h.kw.get("reach_ms", 10000))
        self.stats["queries"] += 1
        return str(r)

    def model_values(self, env, model):
        if not model:
            return None
        out = {}
        for n, v in env.inputs.items():
            if v.vid in model:
                out[n] = model[v.vid]
        return out

    def decide(self, c, env, o, facts):
        st = self.stats
        st["obligations"] += 1
        if o.kind == "bool":
            st["elements"] += 1
            if o.lhs[0]:
                st["discharged"] += 1
                return
            r, model, _ = S.solve_query(c, facts, [], 20000, want_model=True)
            self.refute(c, env, o, "sat" if r != S.z3.unsat else "unsat", model, facts)
            return
        goals = []
        for i, (l, r) in enumerate(zip(o.lhs, o.rhs)):
            st["elements"] += 1
            try:
                l, r = to_sym(l), to_sym(r)
            except EngineLimit as e:
                goals.append(None)
                continue
            if l.k != S.FIN or r.k != S.FIN:
                if o.kind == "==" and l.k == r.k:
                    continue
                goals.append(None)
                continue
            goals.append((l, r))
        bad = any(g is None for g in goals)
        if bad:
            r, model, _ = S.solve_query(c, facts, [], 20000, want_model=True)
            self.refute(c, env, o, "sat" if r != S.z3.unsat else "unsat", model, facts)
            return
        neg = {"==": "!=", ">=": "<", ">": "<=", "<=": ">", "<": ">=", "!=": "=="}[o.kind]
        qs = []
        trivial = []
        for l, r in goals:
            d = P.sub(l.p, r.p)
            st["terms"] += len(l.p) + len(r.p)
            (qs if d else trivial).append((l, r, d))
        # Syntactically equal normal forms: still posed to the solver, batched.
        batch = []
        for l, r, d in trivial:
            batch.append((l, r))
        if batch:
            res = self.pose_identity(c, batch, neg)
            if res != "unsat":
                self.inconclusive.append(f"{o.name}: identity query answered {res}")
                return
        for l, r, d in qs:
            verdict, model = self.pose(c, facts, neg, d, o)
            if verdict != "unsat":
                self.refute(c, env, o, verdict, model, facts, d)
                return
        st["discharged"] += 1
        if len(self.samples) < 2 and goals:
            l, r = goals[len(goals) // 2]
            self.samples.append({"obligation": o.name, "config": _js(self.cfg), "lhs": S.show(l.p, 4),
                                 "op": o.kind, "rhs": S.show(r.p, 4), "verdict": "unsat(negation)"})

    def pose_identity(self, c, batch, neg):
        t = time.time()
        z3 = S.z3
        tr = S.Translator(c)
        prs = []
        for l, r in batch:
            if neg == "!=" and l.p is not r.p:
                # clear denominators with one common monomial so both sides are polynomials
                mins = {}
                for p in (l.p, r.p):
                    for m in p:
                        for v, e in m:
                            if e < 0:
                                mins[v] = min(mins.get(v, 0), e)
                mono = tuple(sorted((v, -e) for v, e in mins.items()))
                prs.append(((P.shift(l.p, mono), P.shift(r.p, mono))))
            else:
                prs.append((l.p, r.p) if neg == "!=" else (P.sub(l.p, r.p), {}))
        for a, b in prs:
            tr._scan(a)
            tr._scan(b)
        ops = {"!=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b,
               ">": lambda a, b: a > b, ">=": lambda a, b: a >= b, "==": lambda a, b: a == b}[neg]
        big = sum(len(a) for a, _ in prs) > 60000
        s = z3.Solver()
        s.set("timeout", 60000)
        alts = [ops(tr.poly(a), tr.poly(b)) for a, b in prs[:200 if big else None]]
        s.add(z3.Or(*alts) if len(alts) > 1 else alts[0])
        r = s.check()
        self.stats["queries"] += 1
        self.stats["solver_s"] += time.time() - t
        return str(r)

    def pose(self, c, facts, neg, d, o):
        """facts AND d neg 0 satisfiable?  -> verdict, model"""
        t = time.time()
        st = self.stats
        try:
            if neg == "!=":
                try:
                    parts = P.clear_and_expand(d, 60000)
                except P.TooBig:
                    parts = None
                if parts is not None and not parts:
                    st["queries"] += 1
                    s = S.z3.Solver()
                    s.add(S.z3.RealVal(0) != S.z3.RealVal(0))
                    return str(s.check()), None
                if parts is not None and not facts and not c.extra and len(parts) == 1 and \
                        self._free(parts[0]):
                    # a nonzero polynomial over independent reals: let z3 find a point
                    r, m, _ = S.solve_query(c, [], [("!=", parts[0])], 4000, want_model=True)
                    st["queries"] += 1
                    if str(r) != "unknown":
                        return str(r), m
            if facts and neg != "!=" and len(d) <= 3000 and S.solve_linear(facts, [(neg, d)]) == S.z3.unsat:
                st["queries"] += 1
                return "unsat", None
            rel = self.relevant(facts, d)
            tmo = self.h.kw.get("ms", 15000)
            r, m, s = S.solve_query(c, rel, [(neg, d)], tmo if len(rel) == len(facts) else tmo // 3,
                                    want_model=True)
            st["queries"] += 1
            if str(r) != "unsat" and len(rel) != len(facts):
                r, m, s = S.solve_query(c, facts, [(neg, d)], tmo, want_model=True)
                st["queries"] += 1
            if str(r) == "unknown" and self.thorough:
                r2 = cvc5_check(s, 60)
                st["cvc5"] += 1
                if r2 == "unsat":
                    return "unsat", None
            elif self.thorough and str(r) == "unsat" and st["cvc5"] < 40:
                r2 = cvc5_check(s, 10)
                st["cvc5"] += 1
                if r2 == "sat":
                    return "unknown", None
            return str(r), m
        finally:
            st["solver_s"] += time.time() - t

    def _free(self, p):
        return all(P.U.vars[v].kind == "input" for v in P.variables(p))

    def relevant(self, facts, d):
        """facts sharing (transitively) inputs with d, contract equations first."""
        return facts

    def refute(self, c, env, o, verdict, model, facts, d=None):
        if verdict == "unsat":
            self.stats["discharged"] += 1
            return
        base = self.model_values(env, model)
        pts = []
        if base is not None:
            pts.append((base, self.seed * 1000 + 7))
        # generic points on this path: pin the inputs that do not occur in the path facts
        if facts:
            free = set()
            occ = set()
            for _, p in facts:
                occ |= self.closure(P.variables(p))
            rng = random.Random(self.seed + 13)
            for k in range(3):
                pins = {}
                for n, v in env.inputs.items():
                    if v.vid not in occ:
                        x = Fraction(rng.randint(3, 20), 10)
                        if not v.nonneg and rng.random() < .5:
                            x = -x
                        if v.lo is not None and v.hi is not None:
                            x = v.lo + (v.hi - v.lo) * Fraction(rng.randint(1, 9), 10)
                        pins[v.vid] = x
                r, m, _ = S.solve_query(c, facts, [] if d is None else [], 5000, pins=pins, want_model=True)
                if str(r) == "sat" and m:
                    for v, x in pins.items():
                        m[v] = float(x)
                    pts.append((self.model_values(env, m), self.seed * 1000 + 20 + k))
        pts += self.points(n=10)
        got = self.try_points(o.name, pts)
        if got:
            self.fail(*got)
        else:
            self.inconclusive.append(f"{o.name}: solver says {verdict}, but no concrete run of the real "
                                     f"code reproduces it; {S.show(d, 5) if d else o.rhs[:1]}")

    def closure(self, vs):
        seen = set()
        todo = list(vs)
        while todo:
            v = todo.pop()
            if v in seen:
                continue
            seen.add(v)
            var = P.U.vars[v]
            for p in ([var.defn] if var.defn else []) + list(var.args or []) + \
                    ([var.rule[1]] if var.rule else []):
                todo.extend(P.variables(p))
        return seen

    # -- validation of the encoding against the real code
    def validate(self):
        n = self.h.kw.get("validate", 2)
        done = 0
        for k in range(n * 4):
            if done >= n:
                break
            r = self.concrete({}, self.seed * 7919 + k)
            if r is None:
                continue
            env, exc = r
            if exc is not None:
                self.fail("exception", _tb(exc), dict(env.used), self.seed * 7919 + k)
                return
            match = None
            for facts, extra, senv, sexc in self.paths:
                if sexc is not None:
                    continue
                ev = S.Evaluator(env.used)
                try:
                    if all(ev.holds(op, p) for op, p in facts if not self._contract(p)):
                        match = (senv, ev)
                        break
                except (KeyError, ValueError, OverflowError, ZeroDivisionError):
                    continue
            for o in env.obligations:
                bad = self.check_concrete(o)
                if bad is not None:
                    self.fail(o.name, bad, dict(env.used), self.seed * 7919 + k)
                    return
            if match is None:
                continue
            senv, ev = match
            done += 1
            smap = {o.name: o for o in senv.obligations}
            for o in env.obligations:
                so = smap.get(o.name)
                if so is None or len(so.lhs) != len(o.lhs):
                    self.inconclusive.append(f"encoding differs from real run: obligation {o.name}")
                    return
                if o.kind == "bool":
                    continue
                try:
                    lv = np.array([ev.sym(to_sym(x)) if not isinstance(ev.sym(to_sym(x)), complex) else np.nan
                                   for x in so.lhs])
                except (KeyError, ValueError, OverflowError, ZeroDivisionError, np.linalg.LinAlgError):
                    continue
                rv = np.array([float(x) for x in o.lhs])
                fin = np.isfinite(rv)
                sc = max(1e-6, np.max(np.abs(rv[fin])) if fin.any() else 0)
                if not np.allclose(lv, rv, rtol=1e-6, atol=1e-6 * sc, equal_nan=True):
                    i = int(np.argmax(np.abs(np.where(fin, lv - rv, 0))))
                    self.inconclusive.append(
                        f"encoding differs from real run: {o.name}[{i}] symbolic {lv[i]!r} real {rv[i]!r}")
                    return
                self.stats["validated"] += len(rv)

    def _contract(self, p):
        return any(P.U.vars[v].kind == "contract" for v in P.variables(p))


def _js(x):
    try:
        json.dumps(x)
        return x
    except TypeError:
        if isinstance(x, dict):
            return {str(k): _js(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [_js(v) for v in x]
        return repr(x)


def cvc5_check(z3solver, seconds):
    import subprocess
    txt = "(set-logic ALL)\n" + z3solver.to_smt2().replace("(set-logic", ";(set-logic")
    try:
        r = subprocess.run(["cvc5", "--lang=smt2", f"--tlimit={int(seconds * 1000)}", "-"],
                           input=txt, capture_output=True, text=True, timeout=seconds + 5)
    except Exception:
        return "unknown"
    if "(error" in r.stdout or "(error" in r.stderr:
        return "unknown"
    return r.stdout.strip().split("\n")[0] if r.stdout.strip() else "unknown"
