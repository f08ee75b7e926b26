"""Stand-ins for multiprocessing and pylibxc (both modes)."""
import copy
import types


class ManagerDict(dict):
    def __deepcopy__(self, memo):
        return self

    # a proxy's views come back as lists
    def keys(self):
        return list(dict.keys(self))

    def values(self):
        return list(dict.values(self))

    def items(self):
        return list(dict.items(self))

    def __setitem__(self, k, v):
        # values cross a process boundary: the parent gets its own copy
        dict.__setitem__(self, k, copy.deepcopy(v))


class _Grid:
    pass


def isolate(obj, memo=None):
    """What a forked child sees: its own copy of everything mutable except the
    (read-only) grid and manager proxies."""
    memo = {}
    _share(obj, memo, set())
    return copy.deepcopy(obj, memo)


def _share(o, memo, seen, depth=0):
    if id(o) in seen or depth > 6:
        return
    seen.add(id(o))
    n = type(o).__name__
    if n == "Psgrid" or isinstance(o, (types.ModuleType, ManagerDict)):
        memo[id(o)] = o
        return
    if isinstance(o, dict):
        vals = list(o.values())
    elif isinstance(o, (list, tuple)):
        vals = list(o)
    elif hasattr(o, "__self__") and isinstance(o, types.MethodType):
        vals = [o.__self__]
    elif hasattr(o, "__dict__") and not isinstance(o, type):
        vals = list(vars(o).values())
    else:
        return
    for v in vals:
        _share(v, memo, seen, depth + 1)


class ProcPool:
    """Processes of one run: bodies execute when first joined, in the order
    the harness chooses (completion order is an input of the property)."""

    def __init__(self, env):
        self.env = env
        self.started = []
        self.count = 0
        self.batches = 0


def modules(env):
    pool = ProcPool(env)
    env.procs = pool

    class Process:
        def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
            self.target, self.args, self.kwargs = target, tuple(args), dict(kwargs or {})
            self.exitcode = None
            self._done = False

        def start(self):
            memo_args = isolate((self.target, self.args, self.kwargs))
            self._t, self._a, self._k = memo_args
            pool.started.append(self)
            pool.count += 1

        def run(self):
            self._t(*self._a, **self._k)

        def join(self, timeout=None):
            if self._done:
                return
            batch = pool.started
            pool.started = []
            pool.batches += 1
            order = list(range(len(batch)))
            if env.proc_order is not None:
                order = env.proc_order(len(batch))
            for i in order:
                batch[i]._done = True
                batch[i].run()
                batch[i].exitcode = 0

        def is_alive(self):
            return not self._done

        def terminate(self):
            pass

        def close(self):
            pass

    class Manager:
        def dict(self, *a, **k):
            return ManagerDict(*a, **k)

        def list(self, *a):
            return list(*a)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def shutdown(self):
            pass

    class Pool:
        def __init__(self, *a, **k):
            pass

        def map(self, f, xs):
            return [f(x) for x in xs]

        def starmap(self, f, xs):
            return [f(*x) for x in xs]

        def apply_async(self, f, args=(), kwds=None, **k):
            r = Future(f, tuple(args), dict(kwds or {}))
            r.get = r.result
            return r

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def close(self):
            pass

        join = terminate = close

    m = types.ModuleType("multiprocessing")
    m.Process, m.Manager, m.Pool = Process, Manager, Pool
    m.cpu_count = lambda: 4
    m.get_context = lambda *a: m
    m.set_start_method = lambda *a, **k: None

    import multiprocessing as _real

    def _more(n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(_real, n)
    m.__getattr__ = _more

    class Future:
        def __init__(self, f, a, k):
            self.f, self.a, self.k = isolate((f, a, k))
            self.done_ = False

        def result(self, timeout=None):
            if not self.done_:
                self.r, self.done_ = copy.deepcopy(self.f(*self.a, **self.k)), True
            return self.r

    class Executor:
        def __init__(self, *a, **k):
            pass

        def submit(self, f, *a, **k):
            return Future(f, a, k)

        def map(self, f, *its, **k):
            return [Future(f, a, {}).result() for a in zip(*its)]

        def shutdown(self, *a, **k):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False
    import concurrent.futures as _cf
    cf = types.ModuleType("concurrent.futures")
    cf.ProcessPoolExecutor = cf.ThreadPoolExecutor = Executor
    cf.as_completed = lambda fs, timeout=None: list(fs)
    cf.wait = lambda fs, *a, **k: (set(fs), set())
    cf.__getattr__ = lambda n: getattr(_cf, n)
    conc = types.ModuleType("concurrent")
    conc.futures = cf

    x = types.ModuleType("pylibxc")

    class LibXCFunctional:
        def __init__(self, name, spin, *a, **k):
            if spin in (1, "unpolarized"):
                self.pol = 1
            elif spin in (2, "polarized"):
                self.pol = 2
            else:
                raise KeyError(f"LibXCFunctional: spin must be 1 or 2, not {spin}")
            self.name = name

        def compute(self, inp, output=None, do_exc=True, do_vxc=True, **k):
            h = getattr(env, "libxc", None)
            if h is None:
                from .sym import EngineLimit
                raise EngineLimit("no libxc contract supplied by the harness")
            return h(self.name, self.pol, inp)

        def get_family(self):
            return 1

    x.LibXCFunctional = LibXCFunctional
    x.util = types.ModuleType("pylibxc.util")
    mods = {"concurrent": conc, "concurrent.futures": cf, "multiprocessing": m, "pylibxc": x, "pylibxc.util": x.util}
    import types as _t
    for nm in ("matplotlib", "matplotlib.pyplot", "plotly", "plotly.graph_objects"):
        mods[nm] = _t.ModuleType(nm)
    mods["matplotlib"].pyplot = mods["matplotlib.pyplot"]
    mods["plotly"].graph_objects = mods["plotly.graph_objects"]
    return mods
