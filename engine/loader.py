"""Execute the sources under /repo with chosen stand-ins for third-party
modules.  Nothing of CADMium is imported by Python's own machinery: each run
compiles the current file contents and executes them in fresh modules."""
import builtins
import os
import sys
import types

REPO = os.environ.get("VERIF_REPO", "/repo")
_CODE = {}


def _source(path):
    c = _CODE.get(path)
    if c is None:
        with open(path, encoding="utf-8") as f:
            c = compile(f.read(), path, "exec", dont_inherit=True)
        _CODE[path] = c
    return c


class Package(types.ModuleType):
    """A CADMium package whose submodules load on attribute access."""
    _loader = None

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        full = self.__name__ + "." + n
        if self._loader._find(full):
            return self._loader.load(full)
        raise AttributeError(f"module {self.__name__} has no attribute {n}")


def _through(cls, f):
    def validate(v):
        return v if type(v) is cls else f(v)
    validate._sym_ok = True
    return validate


def _lenient_numbers(cls):
    """pydantic number fields pass symbolic reals through unconverted"""
    import pydantic.validators as pv
    for t, fs in pv._VALIDATORS:
        if t in (int, float) and not getattr(fs[0], "_sym_ok", False):
            fs[0] = _through(cls, fs[0])


class Loader:
    def __init__(self, mods, float_type=None, extra_builtins=None):
        self.mods = mods                 # dotted name -> stand-in module
        self.loaded = {}
        b = dict(vars(builtins))
        b["__import__"] = self._import
        if float_type is not None:
            b["float"] = float_type
        b["print"] = lambda *a, **k: None
        if extra_builtins:
            b.update(extra_builtins)
        self.builtins = b
        self.executed = set()
        cv = sys.modules.get("pydantic.class_validators")
        if cv is not None:
            cv._FUNCS.clear()
        for k in [k for k in sys.modules if k == "CADMium" or k.startswith("CADMium.")]:
            del sys.modules[k]

    def _find(self, name):
        p = os.path.join(REPO, *name.split("."))
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.isfile(p + ".py"):
            return p + ".py", False
        if os.path.isdir(p):
            return None, True
        return None

    def load(self, name):
        m = self.loaded.get(name)
        if m is not None:
            return m
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
            m = self.loaded.get(name)
            if m is not None:
                return m
        f = self._find(name)
        if f is None:
            raise ModuleNotFoundError(f"No module named '{name}'", name=name)
        path, pkg = f
        m = Package(name) if pkg else types.ModuleType(name)
        if pkg:
            m._loader = self
            m.__path__ = [os.path.join(REPO, *name.split("."))]
        m.__package__ = name if pkg else name.rpartition(".")[0]
        m.__file__ = path
        m.__builtins__ = self.builtins
        self.loaded[name] = m
        sys.modules[name] = m
        # the top-level package body imports everything (and versioneer): skip it
        if path and name != "CADMium":
            try:
                exec(_source(path), m.__dict__)
            except BaseException:
                self.loaded.pop(name, None)
                sys.modules.pop(name, None)
                raise
            self.executed.add(name)
        if "." in name:
            par, _, leaf = name.rpartition(".")
            d = self.loaded[par].__dict__
            if leaf not in d or isinstance(d[leaf], types.ModuleType):
                d[leaf] = m
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or (globals or {}).get("__name__", "")
            parts = pkg.split(".")
            if level > 1:
                parts = parts[:-(level - 1)]
            base = ".".join(parts)
            name = base + ("." + name if name else "")
        top = name.split(".")[0]
        if top == "CADMium":
            m = self.load(name)
            if fromlist:
                for n in fromlist:
                    if n != "*" and n not in m.__dict__ and self._find(name + "." + n):
                        self.load(name + "." + n)
                return m
            return self.load("CADMium")
        if top in self.mods:
            m = self.mods.get(name)
            if m is None:
                m = self.mods[top]
                for p in name.split(".")[1:]:
                    m = getattr(m, p)
            if fromlist:
                return m
            return self.mods[top]
        return __import__(name, globals, locals, fromlist, 0)
