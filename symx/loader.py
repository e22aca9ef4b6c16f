"""Execute the elli package from /repo/src with symbolic builtins and library proxies.

The sources are read and compiled on every run; each module body is executed with a
__builtins__ dict whose __import__ hands out the proxies of nparr.py for numpy, scipy, torch and
math and whose isinstance/float/complex/int understand symbolic scalars.
"""
import builtins
import importlib.machinery
import importlib.util
import os
import sys
import types

import numpy as np

from . import nparr
from . import scalar as sc
from .poly import Unsupported
from .scalar import S, SB, lift
from .text import Str

SRC = os.environ.get("ELLI_SRC", "/repo/src")

_real_import = builtins.__import__
_real_isinstance = builtins.isinstance


class _NumMeta(type):
    def __instancecheck__(cls, x):
        return sym_isinstance(x, cls._t)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._t) or c is cls

    def __eq__(cls, o):
        return o is cls or o is cls._t

    def __hash__(cls):
        return hash(cls._t)


class SymFloat(metaclass=_NumMeta):
    _t = float

    def __new__(cls, x=0.0):
        if type(x) is S:
            if not x.is_real():
                raise TypeError("float() argument must be a real number, not 'complex'")
            return x
        if type(x) is SB:
            return S.const(1 if bool(x) else 0)
        if _real_isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return cls(x.reshape(-1)[0])
        if _real_isinstance(x, (str, bytes)):
            return nparr.from_numeral(float(x))
        return float(x)

    fromhex = float.fromhex


class SymComplex(metaclass=_NumMeta):
    _t = complex

    def __new__(cls, re=0, im=0):
        if type(re) is S or type(im) is S:
            return lift(re) + sc.I() * lift(im)
        if _real_isinstance(re, np.ndarray) and re.dtype == object and re.size == 1:
            return cls(re.reshape(-1)[0], im)
        return complex(re, im) if im != 0 else complex(re)


class SymInt(metaclass=_NumMeta):
    _t = int

    def __new__(cls, x=0, *a):
        if type(x) is S:
            return x.trunc()
        return int(x, *a)

    from_bytes = int.from_bytes


_MAP = {SymFloat: float, SymComplex: complex, SymInt: int}


def sym_isinstance(x, t):
    if _real_isinstance(t, tuple):
        for u in t:
            if sym_isinstance(x, u):
                return True
        return False
    if _real_isinstance(t, types.UnionType):
        return sym_isinstance(x, t.__args__)
    t = _MAP.get(t, t)
    if type(x) is S:
        if t is bool:
            return False
        import numbers

        if t in (float, numbers.Real, np.floating, np.float64):
            if x.isint:
                return t is numbers.Real
            return x.is_real()
        if t in (int, numbers.Integral, np.integer):
            if x.isint:
                return True
            if x.is_const():
                re, im = x.const_value()
                return im == 0 and re.denominator == 1 and False
            return False
        if t in (complex, np.complexfloating, np.complex128):
            return not x.is_real()
        if t in (numbers.Number, numbers.Complex, np.number):
            return True
        if t is np.generic:
            return True
        return _real_isinstance(x, t)
    if type(x) is Str:
        return t is str
    if type(x) is SB:
        return t is bool or t is np.bool_ or _real_isinstance(x, t)
    return _real_isinstance(x, t)


def sym_sum(it, start=0):
    acc = start
    for v in it:
        acc = acc + v
    return acc


def sym_abs(x):
    if type(x) is S:
        return sc.absolute(x)
    return abs(x)


def sym_round(x, n=None):
    if type(x) is S:
        if x.isint or (x.is_const() and x.const_value()[0].denominator == 1):
            return x
        return round(x, n)
    return round(x) if n is None else round(x, n)


def sym_pow(a, b, m=None):
    return a**b if m is None else pow(a, b, m)


class Builtin:
    """callable which, like a builtin function, does not become a method when stored in a class"""

    def __init__(self, f):
        self.f = f
        self.__name__ = f.__name__

    def __call__(self, *a, **k):
        return self.f(*a, **k)


class Loader:
    """one independent symbolic instance of the package"""

    def __init__(self, extra=None):
        from . import pdpatch

        pdpatch.install()
        self.mods = {}
        npx, npsub = nparr.make_numpy()
        scx, scsub = nparr.make_scipy()
        mx, cmx = nparr.make_math()
        self.proxy = {"numpy": npx, "scipy": scx, "math": mx, "cmath": cmx, "torch": nparr.make_torch()}
        self.proxy.update(npsub)
        self.proxy.update(scsub)
        self.proxy["torch.linalg"] = self.proxy["torch"].linalg
        from . import text

        self.proxy["re"] = text.make_re()
        if extra:
            self.proxy.update(extra)
        b = dict(builtins.__dict__)
        b["__import__"] = self._import
        b["isinstance"] = Builtin(sym_isinstance)
        b["float"] = SymFloat
        b["complex"] = SymComplex
        b["int"] = SymInt
        b["sum"] = Builtin(sym_sum)
        b["abs"] = Builtin(sym_abs)
        b["round"] = Builtin(sym_round)
        b["pow"] = Builtin(sym_pow)
        self.builtins = b
        self.np = npx

    def path_of(self, name):
        p = os.path.join(SRC, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.exists(p + ".py"):
            return p + ".py", False
        if os.path.isdir(p):
            return None, True
        return None, None

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        if name in self.proxy:
            return self.proxy[name]
        parent, _, leaf = name.rpartition(".")
        if parent:
            self.load(parent)
            m = self.mods.get(name)
            if m is not None:
                return m
        path, ispkg = self.path_of(name)
        if ispkg is None:
            raise ModuleNotFoundError(f"No module named '{name}'", name=name)
        m = types.ModuleType(name)
        m.__dict__["__builtins__"] = self.builtins
        m.__file__ = path
        m.__package__ = name if ispkg else parent
        m.__loader__ = None
        if ispkg:
            m.__path__ = [os.path.join(SRC, *name.split("."))]
        self.mods[name] = m
        m.__spec__ = importlib.machinery.ModuleSpec(name, None, origin=path, is_package=bool(ispkg))
        # dataclasses and friends look their module up in sys.modules by __module__; give the
        # symbolic instance its own name space there
        sysname = name
        try:
            if path:
                with open(path, "rb") as f:
                    src = f.read()
                code = _compile(src, path)
                sys.modules.setdefault("_symx_" + name, m)
                prev = sys.modules.get(name)
                sys.modules[name] = m
                try:
                    exec(code, m.__dict__)
                finally:
                    if prev is not None:
                        sys.modules[name] = prev
                    # keep the symbolic module registered: dataclass/typing lookups at run time
        except BaseException:
            self.mods.pop(name, None)
            if sys.modules.get(name) is m:
                del sys.modules[name]
            raise
        if parent:
            setattr(self.mods[parent], leaf, m)
        return m

    def lmfit(self):
        """lmfit with its real parameter classes executed symbolically as well.

        The internal (minimiser) coordinates of bounded parameters are left out: only a fit uses them."""
        m = self.mods.get("lmfit")
        if m is not None:
            return m
        real = _real_import("lmfit.parameter", fromlist=("Parameter",))
        pm = types.ModuleType("lmfit.parameter")
        pm.__dict__["__builtins__"] = self.builtins
        pm.__file__, pm.__package__ = real.__file__, "lmfit"
        with open(real.__file__, "rb") as f:
            exec(_compile(f.read(), real.__file__), pm.__dict__)
        pm.Parameter.setup_bounds = lambda self: 0.0
        pm.SCIPY_FUNCTIONS = real.SCIPY_FUNCTIONS
        real = _real_import("lmfit")
        m = types.ModuleType("lmfit")
        m.__dict__.update({k: v for k, v in real.__dict__.items() if not k.startswith("__")})
        m.__path__ = list(real.__path__)
        m.Parameter, m.Parameters, m.parameter = pm.Parameter, pm.Parameters, pm
        self.mods["lmfit"] = m
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or (globals or {}).get("__name__", "")
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            full = f"{pkg}.{name}" if name else pkg
        else:
            full = name
        root = full.split(".")[0]
        if root == "lmfit" and full in ("lmfit", "lmfit.parameter") and (globals or {}).get("__package__") != "lmfit":
            return self.lmfit()
        if root == "elli":
            m = self.load(full)
            if fromlist:
                for f in fromlist:
                    if f == "*":
                        continue
                    if not hasattr(m, f) and getattr(m, "__path__", None):
                        try:
                            self.load(full + "." + f)
                        except ModuleNotFoundError as e:
                            if e.name != full + "." + f:
                                raise
                return m
            return m if level else self.load(root)
        if full in self.proxy and (fromlist or "." not in full):
            if full in ("numpy", "scipy") and fromlist:
                return self.proxy[full]
            return self.proxy[full]
        if root in self.proxy:
            if not fromlist:
                if "." in full:
                    _real_import(full)
                return self.proxy[root]
            if full in self.proxy:
                return self.proxy[full]
        return _real_import(name, globals, locals, fromlist, level)


_code_cache = {}


def _compile(src, path):
    k = (path, hash(src))
    c = _code_cache.get(k)
    if c is None:
        c = compile(src, path, "exec", dont_inherit=True)
        _code_cache[k] = c
    return c


def preload():
    """import the third-party libraries with the real numpy first"""
    for m in ("numpy", "pandas", "scipy", "scipy.constants", "scipy.linalg", "scipy.interpolate", "scipy.special",
              "lark", "pint", "yaml", "rapidfuzz", "chardet", "numpy.typing", "importlib_resources"):
        try:
            __import__(m)
        except ImportError:
            pass
