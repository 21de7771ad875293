"""Executes the repository's sources, unmodified, with symbolic-aware numpy/scipy/photutils and builtins."""
import builtins
import importlib
import os
import sys
import types

import numpy as np

from . import core as c, arr, npx, shims, strs
from .core import Sym, SymB, is_sym, unwrap0, Unsupported
from .arr import SymArray, LazyIdx, mk, has_sym

REPO = os.environ.get("PETROFIT_REPO", "/repo")
_CODE = {}


def source_code(path):
    st = os.stat(path)
    k = (path, st.st_mtime_ns)
    if k not in _CODE:
        with open(path, "r", encoding="utf-8") as f:
            _CODE[k] = compile(f.read(), path, "exec")
    return _CODE[k]


# ---- builtins seen by the code under test
class _FloatM(type):
    def __instancecheck__(cls, x):
        return isinstance(x, Sym) and x.kind == "r" or isinstance(x, float)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)

    def __call__(cls, x=0.0):
        x = unwrap0(x)
        if is_sym(x):
            return arr.cast(x, "f")
        if isinstance(x, SymArray):
            return arr.cast(x._one(), "f")
        return float(x)


class float_(float, metaclass=_FloatM):
    _real_type = float


class _IntM(type):
    def __instancecheck__(cls, x):
        return isinstance(x, Sym) and x.kind == "i" or isinstance(x, int)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)

    def __call__(cls, x=0, *a):
        x = unwrap0(x)
        if isinstance(x, SymArray):
            x = x._one()
        if is_sym(x):
            return arr.cast(x, "i")
        if isinstance(x, strs.SymStr):
            return x.to_int()
        return int(x, *a)


class int_(int, metaclass=_IntM):
    _real_type = int


def type_(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, Sym):
            return int_ if x.kind == "i" else float_
        if isinstance(x, (str, strs.SymStr)) and type(x) in (str, strs.SymStr):
            return strs.str_
        if isinstance(x, SymB):
            return bool
        t = type(x)
        if t is float:
            return float_
        if t is int:
            return int_
        if t is SymArray:
            return np.ndarray
        return t
    return type(*a)


def isinstance_(x, t):
    def fix(v):
        return type if v is type_ else v
    if isinstance(t, tuple):
        t = tuple(fix(v) for v in t)
    else:
        t = fix(t)
    if isinstance(x, Sym):
        for u in (t if isinstance(t, tuple) else (t,)):
            if isinstance(u, tuple):
                if isinstance_(x, u):
                    return True
            elif x.kind == "i" and u in (np.integer, np.number, np.signedinteger, np.generic) and False:
                return True
    return isinstance(x, t)


def _ext(name):
    real = getattr(builtins, name)
    pick = c.maxv if name == "max" else c.minv

    def f(*args, **kw):
        seq = list(args[0]) if len(args) == 1 else list(args)
        if kw.get("key") is None and seq and any(is_sym(unwrap0(v)) for v in seq) \
                and all(isinstance(unwrap0(v), c.NUM) or is_sym(unwrap0(v)) for v in seq) \
                and not any(c.is_nan(unwrap0(v)) for v in seq):
            r = unwrap0(seq[0])
            for v in seq[1:]:
                r = pick(r, unwrap0(v))
            return r
        if len(args) == 1:
            return real(seq, **kw)
        return real(*args, **kw)
    f.__name__ = name
    return f


def _noprint(*a, **k):
    return None


class Module(types.ModuleType):
    """library module with some attributes replaced"""

    def __init__(self, real, over):
        super().__init__(real.__name__)
        self.__dict__["_real"] = real
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(self._real, n)


class Impl:
    """A fresh load of petrofit for symbolic execution.  Attribute access: impl.utils, impl.core, ..."""

    ROOT = "petrofit"

    def __init__(self, over=None):
        self.over = over or {}
        self.mods = {}
        self.loaded_files = []
        b = dict(builtins.__dict__)
        b.update(__import__=self._import, float=float_, int=int_, str=strs.str_, type=type_, max=_ext("max"), min=_ext("min"), print=_noprint)
        self.builtins = b
        self.lib = {}

    # ---- libraries
    def _library(self, name):
        if name in self.lib:
            return self.lib[name]
        real = importlib.import_module(name)
        table = dict(self.LIB.get(name, {}))
        table = {k: (v() if getattr(v, "_lazy", False) else v) for k, v in table.items()}
        for full, v in self.over.items():
            mod, attr = full.rsplit(".", 1)
            if mod == name:
                table[attr] = v
        if name == "numpy" or name in ("numpy.linalg", "numpy.lib", "numpy.core"):
            m = npx.NumpyProxy(real, name)
            for k, v in table.items():
                m._cache[k] = v
        elif name.startswith("matplotlib"):
            m = self.over.get(name, shims.NOP)
            if name == "matplotlib" and "matplotlib.pyplot" in self.over:
                m = Module(types.ModuleType(name), {"pyplot": self.over["matplotlib.pyplot"]})
        else:
            subs = {}
            for full in set(list(self.LIB) + [k.rsplit(".", 1)[0] for k in self.over]):
                if full.startswith(name + ".") and "." not in full[len(name) + 1:]:
                    subs[full[len(name) + 1:]] = self._library(full)
            m = Module(real, dict(subs, **table)) if (table or subs) else real
        self.lib[name] = m
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            parts = pkg.split(".")
            base = ".".join(parts[:len(parts) - level + 1])
            name = base + ("." + name if name else "")
        top = name.split(".")[0]
        if name == "re":
            return strs.RE
        if top == self.ROOT:
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f) and self._path(name + "." + f):
                        setattr(m, f, self.load(name + "." + f))
                return m
            return self.load(top)
        if top in ("numpy", "scipy", "astropy", "photutils", "matplotlib", "math"):
            if fromlist:
                m = self._library(name)
                for f in fromlist:
                    sub = name + "." + f
                    if f != "*" and not name.startswith("matplotlib") and not hasattr(m, f):
                        try:
                            self._library(sub)
                        except ImportError:
                            pass
                # from scipy import signal
                for f in fromlist:
                    sub = name + "." + f
                    if sub in self.LIB or any(k.startswith(sub + ".") for k in self.over):
                        try:
                            if isinstance(getattr(importlib.import_module(name), f, None), types.ModuleType):
                                s = self._library(sub)
                                if isinstance(m, Module):
                                    setattr(m, f, s)
                                else:
                                    nm = Module(importlib.import_module(name), {f: s})
                                    self.lib[name] = m = nm
                        except ImportError:
                            pass
                return m
            self._library(name)
            return self._library(top)
        return builtins.__import__(name, globals, locals, fromlist, 0)

    # ---- repository modules
    def _path(self, name):
        p = os.path.join(REPO, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py")
        if os.path.exists(p + ".py"):
            return p + ".py"
        return None

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path = self._path(name)
        if path is None:
            raise ModuleNotFoundError(name)
        m = types.ModuleType(name)
        is_pkg = path.endswith("__init__.py")
        m.__package__ = name if is_pkg else name.rsplit(".", 1)[0]
        if is_pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__file__ = path
        m.__dict__["__builtins__"] = self.builtins
        self.mods[name] = m
        self.loaded_files.append(path)
        if name == self.ROOT:
            return m  # the package body is not needed; submodules load on demand
        if is_pkg and name in ("petrofit.petrosian", "petrofit.modeling"):
            pass
        try:
            exec(source_code(path), m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        for full, v in self.over.items():
            mod, attr = full.rsplit(".", 1)
            if mod == name:
                setattr(m, attr, v)
        if "." in name:
            par, last = name.rsplit(".", 1)
            if par in self.mods:
                setattr(self.mods[par], last, m)
        return m

    MODS = {"utils": "petrofit.utils", "core": "petrofit.petrosian.core", "correction": "petrofit.petrosian.correction",
            "photometry": "petrofit.photometry", "segmentation": "petrofit.segmentation", "models": "petrofit.modeling.models",
            "fitting": "petrofit.modeling.fitting"}

    def __getattr__(self, n):
        if n in Impl.MODS:
            return self.load(Impl.MODS[n])
        raise AttributeError(n)

    def set(self, mod, **kw):
        m = getattr(self, mod)
        for k, v in kw.items():
            setattr(m, k, v)


class RealImpl:
    """The genuinely imported petrofit, for replay and trace validation."""

    def __init__(self, over=None):
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            import matplotlib
            matplotlib.use("Agg")
            for n in Impl.MODS.values():
                importlib.import_module(n)
        self.saved = []
        self.over = over or {}

    def __getattr__(self, n):
        if n in Impl.MODS:
            return sys.modules[Impl.MODS[n]]
        raise AttributeError(n)


Impl.LIB = {
    "scipy.interpolate": dict(interp1d=shims.Interp1d, CubicSpline=shims.CubicSpline, make_interp_spline=shims.make_interp_spline,
                              InterpolatedUnivariateSpline=shims.InterpolatedUnivariateSpline),
    "scipy.special": {n: shims.special_fn(n) for n in ("gammainc", "gammaincinv", "gamma")},
    "scipy.signal": dict(convolve=shims.convolve, fftconvolve=shims.fftconvolve, convolve2d=lambda a, b, mode="full", **k: shims.convolve(a, b, mode)),
    "scipy.ndimage": dict(rotate=shims.ndrotate),
    "astropy.nddata": dict(block_reduce=shims.block_reduce, Cutout2D=shims.Cutout2D),
    "astropy.nddata.utils": dict(block_reduce=shims.block_reduce, Cutout2D=shims.Cutout2D),
    "astropy.convolution.utils": dict(discretize_model=shims.discretize_model),
    "astropy.convolution": dict(discretize_model=shims.discretize_model),
    "photutils.aperture": dict(EllipticalAperture=shims.EllipticalAperture, EllipticalAnnulus=shims.EllipticalAnnulus,
                               CircularAperture=shims.CircularAperture, CircularAnnulus=shims.CircularAnnulus,
                               aperture_photometry=shims.aperture_photometry),
    "math": {n: shims.math_fn(n) for n in ("sqrt", "fabs", "floor", "ceil", "trunc", "pow", "hypot", "isnan", "isinf", "isfinite",
                                          "radians", "degrees", "copysign", "fsum", "exp", "log", "log10", "log2", "sin", "cos", "isclose")},
}
