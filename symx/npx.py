"""Stand-in for the numpy module seen by the code under test."""
import types

import numpy as np

from . import core as c, arr
from .core import Sym, SymB, Unsupported, is_sym, unwrap0
from .arr import F, SymArray, LazyIdx, mk, real, has_sym, taint, A, full, kind_of_dtype, NotNumeric, nd, _sa


def _clean_dtype(kw):
    return kw


def array(obj, dtype=None, *, copy=True, order=None, subok=False, ndmin=0, like=None):
    if type(obj).__name__ == "SymMasked":
        obj = obj._data
    k = kind_of_dtype(dtype) if dtype is not None else None
    if dtype is not None and k is None:
        return np.array(obj, dtype=dtype, ndmin=ndmin)
    if copy is not True and isinstance(obj, SymArray) and (k is None or k == obj._kind):
        return obj
    try:
        r = mk(obj, k)
    except (NotNumeric, ValueError) as e:
        if isinstance(e, ValueError) and "inhomogeneous" not in str(e):
            raise
        return np.array(obj, dtype=dtype, ndmin=ndmin)
    while r.ndim < ndmin:
        r = r[None]
    return r


def asarray(a, dtype=None, order=None, *, device=None, copy=None, like=None):
    if isinstance(a, np.ma.MaskedArray):
        a = a.data
    elif type(a).__name__ == "SymMasked":
        a = a._data
    return array(a, dtype=dtype, copy=copy or False)


def asanyarray(a, dtype=None, order=None, **k):
    if isinstance(a, np.ma.MaskedArray) or type(a).__module__.startswith("astropy"):
        return a
    return array(a, dtype=dtype, copy=False)


def ascontiguousarray(a, dtype=None, **k):
    r = asarray(a, dtype)
    return r.reshape(1) if r.ndim == 0 else r


def zeros(shape, dtype=float, order="C", **k):
    return full(shape, 0, dtype)


def ones(shape, dtype=None, order="C", **k):
    return full(shape, 1, dtype)


def empty(shape, dtype=float, order="C", **k):
    return full(shape, 0, dtype)


def npfull(shape, fill_value, dtype=None, order="C", **k):
    if dtype is None:
        dtype = arr.REALDT[arr.kind_of(unwrap0(fill_value))]
    return full(shape, fill_value, dtype)


def arange(*args, dtype=None, **k):
    args = [unwrap0(a) for a in args]
    if not any(is_sym(a) for a in args):
        return mk(np.arange(*args, dtype=None if dtype is None else arr.REALDT[kind_of_dtype(dtype)]))
    start, stop, step = (0, args[0], 1) if len(args) == 1 else (args[0], args[1], args[2] if len(args) > 2 else 1)
    if is_sym(step):
        raise Unsupported("arange with symbolic step")
    n = c.concretize_int(arr.cast(c.ceil(c.div(c.sub(stop, start), step)), "i"))
    n = max(int(n), 0)
    r = [c.add(start, c.mul(step, i)) for i in range(n)]
    kd = "i" if all(c.isint(a) for a in (start, stop, step)) else "f"
    return mk(r, kd) if r else mk(np.zeros(0), kd)


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0, **k):
    num = unwrap0(num)
    num = int(num) if not isinstance(num, Sym) else c.concretize_int(num)
    start, stop = unwrap0(start), unwrap0(stop)
    if not is_sym(start) and not is_sym(stop) and not isinstance(start, np.ndarray) and not isinstance(stop, np.ndarray):
        r = np.linspace(start, stop, num, endpoint=endpoint, retstep=retstep)
        return (mk(r[0]), np.float64(r[1])) if retstep else mk(r)
    div = num - 1 if endpoint else num
    step = c.div(c.sub(stop, start), div) if div > 0 else np.float64(np.nan)
    out = [c.add(start, c.mul(c.sub(stop, start), c.Fraction(i, div))) if div > 0 else start for i in range(num)]
    if endpoint and num > 1:
        out[-1] = stop
    r = mk(out, "f") if out else mk(np.zeros(0))
    return (r, step) if retstep else r


def logspace(start, stop, num=50, endpoint=True, base=10.0, dtype=None, axis=0):
    y = linspace(start, stop, num, endpoint)
    return np.power(mk(base, "f"), y) if not has_sym(y) else mk([_pow10(base, v) for v in y], "f")


def _pow10(base, v):
    if is_sym(v):
        return c.power(np.float64(base), v)
    return np.float64(base) ** v


def geomspace(start, stop, num=50, endpoint=True, dtype=None, axis=0):
    if not is_sym(start) and not is_sym(stop):
        return mk(np.geomspace(start, stop, num, endpoint))
    y = linspace(np.log10(start), np.log10(stop), num, endpoint)
    r = mk([_pow10(10.0, v) for v in y], "f")
    r[0] = start
    if endpoint:
        r[-1] = stop
    return r


def isscalar(x):
    return is_sym(x) or np.isscalar(x)


def issubdtype(a, b):
    m = lambda t: np.dtype("f8") if isinstance(t, type) and t is Sym else t
    a = _symtype(a)
    return np.issubdtype(a, b)


def _symtype(t):
    if isinstance(t, type):
        if issubclass(t, bool):
            return np.bool_
        if issubclass(t, int) and t.__module__ != "numpy":
            return np.int64
        if issubclass(t, float) and t.__module__ != "numpy":
            return np.float64
    return t


def vectorize(pyfunc, *a, otypes=None, **k):
    def f(*args):
        bs = np.broadcast_arrays(*[nd(A(x)) for x in args])
        out = np.empty(bs[0].shape, dtype=object)
        for ix in np.ndindex(*out.shape):
            out[ix] = pyfunc(*[b[ix] for b in bs])
        return mk(out)
    return f


def apply_along_axis(func1d, axis, a, *args, **kw):
    a = A(a)
    t = np.moveaxis(nd(a), axis, -1)
    rows = [func1d(_sa(t[ix].copy(), a._kind), *args, **kw) for ix in np.ndindex(*t.shape[:-1])]
    r = mk(rows)
    r = r.reshape(t.shape[:-1] + r.shape[1:])
    return r


def fromiter(it, dtype, count=-1):
    return mk(list(it), kind_of_dtype(dtype))


def fromfunction(f, shape, dtype=float, **kw):
    return f(*mk(np.indices(shape), kind_of_dtype(dtype)), **kw)


class _Grid:
    def __init__(self, g):
        self.g = g

    def __getitem__(self, k):
        f = lambda v: real(v) if isinstance(v, SymArray) else c.concretize_int(v) if isinstance(v, Sym) and v.kind == "i" else v
        def s(v):
            return slice(f(v.start), f(v.stop), f(v.step)) if isinstance(v, slice) else f(v)
        return taint(self.g[tuple(s(v) for v in k) if isinstance(k, tuple) else s(k)])


class _R:
    def __getitem__(self, k):
        k = k if isinstance(k, tuple) else (k,)
        parts = []
        for v in k:
            if isinstance(v, slice):
                st = v.start if v.start is not None else 0
                sp = v.step if v.step is not None else 1
                if isinstance(sp, complex):
                    parts.append(linspace(st, v.stop, int(abs(sp))))
                else:
                    parts.append(arange(st, v.stop, sp))
            elif isinstance(v, str):
                raise Unsupported("np.r_ directive")
            else:
                a = A(v)
                parts.append(a.reshape(1) if a.ndim == 0 else a)
        return F["concatenate"](parts)


class _C:
    def __getitem__(self, k):
        return F["column_stack"]([A(v) for v in (k if isinstance(k, tuple) else (k,))])


class _ScalarTypeMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, Sym):
            return x.kind == ("i" if cls._k == "i" else "r") and cls._k != "b"
        if isinstance(x, SymB):
            return cls._k == "b"
        return isinstance(x, cls._real)

    def __subclasscheck__(cls, t):
        return isinstance(t, type) and (t is cls or issubclass(t, cls._real) if not isinstance(t, _ScalarTypeMeta)
                                        else issubclass(t._real, cls._real))


def _scalar_type(real_t, k):
    def new(cls, x=0, *a):
        x = unwrap0(x)
        if is_sym(x):
            return arr.cast(x, k)
        if isinstance(x, (list, tuple, np.ndarray)):
            return mk(x, k)
        return real_t(x, *a)
    return new


def _conv_args(v):
    if isinstance(v, (list, tuple)) and has_sym(v):
        try:
            return mk(v)
        except (NotNumeric, ValueError):
            return type(v)(_conv_args(u) for u in v)
    if isinstance(v, LazyIdx):
        return v._mat()
    return v


def _wrap(name, real_f):
    if isinstance(real_f, np.ufunc):
        uf = real_f

        class U:
            __name__ = name
            nin = uf.nin

            def __call__(self, *a, **k):
                for x in a:
                    if type(x).__name__ == "SymMasked":
                        return x.__array_ufunc__(uf, "__call__", *a, **k)
                if any(type(x).__module__.startswith("astropy") or isinstance(x, np.ma.MaskedArray) for x in a):
                    return uf(*a, **k)
                if name != "matmul":
                    try:
                        return arr.ufunc_dispatch(uf, "__call__", a[:uf.nin], dict(k, **({"out": a[uf.nin]} if len(a) > uf.nin else {})))
                    except NotNumeric:
                        return uf(*a, **k)
                return arr.ufunc_dispatch(uf, "__call__", a, k)

            def reduce(self, a, axis=0, dtype=None, out=None, keepdims=False, initial=None, where=True):
                return arr.ufunc_dispatch(uf, "reduce", (A(a),), dict(axis=axis, dtype=dtype, keepdims=keepdims, initial=initial, where=where))

            def accumulate(self, a, axis=0, dtype=None, out=None):
                return arr.ufunc_dispatch(uf, "accumulate", (A(a),), dict(axis=axis, dtype=dtype))

            def outer(self, a, b, **k):
                return arr.ufunc_dispatch(uf, "outer", (a, b), k)

            def at(self, *a):
                return arr.ufunc_dispatch(uf, "at", a, {})

            def reduceat(self, *a, **k):
                raise Unsupported("reduceat")
        return U()
    if name in F:
        f = F[name]

        def g(*a, **k):
            for x in a:
                if type(x).__name__ == "SymMasked":
                    return x.__array_function__(real_f, (), a, k)
            if any(isinstance(x, np.ma.MaskedArray) or type(x).__module__.startswith("astropy") for x in a):
                return real_f(*a, **k)
            try:
                return f(*a, **k)
            except NotNumeric:
                return real_f(*a, **k)
        g.__name__ = name
        return g
    if isinstance(real_f, type):
        return real_f

    def g(*a, **k):
        a = [_conv_args(x) for x in a]
        k = {n: _conv_args(x) for n, x in k.items()}
        if name not in arr.PASS and not any(has_sym(x) for x in a) and not any(has_sym(x) for x in k.values()):
            cv = lambda v: real(v) if isinstance(v, SymArray) else type(v)(cv(u) for u in v) if type(v) in (list, tuple) else v
            return taint(real_f(*[cv(x) for x in a], **{n: cv(x) for n, x in k.items()}))
        return taint(real_f(*a, **k))
    g.__name__ = name
    return g


OVER = dict(array=array, asarray=asarray, asanyarray=asanyarray, ascontiguousarray=ascontiguousarray, asfarray=lambda a, dtype=float: asarray(a, dtype),
            asarray_chkfinite=asarray,
            zeros=zeros, ones=ones, empty=empty, full=npfull, arange=arange, linspace=linspace, logspace=logspace, geomspace=geomspace,
            isscalar=isscalar, issubdtype=issubdtype, vectorize=vectorize, apply_along_axis=apply_along_axis, fromiter=fromiter,
            fromfunction=fromfunction, mgrid=_Grid(np.mgrid), ogrid=_Grid(np.ogrid), r_=_R(), c_=_C())


class NumpyProxy(types.ModuleType):
    def __init__(self, real_mod, prefix="numpy"):
        super().__init__(prefix)
        object.__setattr__(self, "_real", real_mod)
        object.__setattr__(self, "_cache", {})

    def __getattr__(self, n):
        if n.startswith("__"):
            return getattr(self._real, n)
        if n in self._cache:
            return self._cache[n]
        v = self._get(n)
        self._cache[n] = v
        return v

    def _get(self, n):
        if self._real is np and n in OVER:
            return OVER[n]
        v = getattr(self._real, n)
        if isinstance(v, types.ModuleType):
            if n in ("linalg",):
                return NumpyProxy(v, "numpy." + n)
            return v
        if isinstance(v, type):
            if issubclass(v, np.generic) and v in (np.float64, np.float32, np.int64, np.int32, np.bool_, np.intp, np.longlong, np.float16):
                return scalar_type(v)
            return v
        if callable(v):
            return _wrap(n, v)
        return v


_ST = {}


def scalar_type(t):
    """np.float64 & co: usable as dtype, in isinstance, and as conversions of symbolic values"""
    if t in _ST:
        return _ST[t]
    k = kind_of_dtype(t)

    class M(type):
        def __instancecheck__(cls, x):
            if isinstance(x, Sym):
                return (x.kind == "i") == (k == "i") and k != "b" and t in (np.float64, np.int64, np.intp)
            if isinstance(x, SymB):
                return k == "b"
            return isinstance(x, t)

        def __eq__(cls, o):
            return o is cls or o is t

        def __hash__(cls):
            return hash(t)

        def __call__(cls, x=0, *a):
            x = unwrap0(x)
            if is_sym(x):
                return arr.cast(x, k)
            if isinstance(x, (list, tuple, np.ndarray)):
                return mk(x, k)
            return t(x, *a)

    if t is np.bool_:
        _ST[t] = t
        return t
    _ST[t] = M(t.__name__, (t,), {})
    return _ST[t]
