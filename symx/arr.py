"""Object arrays of symbolic elements that behave like numeric numpy arrays."""
import builtins
import numbers
import operator
from fractions import Fraction

import numpy as np
import z3

from . import core as c
from .core import Sym, SymB, E, Unsupported, is_sym, is_special, is_nan, unwrap0, nan

RANK = {"b": 0, "i": 1, "f": 2}
REALDT = {"b": np.dtype(bool), "i": np.dtype("i8"), "f": np.dtype("f8")}


class NotNumeric(Exception):
    pass


def kind_of_dtype(t):
    """dtype-like -> 'f' / 'i' / 'b' (None if not numeric)"""
    if t is None:
        return "f"
    if isinstance(t, type):
        if issubclass(t, (bool, np.bool_)):
            return "b"
        if issubclass(t, (int, np.integer)):
            return "i"
        if issubclass(t, (float, np.floating)):
            return "f"
        if t is object or issubclass(t, np.object_):
            return None
    try:
        k = np.dtype(t).kind
    except TypeError:
        return None
    return {"f": "f", "i": "i", "u": "i", "b": "b"}.get(k)


def kind_of(v):
    if isinstance(v, SymB) or isinstance(v, (bool, np.bool_)):
        return "b"
    if isinstance(v, Sym):
        return "i" if v.kind == "i" else "f"
    if isinstance(v, (int, np.integer)):
        return "i"
    if isinstance(v, (float, np.floating, Fraction)):
        return "f"
    raise NotNumeric(type(v))


def cast(v, kind):
    """cast one element to an array kind (C casting rules)"""
    if kind is None:
        return v
    if kind == "f":
        if isinstance(v, SymB):
            v = v._num()
        if isinstance(v, Sym):
            return Sym(v.zr(), "r", v.sq) if v.kind == "i" else v
        if isinstance(v, Fraction):
            return Sym(c.q(v))
        return np.float64(v)
    if kind == "i":
        if isinstance(v, SymB):
            return v._num()
        if isinstance(v, Sym):
            r = c.trunc(v)
            return r if isinstance(r, Sym) else np.int64(r)
        if is_special(v):
            raise ValueError("cannot convert float NaN to integer")
        return np.int64(int(v))
    if kind == "b":
        if is_sym(v):
            r = c.mkb(c.tob(v))
            return r if is_sym(r) else np.bool_(r)
        return np.bool_(bool(v))
    raise Unsupported("kind %r" % kind)


def wrap_el(v):
    """normalise a scalar result"""
    if isinstance(v, (bool, np.bool_)):
        return np.bool_(v)
    if isinstance(v, (int, np.integer)):
        return np.int64(v)
    if isinstance(v, float):
        return np.float64(v)
    return v


def _nested(x):
    """-> (object ndarray, kind)"""
    if isinstance(x, SymArray):
        return x.view(np.ndarray), x._kind
    if isinstance(x, LazyIdx):
        return _nested(x._mat())
    if isinstance(x, np.ma.MaskedArray):
        raise NotNumeric("masked array")
    if isinstance(x, np.ndarray):
        k = x.dtype.kind
        if k in "fiub":
            kk = {"f": "f", "i": "i", "u": "i", "b": "b"}[k]
            o = np.empty(x.shape, dtype=object)
            f = {"f": np.float64, "i": np.int64, "b": np.bool_}[kk]
            fl = o.reshape(-1) if o.size else o
            if o.size:
                for n, v in enumerate(np.asarray(x).reshape(-1).tolist()):
                    fl[n] = f(v)
            return o, kk
        if k == "O":
            o = np.asarray(x)
            kk = "b" if o.size else "f"
            for v in o.reshape(-1):
                kv = kind_of(v)
                if RANK[kv] > RANK[kk]:
                    kk = kv
            r = np.empty(o.shape, dtype=object)
            rf, of = r.reshape(-1), o.reshape(-1)
            for n in range(o.size):
                rf[n] = cast(of[n], kk)
            return r, kk
        raise NotNumeric(x.dtype)
    if is_sym(x) or isinstance(x, c.NUM):
        o = np.empty((), dtype=object)
        k = kind_of(x)
        o[()] = cast(x, k)
        return o, k
    if isinstance(x, (list, tuple, range)):
        parts = [_nested(v) for v in x]
        if not parts:
            return np.empty((0,), dtype=object), "f"
        sh = parts[0][0].shape
        kk = "b"
        for p, k in parts:
            if p.shape != sh:
                raise ValueError("setting an array element with a sequence. The requested array has an "
                                 "inhomogeneous shape")
            if RANK[k] > RANK[kk]:
                kk = k
        o = np.empty((len(parts),) + sh, dtype=object)
        for n, (p, k) in enumerate(parts):
            if k != kk:
                p = _castarr(p, kk)
            if sh == ():
                o[n] = p[()]
            else:
                o[n] = p
        return o, kk
    if hasattr(x, "__array__") and not isinstance(x, type):
        return _nested(np.asarray(x))
    raise NotNumeric(type(x))


def _castarr(o, kind):
    r = np.empty(o.shape, dtype=object)
    if o.size:
        rf, of = r.reshape(-1), np.ascontiguousarray(o).reshape(-1) if o.ndim else o.reshape(-1)
        of = o.reshape(-1)
        for n in range(o.size):
            rf[n] = cast(of[n], kind)
    return r


def _sa(o, kind):
    a = o.view(SymArray)
    a._kind = kind
    return a


def mk(x, kind=None, copy=True):
    o, k = _nested(x)
    if kind is not None and kind != k:
        return _sa(_castarr(o, kind), kind)
    if copy:
        o = o.copy()
    return _sa(o, k)


def has_sym(a):
    if isinstance(a, np.ndarray):
        if a.dtype != object and not isinstance(a, SymArray):
            return False
        for v in a.view(np.ndarray).reshape(-1):
            if is_sym(v):
                return True
        return False
    if isinstance(a, (list, tuple)):
        return any(has_sym(v) for v in a)
    return is_sym(a)


def real(a):
    """fully concrete SymArray -> real numpy array (or scalar)"""
    if isinstance(a, SymArray):
        return np.array(a.view(np.ndarray).tolist(), dtype=REALDT[a._kind]).reshape(a.shape)
    return a


def scal(x):
    """0-d result -> scalar element"""
    return x.view(np.ndarray)[()] if isinstance(x, SymArray) and x.ndim == 0 else x


def nd(a):
    return a.view(np.ndarray) if isinstance(a, np.ndarray) else a


class LazyIdx:
    """1-D np.nonzero of a symbolic mask, decided on demand."""

    def __init__(self, flags):
        self.flags = list(flags)
        self.mat = None
        self.cnt = None

    def _mat(self):
        if self.mat is None:
            self.mat = mk(np.array([n for n, f in enumerate(self.flags) if bool(f)], dtype=np.int64), "i")
        return self.mat

    @property
    def size(self):
        if self.mat is not None:
            return self.mat.size
        if self.cnt is None:
            e = z3.Sum(*[z3.If(c.tob(f), 1, 0) for f in self.flags]) if self.flags else z3.IntVal(0)
            self.cnt = c.mks(e, "i")
        return self.cnt

    @property
    def shape(self):
        return (self.size,)

    ndim = 1

    def any(self):
        return bool(np.any(self._mat()))

    def __len__(self):
        s = self.size
        return c.concretize_int(s) if is_sym(s) else int(s)

    def __bool__(self):
        return bool(self._mat())

    def __getitem__(self, i):
        if self.mat is None and isinstance(i, (int, np.integer)) and not isinstance(i, bool):
            fl = list(enumerate(self.flags))
            if i < 0:
                fl.reverse()
            want = int(i) if i >= 0 else -int(i) - 1
            for n, f in fl:
                if bool(f):
                    if want == 0:
                        return np.int64(n)
                    want -= 1
            raise IndexError("index %d is out of bounds for axis 0" % i)
        return self._mat()[i]

    def __iter__(self):
        return iter(self._mat())

    def min(self, *a, **k):
        return self[0]

    def max(self, *a, **k):
        return self[-1]

    def __array__(self, dtype=None, copy=None):
        return real(self._mat())

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, [x._mat() if isinstance(x, LazyIdx) else x for x in inputs], kw)

    def __array_function__(self, func, types, args, kwargs):
        def conv(v):
            if isinstance(v, LazyIdx):
                return v._mat()
            if isinstance(v, (list, tuple)):
                return type(v)(conv(u) for u in v)
            return v
        return func(*conv(tuple(args)), **kwargs)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self._mat(), n)

    def _bin(op):
        def f(self, o):
            return op(self._mat(), o)
        return f

    def _rbin(op):
        def f(self, o):
            return op(o, self._mat())
        return f

    __add__, __radd__ = _bin(operator.add), _rbin(operator.add)
    __sub__, __rsub__ = _bin(operator.sub), _rbin(operator.sub)
    __mul__, __rmul__ = _bin(operator.mul), _rbin(operator.mul)
    __eq__, __ne__ = _bin(operator.eq), _bin(operator.ne)
    __lt__, __le__, __gt__, __ge__ = _bin(operator.lt), _bin(operator.le), _bin(operator.gt), _bin(operator.ge)
    __hash__ = None


def _norm_idx(idx, for_set=False):
    """index with symbolic parts -> plain numpy index"""
    if isinstance(idx, tuple):
        return tuple(_norm_idx(i, for_set) for i in idx)
    if isinstance(idx, Sym):
        return c.concretize_int(idx) if idx.kind == "i" else _bad_index()
    if isinstance(idx, SymB):
        return bool(idx)
    if isinstance(idx, LazyIdx):
        return real(idx._mat())
    if isinstance(idx, SymArray):
        if idx.ndim == 0 and not isinstance(idx.view(np.ndarray)[()], (SymB, np.bool_)):
            return _norm_idx(idx.view(np.ndarray)[()])
        if idx._kind == "f":
            if idx.size == 0:
                return np.zeros(idx.shape, dtype=np.int64) if not for_set else np.zeros(idx.shape, np.int64)
            _bad_index()
        o = idx.view(np.ndarray)
        if idx._kind == "b":
            r = np.empty(o.shape, dtype=bool)
            rf, of = r.reshape(-1), o.reshape(-1)
            for n in range(o.size):
                rf[n] = bool(of[n])
            return r
        r = np.empty(o.shape, dtype=np.int64)
        rf, of = r.reshape(-1), o.reshape(-1)
        for n in range(o.size):
            rf[n] = int(of[n])
        return r
    if isinstance(idx, list) and has_sym(idx):
        return _norm_idx(mk(idx))
    if isinstance(idx, slice):
        f = lambda v: None if v is None else int(c.concretize_int(v)) if isinstance(v, Sym) and v.kind == "i" \
            else _bad_index() if isinstance(v, Sym) else v
        g = lambda v: scal(v) if isinstance(v, SymArray) else v
        return slice(f(g(idx.start)), f(g(idx.stop)), f(g(idx.step)))
    return idx


def _bad_index():
    raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean "
                     "arrays are valid indices")


def _symmask(idx, shape):
    """idx as a symbolic boolean mask of leading shape, or None"""
    if isinstance(idx, tuple) and len(idx) == 1:
        idx = idx[0]
    if isinstance(idx, SymArray) and idx._kind == "b" and has_sym(idx) and idx.shape == shape:
        return idx.view(np.ndarray)
    if isinstance(idx, LazyIdx) and idx.mat is None and len(shape) == 1 and len(idx.flags) == shape[0]:
        o = np.empty(shape, dtype=object)
        for n, f in enumerate(idx.flags):
            o[n] = f
        return o
    if isinstance(idx, MaskIdx):
        return None
    return None


class MaskIdx:
    pass


class SymArray(np.ndarray):
    __array_priority__ = 2000

    def __array_finalize__(self, obj):
        self._kind = getattr(obj, "_kind", "f")

    @property
    def dtype(self):
        return REALDT[self._kind]

    @property
    def itemsize(self):
        return 8

    @property
    def data(self):
        # the buffer of the array: used as the array itself
        return self

    # ---- indexing
    def __getitem__(self, idx):
        if isinstance(idx, str):
            raise IndexError("only integers, slices...")
        s = scal(idx) if isinstance(idx, SymArray) else idx
        if isinstance(s, tuple) and len(s) == 1:
            s = scal(s[0]) if isinstance(s[0], SymArray) else s[0]
        if isinstance(s, Sym) and s.kind == "i" and self.ndim >= 1:
            return self._sym_index(s)
        # symbolic mask followed by nothing clever: materialise
        r = np.ndarray.__getitem__(self.view(np.ndarray), _norm_idx(idx))
        if isinstance(r, np.ndarray):
            return _sa(r, self._kind)
        return r

    def _sym_index(self, s):
        n = self.shape[0]
        inb = c.band(c.le(-n, s), c.lt(s, n))
        if not bool(inb):
            raise IndexError("index out of bounds for axis 0 with size %d" % n)
        o = self.view(np.ndarray)
        rows = [o[k] for k in range(n)]
        if self.ndim == 1 and not any(is_special(v) for v in rows) and not c.E().split_index:
            out = rows[n - 1]
            for k in range(n - 2, -1, -1):
                out = c.ite(c.bor(c.eq(s, k), c.eq(s, k - n)), rows[k], out)
            return out
        k = c.concretize_int(s)
        return self[k]

    def __setitem__(self, idx, val):
        if isinstance(val, LazyIdx):
            val = val._mat()
        m = _symmask(idx, self.shape)
        o = self.view(np.ndarray)
        k = self._kind
        v0 = scal(val) if isinstance(val, np.ndarray) and val.ndim == 0 else val
        if m is not None and (is_sym(v0) or isinstance(v0, c.NUM)):
            nv = cast(unwrap0(v0), k)
            of, mf = o.reshape(-1), m.reshape(-1)
            if o.size and not np.shares_memory(of, o):
                of = None
            for n in range(o.size):
                ix = np.unravel_index(n, o.shape)
                o[ix] = cast(c.ite(mf[n], nv, o[ix]), k)
            return
        idx = _norm_idx(idx, True)
        if isinstance(val, np.ma.MaskedArray):
            raise Unsupported("masked array assigned into symbolic array")
        try:
            vo, vk = _nested(val)
        except NotNumeric:
            if val is None:
                vo, vk = _nested(nan)
            else:
                raise Unsupported("assignment of %r into a numeric array" % type(val))
        if vk != k:
            vo = _castarr(vo, k)
        if vo.ndim == 0:
            t = np.ndarray.__getitem__(o, idx)
            if isinstance(t, np.ndarray):
                tmp = np.empty(t.shape, dtype=object)
                tmp.fill(vo[()])
                np.ndarray.__setitem__(o, idx, tmp)
            else:
                np.ndarray.__setitem__(o, idx, vo[()])
        else:
            np.ndarray.__setitem__(o, idx, vo)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for n in range(self.shape[0]):
            yield self[n]

    def __contains__(self, v):
        return bool(scal(F["any"](ufunc_dispatch(np.equal, "__call__", (self, v), {}))))

    def __bool__(self):
        if self.size == 1:
            return bool(self.view(np.ndarray).reshape(-1)[0])
        if self.size == 0:
            return False
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def _one(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return self.view(np.ndarray).reshape(-1)[0]

    def __float__(self):
        return float(self._one())

    def __int__(self):
        return int(self._one())

    def __index__(self):
        if self.ndim or self._kind == "f":
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return operator.index(self._one())

    def __round__(self, n=None):
        return self.round(n or 0)

    def __abs__(self):
        return np.absolute(self)

    def __format__(self, spec):
        return "<symarray>"

    def __repr__(self):
        return "SymArray(%s, kind=%s)" % (np.array2string(np.empty(self.shape)) if 0 else self.view(np.ndarray).tolist(), self._kind)

    __str__ = __repr__

    def __deepcopy__(self, memo):
        return _sa(self.view(np.ndarray).copy(), self._kind)

    def __copy__(self):
        return _sa(self.view(np.ndarray).copy(), self._kind)

    def __reduce__(self):
        raise Unsupported("pickling")

    # ---- protocols
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        f = F.get(func.__name__)
        if f is not None:
            return f(*args, **kwargs)
        if func.__name__ not in PASS:
            # only concrete content may go through the compiled implementation
            if not any(has_sym(a) for a in args) and not any(has_sym(a) for a in kwargs.values()):
                conv = lambda v: real(v) if isinstance(v, SymArray) else type(v)(conv(u) for u in v) \
                    if isinstance(v, (list, tuple)) else v
                return taint(func(*conv(tuple(args)), **{k: conv(v) for k, v in kwargs.items()}))
        return np.ndarray.__array_function__(self, func, (SymArray,), args, kwargs)

    # ---- methods
    def astype(self, t, *a, **k):
        kd = kind_of_dtype(t)
        if kd is None:
            if np.dtype(t).kind == "O":
                return self.copy()
            raise Unsupported("astype %r" % (t,))
        return mk(self, kd)

    def item(self, *a):
        if a:
            return np.ndarray.item(self.view(np.ndarray), *a)
        v = self.view(np.ndarray).reshape(-1)
        if v.size != 1:
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        v = v[0]
        return v if is_sym(v) else v.item()

    def fill(self, v):
        self[...] = v

    def view(self, *a, **k):
        if a and a[0] is np.ndarray or k.get("type") is np.ndarray:
            return np.ndarray.view(self, np.ndarray)
        if not a and not k:
            return np.ndarray.view(self, SymArray)
        if len(a) == 1 and isinstance(a[0], type) and issubclass(a[0], np.ndarray):
            return np.ndarray.view(self, a[0])
        raise Unsupported("view")

    def nonzero(self):
        return F["nonzero"](self)

    def tobytes(self, *a, **k):
        raise Unsupported("tobytes")

    def partition(self, *a, **k):
        self.sort()

    def sort(self, axis=-1, **k):
        self[...] = F["sort"](self, axis=axis)

    def put(self, ind, v, mode="raise"):
        self.reshape(-1)[ind] = v


def _method(name):
    def f(self, *a, **k):
        return F[name](self, *a, **k)
    f.__name__ = name
    return f


def taint(r):
    """results of real numpy -> SymArray"""
    if isinstance(r, SymArray):
        return r
    if isinstance(r, np.ma.MaskedArray):
        return r
    if isinstance(r, np.ndarray) and type(r) is np.ndarray and r.dtype.kind in "fiub":
        return mk(r)
    if isinstance(r, np.ndarray) and type(r) is np.ndarray and r.dtype.kind == "O":
        try:
            return mk(r)
        except NotNumeric:
            return r
    if type(r) in (tuple, list):
        return type(r)(taint(v) for v in r)
    return r


# ---------------------------------------------------------------------- ufuncs
def _uf(name):
    def f(x):
        from . import uf
        return uf.apply(name, x)
    return f


def _sign(x):
    if is_nan(x):
        return x
    return c.ite(c.lt(0, x), 1 if c.isint(x) else 1.0, c.ite(c.lt(x, 0), -1 if c.isint(x) else -1.0, 0 if c.isint(x) else 0.0))


def _fmax(a, b):
    return b if is_nan(a) else a if is_nan(b) else c.maxv(a, b)


def _fmin(a, b):
    return b if is_nan(a) else a if is_nan(b) else c.minv(a, b)


def _clip(x, lo, hi):
    if lo is not None:
        x = c.maxv(x, lo)
    if hi is not None:
        x = c.minv(x, hi)
    return x


def _and(a, b):
    if kind_of(a) == "b" and kind_of(b) == "b":
        return c.band(a, b)
    if not is_sym(a) and not is_sym(b):
        return a & b
    raise Unsupported("bitwise operation on symbolic integers")


def _or(a, b):
    if kind_of(a) == "b" and kind_of(b) == "b":
        return c.bor(a, b)
    if not is_sym(a) and not is_sym(b):
        return a | b
    raise Unsupported("bitwise operation on symbolic integers")


def _xor(a, b):
    if kind_of(a) == "b" and kind_of(b) == "b":
        return c.mkb(z3.Xor(c.tob(a), c.tob(b)))
    if not is_sym(a) and not is_sym(b):
        return a ^ b
    raise Unsupported("bitwise operation on symbolic integers")


def _inv(a):
    if kind_of(a) == "b":
        return c.bnot(a)
    if isinstance(a, Sym) and a.kind == "f":
        raise TypeError("ufunc 'invert' not supported for the input types")
    if isinstance(a, Sym):
        return Sym(-a.e - 1, "i")
    return ~a


def _sub(a, b):
    if kind_of(a) == "b" and kind_of(b) == "b":
        raise TypeError("numpy boolean subtract, the `-` operator, is not supported")
    return c.sub(a, b)


def _hypot(a, b):
    return c.sqrt(c.add(c.mul(a, a), c.mul(b, b)))


def _logical(f):
    return lambda *a: f(*[c.mkb(c.tob(x)) if is_sym(x) else bool(x) for x in a])


def _copysign(a, b):
    m = c.absv(a)
    return c.ite(c.le(0, b), m, c.neg(m))


def _intpow(a, b):
    return c.power(a, b)


SC = {}  # name -> (fn, kind rule)
for n, f, r in [
    ("add", c.add, "num"), ("subtract", _sub, "num"), ("multiply", c.mul, "num"), ("divide", c.div, "f"),
    ("true_divide", c.div, "f"), ("floor_divide", c.floordiv, "num"), ("remainder", c.mod, "num"), ("mod", c.mod, "num"),
    ("power", _intpow, "num"), ("float_power", c.power, "f"), ("negative", c.neg, "num"), ("positive", lambda x: x, "num"),
    ("absolute", c.absv, "num"), ("abs", c.absv, "num"), ("fabs", c.absv, "f"), ("sqrt", c.sqrt, "f"), ("square", lambda x: c.power(x, 2), "num"),
    ("reciprocal", lambda x: c.div(1.0, x), "f"), ("floor", c.floor, "f"), ("ceil", c.ceil, "f"),
    ("trunc", lambda x: x if not is_sym(x) and not np.isfinite(x) else cast(c.trunc(x), "f"), "f"),
    ("rint", c.rint, "f"), ("sign", _sign, "num"), ("maximum", c.maxv, "num"), ("minimum", c.minv, "num"), ("fmax", _fmax, "num"),
    ("fmin", _fmin, "num"), ("greater", lambda a, b: c.lt(b, a), "b"), ("greater_equal", lambda a, b: c.le(b, a), "b"),
    ("less", c.lt, "b"), ("less_equal", c.le, "b"), ("equal", c.eq, "b"), ("not_equal", c.ne, "b"),
    ("logical_and", _logical(c.band), "b"), ("logical_or", _logical(c.bor), "b"), ("logical_not", _logical(c.bnot), "b"),
    ("logical_xor", lambda a, b: c.mkb(z3.Xor(c.tob(a), c.tob(b))), "b"),
    ("bitwise_and", _and, "same"), ("bitwise_or", _or, "same"), ("bitwise_xor", _xor, "same"), ("invert", _inv, "same"),
    ("isnan", lambda x: is_nan(x), "b"), ("isinf", lambda x: is_special(x) and not is_nan(x), "b"),
    ("isfinite", lambda x: not is_special(x), "b"), ("signbit", lambda x: c.lt(x, 0), "b"),
    ("hypot", _hypot, "f"), ("copysign", _copysign, "f"), ("conjugate", lambda x: x, "num"), ("clip", _clip, "num"),
    ("deg2rad", lambda x: c.mul(x, np.pi / 180), "f"), ("radians", lambda x: c.mul(x, np.pi / 180), "f"),
    ("rad2deg", lambda x: c.mul(x, 180 / np.pi), "f"), ("degrees", lambda x: c.mul(x, 180 / np.pi), "f"),
    ("exp", _uf("exp"), "f"), ("log", _uf("log"), "f"), ("log10", _uf("log10"), "f"), ("log2", _uf("log2"), "f"),
    ("log1p", lambda x: _uf("log")(c.add(1, x)), "f"), ("expm1", lambda x: c.sub(_uf("exp")(x), 1), "f"),
    ("exp2", lambda x: c.power(2.0, x), "f"),
    ("sin", _uf("sin"), "f"), ("cos", _uf("cos"), "f"), ("tan", lambda x: c.div(_uf("sin")(x), _uf("cos")(x)), "f"),
]:
    SC[n] = (f, r)

# scipy.special ufuncs reach us through __array_ufunc__ as well
for n in ("gammainc", "gammaincinv", "gamma"):
    def _f(*a, _n=n):
        from . import uf
        return uf.apply(_n, *a)
    SC[n] = (_f, "f")


def _outkind(rule, kinds, name):
    if rule == "b":
        return "b"
    k = max(kinds, key=lambda x: RANK[x])
    if rule == "f":
        return "f"
    if rule == "num":
        if k == "b" and name in ("add", "multiply", "maximum", "minimum", "fmax", "fmin", "absolute", "conjugate"):
            return "b"
        return "i" if k == "b" else k
    return k


def _elementwise(name, ins):
    fn, rule = SC[name]
    if name == "invert" and any(k == "f" for _, k in ins):
        raise TypeError("ufunc 'invert' not supported for the input types")
    if name in ("bitwise_and", "bitwise_or", "bitwise_xor") and any(k == "f" for _, k in ins):
        raise TypeError("ufunc %r not supported for the input types" % name)
    ok = _outkind(rule, [k for _, k in ins], name)
    if ok == "b" and rule == "num" and name in ("add", "multiply", "maximum", "minimum", "fmax", "fmin"):
        fn = c.bor if name in ("add", "maximum", "fmax") else c.band
    arrs = np.broadcast_arrays(*[a for a, _ in ins]) if len(ins) > 1 else [ins[0][0]]
    shape = arrs[0].shape
    out = np.empty(shape, dtype=object)
    if not any(has_sym(a) for a, _ in ins):
        u = getattr(np, name, None)
        if u is None:
            import scipy.special
            u = getattr(scipy.special, name)
        with np.errstate(all="ignore"):
            r = u(*[real(_sa(np.array(a, dtype=object) if a.ndim else a, k)) for a, k in ins])
        o, kk = _nested(np.asarray(r))
        return o, kk
    if shape == ():
        out[()] = cast(fn(*[a[()] for a in arrs]), ok)
        return out, ok
    its = [a.reshape(-1) for a in arrs]
    of = out.reshape(-1)
    for n in range(out.size):
        of[n] = cast(fn(*[it[n] for it in its]), ok)
    return out, ok


REDUCERS = {"add": 0, "multiply": 1, "maximum": None, "minimum": None, "logical_and": True, "logical_or": False,
            "bitwise_and": True, "bitwise_or": False, "fmax": None, "fmin": None}


def sum_list(vals):
    vals = [unwrap0(v) for v in vals]
    vals = [v._num() if isinstance(v, SymB) else v for v in vals]
    if not vals:
        return 0
    sp = [v for v in vals if is_special(v)]
    if sp:
        with np.errstate(all="ignore"):
            return np.float64(sum(np.float64(v) for v in sp))
    if not any(is_sym(v) for v in vals):
        if all(c.isint(v) for v in vals):
            return int(sum(int(v) for v in vals))
        return np.float64(np.add.reduce(np.array([float(v) for v in vals])))
    if all(c.isint(v) for v in vals):
        return Sym(z3.Sum(*[c.zi(v) for v in vals]), "i")
    return Sym(z3.Sum(*[c.zr(v) for v in vals]))


def _reduce1(name, vals, initial=None):
    vals = list(vals)
    if initial is not None:
        vals = [initial] + vals
    if name == "add":
        return sum_list(vals)
    if name in ("logical_and", "bitwise_and"):
        return c.band(*vals) if vals else True
    if name in ("logical_or", "bitwise_or"):
        return c.bor(*vals) if vals else False
    if not vals:
        if name == "multiply":
            return 1.0
        raise ValueError("zero-size array to reduction operation %s which has no identity" % name)
    r = vals[0]
    fn = SC[name][0]
    for v in vals[1:]:
        r = fn(r, v)
    return r


def reduce(name, a, axis=0, keepdims=False, initial=None, where=True, dtype=None):
    if keepdims is np._NoValue:
        keepdims = False
    if initial is np._NoValue:
        initial = None
    a = a if isinstance(a, SymArray) else mk(a)
    o, k = a.view(np.ndarray), a._kind
    if name in ("add", "multiply") and k == "b":
        o, k = _castarr(o, "i"), "i"
    if dtype is not None and kind_of_dtype(dtype) != k:
        k = kind_of_dtype(dtype)
        o = _castarr(o, k)
    if name.startswith(("logical", "bitwise")):
        k = "b" if name.startswith("logical") else k
    wo = None
    if where is not True and where is not np._NoValue:
        wo = np.broadcast_to(_nested(where)[0], o.shape)
    if axis is None:
        axes = tuple(range(o.ndim))
    elif isinstance(axis, tuple):
        axes = tuple(int(x) % o.ndim for x in axis)
    else:
        if o.ndim == 0:
            axes = ()
        else:
            if not -o.ndim <= axis < o.ndim:
                raise np.exceptions.AxisError(axis, o.ndim)
            axes = (int(axis) % o.ndim,)
    rest = [i for i in range(o.ndim) if i not in axes]
    t = o.transpose(rest + list(axes)) if o.ndim else o
    shape = tuple(o.shape[i] for i in rest)
    out = np.empty(shape, dtype=object)
    wt = wo.transpose(rest + list(axes)) if wo is not None else None
    for ix in np.ndindex(*shape):
        sub = t[ix]
        vals = list(sub.reshape(-1)) if isinstance(sub, np.ndarray) else [sub]
        if wt is not None:
            ws = wt[ix]
            ws = list(ws.reshape(-1)) if isinstance(ws, np.ndarray) else [ws]
            if name == "add":
                vals = [c.ite(w, v, 0) for v, w in zip(vals, ws)]
            elif name == "logical_and":
                vals = [c.implies(w, v) for v, w in zip(vals, ws)]
            elif name == "logical_or":
                vals = [c.band(w, v) for v, w in zip(vals, ws)]
            else:
                vals = [v for v, w in zip(vals, ws) if bool(w)]
        out[ix] = cast(_reduce1(name, vals, initial), k)
    if keepdims:
        out = out.reshape(tuple(1 if i in axes else o.shape[i] for i in range(o.ndim)))
        return _sa(out, k)
    if shape == ():
        return out[()]
    return _sa(out, k)


def accumulate(name, a, axis=0, dtype=None):
    a = a if isinstance(a, SymArray) else mk(a)
    o, k = a.view(np.ndarray), a._kind
    if k == "b" and name in ("add", "multiply"):
        o, k = _castarr(o, "i"), "i"
    if dtype is not None and kind_of_dtype(dtype) != k:
        k = kind_of_dtype(dtype)
        o = _castarr(o, k)
    fn = SC[name][0]
    t = np.moveaxis(o, axis, 0)
    out = np.empty(t.shape, dtype=object)
    for ix in np.ndindex(*t.shape[1:]):
        acc = None
        for n in range(t.shape[0]):
            v = t[(n,) + ix]
            acc = v if acc is None else fn(acc, v)
            out[(n,) + ix] = cast(acc, k)
    return _sa(np.moveaxis(out, 0, axis), k)


def ufunc_dispatch(ufunc, method, inputs, kw):
    name = ufunc.__name__
    kw = dict(kw)
    out = kw.pop("out", None)
    where = kw.pop("where", True)
    inputs = [i._mat() if isinstance(i, LazyIdx) else i for i in inputs]
    try:
        if method == "__call__":
            if any(type(i).__module__.startswith("astropy") or isinstance(i, np.ma.MaskedArray) for i in inputs):
                return NotImplemented
            if name == "matmul":
                return F["matmul"](*inputs)
            if name in ("vecdot",):
                return F["dot"](*inputs)
            if name == "divmod":
                return (ufunc_dispatch(np.floor_divide, "__call__", inputs, {}), ufunc_dispatch(np.remainder, "__call__", inputs, {}))
            if name == "modf":
                ip = ufunc_dispatch(np.trunc, "__call__", inputs[:1], {})
                return ufunc_dispatch(np.subtract, "__call__", (inputs[0], ip), {}), ip
            if name == "clip":
                ins = [(None, None) if i is None else _nested(i) for i in inputs]
                x, lo, hi = inputs
                r = mk(x)
                if lo is not None:
                    r = ufunc_dispatch(np.maximum, "__call__", (r, lo), {})
                if hi is not None:
                    r = ufunc_dispatch(np.minimum, "__call__", (r, hi), {})
                o, k = _nested(r)
            else:
                ins = [_nested(i) for i in inputs]
                if name not in SC:
                    if any(has_sym(a) for a, _ in ins):
                        if name == "fmod":
                            raise Unsupported("fmod")
                        raise Unsupported("ufunc %s on symbolic values" % name)
                    with np.errstate(all="ignore"):
                        r = ufunc(*[real(_sa(a, k)) for a, k in ins], **kw)
                    r = taint(r) if not np.isscalar(r) else r
                    return r
                o, k = _elementwise(name, ins)
                dt = kw.get("dtype")
                if dt is not None and kind_of_dtype(dt) not in (None, k):
                    k = kind_of_dtype(dt)
                    o = _castarr(o, k)
            if out is not None:
                t = out[0] if isinstance(out, tuple) else out
                if not isinstance(t, SymArray):
                    if has_sym(_sa(o, k)):
                        if isinstance(t, np.ndarray) and t.dtype == object:
                            t[...] = o
                            return t
                        raise Unsupported("symbolic result written to a concrete array")
                    t[...] = real(_sa(o, k))
                    return t
                if RANK[k] > RANK[t._kind]:
                    raise TypeError("Cannot cast ufunc %r output from %s to %s with casting rule 'same_kind'"
                                    % (name, REALDT[k], REALDT[t._kind]))
                if where is not True:
                    w = np.broadcast_to(_nested(where)[0], t.shape)
                    src = np.broadcast_to(o, t.shape)
                    to = t.view(np.ndarray)
                    for ix in np.ndindex(*t.shape):
                        to[ix] = cast(c.ite(w[ix], src[ix], to[ix]), t._kind)
                    return t
                if np.broadcast_shapes(o.shape, t.shape) != t.shape:
                    raise ValueError("non-broadcastable output operand with shape %s doesn't match the broadcast shape %s"
                                     % (t.shape, np.broadcast_shapes(o.shape, t.shape)))
                t[...] = _sa(o, k)
                return t
            if where is not True:
                raise Unsupported("ufunc where= without out=")
            if o.ndim == 0:
                return o[()]
            return _sa(o, k)
        if method == "reduce":
            if name not in REDUCERS:
                if not has_sym(inputs[0]):
                    return taint(getattr(ufunc, method)(real(inputs[0]), **kw))
                raise Unsupported("%s.reduce" % name)
            return reduce(name, inputs[0], axis=kw.get("axis", 0), keepdims=kw.get("keepdims", False),
                          initial=kw.get("initial"), where=where, dtype=kw.get("dtype"))
        if method == "accumulate":
            return accumulate(name, inputs[0], axis=kw.get("axis", 0), dtype=kw.get("dtype"))
        if method == "outer":
            a, b = [mk(x) for x in inputs]
            return ufunc_dispatch(ufunc, "__call__", (a.reshape(a.shape + (1,) * b.ndim), b), kw)
        if method == "at":
            a, idx = inputs[0], _norm_idx(inputs[1])
            vals = None if len(inputs) < 3 else inputs[2]
            n = len(np.arange(a.shape[0])[idx])
            pos = np.arange(a.shape[0])[idx]
            vb = None if vals is None else np.broadcast_to(_nested(vals)[0], (n,))
            for m, p in enumerate(pos):
                a[int(p)] = SC[name][0](a[int(p)], vb[m]) if vb is not None else SC[name][0](a[int(p)])
            return None
    except NotNumeric:
        return NotImplemented
    raise Unsupported("ufunc method %s.%s" % (name, method))


# ------------------------------------------------------------------ function table
F = {}
PASS = {"shape", "ndim", "size", "reshape", "ravel", "transpose", "swapaxes", "moveaxis", "rollaxis", "squeeze", "expand_dims",
        "flip", "flipud", "fliplr", "rot90", "atleast_1d", "atleast_2d", "atleast_3d", "broadcast_to", "broadcast_arrays", "copyto",
        "shares_memory", "may_share_memory", "array_split", "split", "hsplit", "vsplit", "diagonal", "trace", "ndim", "iscomplexobj",
        "isrealobj", "real", "imag", "take_along_axis", "apply_along_axis", "triu_indices_from", "array_repr", "array_str",
        "array2string", "result_type", "can_cast", "common_type", "min_scalar_type", "fill_diagonal", "put_along_axis",
        "permute_dims", "matrix_transpose", "resize", "roll", "diag", "kron", "tile", "apply_over_axes", "meshgrid"}


def fn(*names):
    def d(f):
        for n in names:
            F[n] = f
        return f
    return d


def A(x):
    return x if isinstance(x, SymArray) else mk(x)


def _red(name):
    def f(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
        r = reduce(name, A(a), axis=axis, dtype=dtype, keepdims=keepdims, initial=initial, where=where)
        if out is not None:
            out[...] = r
            return out
        return r
    return f


def _red2(name):  # max/min: no dtype argument
    def f(a, axis=None, out=None, keepdims=False, initial=None, where=True):
        r = reduce(name, A(a), axis=axis, keepdims=keepdims, initial=initial, where=where)
        if out is not None:
            out[...] = r
            return out
        return r
    return f


F["sum"] = _red("add")
F["prod"] = _red("multiply")
F["max"] = F["amax"] = _red2("maximum")
F["min"] = F["amin"] = _red2("minimum")


@fn("any")
def _any(a, axis=None, out=None, keepdims=False, where=True):
    return reduce("logical_or", A(a), axis=axis, keepdims=keepdims, where=where)


@fn("all")
def _all(a, axis=None, out=None, keepdims=False, where=True):
    return reduce("logical_and", A(a), axis=axis, keepdims=keepdims, where=where)


def _count(a, axis):
    if axis is None:
        return a.size
    if isinstance(axis, tuple):
        n = 1
        for x in axis:
            n *= a.shape[x]
        return n
    return a.shape[axis]


@fn("mean")
def _mean(a, axis=None, dtype=None, out=None, keepdims=False, where=True):
    a = A(a)
    if where is not True and where is not np._NoValue:
        n = reduce("add", A(np.broadcast_to(nd(A(where)), a.shape)), axis=axis)
    else:
        n = _count(a, axis)
    if not is_sym(n) and np.ndim(n) == 0 and n == 0:
        return np.float64(nan)
    s = reduce("add", a, axis=axis, keepdims=keepdims, where=where)
    r = ufunc_dispatch(np.divide, "__call__", (s, n), {})
    if out is not None:
        out[...] = r
        return out
    return r


@fn("average")
def _average(a, axis=None, weights=None, returned=False, keepdims=False):
    a = A(a)
    if weights is None:
        return _mean(a, axis=axis)
    w = A(weights)
    if w.shape != a.shape and axis is not None:
        sh = [1] * a.ndim
        sh[axis] = w.shape[0]
        w = w.reshape(sh)
    num, den = F["sum"](a * w, axis=axis), F["sum"](A(np.broadcast_to(nd(w), a.shape)), axis=axis)
    r = num / den
    return (r, den) if returned else r


@fn("var")
def _var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, where=True, mean=None, correction=None):
    a = A(a)
    m = _mean(a, axis=axis, keepdims=True if axis is not None else False)
    d = a - m
    n = _count(a, axis) - ddof
    return F["sum"](d * d, axis=axis, keepdims=keepdims) / np.float64(n)


@fn("std")
def _std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, where=True, mean=None, correction=None):
    return ufunc_dispatch(np.sqrt, "__call__", (_var(a, axis=axis, ddof=ddof, keepdims=keepdims),), {})


def _nanfree(a, axis):
    """NaNs are concrete: drop them for a flat reduction."""
    a = A(a)
    if axis is not None:
        return None
    v = [x for x in nd(a).reshape(-1) if not is_nan(x)]
    return mk(v, a._kind) if v else mk(np.zeros(0))


def _nanred(name, fb):
    def f(a, axis=None, *r, **k):
        a = A(a)
        if axis is None:
            z = _nanfree(a, None)
            if z.size == 0:
                return np.float64(0.0) if name in ("sum",) else np.float64(1.0) if name == "prod" else np.float64(nan)
            return F[name](z)
        t = np.moveaxis(nd(a), axis, -1)
        out = np.empty(t.shape[:-1], dtype=object)
        for ix in np.ndindex(*t.shape[:-1]):
            out[ix] = f(_sa(t[ix].copy(), a._kind))
        return _sa(out, "f")
    return f


for _n in ("sum", "mean", "max", "min", "std", "var", "prod"):
    F["nan" + _n] = _nanred(_n, None)


@fn("nan_to_num")
def _n2n(x, copy=True, nan=0.0, posinf=None, neginf=None):
    a = mk(x)
    o = nd(a)
    for ix in np.ndindex(*o.shape):
        v = o[ix]
        if is_nan(v):
            o[ix] = np.float64(nan)
        elif is_special(v):
            o[ix] = np.float64((np.finfo(float).max if posinf is None else posinf) if v > 0 else (np.finfo(float).min if neginf is None else neginf))
    if not copy and isinstance(x, SymArray):
        x[...] = a
        return x
    return scal(a)


@fn("argmin")
def _argmin(a, axis=None, out=None, keepdims=False):
    return _argext(a, axis, True)


@fn("argmax")
def _argmax(a, axis=None, out=None, keepdims=False):
    return _argext(a, axis, False)


def _argext(a, axis, is_min):
    a = A(a)
    if axis is not None and a.ndim > 1:
        t = np.moveaxis(nd(a), axis, -1)
        out = np.empty(t.shape[:-1], dtype=object)
        for ix in np.ndindex(*t.shape[:-1]):
            out[ix] = cast(_argext(_sa(t[ix].copy(), a._kind), None, is_min), "i")
        return _sa(out, "i")
    v = list(nd(a).reshape(-1))
    if not v:
        raise ValueError("attempt to get argmin of an empty sequence")
    for n, x in enumerate(v):
        if is_nan(x):
            return np.int64(n)
    v = [x._num() if isinstance(x, SymB) else x for x in v]
    best, bi = v[0], np.int64(0)
    for n in range(1, len(v)):
        better = c.lt(v[n], best) if is_min else c.lt(best, v[n])
        if is_special(best) or is_special(v[n]):
            if bool(better):
                best, bi = v[n], np.int64(n)
            continue
        best, bi = c.ite(better, v[n], best), c.ite(better, n, bi)
    return bi if is_sym(bi) else np.int64(bi)


def _nanarg(is_min):
    def f(a, axis=None, **k):
        a = A(a)
        v = list(nd(a).reshape(-1))
        keep = [n for n, x in enumerate(v) if not is_nan(x)]
        if not keep:
            raise ValueError("All-NaN slice encountered")
        i = _argext(mk([v[n] for n in keep], a._kind), None, is_min)
        return mk(np.array(keep), "i")[i]
    return f


F["nanargmin"], F["nanargmax"] = _nanarg(True), _nanarg(False)


def sorted_perm(vals, stable=True):
    """permutation sorting vals ascending; forks on comparisons; NaN last"""
    idx = []
    for n, v in enumerate(vals):
        p = len(idx)
        while p > 0:
            u = vals[idx[p - 1]]
            if is_nan(u) and not is_nan(v):
                p -= 1
                continue
            if is_nan(v):
                break
            if bool(c.lt(v, u)):
                p -= 1
            else:
                break
        idx.insert(p, n)
    return idx


@fn("argsort")
def _argsort(a, axis=-1, kind=None, order=None, stable=None):
    a = A(a)
    if a.ndim > 1:
        raise Unsupported("argsort of a 2-D symbolic array")
    if not has_sym(a):
        return mk(np.argsort(real(a), kind=kind or "stable"))
    return mk(np.array(sorted_perm(list(nd(a))), dtype=np.int64), "i")


@fn("sort")
def _sort(a, axis=-1, kind=None, order=None, stable=None):
    a = mk(a)
    if axis is None:
        a = a.reshape(-1)
        axis = -1
    t = np.moveaxis(nd(a), axis, -1)
    for ix in np.ndindex(*t.shape[:-1]):
        v = list(t[ix])
        p = sorted_perm(v)
        for n in range(len(v)):
            t[ix + (n,)] = v[p[n]]
    return a


@fn("median", "nanmedian")
def _median(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    a = A(a)
    if axis is not None and a.ndim > 1:
        raise Unsupported("median along an axis")
    v = _sort(a.reshape(-1))
    n = v.size
    if n and is_nan(nd(v)[-1]):
        return np.float64(nan)
    if n % 2:
        return cast(nd(v)[n // 2], "f")
    return c.div(c.add(nd(v)[n // 2 - 1], nd(v)[n // 2]), 2)


@fn("unique")
def _unique(ar, return_index=False, return_inverse=False, return_counts=False, axis=None, equal_nan=True, sorted=True):
    a = A(ar)
    o = list(nd(a).reshape(-1))
    if not has_sym(a):
        return taint(np.unique(real(a), return_index, return_inverse, return_counts))
    p = sorted_perm(o)
    first, inv, cnt, last = [], [0] * len(o), [], None
    for n in p:
        if last is not None and bool(c.eq(o[n], last)):
            cnt[-1] += 1
        else:
            first.append(n)
            cnt.append(1)
            last = o[n]
        inv[n] = len(first) - 1
    u = mk([o[n] for n in first], a._kind)
    res = [u]
    I = lambda l: mk(np.array(l, dtype=np.int64), "i")
    if return_index:
        res.append(I(first))
    if return_inverse:
        res.append(I(inv).reshape(a.shape))
    if return_counts:
        res.append(I(cnt))
    return res[0] if len(res) == 1 else tuple(res)


@fn("nonzero")
def _nonzero(a):
    a = A(a)
    if isinstance(a, SymArray) and a.ndim == 0:
        raise ValueError("Calling nonzero on 0d arrays is not allowed.")
    if not has_sym(a):
        return tuple(mk(i, "i") for i in np.nonzero(real(a)))
    if a.ndim == 1:
        return (LazyIdx([c.mkb(c.tob(v)) if is_sym(v) else bool(v) for v in nd(a)]),)
    m = np.empty(a.shape, dtype=bool)
    for ix in np.ndindex(*a.shape):
        m[ix] = bool(nd(a)[ix])
    return tuple(mk(i, "i") for i in np.nonzero(m))


@fn("flatnonzero")
def _flatnonzero(a):
    return _nonzero(A(a).reshape(-1))[0]


@fn("argwhere")
def _argwhere(a):
    r = _nonzero(A(a))
    return F["stack"]([i._mat() if isinstance(i, LazyIdx) else i for i in r], axis=-1)


@fn("count_nonzero")
def _count_nonzero(a, axis=None, keepdims=False):
    a = A(a)
    b = ufunc_dispatch(np.not_equal, "__call__", (a, False if a._kind == "b" else 0), {})
    return F["sum"](b, axis=axis, keepdims=keepdims)


@fn("where")
def _where(cond, x=None, y=None, _n=object()):
    cond = A(cond)
    if x is None and y is None:
        if cond.ndim == 0:
            raise ValueError("Calling nonzero on 0d arrays is not allowed. Use np.atleast_1d(scalar).nonzero() instead.")
        return _nonzero(cond)
    (xo, xk), (yo, yk) = _nested(x), _nested(y)
    k = xk if RANK[xk] >= RANK[yk] else yk
    co, xo, yo = np.broadcast_arrays(nd(cond), xo, yo)
    out = np.empty(co.shape, dtype=object)
    for ix in np.ndindex(*co.shape):
        out[ix] = cast(c.ite(c.mkb(c.tob(co[ix])) if is_sym(co[ix]) else bool(co[ix]), xo[ix], yo[ix]), k)
    return _sa(out, k)


@fn("select")
def _select(condlist, choicelist, default=0):
    r = A(default)
    for cnd, ch in list(zip(condlist, choicelist))[::-1]:
        r = _where(cnd, ch, r)
    return r


@fn("isclose")
def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    (ao, ak), (bo, bk) = _nested(a), _nested(b)
    ao, bo = np.broadcast_arrays(ao, bo)
    out = np.empty(ao.shape, dtype=object)
    for ix in np.ndindex(*ao.shape):
        x, y = ao[ix], bo[ix]
        if is_special(x) or is_special(y):
            out[ix] = np.bool_(np.isclose(float(x), float(y), equal_nan=equal_nan) if not is_sym(x) and not is_sym(y) else False)
        elif not is_sym(x) and not is_sym(y):
            out[ix] = np.bool_(np.isclose(x, y, rtol, atol))
        else:
            out[ix] = c.le(c.absv(c.sub(x, y)), c.add(c.mul(rtol, c.absv(y)), atol))
    r = _sa(out, "b")
    return scal(r)


@fn("allclose")
def _allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = _isclose(a, b, rtol, atol, equal_nan)
    return bool(_all(r)) if isinstance(r, SymArray) else bool(r)


@fn("array_equal")
def _array_equal(a, b, equal_nan=False):
    a, b = A(a), A(b)
    if a.shape != b.shape:
        return False
    return bool(_all(a == b))


@fn("array_equiv")
def _array_equiv(a, b):
    return bool(_all(A(a) == A(b)))


@fn("round", "around", "round_")
def _round(a, decimals=0, out=None):
    a = A(a)
    if not has_sym(a):
        return _tscal(np.round(real(a), decimals))
    r = np.empty(a.shape, dtype=object)
    for ix in np.ndindex(*a.shape):
        v = nd(a)[ix]
        r[ix] = cast(v if is_special(v) else c.roundv(v, decimals), a._kind if a._kind != "b" else "i")
    if out is not None:
        out[...] = _sa(r, a._kind)
        return out
    return scal(_sa(r, a._kind))


def _tscal(r):
    return taint(r) if isinstance(r, np.ndarray) and r.ndim else wrap_el(r[()] if isinstance(r, np.ndarray) else r)


@fn("fix")
def _fix(a, out=None):
    return ufunc_dispatch(np.trunc, "__call__", (A(a),), {})


@fn("clip")
def _npclip(a, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    r = A(a)
    if lo is not None:
        r = ufunc_dispatch(np.maximum, "__call__", (r, lo), {})
    if hi is not None:
        r = ufunc_dispatch(np.minimum, "__call__", (r, hi), {})
    if out is not None:
        out[...] = r
        return out
    return r if (lo is not None or hi is not None) else mk(r)


@fn("diff")
def _diff(a, n=1, axis=-1, prepend=None, append=None):
    a = A(a)
    parts = []
    if prepend is not None and prepend is not np._NoValue:
        p = A(prepend)
        parts.append(p.reshape((1,)) if p.ndim == 0 else p)
    parts.append(a)
    if append is not None and append is not np._NoValue:
        p = A(append)
        parts.append(p.reshape((1,)) if p.ndim == 0 else p)
    if len(parts) > 1:
        a = F["concatenate"](parts, axis=axis)
    for _ in range(n):
        o = np.moveaxis(nd(a), axis, 0)
        if a._kind == "b":
            r = ufunc_dispatch(np.not_equal, "__call__", (_sa(o[1:], "b"), _sa(o[:-1], "b")), {})
        else:
            r = ufunc_dispatch(np.subtract, "__call__", (_sa(o[1:], a._kind), _sa(o[:-1], a._kind)), {})
        a = _sa(np.moveaxis(nd(r), 0, axis), r._kind)
    return a


@fn("ediff1d")
def _ediff1d(a, to_end=None, to_begin=None):
    d = _diff(A(a).reshape(-1))
    return F["concatenate"]([A(x).reshape(-1) for x in (to_begin, d, to_end) if x is not None])


@fn("cumsum")
def _cumsum(a, axis=None, dtype=None, out=None):
    a = A(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    return accumulate("add", a, axis=axis, dtype=dtype)


@fn("cumprod")
def _cumprod(a, axis=None, dtype=None, out=None):
    a = A(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    return accumulate("multiply", a, axis=axis, dtype=dtype)


def _promote(arrs):
    arrs = [A(x) for x in arrs]
    k = max([a._kind for a in arrs], key=lambda x: RANK[x])
    return [nd(a) if a._kind == k else _castarr(nd(a), k) for a in arrs], k


@fn("concatenate", "concat")
def _concatenate(arrs, axis=0, out=None, **k):
    arrs = list(arrs)
    ne = [A(a) for a in arrs]
    o, kd = _promote(ne)
    if axis is None:
        o = [x.reshape(-1) for x in o]
        axis = 0
    return _sa(np.concatenate(o, axis=axis), kd)


@fn("stack")
def _stack(arrs, axis=0, out=None, **k):
    o, kd = _promote(list(arrs))
    return _sa(np.stack(o, axis=axis), kd)


@fn("hstack")
def _hstack(arrs, **k):
    o, kd = _promote(list(arrs))
    return _sa(np.hstack(o), kd)


@fn("vstack", "row_stack")
def _vstack(arrs, **k):
    o, kd = _promote(list(arrs))
    return _sa(np.vstack(o), kd)


@fn("dstack")
def _dstack(arrs, **k):
    o, kd = _promote(list(arrs))
    return _sa(np.dstack(o), kd)


@fn("column_stack")
def _column_stack(arrs, **k):
    o, kd = _promote(list(arrs))
    return _sa(np.column_stack(o), kd)


@fn("append")
def _append(arr, values, axis=None):
    if axis is None:
        return _concatenate([A(arr).reshape(-1), A(values).reshape(-1)])
    return _concatenate([arr, values], axis=axis)


@fn("insert")
def _insert(arr, obj, values, axis=None):
    a = A(arr)
    if axis is None:
        a, axis = a.reshape(-1), 0
    v = mk(values, a._kind)
    r = np.insert(nd(a), _norm_idx(obj), nd(v) if v.ndim else nd(v.reshape(1)) if np.ndim(obj) else nd(v)[()], axis=axis) \
        if v.ndim else _insert_scalar(nd(a), obj, nd(v)[()], axis)
    return _sa(r, a._kind)


def _insert_scalar(o, obj, v, axis):
    shape = list(o.shape)
    shape[axis] = 1 if np.ndim(obj) == 0 else len(obj)
    blk = np.empty(shape, dtype=object)
    blk.fill(v)
    if np.ndim(obj) == 0:
        i = int(obj)
        if i < 0:
            i += o.shape[axis]
        lo = [slice(None)] * o.ndim
        hi = [slice(None)] * o.ndim
        lo[axis], hi[axis] = slice(0, i), slice(i, None)
        return np.concatenate([o[tuple(lo)], blk, o[tuple(hi)]], axis=axis)
    return np.insert(o, _norm_idx(obj), blk, axis=axis)


@fn("delete")
def _delete(arr, obj, axis=None):
    a = A(arr)
    if axis is None:
        a, axis = a.reshape(-1), 0
    return _sa(np.delete(nd(a), _norm_idx(obj), axis=axis), a._kind)


@fn("repeat")
def _repeat(a, repeats, axis=None):
    a = A(a)
    return _sa(np.repeat(nd(a), _norm_idx(repeats) if isinstance(repeats, (SymArray, Sym)) else repeats, axis=axis), a._kind)


@fn("take")
def _take(a, indices, axis=None, out=None, mode="raise"):
    a = A(a)
    if axis is None:
        return a.reshape(-1)[indices]
    return _sa(np.take(nd(a), _norm_idx(indices), axis=axis, mode=mode), a._kind)


@fn("compress")
def _compress(cond, a, axis=None, out=None):
    a = A(a)
    return _sa(np.compress(_norm_idx(A(cond)), nd(a), axis=axis), a._kind)


@fn("extract")
def _extract(cond, a):
    return A(a).reshape(-1)[_norm_idx(A(cond).reshape(-1))]


@fn("place")
def _place(arr, mask, vals):
    arr[_norm_idx(A(mask))] = vals


@fn("putmask")
def _putmask(arr, mask, vals):
    m = A(mask)
    if np.ndim(vals) == 0:
        arr[m] = vals
    else:
        mm = _norm_idx(m)
        v = np.resize(nd(A(vals)), arr.shape)
        arr[mm] = _sa(v[mm], A(vals)._kind)


@fn("pad")
def _pad(a, pad_width, mode="constant", **k):
    a = A(a)
    if mode == "constant":
        cv = k.get("constant_values", 0)
        cv = cast(unwrap0(cv), a._kind)
        pw = np.broadcast_to(np.asarray(pad_width), (a.ndim, 2))
        out = np.empty([s + int(p[0]) + int(p[1]) for s, p in zip(a.shape, pw)], dtype=object)
        out.fill(cv)
        out[tuple(slice(int(p[0]), int(p[0]) + s) for s, p in zip(a.shape, pw))] = nd(a)
        return _sa(out, a._kind)
    # index-permuting modes: pad an index array instead
    ix = np.pad(np.arange(a.size).reshape(a.shape), pad_width, mode=mode, **k)
    return _sa(nd(a).reshape(-1)[ix], a._kind)


@fn("tril")
def _tril(m, k=0):
    m = mk(m)
    return _where(np.tri(*m.shape[-2:], k=k, dtype=bool), m, 0)


@fn("triu")
def _triu(m, k=0):
    m = mk(m)
    return _where(~np.tri(*m.shape[-2:], k=k - 1, dtype=bool), m, 0)


@fn("dot")
def _dot(a, b, out=None):
    a, b = A(a), A(b)
    if a.ndim == 0 or b.ndim == 0:
        return ufunc_dispatch(np.multiply, "__call__", (a, b), {})
    if b.ndim == 1 or a.ndim == 1 or (a.ndim == 2 and b.ndim == 2):
        return _matmul(a, b)
    raise Unsupported("dot of higher-dimensional arrays")


@fn("matmul")
def _matmul(a, b, out=None):
    a, b = A(a), A(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    a1, b1 = a.ndim == 1, b.ndim == 1
    ao = nd(a).reshape((1, -1)) if a1 else nd(a)
    bo = nd(b).reshape((-1, 1)) if b1 else nd(b)
    if ao.shape[-1] != bo.shape[-2]:
        raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0")
    if ao.ndim > 2 or bo.ndim > 2:
        raise Unsupported("batched matmul")
    k = a._kind if RANK[a._kind] >= RANK[b._kind] else b._kind
    out = np.empty((ao.shape[0], bo.shape[1]), dtype=object)
    for i in range(out.shape[0]):
        for j in range(out.shape[1]):
            out[i, j] = cast(sum_list([c.mul(ao[i, m], bo[m, j]) for m in range(ao.shape[1])]), k)
    r = _sa(out, k)
    if a1 and b1:
        return out[0, 0]
    if a1:
        return r.reshape(-1)
    if b1:
        return r.reshape(-1)
    return r


@fn("inner", "vdot")
def _inner(a, b):
    a, b = A(a), A(b)
    if a.ndim > 1 or b.ndim > 1:
        raise Unsupported("inner of 2-D arrays")
    return F["sum"](a * b)


@fn("outer")
def _outer(a, b, out=None):
    return A(a).reshape(-1)[:, None] * A(b).reshape(-1)[None, :]


@fn("tensordot", "einsum")
def _tensordot(*a, **k):
    raise Unsupported("tensordot/einsum on symbolic arrays")


@fn("interp")
def _interp(x, xp, fp, left=None, right=None, period=None):
    from . import shims
    return shims.np_interp(x, xp, fp, left, right, period)


@fn("searchsorted", "digitize")
def _searchsorted(a, v, side="left", sorter=None):
    a = A(a)
    lz = list(nd(a))
    vv = A(v)
    out = np.empty(vv.shape, dtype=object)
    for ix in np.ndindex(*vv.shape):
        x = nd(vv)[ix]
        if is_nan(x):
            out[ix] = np.int64(sum(not is_nan(u) for u in lz) if side == "left" else len(lz))
            continue
        out[ix] = cast(sum_list([c.ite(c.lt(u, x) if side == "left" else c.le(u, x), 1, 0) for u in lz] or [0]), "i")
    return scal(_sa(out, "i"))


def _digitize(x, bins, right=False):
    return _searchsorted(bins, x, side="left" if right else "right")


F["digitize"] = _digitize


@fn("gradient")
def _gradient(f, *varargs, axis=None, edge_order=1):
    f = mk(f, "f")
    if f.ndim != 1 or len(varargs) > 1 or edge_order != 1:
        raise Unsupported("gradient")
    n = f.shape[0]
    x = A(varargs[0]) if varargs else A(1.0)
    x = mk(np.arange(n), "f") * scal(x) if x.ndim == 0 else x
    out = []
    for i in range(n):
        if i == 0:
            out.append((f[1] - f[0]) / (x[1] - x[0]))
        elif i == n - 1:
            out.append((f[-1] - f[-2]) / (x[-1] - x[-2]))
        else:
            hs, hd = x[i] - x[i - 1], x[i + 1] - x[i]
            out.append((hs * hs * f[i + 1] + (hd * hd - hs * hs) * f[i] - hd * hd * f[i - 1]) / (hs * hd * (hd + hs)))
    return mk(out, "f")


@fn("trapz", "trapezoid")
def _trapz(y, x=None, dx=1.0, axis=-1):
    y = A(y)
    d = _diff(A(x)) if x is not None else dx
    return F["sum"]((y[1:] + y[:-1]) / 2.0 * d)


@fn("polyval")
def _polyval(p, x):
    y = A(np.zeros(np.shape(x))) if np.ndim(x) else np.float64(0)
    for pv in A(p):
        y = y * x + pv
    return y


@fn("isin", "in1d")
def _isin(element, test_elements, assume_unique=False, invert=False, kind=None):
    a = A(element)
    t = list(nd(A(list(test_elements) if isinstance(test_elements, (set, frozenset)) else test_elements)).reshape(-1))
    out = np.empty(a.shape, dtype=object)
    for ix in np.ndindex(*a.shape):
        r = c.bor(*[c.eq(nd(a)[ix], u) for u in t]) if t else False
        out[ix] = cast(c.bnot(r) if invert else r, "b")
    return scal(_sa(out, "b"))


@fn("zeros_like")
def _zeros_like(a, dtype=None, order="K", subok=True, shape=None, **k):
    return full(_shape_of(a, shape), 0, dtype if dtype is not None else _dt(a))


@fn("ones_like")
def _ones_like(a, dtype=None, order="K", subok=True, shape=None, **k):
    return full(_shape_of(a, shape), 1, dtype if dtype is not None else _dt(a))


@fn("empty_like")
def _empty_like(a, dtype=None, order="K", subok=True, shape=None, **k):
    return full(_shape_of(a, shape), 0, dtype if dtype is not None else _dt(a))


@fn("full_like")
def _full_like(a, fill_value, dtype=None, order="K", subok=True, shape=None, **k):
    return full(_shape_of(a, shape), fill_value, dtype if dtype is not None else _dt(a))


def _dt(a):
    return REALDT[A(a)._kind]


def _shape_of(a, shape):
    return np.shape(nd(A(a))) if shape is None else shape


def full(shape, v, dtype=None):
    if isinstance(shape, SymArray):
        shape = tuple(int(x) for x in shape.reshape(-1))
    if isinstance(shape, (tuple, list)):
        shape = tuple(operator.index(unwrap0(x)) for x in shape)
    else:
        shape = operator.index(unwrap0(shape))
    k = kind_of_dtype(dtype)
    if k is None:
        raise Unsupported("array of dtype %r" % (dtype,))
    o = np.empty(shape, dtype=object)
    o.fill(cast(unwrap0(v), k)) if o.size else None
    return _sa(o, k)


@fn("ptp")
def _ptp(a, axis=None, out=None, keepdims=False):
    return F["max"](a, axis=axis) - F["min"](a, axis=axis)


@fn("percentile", "quantile", "nanpercentile")
def _pct(*a, **k):
    raise Unsupported("percentile of symbolic values")


@fn("bincount", "histogram")
def _hist(*a, **k):
    raise Unsupported("histogram of symbolic values")


@fn("copy")
def _copy(a, order="K", subok=False):
    return mk(a)


@fn("isscalar")
def _isscalar(x):
    return is_sym(x) or np.isscalar(x)


@fn("cross", "linalg.norm")
def _norm_(x, *a, **k):
    raise Unsupported("cross")


@fn("norm")
def _norm(x, ord=None, axis=None, keepdims=False):
    x = A(x)
    if ord not in (None, 2, "fro") or (ord == 2 and x.ndim != 1):
        if ord == 1 and x.ndim == 1:
            return F["sum"](np.absolute(x))
        raise Unsupported("norm ord")
    return ufunc_dispatch(np.sqrt, "__call__", (F["sum"](x * x, axis=axis, keepdims=keepdims),), {})


for _n in ("sum", "prod", "mean", "std", "var", "any", "all", "argmin", "argmax", "argsort", "round", "cumsum", "cumprod", "clip",
           "dot", "repeat", "take", "compress", "ptp", "searchsorted", "max", "min"):
    setattr(SymArray, _n, _method(_n))
