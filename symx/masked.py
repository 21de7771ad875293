"""numpy.ma.MaskedArray over symbolic data with a concrete mask (the operations the code under test uses)."""
import numpy as np

from . import core as c, arr
from .core import Unsupported
from .arr import A, mk, nd, SymArray


class SymMasked:
    __array_priority__ = 5000

    def __init__(self, data, mask):
        self._data = A(data)
        self._mask = np.broadcast_to(np.array(mask, dtype=bool), self._data.shape).copy()

    __class__ = property(lambda self: np.ma.MaskedArray)

    data = property(lambda self: self._data)
    mask = property(lambda self: self._mask)
    shape = property(lambda self: self._data.shape)
    ndim = property(lambda self: self._data.ndim)
    size = property(lambda self: self._data.size)
    dtype = property(lambda self: self._data.dtype)

    def filled(self, v=None):
        r = self._data.copy()
        r[self._mask] = np.nan if v is None else v
        return r

    def compressed(self):
        return self._data[~self._mask]

    def copy(self):
        return SymMasked(self._data.copy(), self._mask)

    def __deepcopy__(self, m):
        return self.copy()

    def __len__(self):
        return len(self._data)

    def ravel(self, *a):
        return SymMasked(self._data.ravel(), self._mask.ravel())

    flatten = ravel

    def astype(self, t):
        return SymMasked(self._data.astype(t), self._mask)

    def __getitem__(self, k):
        k = arr._norm_idx(k)
        d, m = self._data[k], self._mask[k]
        if np.ndim(m) == 0:
            return np.ma.masked if m else d
        return SymMasked(d, m)

    def __setitem__(self, k, v):
        self._data[k] = v
        self._mask[arr._norm_idx(k)] = False

    def _un(self, f):
        # ufuncs of numpy.ma keep the masked entries of the input
        r = f(self._data)
        o, m = nd(A(r)).copy(), self._mask
        if A(r)._kind == self._data._kind:
            o[m] = nd(self._data)[m]
        return SymMasked(arr._sa(o, A(r)._kind), m)

    def __invert__(self):
        return self._un(lambda d: ~d)

    def __neg__(self):
        return self._un(lambda d: -d)

    def _bin(self, o, f):
        om = o._mask if type(o) is SymMasked else np.ma.getmaskarray(o) if type(o) is np.ma.MaskedArray else False
        od = o._data if type(o) is SymMasked else o
        return SymMasked(f(self._data, od), self._mask | om)

    def __and__(self, o): return self._bin(o, lambda a, b: a & b)
    def __or__(self, o): return self._bin(o, lambda a, b: a | b)
    __rand__, __ror__ = __and__, __or__
    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __truediv__(self, o): return self._bin(o, lambda a, b: a / b)
    def __gt__(self, o): return self._bin(o, lambda a, b: a > b)
    def __lt__(self, o): return self._bin(o, lambda a, b: a < b)
    def __eq__(self, o): return self._bin(o, lambda a, b: a == b)

    def __bool__(self):
        raise ValueError("ambiguous")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("masked array attribute " + n)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if method != "__call__":
            raise Unsupported("masked ufunc " + method)
        if len(inputs) == 1:
            return self._un(lambda d: arr.ufunc_dispatch(ufunc, "__call__", (d,), {}))
        a, b = inputs
        f = lambda x, y: arr.ufunc_dispatch(ufunc, "__call__", (x, y), {})
        if type(a) is SymMasked:
            return a._bin(b, f)
        return b._bin(a, lambda x, y: f(y, x))

    def __array_function__(self, func, types, args, kwargs):
        n = func.__name__
        if n == "where" and len(args) == 1:
            return arr.F["where"](self._data)
        if n == "shape":
            return self.shape
        if n == "nonzero":
            return arr.F["nonzero"](self._data & ~A(self._mask))
        raise Unsupported("np.%s of a masked array" % n)


def unmask(x):
    """(data, mask) of anything array-like"""
    if type(x) is SymMasked:
        return x._data, x._mask
    if isinstance(x, np.ma.MaskedArray):
        return x.data, np.ma.getmaskarray(x)
    return x, None
