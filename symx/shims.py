"""Contracts for the compiled/library code the implementation calls.

Where a library routine is a linear map of the (symbolic) data for concrete geometry, the map itself is obtained from
the real installed routine; otherwise the routine's documented formula is written out.
"""
import functools
import math
import types
from fractions import Fraction

import numpy as np
import z3

from . import core as c, arr
from .core import Sym, SymB, E, Unsupported, is_sym, is_special, is_nan, unwrap0, nan
from .arr import SymArray, mk, real, has_sym, A, nd, _sa, scal, F


# ------------------------------------------------------------------ interpolation
SPLINE = {"zero": 0, "slinear": 1, "quadratic": 2, "cubic": 3}


@functools.lru_cache(maxsize=256)
def _real_weights(kind, x, xn, extrap):
    from scipy.interpolate import interp1d
    n = len(x)
    kw = dict(fill_value="extrapolate") if extrap else {}
    if not extrap:
        f = interp1d(np.array(x), np.eye(n), axis=0, kind=kind, bounds_error=False, fill_value=0.0)
    else:
        f = interp1d(np.array(x), np.eye(n), axis=0, kind=kind, **kw)
    w = f(np.array(xn))
    # rounding noise of the factorisation
    for v in (0.0, 1.0):
        w = np.where(np.abs(w - v) < 1e-14, v, w)
    return w


@functools.lru_cache(maxsize=64)
def _ppoly(k, x):
    from scipy.interpolate import make_interp_spline, PPoly
    n = len(x)
    s = make_interp_spline(np.array(x), np.eye(n), k=k)
    ps = [PPoly.from_spline((s.t, np.ascontiguousarray(s.c[:, j]), s.k)) for j in range(n)]
    return ps[0].x, np.stack([p.c for p in ps], axis=-1)  # (k+1, m, n)


class Interp1d:
    """scipy.interpolate.interp1d for one-dimensional y"""

    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=np.nan, assume_sorted=False):
        x, y = mk(x, "f"), mk(y, "f")
        if x.ndim != 1:
            raise ValueError("the x array must have exactly one dimension.")
        if y.ndim == 0:
            raise ValueError("the y array must have at least one dimension.")
        if y.ndim != 1:
            raise Unsupported("interp1d of multi-dimensional y")
        self.order = None
        if kind in SPLINE:
            self.order = SPLINE[kind]
            kind = "spline"
        elif isinstance(kind, (int, np.integer)) and not isinstance(kind, bool):
            self.order = int(kind)
            kind = "spline"
        elif kind not in ("linear", "nearest", "nearest-up", "previous", "next"):
            raise NotImplementedError("%s is unsupported: Use fitpack routines for other types." % kind)
        if len(x) != len(y):
            raise ValueError("x and y arrays must be equal in length along interpolation axis.")
        if not assume_sorted:
            p = arr.sorted_perm(list(nd(x)))
            x, y = x[p], y[p]
        self.kind, self.x, self.y = kind, x, y
        minval = (self.order + 1) if kind == "spline" else 1
        if kind == "spline" and self.order == 0:
            minval = 0
        if len(x) < minval:
            raise ValueError("x and y arrays must have at least %d entries" % minval)
        self.extrap = isinstance(fill_value, str) and fill_value == "extrapolate"
        self.bounds_error = (not self.extrap if bounds_error is None and fill_value is np.nan else bool(bounds_error)) \
            if not (bounds_error is None and is_nan(fill_value)) else True
        if bounds_error is None and not self.extrap and not is_nan(fill_value if not isinstance(fill_value, tuple) else 0.0):
            self.bounds_error = False
        if bounds_error is None and isinstance(fill_value, tuple):
            self.bounds_error = False
        self.fill = fill_value if isinstance(fill_value, tuple) else (fill_value, fill_value)
        if kind == "spline" and self.order >= 1:
            if has_sym(x):
                for a, b in zip(list(nd(x))[:-1], list(nd(x))[1:]):
                    if bool(c.eq(a, b)):
                        raise ValueError("Expect x to not have duplicates")
            elif len(set(real(x).tolist())) != len(x):
                raise ValueError("Expect x to not have duplicates")

    def __call__(self, xn):
        xn = mk(xn, "f")
        flat = list(nd(xn).reshape(-1))
        x0, x1 = nd(self.x)[0], nd(self.x)[-1]
        out = np.empty(len(flat), dtype=object)
        below = [False] * len(flat)
        above = [False] * len(flat)
        if not self.extrap:
            for n, v in enumerate(flat):
                below[n] = bool(c.lt(v, x0))
                above[n] = (not below[n]) and bool(c.lt(x1, v))
            if self.bounds_error and any(below):
                raise ValueError("A value in x_new is below the interpolation range's minimum value.")
            if self.bounds_error and any(above):
                raise ValueError("A value in x_new is above the interpolation range's maximum value.")
        self._wcache = None
        if not has_sym(self.x) and self.kind != "linear":
            conc = [n for n, v in enumerate(flat) if not is_sym(v) and not below[n] and not above[n]]
            if conc:
                k = self.order if self.kind == "spline" else self.kind
                W = _real_weights(k, tuple(real(self.x).tolist()), tuple(float(flat[n]) for n in conc), self.extrap)
                self._wcache = dict(zip(conc, W))
        for n, v in enumerate(flat):
            if below[n]:
                out[n] = arr.cast(unwrap0(self.fill[0]), "f")
            elif above[n]:
                out[n] = arr.cast(unwrap0(self.fill[1]), "f")
            else:
                out[n] = arr.cast(self._eval(n, v), "f")
        return _sa(out.reshape(xn.shape), "f")

    # -- one evaluation inside the range (or extrapolating)
    def _eval(self, n, v):
        xs, ys = list(nd(self.x)), list(nd(self.y))
        if self.kind == "spline" and any(is_nan(y) for y in ys) and self.order >= 1:
            return np.float64(nan)
        if self._wcache is not None and n in self._wcache:
            w = self._wcache[n]
            if any(np.isnan(w)):
                return np.float64(nan)
            return arr.sum_list([c.mul(np.float64(a), y) if a != 1.0 else y for a, y in zip(w, ys) if a != 0.0] or [np.float64(0.0)])
        if self.kind == "linear":
            return linear_at(v, xs, ys)
        if is_nan(v):
            if self.kind == "spline":
                return np.float64(nan)
            raise Unsupported("nearest-type interpolation at NaN")
        m = len(xs)
        if self.kind in ("nearest", "nearest-up"):
            for i in range(m - 1):
                mid = c.div(c.add(xs[i], xs[i + 1]), 2.0)
                if bool(c.le(v, mid) if self.kind == "nearest" else c.lt(v, mid)):
                    return ys[i]
            return ys[-1]
        if self.kind == "previous" or (self.kind == "spline" and self.order == 0):
            for i in range(m - 1):
                if bool(c.lt(v, xs[i + 1])):
                    return ys[i]
            return ys[-1]
        if self.kind == "next":
            for i in range(m):
                if bool(c.le(v, xs[i])):
                    return ys[i]
            return ys[-1]
        # spline at a symbolic position or with symbolic knots
        if self.order == 1:
            return linear_at(v, xs, ys)
        if has_sym(self.x):
            if m == self.order + 1:
                return lagrange_at(v, xs, ys)
            raise Unsupported("spline through symbolic knots")
        bx, bc = _ppoly(self.order, tuple(real(self.x).tolist()))
        piece = len(bx) - 2
        # skip zero-length pieces
        pieces = [i for i in range(len(bx) - 1) if bx[i + 1] > bx[i]]
        piece = pieces[-1]
        for i in pieces[:-1]:
            if bool(c.lt(v, np.float64(bx[i + 1]))):
                piece = i
                break
        d = c.sub(v, np.float64(bx[piece]))
        acc = None
        for r in range(bc.shape[0]):
            coef = arr.sum_list([c.mul(np.float64(a), y) for a, y in zip(bc[r, piece], ys) if a != 0.0] or [np.float64(0.0)])
            acc = coef if acc is None else c.add(c.mul(acc, d), coef)
        return acc


def linear_at(v, xs, ys):
    """np.interp inside the range: the node value at a node, the chord elsewhere"""
    if is_nan(v):
        return np.float64(nan)
    m = len(xs)
    if m == 1:
        return ys[0]
    for i in range(m - 1):
        if i == m - 2 or bool(c.lt(v, xs[i + 1])):
            if bool(c.eq(v, xs[i])):
                return ys[i]
            if i == m - 2 and bool(c.eq(v, xs[m - 1])):
                return ys[m - 1]
            t = c.div(c.sub(ys[i + 1], ys[i]), c.sub(xs[i + 1], xs[i])) if not _same(ys[i + 1], ys[i]) else 0.0
            return c.add(c.mul(t, c.sub(v, xs[i])), ys[i])
    return ys[-1]


def _same(a, b):
    return a is b


def lagrange_at(v, xs, ys):
    tot = []
    for i in range(len(xs)):
        t = ys[i]
        for j in range(len(xs)):
            if j != i:
                t = c.mul(t, c.div(c.sub(v, xs[j]), c.sub(xs[i], xs[j])))
        tot.append(t)
    return arr.sum_list(tot)


def np_interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported("np.interp period")
    xs, ys = list(nd(mk(xp, "f"))), list(nd(mk(fp, "f")))
    x = mk(x, "f")
    out = np.empty(x.shape, dtype=object)
    for ix in np.ndindex(*x.shape):
        v = nd(x)[ix]
        if bool(c.lt(v, xs[0])):
            out[ix] = ys[0] if left is None else np.float64(left)
        elif bool(c.lt(xs[-1], v)):
            out[ix] = ys[-1] if right is None else np.float64(right)
        else:
            out[ix] = linear_at(v, xs, ys)
    return scal(_sa(out, "f"))


class CubicSpline(Interp1d):
    def __init__(self, x, y, axis=0, bc_type="not-a-knot", extrapolate=None):
        if bc_type != "not-a-knot":
            raise Unsupported("CubicSpline bc_type")
        if len(x) < 4:
            raise Unsupported("CubicSpline with fewer than 4 points")
        super().__init__(x, y, kind="cubic", assume_sorted=True, fill_value="extrapolate", bounds_error=False)


def make_interp_spline(x, y, k=3, **kw):
    if kw:
        raise Unsupported("make_interp_spline options")
    return Interp1d(x, y, kind=k, assume_sorted=True, fill_value="extrapolate", bounds_error=False)


def InterpolatedUnivariateSpline(x, y, w=None, bbox=(None, None), k=3, ext=0, check_finite=False):
    if ext not in (0, "extrapolate"):
        raise Unsupported("spline ext mode")
    return Interp1d(x, y, kind=k, assume_sorted=True, fill_value="extrapolate", bounds_error=False)


# ------------------------------------------------------------------ scipy.special / math
def special_fn(name):
    import scipy.special as sp
    uf = getattr(sp, name)

    def f(*a, **k):
        return arr.ufunc_dispatch(uf, "__call__", a, k)
    f.__name__ = name
    return f


def math_fn(name):
    m = getattr(math, name)
    ops = {"sqrt": c.sqrt, "fabs": c.absv, "floor": lambda x: c.toint(c.floor(x)), "ceil": lambda x: c.toint(c.ceil(x)),
           "trunc": c.trunc, "pow": c.power, "hypot": lambda *a: c.sqrt(arr.sum_list([c.mul(x, x) for x in a])),
           "isnan": is_nan, "isinf": lambda x: is_special(x) and not is_nan(x), "isfinite": lambda x: not is_special(x),
           "radians": lambda x: c.mul(x, math.pi / 180), "degrees": lambda x: c.mul(x, 180 / math.pi), "copysign": arr._copysign,
           "fsum": lambda x: arr.sum_list(list(x))}

    def f(*a):
        a = [unwrap0(x) for x in a]
        if not any(is_sym(x) or isinstance(x, (list, tuple, SymArray)) and has_sym(x) for x in a):
            return m(*a)
        if name in ops:
            if name == "sqrt" and bool(c.lt(a[0], 0)):
                raise ValueError("math domain error")
            return ops[name](*a)
        if name in ("exp", "log", "log10", "log2", "sin", "cos"):
            from . import uf
            if name.startswith("log") and bool(c.le(a[0], 0)):
                raise ValueError("math domain error")
            r = uf.apply(name, a[0])
            if name == "log" and len(a) > 1:
                return c.div(r, uf.apply("log", a[1]))
            return r
        if name == "isclose":
            return F["isclose"](*a)
        raise Unsupported("math.%s of a symbolic value" % name)
    f.__name__ = name
    return f


def convolve(in1, in2, mode="full", method="auto"):
    a, b = mk(in1, "f"), mk(in2, "f")
    if a.ndim != b.ndim:
        raise ValueError("in1 and in2 should have the same dimensionality")
    if a.ndim not in (1, 2):
        raise Unsupported("convolve dimension")
    sw = False
    if mode == "valid":
        if all(x >= y for x, y in zip(a.shape, b.shape)):
            pass
        elif all(y >= x for x, y in zip(a.shape, b.shape)):
            a, b = b, a
        else:
            raise ValueError("For 'valid' mode, one must be at least as large as the other in every dimension")
    fs = [x + y - 1 for x, y in zip(a.shape, b.shape)]
    ao, bo = nd(a), nd(b)
    terms = {}
    for ia in np.ndindex(*a.shape):
        for ib in np.ndindex(*b.shape):
            bv = bo[ib]
            if not is_sym(bv) and bv == 0:
                av = ao[ia]
                if not is_special(av):
                    continue
            terms.setdefault(tuple(p + q_ for p, q_ in zip(ia, ib)), []).append(c.mul(ao[ia], bv))
    out = np.empty(fs, dtype=object)
    for ix in np.ndindex(*fs):
        out[ix] = arr.cast(arr.sum_list(terms.get(ix, [np.float64(0.0)])), "f")
    if mode == "full":
        return _sa(out, "f")
    want = a.shape if mode == "same" else [x - y + 1 for x, y in zip(a.shape, b.shape)]
    if mode not in ("same", "valid"):
        raise ValueError("acceptable mode flags are 'valid', 'same', or 'full'")
    st = [(f - w) // 2 for f, w in zip(fs, want)]
    return _sa(out[tuple(slice(s, s + w) for s, w in zip(st, want))].copy(), "f")


def fftconvolve(in1, in2, mode="full", axes=None):
    return convolve(in1, in2, mode)


def ndrotate(input, angle, axes=(1, 0), reshape=True, output=None, order=3, mode="constant", cval=0.0, prefilter=True):
    from scipy.ndimage import rotate
    angle = unwrap0(angle)
    if is_sym(angle):
        raise Unsupported("rotation by a symbolic angle")
    kw = dict(axes=axes, reshape=reshape, order=order, mode=mode, cval=cval, prefilter=prefilter)
    if not has_sym(mk(input)):
        return mk(rotate(np.asarray(real(mk(input))), float(angle), output=output, **kw))
    if output is not None and np.dtype(output).kind != "f":
        raise Unsupported("rotation into %r" % (output,))
    if output is None and mk(input).kind != "f":
        raise Unsupported("rotation of symbolic integers")
    a = mk(input, "f")
    flat = list(nd(a).reshape(-1))
    acc = None
    for n, v in enumerate(flat):
        e = np.zeros(a.size)
        e[n] = 1.0
        w = rotate(e.reshape(a.shape), float(angle), **dict(kw, cval=0.0))
        if acc is None:
            acc = [[] for _ in range(w.size)]
            shp = w.shape
        for k, wv in enumerate(w.reshape(-1)):
            if wv != 0:
                acc[k].append(c.mul(np.float64(wv), v))
    if cval != 0.0:
        raise Unsupported("rotate cval")
    o = np.empty(len(acc), dtype=object)
    for k, t in enumerate(acc):
        o[k] = arr.cast(arr.sum_list(t or [np.float64(0)]), "f")
    return _sa(o.reshape(shp), "f")


def block_reduce(data, block_size, func=None):
    a = A(data)
    bs = np.atleast_1d(np.asarray(arr._norm_idx(block_size) if isinstance(block_size, (Sym, SymArray)) else block_size))
    if np.any(bs <= 0):
        raise ValueError("block_size elements must be strictly positive")
    if bs.size > 1 and len(bs) != a.ndim:
        raise ValueError("block_size must be a scalar or have the same length as the number of data dimensions")
    if len(bs) == 1:
        bs = np.repeat(bs, a.ndim)
    if np.any(bs != bs.astype(int)):
        raise ValueError("block_size elements must be integers")
    bs = bs.astype(int)
    o = nd(a)
    n = [s // int(b) for s, b in zip(a.shape, bs)]
    o = o[tuple(slice(0, k * int(b)) for k, b in zip(n, bs))]
    shp = []
    for k, b in zip(n, bs):
        shp += [k, int(b)]
    o = o.reshape(shp)
    ax = tuple(range(1, 2 * a.ndim, 2))
    if func is None or getattr(func, "__name__", "") == "sum":
        r = arr.reduce("add", _sa(o, a._kind), axis=ax)
    else:
        r = func(_sa(o, a._kind), axis=ax)
    return r if isinstance(r, np.ndarray) else A(r)


# ------------------------------------------------------------------ cutouts
class Cutout2D:
    """astropy Cutout2D: the real one run on pixel numbers, then gathered."""

    def __init__(self, data, position, size, wcs=None, mode="trim", fill_value=np.nan, copy=False, **k):
        from astropy.nddata import Cutout2D as RC
        if isinstance(data, memoryview):
            raise Unsupported("memoryview image")
        a = data if isinstance(data, SymArray) else A(getattr(data, "data", data))
        pos = [unwrap0(p) for p in position] if isinstance(position, (tuple, list, np.ndarray)) else position
        pos = [c.concretize_int(p) if isinstance(p, Sym) and p.kind == "i" else p for p in pos]
        if any(is_sym(p) for p in pos):
            raise Unsupported("cutout at a symbolic position")
        size = real(size) if isinstance(size, SymArray) else size
        if is_sym(size) and size.kind == "i":
            size = c.concretize_int(size)
        idx = np.arange(a.size, dtype=float).reshape(a.shape)
        self._r = r = RC(idx, tuple(pos), size, mode=mode, fill_value=-1.0, copy=False)
        ids = r.data.astype(int)
        if (ids >= 0).all() and not copy:
            # the real class returns a view here
            self.data = a[r.slices_original]
        else:
            if not isinstance(fill_value, (float, int)) and not is_sym(fill_value):
                raise Unsupported("fill value")
            if a._kind == "i" and is_special(fill_value):
                raise ValueError("fill_value is inconsistent with the data type of the input array")
            o = np.empty(ids.shape, dtype=object)
            fl = nd(a).reshape(-1)
            for ix in np.ndindex(*ids.shape):
                o[ix] = fl[ids[ix]] if ids[ix] >= 0 else arr.cast(fill_value, a._kind)
            self.data = _sa(o, a._kind)
        self.wcs = wcs
        self.shape = self.data.shape

    def __getattr__(self, n):
        if n == "_r":
            raise AttributeError(n)
        return getattr(self._r, n)


# ------------------------------------------------------------------ apertures
class _Ap:
    names = ()
    nonneg = False     # symbolic weights are assumed not to be negative

    def __init__(self, positions, *a, **k):
        vals = dict(zip(self.names, a))
        vals.update(k)
        theta = vals.pop("theta", 0.0)
        self.positions = positions
        self.theta = unwrap0(theta)
        for n in self.names:
            v = vals.get(n)
            setattr(self, n, unwrap0(v) if v is not None else None)
        self._validate()

    def _validate(self):
        for n in self.names:
            v = getattr(self, n)
            if v is None:
                continue
            if is_nan(v) or bool(c.le(v, 0)):
                raise ValueError("%r must be a positive scalar" % n)

    def _real(self):
        from photutils import aperture as pa
        R = getattr(pa, type(self).__name__)
        vals = {}
        for n in self.names:
            v = getattr(self, n)
            if is_sym(v):
                raise Unsupported("aperture of symbolic size")
            if v is not None:
                vals[n] = float(v)
        pos = [unwrap0(p) for p in (real(self.positions) if isinstance(self.positions, SymArray) and not has_sym(self.positions) else self.positions)]
        if any(is_sym(p) for p in pos) or is_sym(self.theta):
            raise Unsupported("aperture at symbolic geometry")
        pos = tuple(float(p) for p in pos)
        if "Elliptical" in type(self).__name__:
            return R(pos, theta=float(self.theta), **vals)
        return R(pos, **vals)

    def weights(self, shape, method="exact", subpixels=5):
        m = self._real().to_mask(method=method, subpixels=subpixels)
        w = m.to_image(shape)
        return w

    def plot(self, *a, **k):
        return None

    @property
    def area(self):
        return self._real().area

    def do_photometry(self, data, error=None, mask=None, method="exact", subpixels=5):
        """sum of weights x data over unmasked pixels; error in quadrature"""
        d = A(data)
        if d.ndim != 2:
            raise ValueError("data must be a 2D array.")
        e = None
        if error is not None:
            e = A(error)
            if e.shape != d.shape:
                raise ValueError("error and data must have the same shape.")
        w = self.weights(d.shape, method, subpixels)
        if w is None:
            return mk([nan], "f"), (mk([nan], "f") if e is not None else mk(np.zeros(0)))
        w = A(w)
        m = None
        if mask is not None:
            m = A(mask)
            if m.shape != d.shape:
                raise ValueError("mask and data must have the same shape")
        ts, te = [], []
        for ix in np.ndindex(*d.shape):
            wv = nd(w)[ix]
            if not is_sym(wv) and wv <= 0:
                continue
            mv = nd(m)[ix] if m is not None else False
            if is_sym(wv) and not self.nonneg and not bool(c.lt(0, wv)):
                continue
            if is_sym(mv):
                if is_special(nd(d)[ix]) or (e is not None and is_special(nd(e)[ix])):
                    mv = bool(mv)
                else:
                    ts.append(c.ite(mv, 0.0, c.mul(wv, nd(d)[ix])))
                    if e is not None:
                        te.append(c.ite(mv, 0.0, c.mul(wv, c.power(nd(e)[ix], 2))))
                    continue
            if bool(mv):
                continue
            ts.append(c.mul(wv, nd(d)[ix]))
            if e is not None:
                te.append(c.mul(wv, c.power(nd(e)[ix], 2)))
        s = mk([arr.sum_list(ts or [np.float64(0.0)])], "f")
        if e is None:
            return s, mk(np.zeros(0))
        return s, mk([c.sqrt(arr.sum_list(te or [np.float64(0.0)]))], "f")

    def to_mask(self, method="exact", subpixels=5):
        return self._real().to_mask(method=method, subpixels=subpixels)


class EllipticalAperture(_Ap):
    names = ("a", "b")

    def __init__(self, positions, a, b, theta=0.0):
        super().__init__(positions, a=a, b=b, theta=theta)


class EllipticalAnnulus(_Ap):
    names = ("a_in", "a_out", "b_out", "b_in")

    def __init__(self, positions, a_in, a_out, b_out, b_in=None, theta=0.0):
        super().__init__(positions, a_in=a_in, a_out=a_out, b_out=b_out, b_in=b_in, theta=theta)
        if not bool(c.lt(self.a_in, self.a_out)):
            raise ValueError('"a_out" must be greater than "a_in".')
        if self.b_in is None:
            self.b_in = c.div(c.mul(self.b_out, self.a_in), self.a_out)
        elif not bool(c.lt(self.b_in, self.b_out)):
            raise ValueError('"b_out" must be greater than "b_in".')


class CircularAperture(_Ap):
    names = ("r",)

    def __init__(self, positions, r):
        super().__init__(positions, r=r)

    @property
    def a(self):
        return self.r

    b = a


class CircularAnnulus(_Ap):
    names = ("r_in", "r_out")

    def __init__(self, positions, r_in, r_out):
        super().__init__(positions, r_in=r_in, r_out=r_out)


def aperture_photometry(data, apertures, error=None, mask=None, method="exact", subpixels=5, wcs=None):
    aps = apertures if isinstance(apertures, (list, tuple)) else [apertures]
    out = {}
    for n, ap in enumerate(aps):
        s, e = ap.do_photometry(data, error, mask, method, subpixels)
        suf = "" if not isinstance(apertures, (list, tuple)) else "_%d" % n
        out["aperture_sum" + suf] = s
        if error is not None:
            out["aperture_sum_err" + suf] = e
    return out


# ------------------------------------------------------------------ library functions run from their own source
def from_source(modname, names, extra):
    """functions of a pure-Python library module with replaced globals"""
    import importlib
    import types as _t
    mod = importlib.import_module(modname)
    g = dict(vars(mod))
    g.update(extra)
    for n in names:
        f = getattr(mod, n)
        f = getattr(f, "__wrapped__", f)
        h = _t.FunctionType(f.__code__, g, f.__name__, f.__defaults__, f.__closure__)
        h.__kwdefaults__ = f.__kwdefaults__
        g[n] = h
    return g


class _CallModel:
    """astropy.modeling.custom_model of a two-argument callable"""
    n_inputs = 2

    def __init__(self, f):
        self.f = f

    def __call__(self, x, y):
        return self.f(x, y)


def discretize_model(model, x_range, y_range=None, mode="center", factor=10):
    from . import npx, arr as _arr
    names = ["discretize_model", "discretize_center_2D", "discretize_bilinear_2D", "discretize_oversample_2D"]
    import builtins as _b
    from .loader import float_, int_
    extra = dict(np=npx.NumpyProxy(np), custom_model=lambda f: (lambda: f if hasattr(f, "n_inputs") else _CallModel(f)), int=int_, float=float_)
    g = from_source("astropy.convolution.utils", names, extra)
    return g["discretize_model"](model, x_range, y_range, mode, factor)


class FittedLinear:
    """a linear 2-D astropy model with symbolic parameters"""
    n_inputs = 2

    def __init__(self, model, params):
        self._m, self.parameters, self.param_names = model, params, model.param_names
        for n, v in zip(model.param_names, params):
            setattr(self, n, _Par(v))

    def evaluate(self, x, y, *params):
        return type(self._m).evaluate(x, y, *(params or self.parameters))

    def __call__(self, x, y):
        return self.evaluate(x, y)


class _Par:
    def __init__(self, v):
        self.value = v


@functools.lru_cache(maxsize=64)
def _linear_weights(cls, x, y):
    """parameters of the real LinearLSQFitter as linear functions of the data"""
    import warnings
    from astropy.modeling.fitting import LinearLSQFitter as R
    cols = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for i in range(len(x)):
            z = np.zeros(len(x))
            z[i] = 1.0
            cols.append(R()(cls(), np.array(x), np.array(y), z).parameters)
    w = np.array(cols).T
    return np.where(np.abs(w) < 1e-15, 0.0, w)


def linear_fit(model, x, y, z):
    """LinearLSQFitter: masked entries are ignored"""
    from .masked import unmask
    d, m = unmask(z)
    d = [unwrap0(v) for v in nd(A(d)).reshape(-1)]
    xs, ys = [float(unwrap0(v)) for v in nd(A(x)).reshape(-1)], [float(unwrap0(v)) for v in nd(A(y)).reshape(-1)]
    keep = [i for i in range(len(d)) if m is None or not np.ravel(m)[i]]
    if any(is_special(d[i]) for i in keep):
        raise Unsupported("fitting non-finite values")
    w = _linear_weights(type(model), tuple(xs[i] for i in keep), tuple(ys[i] for i in keep))
    return FittedLinear(model, [arr.sum_list([c.mul(float(a), d[i]) for a, i in zip(row, keep)] or [np.float64(0.0)]) for row in w])


# ------------------------------------------------------------------ quantities
class SymQuantity:
    """astropy Quantity with a symbolic value"""
    __array_ufunc__ = None
    __array_priority__ = 1e6

    def __init__(self, value, unit):
        import astropy.units as u
        self.value, self.unit = value, u.Unit(unit)

    @staticmethod
    def _parts(o):
        import astropy.units as u
        if isinstance(o, (SymQuantity, u.Quantity)):
            return o.value, o.unit
        if isinstance(o, u.UnitBase):
            return 1.0, o
        if c.ok(o):
            return o, u.dimensionless_unscaled
        return None

    def __mul__(self, o):
        p = self._parts(o)
        return NotImplemented if p is None else SymQuantity(c.mul(self.value, p[0]), self.unit * p[1])

    __rmul__ = __mul__

    def __truediv__(self, o):
        p = self._parts(o)
        return NotImplemented if p is None else SymQuantity(c.div(self.value, p[0]), self.unit / p[1])

    def __rtruediv__(self, o):
        p = self._parts(o)
        return NotImplemented if p is None else SymQuantity(c.div(p[0], self.value), p[1] / self.unit)

    def to(self, unit, *a, **k):
        import astropy.units as u
        unit = u.Unit(unit)
        return SymQuantity(c.mul(self.value, float(self.unit.to(unit))), unit)

    def to_value(self, unit=None, *a):
        return self.value if unit is None else self.to(unit).value

    def decompose(self):
        u = self.unit.decompose()
        return SymQuantity(c.mul(self.value, float(u.scale)), u / u.scale)

    @property
    def shape(self):
        return ()

    isscalar = True

    def __add__(self, o):
        return SymQuantity(c.add(self.value, self._to(o)), self.unit)

    __radd__ = __add__

    def __sub__(self, o):
        return SymQuantity(c.sub(self.value, self._to(o)), self.unit)

    def _to(self, o):
        v, u = self._parts(o)
        return c.mul(v, float(u.to(self.unit)))


# ------------------------------------------------------------------ plotting
class _Nop:
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return self

    def __call__(self, *a, **k):
        return self

    def __iter__(self):
        return iter((self, self))

    def __getitem__(self, k):
        return self


NOP = _Nop()
