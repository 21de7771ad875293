"""What plots show (C37) and what the fit display and width measurement report (C38)."""
import contextlib
import io
import math
from fractions import Fraction

import numpy as np

from symx import core as c, arr
from symx.harness import Prop, prop

from .petrosian import Obj, RADII, START, MEASURES
from .modeling import recording, conc
from .photometry import _Holder

nan = float("nan")


class Axes:
    """records what is drawn on it"""

    def __init__(self, log, name):
        self.__dict__.update(log=log, name=name)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n == "figure":
            return Axes(self.log, self.name + ".figure")
        if n in ("ax", "xaxis", "yaxis", "axes"):
            return self

        def call(*a, **k):
            self.log.append((self.name, n, a, k))
            return Axes(self.log, "%s.%s()" % (self.name, n))
        return call

    def __iter__(self):
        return iter([self])


class Pyplot:
    """stand-in for matplotlib.pyplot: every drawing call is recorded with the axes it went to"""

    def __init__(self):
        self.log = []
        self.made = 0
        self.cur = Axes(self.log, "default")

    def gca(self, *a, **k):
        return self.cur

    def sca(self, ax):
        self.cur = ax

    def gcf(self):
        return Axes(self.log, "figure")

    def figure(self, *a, **k):
        self.made += 1
        return Axes(self.log, "figure%d" % self.made)

    def subplots(self, nrows=1, ncols=1, **k):
        self.made += 1
        ax = np.empty((nrows, ncols), dtype=object)
        for i in range(nrows):
            for j in range(ncols):
                ax[i, j] = Axes(self.log, "axes%d.%d.%d" % (self.made, i, j))
        self.cur = ax[-1, -1]
        fig = Axes(self.log, "figure%d" % self.made)
        if nrows == ncols == 1:
            return fig, ax[0, 0]
        return fig, (ax[0] if nrows == 1 else ax[:, 0] if ncols == 1 else ax)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n in ("show", "draw", "close", "tight_layout", "savefig"):
            return lambda *a, **k: None
        if n in ("cm", "rcParams"):
            return Axes([], n)
        return getattr(self.cur, {"title": "set_title", "xlabel": "set_xlabel", "ylabel": "set_ylabel", "xlim": "set_xlim", "ylim": "set_ylim"}.get(n, n))

    def named(self, *names):
        return [e for e in self.log if e[1] in names]


def aperture_class(log):
    class EllipticalAperture:
        def __init__(self, positions, a, b, theta=0.0):
            self.positions, self.a, self.b, self.theta = positions, a, b, theta

        def plot(self, *args, **k):
            log.append(("aperture", "aperture", (self,), k))
    return EllipticalAperture


class Plots(Obj):
    def over(self, ctx, cfg):
        ctx.plt = Pyplot()
        if cfg["what"] == "target":
            return {"matplotlib.pyplot": ctx.plt, "astropy.nddata.CCDData": CCD, "astropy.nddata.Cutout2D": Cutout}
        return {"matplotlib.pyplot": ctx.plt, "photutils.aperture.EllipticalAperture": aperture_class(ctx.plt.log)}


def arg(e, k, names):
    """k-th positional argument of a recorded call, or the keyword with one of the names"""
    if len(e[2]) > k:
        return e[2][k]
    for n in names:
        if n in e[3]:
            return e[3][n]
    return None


def one(v):
    """a number drawn on its own, also when given as a sequence of one"""
    v = c.unwrap0(v)
    if np.ndim(v) == 0:
        return v
    f = list(np.asarray(arr.nd(v), dtype=object).ravel()) if not isinstance(v, (list, tuple)) else list(v)
    return c.unwrap0(f[0]) if len(f) == 1 else None


def points(P):
    """(x, y, xerr, yerr) of the single points drawn"""
    out = []
    for e in P.named("scatter", "errorbar", "plot"):
        x, y = one(arg(e, 0, ("x",))), one(arg(e, 1, ("y",)))
        if x is not None and y is not None:
            xe, ye = (arg(e, 3, ("xerr",)), arg(e, 2, ("yerr",))) if e[1] == "errorbar" else (None, None)
            out.append((x, y, None if xe is None else one(xe), None if ye is None else one(ye)))
    return out


def lines(P, fn, names):
    """positions of the full lines drawn"""
    out = [one(arg(e, 0, names)) for e in P.named(fn)]
    return out + [one(arg(e, 0, names)) for e in P.named({"axvline": "vlines", "axhline": "hlines"}[fn])]


def limits(e):
    """the pair of limits of a set_xlim or set_ylim call"""
    a = list(e[2])
    if len(a) == 1 and np.ndim(c.unwrap0(a[0])) == 1:
        a = list(a[0])
    a += [None] * (2 - len(a))
    lo = a[0] if a[0] is not None else e[3].get("left", e[3].get("bottom", e[3].get("xmin", e[3].get("ymin"))))
    hi = a[1] if a[1] is not None else e[3].get("right", e[3].get("top", e[3].get("xmax", e[3].get("ymax"))))
    return c.unwrap0(lo), c.unwrap0(hi)


@prop
class C37(Plots):
    id = "C37"
    strict = False
    bounds = "profiles of 4 samples on concrete curves with symbolic eta, epsilon or fractions (radii defined and undefined), with flux errors, area errors, both or neither; linear and no interpolation; plots on the current axes and on given axes"
    outside = "colours, labels, limits and everything matplotlib does with what it is given"
    assumptions = ("matplotlib is replaced by a recorder of the calls it receives",)

    def configs(self, tier):
        out = []
        for what in ("plot", "plot_cog", "imshow"):
            for kind in (("linear", None) if tier == "quick" else ("linear", "cubic", "nearest", None)):
                for errs in (None, "conc", "area", "both"):
                    for sym in (["epsilon"], ["eta"], ["total_flux_fraction"]):
                        if tier == "quick" and errs in ("area", "both") and sym != ["eta"]:
                            continue
                        if what == "plot" and sym == ["total_flux_fraction"]:
                            continue
                        out.append(dict(n=4, radii=RADII[4][0], kind=kind, num=4, errs="conc" if errs in ("conc", "both") else None, area=errs in ("area", "both"), curve=0, what=what, sym=sym,
                                        given=(len(out) % 2 == 0)))
        for sh in ([3, 4], [4, 3]):
            for form in ("array", "ccd", "cutout"):
                for size in (None, "int"):
                    out.append(dict(what="target", shape=sh, form=form, size=size))
        return out

    def target(self, ctx, cfg):
        ny, nx = cfg["shape"]
        I = [[ctx.real("i%d_%d" % (j, i), -64, 64) for i in range(nx)] for j in range(ny)]
        image = ctx.array(I)
        held = {"array": lambda v: v, "ccd": CCD, "cutout": Cutout}[cfg["form"]](image)
        x, y = ctx.real("x", -8, 8), ctx.real("y", -8, 8)
        kw = {} if cfg["size"] is None else dict(size=ctx.int("size", 1, 64))
        o = ctx.call(ctx.impl.utils.plot_target, held, (x, y), **kw)
        if not ctx.check_call("drawing", o):
            return
        P = ctx.plt
        shows = P.named("imshow")
        if ctx.check("the image is drawn once", len(shows) == 1):
            im = shows[0][2][0]
            if ctx.check("the image's pixels are drawn", isinstance(im, np.ndarray) and ctx.shape(im) == (ny, nx), type(im).__name__):
                ctx.check_eq_arr("pixel", ctx.flat(im), sum(I, []))
        marks = points(P)
        if ctx.check("one mark", len(marks) == 1):
            for n, i, v in (("x", 0, x), ("y", 1, y)):
                ctx.check_eq("mark " + n, marks[0][i], v)
        size = kw.get("size", max(ny, nx))
        for n, v in (("set_xlim", x), ("set_ylim", y)):
            e = P.named(n)
            if ctx.check(n + " once", len(e) == 1):
                lo, hi = limits(e[0])
                if ctx.check(n + " both ends", lo is not None and hi is not None):
                    ctx.check_eq(n + " low", lo, v - size / 2)
                    ctx.check_eq(n + " high", hi, v + size / 2)
        ctx.check_eq_arr("the image is left as it was", ctx.flat(image), sum(I, []))

    def run(self, ctx, cfg):
        if cfg["what"] == "target":
            return self.target(ctx, cfg)
        d = self.data(ctx, cfg)
        r, a, fl, fe = d
        lim = dict(eta=(0.0625, 0.9375), epsilon=(0.5, 4), total_flux_fraction=(0.25, 1))
        S = dict(START)
        for k in cfg["sym"]:
            S[k] = ctx.real(k, *lim[k])
        if cfg["area"]:
            S["area_err"] = ctx.array([0.125, 0.25, 0.5, 0.25])
        p = self.make(ctx, cfg, d, **S)
        M = {m: getattr(p, m) for m in ("r_petrosian", "r_petrosian_err", "r_half_light", "r_total_flux", "half_flux", "total_flux")}
        r20, r80 = p.fraction_flux_to_r(0.2), p.fraction_flux_to_r(0.8)
        ctx.observe("measures", [M[m] for m in sorted(M)] + [r20, r80])
        P = ctx.plt
        del P.log[:]
        if cfg["what"] == "imshow":
            o = ctx.call(p.imshow, (3.0, 5.0), elong=2.0, theta=0.5)
            if ctx.check_call("drawing", o):
                self.apertures(ctx, P, [M["r_half_light"], M["r_total_flux"], r20, r80])
            return
        kw = {}
        ax = P.cur
        if cfg["given"]:
            ax = kw["ax"] = Axes(P.log, "given")
        o = ctx.call(getattr(p, cfg["what"]), **kw)
        if not ctx.check_call("drawing", o):
            return
        ctx.check("everything is drawn on the axes asked for", all(e[0].split(".")[0] == ax.name for e in P.log), str(sorted({e[0] for e in P.log})))
        ctx.check("the axes are returned", o.value is ax)
        ys, es = (p.petrosian_list, p.petrosian_err) if cfg["what"] == "plot" else (p.flux_list, p.flux_err)
        self.curve(ctx, P, r, ctx.flat(ys), None if es is None else ctx.flat(es))
        drawn = lines(P, "axvline", ("x",))
        if cfg["what"] == "plot":
            marks = [(M["r_petrosian"], S["eta"])]
        else:
            marks = [(M["r_half_light"], M["half_flux"]), (M["r_total_flux"], M["total_flux"])]
        marks = [m for m in marks if not ctx.isnan(m[0]) and not ctx.isnan(m[1])]
        pts = points(P)
        if ctx.check("one line per defined radius", len(drawn) == len(marks), "%d lines, %d radii" % (len(drawn), len(marks))):
            for i, (x, y) in enumerate(marks):
                ctx.check("a line at radius %d" % i, ctx.Or(*[self.close(ctx, v, x) for v in drawn]))
                ctx.check("a point at radius %d" % i, ctx.Or(*[ctx.And(self.close(ctx, q[0], x), self.close(ctx, q[1], y)) for q in pts]) if pts else False)
        if cfg["what"] == "plot":
            bars = [q[2] for q in pts if q[2] is not None]
            if marks and not ctx.isnan(M["r_petrosian_err"]):
                if ctx.check("the error of the radius is drawn", len(bars) == 1):
                    ctx.check_eq("error of the radius", bars[0], M["r_petrosian_err"])
            else:
                ctx.check("no undefined error is drawn", not bars)

    def close(self, ctx, u, v):
        u, v = c.unwrap0(u), c.unwrap0(v)
        if ctx.isnan(u) or ctx.isnan(v):
            return False
        return ctx.abs(u - v) <= 1e-9 * 64

    def curve(self, ctx, P, r, ys, es):
        """some call draws the samples; if there are errors it carries them"""
        found = [e for e in P.named("errorbar", "plot", "scatter") if one(arg(e, 0, ("x",))) is None]
        if not ctx.check("the samples are drawn", len(found) >= 1, "%d" % len(found)):
            return
        errs = []
        for e in found:
            ctx.check_eq_arr("radii drawn", ctx.flat(arg(e, 0, ("x",))), r)
            ctx.check_eq_arr("values drawn", ctx.flat(arg(e, 1, ("y",))), ys)
            yerr = arg(e, 2, ("yerr",)) if e[1] == "errorbar" else None
            if yerr is not None:
                errs.append(yerr)
        bands = P.named("fill_between")
        if es is None:
            ctx.check("no errors drawn", not errs and not bands)
            return
        if ctx.check("errors drawn", len(errs) >= 1):
            for v in errs:
                ctx.check_eq_arr("errors drawn", ctx.flat(v), es)
        for b in bands:
            ctx.check_eq_arr("band radii", ctx.flat(arg(b, 0, ("x",))), r)
            lo, hi = ctx.flat(arg(b, 1, ("y1",))), ctx.flat(arg(b, 2, ("y2",)))
            for i in range(len(r)):
                if ctx.isnan(ys[i]) or ctx.isnan(es[i]):
                    ctx.check("band undefined %d" % i, ctx.isnan(lo[i]) and ctx.isnan(hi[i]))
                else:
                    ctx.check_eq("band middle %d" % i, (lo[i] + hi[i]) / 2, ys[i])
                    ctx.check_eq("band half width %d" % i, ctx.abs(hi[i] - lo[i]) / 2, es[i])

    def apertures(self, ctx, P, radii):
        aps = [e[2][0] for e in P.named("aperture")]
        radii = [v for v in radii if not ctx.isnan(v)]
        radii = [v for v in radii if v > 0]
        if ctx.check("one aperture per defined radius", len(aps) == len(radii), "%d apertures, %d radii" % (len(aps), len(radii))):
            for i, v in enumerate(radii):
                ctx.check("an aperture of radius %d" % i, ctx.Or(*[self.close(ctx, p.a, v) for p in aps]))
            for p in aps:
                x, y = [c.unwrap0(v) for v in p.positions]
                ctx.check("centred", x == 3.0 and y == 5.0)
                ctx.check_eq("elongation", p.a, 2.0 * p.b)
                ctx.check("orientation", c.unwrap0(p.theta) == 0.5)


class CCD(_Holder):
    unit = None

    @property
    def shape(self):
        return np.shape(self.data)


class Cutout(_Holder):
    shape = CCD.shape


class Par:
    """a model parameter: has .value and is used as a number"""

    def __init__(self, v):
        self.value = v
        self.name, self.unit, self.fixed, self.shape = "par", None, False, ()

    def __float__(self):
        return float(self.value)

    def __array__(self, *a, **k):
        return np.asarray(float(self.value))

    def __format__(self, spec):
        return "par"

    def __neg__(self):
        return -self.value

    def __abs__(self):
        return abs(self.value)


def _ops():
    import operator

    def two(op):
        return lambda s, o: op(s.value, o.value if isinstance(o, Par) else o), lambda s, o: op(o.value if isinstance(o, Par) else o, s.value)
    for n in ("add", "sub", "mul", "truediv"):
        f, r = two(getattr(operator, n))
        setattr(Par, "__%s__" % n, f)
        setattr(Par, "__r%s__" % n, r)
    for n in ("lt", "le", "gt", "ge"):
        setattr(Par, "__%s__" % n, two(getattr(operator, n))[0])


_ops()


def gaussian_class(made):
    class Gaussian2D:
        """records how the start model was set up"""
        param_names = ("amplitude", "x_mean", "y_mean", "x_stddev", "y_stddev", "theta")

        def __init__(self, amplitude=1, x_mean=0, y_mean=0, x_stddev=None, y_stddev=None, theta=None, cov_matrix=None, **kw):
            self.amplitude, self.x_mean, self.y_mean = amplitude, x_mean, y_mean
            self.x_stddev, self.y_stddev, self.theta = x_stddev, y_stddev, theta
            self.fixed, self.kw = kw.pop("fixed", {}), kw
            made.append(self)
    return Gaussian2D


class Fitted:
    param_names = ("amplitude", "x_mean", "y_mean", "x_stddev", "y_stddev", "theta")

    def __init__(self, vals):
        self.v = vals
        for n in self.param_names:
            setattr(self, n, Par(vals[n]))

    @property
    def parameters(self):
        return [self.v[n] for n in self.param_names]

    def __call__(self, x, y):
        if np.ndim(c.unwrap0(x)) == 0 and np.ndim(c.unwrap0(y)) == 0:
            return self.v["amplitude"]
        return np.ones(np.broadcast(np.zeros(np.shape(x)), np.zeros(np.shape(y))).shape)

    def copy(self):
        return self


@prop
class C38(Prop):
    id = "C38"
    strict = False
    bounds = "images of 2x3, 3x2 and 3x3 pixels (thorough: also 1x4, 2x5, 4x3), every pixel value, NaN pixels in every pattern of four pixels; arrays and image objects; an arbitrary model function; whole-number centres, both pixel sampling modes; every fitted Gaussian with widths in [1/4, 6]; every combination of plot and printout"
    outside = "what the optimiser makes of the start values (its result is an arbitrary Gaussian); colours, labels and colour limits"
    assumptions = ("matplotlib is replaced by a recorder of the calls it receives", "the optimiser returns an arbitrary Gaussian")
    max_paths = 1500

    def configs(self, tier):
        out = []
        shapes = ([2, 3], [3, 2], [3, 3]) + (([1, 4], [2, 5], [4, 3]) if tier == "thorough" else ())
        n = 0
        for sh in shapes:
            for form in ("array", "ccd", "cutout"):
                for centre in (None, [7, -4]):
                    n += 1
                    out.append(dict(what="plot_fit", shape=sh, form=form, centre=centre, mode="center" if n % 3 else "oversample", lims=bool(n % 2), cbar=bool(n % 4), nans=form == "array" and centre is None))
            out.append(dict(what="start", shape=sh, nans=True))
            for plot in ("default", True, False):
                for printout in ("default", True, False):
                    if tier == "quick" and sh != [2, 3] and (plot, printout) not in ((True, False), (False, False)):
                        continue
                    out.append(dict(what="fwhm", shape=sh, plot=plot, printout=printout, nans=plot is True and printout is True))
        return out

    def over(self, ctx, cfg):
        ctx.plt = Pyplot()
        self.made = []
        return {"matplotlib.pyplot": ctx.plt, "astropy.nddata.CCDData": CCD, "astropy.nddata.Cutout2D": Cutout, "astropy.modeling.models.Gaussian2D": gaussian_class(self.made)}

    def image(self, ctx, cfg, lo=-64):
        ny, nx = cfg["shape"]
        I = [[ctx.real("i%d_%d" % (j, i), lo, 64) for i in range(nx)] for j in range(ny)]
        if cfg["nans"]:
            for n in (0, nx - 1, nx, nx * ny - 1):
                if n < nx * ny and bool(ctx.bool("nan%d" % n)):
                    I[n // nx][n % nx] = nan
        return I

    def run(self, ctx, cfg):
        fit = ctx.impl.fitting
        ny, nx = cfg["shape"]
        I = self.image(ctx, cfg)
        flat = sum(I, [])
        image = ctx.array(I)
        if all(ctx.isnan(v) for v in flat):
            return
        if cfg["what"] == "plot_fit":
            return self.plot_fit(ctx, cfg, fit, I, image)
        vals = dict(amplitude=ctx.real("A", 0.0625, 100), x_mean=ctx.real("xm", -8, 8), y_mean=ctx.real("ym", -8, 8), x_stddev=ctx.real("sx", 0.25, 6), y_stddev=ctx.real("sy", 0.25, 6), theta=ctx.real("th", -3, 3))
        fitted = Fitted(vals)
        kw = {k: cfg[k] for k in ("plot", "printout") if cfg.get(k, "default") != "default"}
        with recording(fitted) as calls, contextlib.redirect_stdout(io.StringIO()):
            out = ctx.call(fit.fit_gaussian2d if cfg["what"] == "start" else fit.measure_fwhm, image, **kw)
        if not ctx.check_call(cfg["what"], out):
            return
        ctx.check_eq_arr("the image is left as it was", ctx.flat(image), flat)
        if not ctx.check("one fit of a Gaussian", len(calls) == 1 and calls[0]["model"] in self.made):
            return
        m = calls[0]["model"]
        if cfg["what"] == "start":
            ctx.check("the fitted model is returned", out.value is fitted)
            ctx.check("the middle pixel is the start", int(m.x_mean) == nx // 2 and int(m.y_mean) == ny // 2, "%s %s" % (m.x_mean, m.y_mean))
            good = [v for v in flat if not ctx.isnan(v)]
            a = c.unwrap0(m.amplitude)
            if ctx.check("a defined start amplitude", not ctx.isnan(a)):
                for i, v in enumerate(good):
                    ctx.check_le("no valid pixel %d is brighter" % i, v, a)
                ctx.check("the amplitude is a pixel's", ctx.Or(*[v == a for v in good]))
            ctx.check("every parameter is free", not any(dict(m.fixed or {}).values()) and not m.kw, "%r %r" % (m.fixed, m.kw))
            return
        got = ctx.flat(out.value)
        ctx.observe("fwhm", out.value)
        if ctx.check("two widths", len(got) == 2):
            k = 2.0 * math.sqrt(2.0 * math.log(2.0))
            for n, g, s in (("x", got[0], "x_stddev"), ("y", got[1], "y_stddev")):
                ctx.check_eq("FWHM in " + n, g, k * vals[s], tol=1e-9)
        if cfg["plot"] is False:
            ctx.check("nothing drawn", not ctx.plt.log)
            return
        for axis, fn, m, s in (("x", "axvline", "x_mean", "x_stddev"), ("y", "axhline", "y_mean", "y_stddev")):
            at = lines(ctx.plt, fn, (axis,))
            for sign in (-1, 1):
                w = vals[m] + sign * k / 2 * vals[s]
                ctx.check("a line at the %s edge" % axis, ctx.Or(*[ctx.abs(v - w) <= 1e-9 * 64 for v in at]) if at else False)

    def plot_fit(self, ctx, cfg, fit, I, image):
        ny, nx = cfg["shape"]
        held = {"array": lambda v: v, "ccd": CCD, "cutout": Cutout}[cfg["form"]](image)
        u = ctx.uf("F")

        def f(x, y):
            X, Y = np.broadcast_arrays(*(arr.nd(arr.mk(v)) if ctx.sym else np.asarray(v) for v in (x, y)))
            o = np.empty(X.shape, dtype=object)
            for ix in np.ndindex(*X.shape):
                o[ix] = u(conc(X[ix]), conc(Y[ix]))
            return ctx.array(o.tolist(), "f")
        kw = {}
        if cfg["centre"]:
            kw["center"] = tuple(cfg["centre"])
        k = 1
        if cfg["mode"] == "oversample":
            kw["mode"] = "oversample"
        if cfg["lims"]:
            kw.update(vmin=-1.0, vmax=2.0)
        if not cfg["cbar"]:
            kw["cbar"] = False
        out = ctx.call(fit.plot_fit, f, held, **kw)
        if not ctx.check_call("plot_fit", out):
            return
        if not ctx.check("four results", len(out.value) == 4):
            return
        axs, cbar, model_image, residual = out.value
        x0, y0 = (cfg["centre"][0] - nx // 2, cfg["centre"][1] - ny // 2) if cfg["centre"] else (0, 0)
        want = [[u(Fraction(x0 + i), Fraction(y0 + j)) for i in range(nx)] for j in range(ny)]
        if cfg["mode"] == "oversample":
            want = None
        res = None
        g = ctx.flat(model_image)
        if not ctx.check("the image's shape", ctx.shape(model_image) == ctx.shape(residual) == (ny, nx), "%s %s" % (ctx.shape(model_image), ctx.shape(residual))):
            return
        r, flat = ctx.flat(residual), sum(I, [])
        ctx.observe("model image", model_image)
        ctx.observe("residual", residual)
        for n in range(nx * ny):
            if want:
                ctx.check_eq("model pixel %d" % n, g[n], want[n // nx][n % nx])
            if ctx.isnan(flat[n]):
                ctx.check("residual of an invalid pixel %d is undefined" % n, ctx.isnan(r[n]))
            else:
                ctx.check_eq("residual %d" % n, r[n], flat[n] - g[n])
        ctx.check_eq_arr("the image is left as it was", ctx.flat(image), flat)
        shows = ctx.plt.named("imshow")
        if ctx.check("three images drawn", len(shows) == 3):
            names = [a.name for a in axs]
            if ctx.check("on the three axes returned", sorted(e[0] for e in shows) == sorted(names), str([e[0] for e in shows])):
                shows = sorted(shows, key=lambda e: names.index(e[0]))
                for nm, e, v in (("data", shows[0], flat), ("model", shows[1], g), ("residual", shows[2], r)):
                    ctx.check_eq_arr("the %s drawn" % nm, ctx.flat(arg(e, 0, ("X",))), v)
            for e in shows:
                if cfg["lims"]:
                    ctx.check("the limits given", e[3].get("vmin") == -1.0 and e[3].get("vmax") == 2.0)
        ctx.check("a colour bar only on request", (cbar is not None) == cfg["cbar"])


class Segmentation:
    """a label map as photutils hands it out: pixels in .data, usable as an array"""

    def __init__(self, data):
        self.data, self.shape = data, np.shape(data)

    def make_cmap(self, *a, **k):
        return "cmap"

    def __array__(self, *a, **k):
        return self.data


class Outline:
    """an aperture that records where it is drawn"""

    def __init__(self, log):
        self.log = log

    def plot(self, ax=None, *a, axes=None, **k):
        ax = ax if ax is not None else axes
        self.log.append((None if ax is None else ax.name, "outline", (self,), k))


@prop
class C45(Prop):
    id = "C45"
    strict = False
    tol = 1e-7
    bounds = "concrete correction grids of 2-5 rows with every real measurement, new or given axes (list, tuple, array); images of 2x3 and 3x2 pixels of every value; 0-3 apertures; label maps of every 0-3 pattern; up to three radii"
    outside = "colours, labels, limits and everything matplotlib does with what it is given"
    assumptions = ("matplotlib is replaced by a recorder of the calls it receives", "the measurements of a profile are arbitrary numbers here; what they are is C03, C05 and C07")
    timeout_ms = 8000

    def configs(self, tier):
        from .correction import GRIDS
        out = []
        for g in GRIDS:
            for n, axs in enumerate((None, "list", "tuple", "array")):
                if tier == "quick" and (len(g) + n) % 2:
                    continue
                out.append(dict(what="correction", grid=g, axs=axs, key=None if n % 3 else "c_epsilon"))
        for sh in ([2, 3], [3, 2]):
            for im in (True, False):
                out += [dict(what="apertures", shape=sh, image=im, k=k, lims=bool(k % 2)) for k in (0, 1, 3)]
                out += [dict(what="segments", shape=sh, image=im, title=t) for t in (True, False)]
            for m in (True, False):
                out.append(dict(what="photometry", shape=sh, r=[0.75, 1.5, 0.5] if m else [1.25], mask=m, lims=m))
        return out

    def over(self, ctx, cfg):
        from .correction import Corr
        o = Corr.over(self, ctx, cfg) if cfg["what"] == "correction" else {}
        ctx.plt = o["matplotlib.pyplot"] = Pyplot()
        return o

    def run(self, ctx, cfg):
        getattr(self, cfg["what"])(ctx, cfg)

    def pixels(self, ctx, cfg, kind="f"):
        ny, nx = cfg["shape"]
        I = [[ctx.real("i%d_%d" % (j, i), -64, 64) if kind == "f" else ctx.int("l%d_%d" % (j, i), 0, 3) for i in range(nx)] for j in range(ny)]
        return I, ctx.array(I, kind)

    def same(self, ctx, label, got, want, flat):
        """the picture drawn is this one"""
        if ctx.check(label + ": shape", isinstance(got, np.ndarray) and ctx.shape(got) == want, str(type(got))):
            ctx.check_eq_arr(label, ctx.flat(got), flat)

    def apertures(self, ctx, cfg):
        P = ctx.plt
        I, image = self.pixels(ctx, cfg)
        aps = [Outline(P.log) for _ in range(cfg["k"])]
        kw = dict(vmin=-1.0, vmax=ctx.real("vmax", 1, 9)) if cfg["lims"] else {}
        o = ctx.call(ctx.impl.photometry.plot_apertures, image if cfg["image"] else None, apertures=list(aps), **kw)
        if not ctx.check_call("drawing", o):
            return
        shows = P.named("imshow")
        if ctx.check("the image is drawn once if given", len(shows) == int(cfg["image"])) and shows:
            self.same(ctx, "image", shows[0][2][0], tuple(cfg["shape"]), sum(I, []))
            for k in ("vmin", "vmax"):
                if cfg["lims"]:
                    ctx.check_eq(k, shows[0][3].get(k), kw[k])
                else:
                    ctx.check(k + " left open", shows[0][3].get(k) is None)
        drawn = P.named("outline")
        ctx.check("every aperture once", [e[2][0] for e in drawn] == aps, str(len(drawn)))
        ctx.check("on the current axes", all(e[0] in (None, P.cur.name) for e in drawn))
        ctx.check_eq_arr("the image is left as it was", ctx.flat(image), sum(I, []))

    def segments(self, ctx, cfg):
        P = ctx.plt
        I, image = self.pixels(ctx, cfg)
        L, labels = self.pixels(ctx, cfg, "i")
        kw = dict(title="a title") if cfg["title"] else {}
        if cfg["image"]:
            kw.update(image=image, vmin=-2.0, vmax=ctx.real("vmax", 1, 9))
        o = ctx.call(ctx.impl.segmentation.plot_segments, Segmentation(labels), **kw)
        if not ctx.check_call("drawing", o):
            return
        shows = P.named("imshow")
        if not ctx.check("the labels, over the image if given", len(shows) == 1 + int(cfg["image"]), str(len(shows))):
            return
        if cfg["image"]:
            self.same(ctx, "image", shows[0][2][0], tuple(cfg["shape"]), sum(I, []))
            ctx.check_eq("vmin", shows[0][3].get("vmin"), -2.0)
            ctx.check_eq("vmax", shows[0][3].get("vmax"), kw["vmax"])
            ctx.check("the image shows through", shows[1][3].get("alpha", 1) == 0.5)
        top = shows[-1][2][0]
        self.same(ctx, "labels", top.data if isinstance(top, Segmentation) else top, tuple(cfg["shape"]), sum(L, []))
        ctx.check_eq_arr("the image is left as it was", ctx.flat(image), sum(I, []))
        ctx.check_eq_arr("the labels are left as they were", ctx.flat(labels), sum(L, []))

    def photometry(self, ctx, cfg):
        """drawing changes nothing in the measurement and shows the image and every radius"""
        P = ctx.plt
        ny, nx = cfg["shape"]
        I, image = self.pixels(ctx, cfg)
        hole = ctx.choice("undefined pixel", [None, (1, 0), (0, 1), (1, 1)])       # (row, column)
        if hole:
            I[hole[0]][hole[1]] = nan
            image = ctx.array(I)
        err = ctx.array([[ctx.real("e%d_%d" % (j, i), 0, 16) for i in range(nx)] for j in range(ny)])
        kw = dict(elong=2.0, theta=0.5, error=err)
        if cfg["mask"]:
            kw["mask"] = ctx.array([[(i + 2 * j) % 3 != 1 for i in range(nx)] for j in range(ny)], "b")
        lim = dict(vmin=-1.0, vmax=4.0) if cfg["lims"] else {}
        f = ctx.impl.photometry.radial_photometry
        a = ctx.call(f, image, (1.0, 0.75), list(cfg["r"]), plot=True, **kw, **lim)
        drawn = list(P.log)
        b = ctx.call(f, image, (1.0, 0.75), list(cfg["r"]), **kw)
        if hole:
            ctx.observe("refused", b.ok)
            if not ctx.check("refused with a plot if refused without", a.ok == b.ok):
                return
            if not b.ok:
                return
        elif not (ctx.check_call("with plot", a) and ctx.check_call("without plot", b)):
            return
        ctx.check("nothing drawn unasked", len(P.log) == len(drawn))
        for n, u, v in zip(("flux", "area", "error"), a.value, b.value):
            ctx.check_eq_arr("the same " + n, ctx.flat(u), ctx.flat(v))
        shows = [e for e in drawn if e[1] == "imshow"]
        if ctx.check("the image is drawn once", len(shows) == 1):
            self.same(ctx, "image", shows[0][2][0], (ny, nx), sum(I, []))
        ctx.check_eq_arr("the image is left as it was", ctx.flat(image), sum(I, []))

    def correction(self, ctx, cfg):
        from .correction import Corr, GRIDS, COLS
        P = ctx.plt
        cols = GRIDS[cfg["grid"]]
        n = len(cols["p02"])
        x0, y0, r80 = ctx.real("x0", 1, 128), ctx.real("y0", 1, 64), 2.0 * ctx.apply("exp", ctx.real("w", 0, 3.5))
        z0 = 5 * ctx.log10(r80 / 2.0)
        extra = dict(n=[0.5 + i for i in range(n)], c_r_50=[100.0 + i for i in range(n)], c_r_80=[200.0 + 2 * i for i in range(n)], c_r_99=[300.0 + 4 * i for i in range(n)],
                     p03=[12.0] * n, p04=[11.0] * n, p05=[10.0] * n, c_epsilon=[2.0 + i for i in range(n)])
        names = list(COLS) + list(extra)
        rows = [[cols[k][i] for k in COLS] + [extra[e][i] for e in extra] for i in range(n)]
        out = ctx.call(ctx.impl.correction.PetrosianCorrection, Corr.table(self, ctx, rows, names), enforce_range=False)
        if not ctx.check_call("constructing", out):
            return
        pc = out.value
        p = Corr.profile(self, ctx, x0, y0, 2.0, r80)
        o = ctx.call(pc.estimate_n, p)
        if not ctx.check_call("estimating n", o):
            return
        k = int(round(float(c.unwrap0(o.value)) - 0.5))
        kw = {}
        if cfg["key"]:
            kw["cmap_key"] = cfg["key"]
        given = None
        if cfg["axs"]:
            given = [Axes(P.log, "given%d" % i) for i in range(3)]
            box = given
            if cfg["axs"] == "array":
                box = np.empty(3, dtype=object)
                for i in range(3):
                    box[i] = given[i]
            kw["axs"] = tuple(given) if cfg["axs"] == "tuple" else box
        o = ctx.call(pc.plot_correction, p, **kw)
        if not ctx.check_call("drawing", o):
            return
        fig, axs = o.value
        axs = list(axs)
        if not ctx.check("three panels", len(axs) == 3):
            return
        if given:
            ctx.check("the panels given", all(a is b for a, b in zip(axs, given)))
            ctx.check("no new figure", P.made == 0)
        q = (x0, y0, z0)
        cells = [cols[m] for m in COLS]
        near = lambda u, v: ctx.abs(c.unwrap0(u) - v) <= 1e-7 * 64
        for ax, (i, j) in zip(axs, ((0, 1), (0, 2), (1, 2))):
            mine = [e for e in P.log if e[0] == ax.name and e[1] in ("scatter", "plot", "errorbar")]
            clouds, marks, links = [], [], []
            for e in mine:
                u, v = arg(e, 0, ("x",)), arg(e, 1, ("y",))
                if one(u) is not None:
                    marks.append((one(u), one(v)))
                else:
                    u, v = list(ctx.flat(u)) if not isinstance(u, (list, tuple)) else [c.unwrap0(w) for w in u], list(ctx.flat(v)) if not isinstance(v, (list, tuple)) else [c.unwrap0(w) for w in v]
                    (clouds if e[1] == "scatter" else links).append((u, v, e))
            if ctx.check("panel %s: the grid once" % ax.name, len(clouds) == 1, str(len(clouds))):
                u, v, e = clouds[0]
                ctx.check_eq_arr("panel: across", u, [w * 1.0 for w in cells[i]])
                ctx.check_eq_arr("panel: up", v, [w * 1.0 for w in cells[j]])
                col = e[3].get("c", e[2][3] if len(e[2]) > 3 else None)
                if ctx.check("panel: coloured by the key", col is not None):
                    ctx.check_eq_arr("panel: colour", [float(c.unwrap0(w)) for w in list(col)], extra[cfg["key"] or "n"])
            ctx.check("panel: the galaxy", ctx.Or(*[ctx.And(near(a, q[i]), near(b, q[j])) for a, b in marks]) if marks else False)
            ok = []
            for u, v, _ in links:
                if len(u) == len(v) == 2:
                    for s, t in ((0, 1), (1, 0)):
                        ok.append(ctx.And(near(u[s], q[i]), near(v[s], q[j]), near(u[t], cells[i][k] * 1.0), near(v[t], cells[j][k] * 1.0)))
            ctx.check("panel: joined to the grid row used", ctx.Or(*ok) if ok else False)
