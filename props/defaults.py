"""Arguments left out, and arguments given by position (C43)."""
import numpy as np

from symx.harness import Prop, prop
from .photometry import BLOBS, C18, OTHER, _Cat, _Holder, real_source, image

nan = float("nan")


class Opt:
    """an optional argument: its documented default and another value"""

    def __init__(self, name, default, other):
        self.name, self.default, self.other = name, default, other


def val(ctx, v):
    return v(ctx) if callable(v) else v


# ---- inputs (built anew for every call, from the same symbolic values)
def curve(ctx, n=4):
    if not hasattr(ctx, "_curve"):
        f = ctx.reals("flux", n, 1, 64)
        for i in range(n - 1):
            ctx.assume(f[i] + 0.125 <= f[i + 1])
        ctx._curve = f
    r = [1.0, 2.0, 3.5, 6.0][:n]
    return r, [round(3.0 * v * v, 6) for v in r], ctx._curve


def mat(ctx, name, lo=-16, hi=16, shape=(3, 4)):
    k = "_m" + name
    if not hasattr(ctx, k):
        setattr(ctx, k, image(ctx, name, shape, lo, hi))
    return getattr(ctx, k)


def sym(name, lo, hi):
    def f(ctx):
        k = "_s" + name
        if not hasattr(ctx, k):
            setattr(ctx, k, ctx.real(name, lo, hi))
        return getattr(ctx, k)
    return f


def A(fn, *a):
    return lambda ctx: ctx.array(fn(ctx, *a))


R, AREA, FLUX = (lambda i: (lambda ctx: ctx.array(curve(ctx)[i])))(0), (lambda ctx: ctx.array(curve(ctx)[1])), (lambda ctx: ctx.array(curve(ctx)[2]))
ERRS = lambda ctx: ctx.array([0.25, 0.5, 0.25, 1.0])
IMG, ERR = A(mat, "i"), A(mat, "e", 0, 4)
MASK = lambda ctx: ctx.array([[(i + j) % 3 != 1 for i in range(4)] for j in range(3)], "b")
PROFILE = lambda ctx: ctx.array([nan] + [sym("p%d" % i, -1, 1.5)(ctx) for i in range(3)])


def segm(ctx):
    det, lab, Seg, Cat = real_source((7, 8), BLOBS["mid"], OTHER["mid"])
    return Seg(lab.copy())


def source(ctx):
    det, lab, Seg, Cat = real_source((7, 8), BLOBS["mid"], OTHER["mid"])
    return Cat(det, Seg(lab.copy()))[0]


def cat(ctx):
    v = [sym("c%d" % i, -9, 9)(ctx) for i in range(3)]
    w = [sym("d%d" % i, -9, 9)(ctx) for i in range(3)]
    cols = dict(label=[1, 2, 3], area=v, flux=w)
    if ctx.sym:
        return _Cat({k: ctx.array(x, "i" if k == "label" else "f") for k, x in cols.items()})
    from astropy.table import QTable
    return _Cat(QTable({k: np.array(x) for k, x in cols.items()}))


def bilinear(ctx):
    k = [sym("k%d" % i, -4, 4)(ctx) for i in range(4)]
    return lambda x, y: k[0] + k[1] * x + k[2] * y + k[3] * (x * y)


# ---- what a result says
def leaves(ctx, v):
    if isinstance(v, (tuple, list)):
        return [q for x in v for q in leaves(ctx, x)]
    if v is None or isinstance(v, (str, bool)):
        return [v]
    return list(ctx.flat(v))


def ellipse(ctx, ap):
    out = [v for k in ("a", "b", "a_in", "a_out", "b_in", "b_out", "theta") if hasattr(ap, k) for v in ctx.flat(getattr(getattr(ap, k), "value", getattr(ap, k)))]
    return out + list(ctx.flat(ap.positions))


def measured(ctx, p):
    out = []
    for k in ("eta", "epsilon", "epsilon_fraction", "total_flux_fraction", "interp_kind", "interp_num"):
        out.append(getattr(p, k))
    for k in ("r_list", "area_list", "flux_list", "flux_err"):
        v = getattr(p, k)
        out += [v] if v is None else list(ctx.flat(v))
    return out


K = Opt("interp_kind", "cubic", "linear")
N = Opt("interp_num", 5000, 7)
EPS = [Opt("epsilon", 2.0, 0.75), Opt("epsilon_fraction", 0.99, 0.875)]

# name: (module, function, [(documented name, value)], [optional arguments in documented order], view)
TABLE = {
    "make_radius_list": ("utils", "make_radius_list", [("max_pix", sym("m", 2, 32)), ("n", 3)], [Opt("log", False, True)], leaves),
    "closest_value_index": ("utils", "closest_value_index", [("value", sym("v", -2, 2)), ("array", PROFILE)], [Opt("growing", False, True)], leaves),
    "get_interpolated_values": ("utils", "get_interpolated_values", [("x", R), ("y", lambda ctx: ctx.array([1.0, sym("y1", -4, 4)(ctx), 2.0, 5.0]))], [Opt("num", 5000, 7), Opt("kind", "cubic", "linear")], leaves),
    "radial_elliptical_aperture": ("photometry", "radial_elliptical_aperture", [("position", (3.0, 4.5)), ("r", sym("r", 1, 8))], [Opt("elong", 1.0, sym("el", 1, 4)), Opt("theta", 0.0, sym("th", -1, 1))], ellipse),
    "radial_elliptical_annulus": ("photometry", "radial_elliptical_annulus", [("position", (3.0, 4.5)), ("r", sym("r", 1, 8)), ("dr", sym("dr", 0.5, 4))], [Opt("elong", 1.0, sym("el", 1, 4)), Opt("theta", 0.0, sym("th", -1, 1))], ellipse),
    "radial_photometry": ("photometry", "radial_photometry", [("image", IMG), ("position", (2.0, 1.0)), ("r_list", [0.7, 1.6])],
                          [Opt("error", None, ERR), Opt("mask", None, MASK), Opt("elong", 1.0, 1.5), Opt("theta", 0.0, 0.4), Opt("plot", False, False), Opt("vmin", 0, -1), Opt("vmax", None, 3.0), Opt("method", "exact", "center")], leaves),
    "order_cat": ("segmentation", "order_cat", [("cat", cat)], [Opt("key", "area", "flux"), Opt("reverse", True, False)], leaves),
    "segm_mask": ("segmentation", "segm_mask", [("source", 1), ("segm", segm)], [Opt("mask_background", False, True)], leaves),
    "masked_segm_image": ("segmentation", "masked_segm_image", [("source", 1), ("image", A(mat, "I", -16, 16, (7, 8))), ("segm", segm)], [Opt("fill", None, sym("fill", -4, 4)), Opt("mask_background", False, True)], leaves),
    "source_photometry": ("segmentation", "source_photometry", [("source", source), ("image", A(mat, "I", -16, 16, (7, 8))), ("segm_deblend", segm), ("r_list", [1.0, 1.8])],
                          [Opt("error", None, A(mat, "E", 0, 4, (7, 8))), Opt("cutout_size", None, 8), Opt("bg_sub", False, True), Opt("sigma", 3.0, 20.0), Opt("sigma_type", "clip", "clip"), Opt("method", "exact", "center"),
                           Opt("mask_background", False, True), Opt("plot", False, False)], leaves),
    "model_to_image": ("fitting", "model_to_image", [("model", bilinear), ("size", (2, 3))], [Opt("mode", "center", "oversample"), Opt("factor", 1, 2), Opt("center", None, (3.0, 5.0))], leaves),
    "make_grid": ("models", "make_grid", [("size", 3)], [Opt("origin", (0, 0), (3, -1)), Opt("factor", 1, 2)], leaves),
    "sersic_enclosed": ("models", "sersic_enclosed", [("r", sym("r", 1, 8)), ("amplitude", sym("am", 1, 8)), ("r_eff", sym("re", 1, 8)), ("n", 2.0)], [Opt("ellip", 0, sym("ep", 0, 0.75))], leaves),
    "calculate_petrosian": ("core", "calculate_petrosian", [("area_list", AREA), ("flux_list", FLUX)], [Opt("area_err", None, None), Opt("flux_err", None, ERRS)], leaves),
    "calculate_petrosian_r": ("core", "calculate_petrosian_r", [("r_list", R), ("petrosian_list", PROFILE)], [Opt("petrosian_err", None, ERRS), Opt("eta", 0.2, sym("eta", 0.1, 0.9)), K, N], leaves),
    "fraction_to_r": ("core", "fraction_to_r", [("fraction", 0.5), ("r_list", R), ("flux_list", FLUX), ("r_petrosian", 2.5)], [Opt("flux_err", None, ERRS), Opt("r_petrosian_err", None, 0.5)] + EPS + [K, N], leaves),
    "calculate_concentration_index": ("core", "calculate_concentration_index", [("fraction_1", 0.25), ("fraction_2", 0.75), ("r_list", R), ("flux_list", FLUX), ("r_petrosian", 2.5)],
                                      [Opt("flux_err", None, None), Opt("r_petrosian_err", None, 0.5)] + EPS + [K, N], leaves),
    "Petrosian": ("core", "Petrosian", [("r_list", R), ("area_list", AREA), ("flux_list", FLUX)],
                  [Opt("area_err", None, None), Opt("flux_err", None, ERRS), Opt("eta", 0.2, sym("eta", 0.1, 0.9)), Opt("epsilon", 2.0, 1.5), Opt("epsilon_fraction", 0.99, 0.875), Opt("total_flux_fraction", 0.99, 0.75), Opt("verbose", False, False), K, N], measured),
    "Petrosian.concentration_index": ("core", "concentration_index", [], [Opt("fraction_1", 0.2, 0.375), Opt("fraction_2", 0.8, 0.625)], leaves),
    "Petrosian.fraction_flux_to_r": ("core", "fraction_flux_to_r", [], [Opt("fraction", 0.5, 0.375)], leaves),
    "Petrosian.fraction_flux_to_r_err": ("core", "fraction_flux_to_r_err", [], [Opt("fraction", 0.5, 0.375)], leaves),
}
# heavy resampling is replaced by a recorder of (num, kind); linear, 7 points unless asked otherwise
SAMPLED = ("calculate_petrosian_r", "fraction_to_r", "calculate_concentration_index")


@prop
class C43(Prop):
    id = "C43"
    strict = False
    bounds = "the %d public functions, constructors and methods with optional arguments listed in the evidence; small inputs whose values are symbolic (curves of 4 samples, 3x4 and 7x8 images, profiles of 4 values); every optional argument left out alone and all together; all arguments by position with other values" % len(TABLE)
    outside = "plotting options; arguments of the catalogue, fitting and grid-generation functions (their defaults are decided in C27, C39, C40 and C41); cubic resampling of measured curves is replaced by a recorder of its settings"

    def configs(self, tier):
        out = []
        for k, (m, f, req, opts, view) in TABLE.items():
            out.append(dict(name=k, what="all"))
            out.append(dict(name=k, what="positions"))
            if len(opts) > 1:
                out += [dict(name=k, what="one", out=o.name) for o in opts if o.name not in ("plot", "vmin", "vmax", "verbose")]
        return out

    def split_index(self, cfg):
        return True

    def over(self, ctx, cfg):
        self.asked = asked = []
        o = {}
        if cfg["name"] in SAMPLED:
            def rec(x, y, num="absent", kind="absent"):
                asked.append((num, kind))
                return x, y
            o["petrofit.utils.get_interpolated_values"] = rec
        if cfg["name"] == "source_photometry":
            o.update(C18.over(self, ctx, dict(bg=True)))
            self.asked = self.sigmas
        return o

    def target(self, ctx, cfg, m, f):
        if not cfg["name"].startswith("Petrosian."):
            return getattr(getattr(ctx.impl, m), f)
        r, a, fl = [1.0, 2.0, 3.5, 6.0], [3.0, 12.0, 36.75, 108.0], [3.0, 9.0, 12.0, sym("last", 12.25, 20)(ctx)]
        p = ctx.impl.core.Petrosian(ctx.array(r), ctx.array(a), ctx.array(fl), flux_err=ctx.array([0.25, 0.5, 0.25, 1.0]), eta=0.5, epsilon=0.78125, epsilon_fraction=0.9375, total_flux_fraction=0.75, interp_kind="linear", interp_num=6)
        return getattr(p, f)

    def run(self, ctx, cfg):
        m, f, req, opts, view = TABLE[cfg["name"]]
        what = cfg["what"]
        # which optional arguments are spelled out, with which value
        if what == "all":
            given, left = [], opts
        elif what == "one":
            given, left = [(o, o.other) for o in opts if o.name != cfg["out"]], [o for o in opts if o.name == cfg["out"]]
        else:
            given, left = [(o, o.other) for o in opts], []

        def go(kind):
            fn = self.target(ctx, cfg, m, f)
            n = len(self.asked)
            if kind == "positions":
                out = ctx.call(fn, *[val(ctx, v) for _, v in req], *[val(ctx, v) for _, v in given])
            else:
                kw = {o.name: val(ctx, v) for o, v in given}
                kw.update({k: val(ctx, v) for k, v in req})
                if kind == "full":
                    kw.update({o.name: o.default for o in left})
                out = ctx.call(fn, **kw)
            return out, list(self.asked[n:])
        full, s1 = go("full")
        if not ctx.check_call("every argument by name", full):
            return
        short, s2 = go("positions" if what == "positions" else "short")
        if not ctx.check_call("arguments by position" if what == "positions" else "arguments left out", short):
            return
        a, b = view(ctx, full.value), view(ctx, short.value)
        label = "same result" if what == "positions" else "same result as with the documented default"
        if s1 or s2:
            ctx.check("same resampling or clipping", s1 == s2, "%r / %r" % (s1, s2))
        if not ctx.check(label + ": shape", len(a) == len(b), "%d / %d" % (len(a), len(b))):
            return
        for i, (x, y) in enumerate(zip(a, b)):
            if len(a) > 1000 and i % 97:
                continue  # resampled curves: enough points to tell two of them apart
            if isinstance(x, (str, bool, type(None))) or isinstance(y, (str, bool, type(None))):
                ctx.check(label, x == y and type(x) is type(y), "%r / %r" % (x, y))
            elif ctx.isnan(x) or ctx.isnan(y):
                ctx.check(label, bool(ctx.isnan(x)) and bool(ctx.isnan(y)))
            else:
                ctx.check_eq("%s [%d]" % (label, i), y, x)
