"""Measuring does not modify its inputs and is repeatable (C10)."""
import numpy as np

from symx import core as c
from symx.harness import Prop, prop

from . import photometry as ph
from . import petrosian as pt

nan = float("nan")


class Watch:
    """remembers the arguments of a call element by element"""

    def __init__(self, ctx):
        self.ctx, self.items = ctx, []

    def add(self, name, obj):
        self.items.append((name, obj, self.snap(obj)))
        return obj

    def snap(self, obj):
        if isinstance(obj, np.ndarray):
            return ("array", tuple(np.shape(obj)), list(self.ctx.flat(obj)))
        if isinstance(obj, (list, tuple)):
            return (type(obj).__name__, len(obj), [self.snap(v) for v in obj])
        if isinstance(obj, dict):
            return ("dict", list(obj), [self.snap(v) for v in obj.values()])
        if isinstance(obj, (ph._Holder, ph._Segm)):
            return ("object", None, self.snap(obj.data))
        return ("value", None, obj)

    def check(self, when):
        for name, obj, old in self.items:
            self.same("%s: %s" % (when, name), self.snap(obj), old)

    def same(self, label, a, b):
        ctx = self.ctx
        if not ctx.check(label + " keeps its form", a[:2] == b[:2], "%r %r" % (a[:2], b[:2])):
            return
        if a[0] == "array":
            for i, (x, y) in enumerate(zip(a[2], b[2])):
                self.value("%s kept [%d]" % (label, i), x, y)
        elif a[0] == "value":
            self.value(label + " kept", a[2], b[2])
        elif a[0] == "object":
            self.same(label, a[2], b[2])
        else:
            for i, (x, y) in enumerate(zip(a[2], b[2])):
                self.same("%s[%d]" % (label, i), x, y)

    def value(self, label, x, y):
        ctx = self.ctx
        x, y = c.unwrap0(x), c.unwrap0(y)
        if isinstance(y, (np.ndarray,)):
            ctx.check_eq_arr(label, x, y, 0.0)
        elif y is None or not (c.is_sym(y) or isinstance(y, (bool, np.bool_) + c.NUM)):
            ctx.check(label, x is y or (isinstance(y, str) and x == y))
        elif x is y:
            ctx.check(label, True)
        elif isinstance(y, (bool, np.bool_)) and not c.is_sym(x):
            ctx.check(label, bool(x) == bool(y))
        else:
            ctx.check_eq(label, x, y, 0.0)


def flat(ctx, v):
    """every number in a result"""
    if isinstance(v, np.ndarray):
        return list(ctx.flat(v))
    if isinstance(v, (list, tuple)):
        return sum([flat(ctx, x) for x in v], [])
    if isinstance(v, dict):
        return sum([flat(ctx, x) for x in v.values()], [])
    if isinstance(v, ph._Holder):
        return flat(ctx, v.data)
    return [c.unwrap0(v)]


SETTINGS = dict(eta=0.25, epsilon=1.25, epsilon_fraction=0.9375, total_flux_fraction=0.875)


@prop
class C10(Prop):
    id = "C10"
    bounds = ("every measurement function called twice with the same argument objects - arrays, lists, masks, error maps, holders and label lists of every value (3-5 samples, images up to 5x4 and 8x7) - "
              "with and without errors and masks, each interpolation kind; profile objects over sequences build / overwrite the caller's arrays / read / read again, arrays and lists")
    outside = "measurements done inside photutils (C-level catalogues), plotting; sizes beyond the stated ones"
    max_paths = 400

    def configs(self, tier):
        out = []
        for form in ("array", "list"):
            for errs in (False, True):
                out.append(dict(fn="profile", form=form, errs=errs))
        for kind in ("linear", "cubic", None) + (("nearest", "quadratic") if tier == "thorough" else ()):
            for errs in (False, True):
                out.append(dict(fn="radius", kind=kind, errs=errs))
                out.append(dict(fn="fraction", kind=kind, errs=errs))
        out += [dict(fn="radius", kind="linear", errs=True, form="list"), dict(fn="fraction", kind="linear", errs=True, form="list")]
        out += [dict(fn="index", kind="linear", errs=True), dict(fn="index", kind=None, errs=False)]
        for kind in ("linear", None):
            for errs in (False, True):
                for form in ("array", "list"):
                    if kind is None and form == "list" and tier == "quick":
                        continue
                    out.append(dict(fn="object", kind=kind, errs=errs, form=form))
        out += [dict(fn="object", kind="linear", errs=True, form="array", area_err=True), dict(fn="object", kind="cubic", errs=False, form="ints")]
        for m in ("exact", "center"):
            for err in (False, True):
                for mask in ("sym", "none", None):
                    out.append(dict(fn="photometry", method=m, err=err, mask=mask, r="list" if err else "array"))
        out.append(dict(fn="photometry", method="exact", err=True, mask="nan", r="list"))
        for req in ("int", "list1", "list2", "cat", "listcat"):
            for mb in (False, True):
                out.append(dict(fn="mask", req=req, mask_bg=mb))
                out.append(dict(fn="masked", req=req, mask_bg=mb, form="array" if mb else "holder"))
                out.append(dict(fn="masked", req=req, mask_bg=mb, form="holder" if mb else "ccd"))
        for b in ph.BLOBS:
            out += [dict(fn="source", blob=b, size=s, err=e, mask_bg=mb, bg=False) for s, e, mb in ((None, False, False), (6, True, True), (5, True, False))]
            out.append(dict(fn="source", blob=b, size=8, err=True, mask_bg=False, bg=True, which=0))
        out += [dict(fn="resample", kind=k) for k in ("linear", "cubic", "nearest")] + [dict(fn="resample", kind="linear", form="list")]
        out += [dict(fn="nearest", grow=g, form=f) for g in (False, True) for f in ("array",)]
        out += [dict(fn="order", reverse=r) for r in (True, False)]
        out += [dict(fn="sort"), dict(fn="subtract"), dict(fn="mags"), dict(fn="apertures", what="aperture"), dict(fn="apertures", what="annulus")]
        return out

    def over(self, ctx, cfg):
        if cfg["fn"] == "source" and cfg["bg"]:
            return ph.C18.over(self, ctx, cfg)
        return {}

    def run(self, ctx, cfg):
        getattr(self, "run_" + cfg["fn"])(ctx, cfg)

    def twice(self, ctx, f, w, *a, **k):
        """call f twice: same outcome, arguments untouched"""
        got = []
        for rnd in ("first call", "second call"):
            o = ctx.call(f, *a, **k)
            if not ctx.check_call(rnd, o):
                return None
            w.check(rnd)
            got.append(flat(ctx, o.value))
        ctx.observe("result", [v for v in got[0] if c.ok(v)])
        if ctx.check("same number of results", len(got[0]) == len(got[1])):
            for i, (x, y) in enumerate(zip(*got)):
                w.value("repeated result %d" % i, y, x)
        return o.value

    def seq(self, ctx, form, v, kind="f"):
        return list(v) if form == "list" else ctx.array(v, kind)

    # ---- Petrosian functions
    def curve(self, ctx, cfg):
        if cfg.get("kind", "linear") in ("linear", None) and not cfg["errs"]:
            return pt.Obj.data(None, ctx, dict(n=3 if cfg.get("kind") == "linear" else 4, radii=[1.0, 2.0, 3.5, 5.0][:3 if cfg.get("kind") == "linear" else 4], curve="half"))
        return pt.Obj.data(None, ctx, dict(n=4, radii=[1.0, 2.0, 3.5, 5.0], curve=0))

    def run_profile(self, ctx, cfg):
        a, f = pt.curve(ctx, 3)
        w = Watch(ctx)
        A, F = w.add("area_list", self.seq(ctx, cfg["form"], a)), w.add("flux_list", self.seq(ctx, cfg["form"], f))
        kw = {}
        if cfg["errs"]:
            kw["flux_err"] = w.add("flux_err", self.seq(ctx, cfg["form"], ctx.reals("fe", 3, 0, 4)))
            kw["area_err"] = w.add("area_err", self.seq(ctx, cfg["form"], ctx.reals("ae", 3, 0, 4)))
        self.twice(ctx, ctx.impl.core.calculate_petrosian, w, A, F, **kw)

    def run_radius(self, ctx, cfg):
        n = 3 if cfg["kind"] == "linear" else 4
        form = cfg.get("form", "array")
        y = [nan] + ctx.reals("p", n - 1, -1, 2)
        w = Watch(ctx)
        R, Y = w.add("r_list", self.seq(ctx, form, [1.0, 2.0, 3.5, 5.0][:n])), w.add("petrosian_list", self.seq(ctx, form, y))
        kw = dict(eta=0.25, interp_kind=cfg["kind"], interp_num=4)
        if cfg["errs"]:
            e = [nan] + (ctx.reals("e", n - 1, 0, 1) if n == 3 else [0.25, 0.5, 0.125])
            kw["petrosian_err"] = w.add("petrosian_err", self.seq(ctx, form, e))
        self.twice(ctx, ctx.impl.core.calculate_petrosian_r, w, R, Y, **kw)

    def fr(self, ctx, cfg, f, *head):
        form = cfg.get("form", "array")
        fl = [3.0, 9.0, ctx.real("flux2", 9.5, 12), 13.0]
        w = Watch(ctx)
        R, F = w.add("r_list", self.seq(ctx, form, [1.0, 2.0, 3.5, 5.0])), w.add("flux_list", self.seq(ctx, form, fl))
        kw = dict(epsilon=1.5, epsilon_fraction=0.9375, interp_kind=cfg["kind"], interp_num=5)
        if cfg["errs"]:
            kw["flux_err"] = w.add("flux_err", self.seq(ctx, form, [0.25, 0.5, 0.25, 1.0]))
            kw["r_petrosian_err"] = 0.125
        self.twice(ctx, f, w, *head, R, F, 2.5, **kw)

    def run_fraction(self, ctx, cfg):
        self.fr(ctx, cfg, ctx.impl.core.fraction_to_r, ctx.real("fraction", 0.125, 1))

    def run_index(self, ctx, cfg):
        self.fr(ctx, cfg, ctx.impl.core.calculate_concentration_index, 0.25, 0.75)

    def run_object(self, ctx, cfg):
        n = 4
        form = cfg["form"]
        kind = "i" if form == "ints" else "f"
        r, a = ([1, 2, 3, 5], [3, 12, 27, 75]) if form == "ints" else ([1.0, 2.0, 3.5, 5.0], [3.0, 12.0, 36.75, 75.0])
        fl = [3, 9, 12, 13] if form == "ints" else [3.0, 9.0, 12.0 if cfg["errs"] else ctx.real("flux2", 9.5, 12), 13.0]
        args = dict(r_list=(r, kind), area_list=(a, kind), flux_list=(fl, kind))
        if cfg["errs"]:
            args["flux_err"] = ([0.25, 0.5, 0.5, 1.0], "f")
        if cfg.get("area_err"):
            args["area_err"] = ([0.0, 0.125, 0.5, 0.25], "f")
        make = lambda: {k: self.seq(ctx, "list" if form == "list" else "array", list(v), kd) for k, (v, kd) in args.items()}
        kw = dict(SETTINGS, interp_kind=cfg["kind"], interp_num=4)
        if cfg["errs"]:
            kw["epsilon"] = ctx.real("epsilon", 1, 1.5)
        P = ctx.impl.core.Petrosian
        mine = make()
        w = Watch(ctx)
        for k, v in mine.items():
            w.add(k, v)
        o, fresh = ctx.call(P, **mine, **kw), ctx.call(P, **make(), **kw)
        if not (ctx.check_call("building", o) and ctx.check_call("building", fresh)):
            return
        p, q = o.value, fresh.value
        names = [m for m in pt.MEASURES if cfg["errs"] or not m.endswith("_err")]
        want = {m: self.read(ctx, q, m) for m in names}
        # half the measurements before the caller's arrays change, all of them afterwards, in another order, twice
        for m in names[::2]:
            self.alike(ctx, w, m + " on arrays in use", self.read(ctx, p, m), want[m])
        w.check("reading")
        keep = self.arrays(ctx, q)
        for k, v in mine.items():
            for i in range(n):
                v[i] = (v[i] + 1 + i) * 2
        for m in names[::-1] + names:
            self.alike(ctx, w, m + " after the caller's arrays changed", self.read(ctx, p, m), want[m])
        self.same(ctx, w, "arrays of the object", self.arrays(ctx, p), keep)
        o = ctx.call(p.fraction_flux_to_r, 0.375), ctx.call(q.fraction_flux_to_r, 0.375)
        if ctx.check_call("fraction radius", o[0]):
            w.value("fraction radius", o[0].value, o[1].value)
        o = ctx.call(p.concentration_index, 0.25, 0.75), ctx.call(q.concentration_index, 0.25, 0.75)
        if ctx.check_call("index", o[0]):
            for i in range(3):
                w.value("index %d" % i, list(o[0].value)[i], list(o[1].value)[i])
        self.same(ctx, w, "arrays of the object after reading", self.arrays(ctx, p), keep)

    def arrays(self, ctx, p):
        return {k: list(ctx.flat(getattr(p, k))) for k in ("r_list", "area_list", "flux_list", "flux_err", "area_err", "petrosian_list", "petrosian_err") if getattr(p, k) is not None}

    def same(self, ctx, w, label, a, b):
        if not ctx.check(label, sorted(a) == sorted(b)):
            return
        for k in b:
            if ctx.check("%s: %s" % (label, k), len(a[k]) == len(b[k])):
                for i, (x, y) in enumerate(zip(a[k], b[k])):
                    w.value("%s: %s[%d]" % (label, k, i), x, y)

    def read(self, ctx, p, m):
        return ctx.call(getattr, p, m)

    def alike(self, ctx, w, label, a, b):
        if ctx.check(label + " defined alike", a.ok == b.ok, repr(a.exc)) and b.ok:
            w.value(label, a.value, b.value)

    # ---- photometry
    def run_photometry(self, ctx, cfg):
        ny, nx = 4, 5
        I, E = ph.image(ctx, "i", (ny, nx)), ph.image(ctx, "e", (ny, nx), 0, 64) if cfg["err"] else None
        w = Watch(ctx)
        kw = dict(elong=1.5, theta=0.3, method=cfg["method"])
        M = None
        if cfg["mask"]:
            # a diagonal of arbitrary mask values
            M = [[ctx.bool("m%d_%d" % (j, i)) if cfg["mask"] == "sym" and i == j else (2 * i + j) % 3 != 0 for i in range(nx)] for j in range(ny)]
            if cfg["mask"] == "none":
                M = [[True] * nx for _ in range(ny)]
            if cfg["mask"] == "nan":
                for j in range(ny):
                    for i in range(nx):
                        if not M[j][i]:
                            I[j][i] = E[j][i] = nan
            kw["mask"] = w.add("mask", ctx.array(M, "b"))
        if E is not None:
            kw["error"] = w.add("error", ctx.array(E))
        im = w.add("image", ctx.array(I))
        pos = w.add("position", [2.0, 1.5])
        R = w.add("r_list", [1.0, 2.0] if cfg["r"] == "list" else ctx.array([2.0, 1.0]))
        self.twice(ctx, ctx.impl.photometry.radial_photometry, w, im, pos, R, **kw)

    def labels(self, ctx, req):
        if req in ("cat", "listcat"):
            det, lab, Seg, Cat = ph.real_source((6, 6), [(1, 1, 3.0), (2, 1, 1.0), (1, 2, 1.0)], [[(4, 4, 3.0), (4, 3, 1.0), (3, 4, 1.0)]])
            cat = Cat(det, Seg(lab))
            return cat[0] if req == "cat" else [cat[0], cat[1]]
        n = dict(int=0, list1=1, list2=2)[req]
        return [ctx.int("q%d" % k, 1, 4) for k in range(n)] if n else ctx.int("q", 1, 4)

    def run_mask(self, ctx, cfg):
        w = Watch(ctx)
        seg = w.add("label map", ph._Segm(ctx.array([[ctx.int("l%d_%d" % (j, i), 0, 4) for i in range(2)] for j in range(2)], "i")))
        q = w.add("requested labels", self.labels(ctx, cfg["req"]))
        kw = dict(mask_background=True) if cfg["mask_bg"] else {}
        self.twice(ctx, ctx.impl.segmentation.segm_mask, w, q, seg, **kw)

    def run_masked(self, ctx, cfg):
        w = Watch(ctx)
        seg = w.add("label map", ph._Segm(ctx.array([[ctx.int("l%d_%d" % (j, i), 0, 4) for i in range(2)] for j in range(2)], "i")))
        q = w.add("requested labels", self.labels(ctx, cfg["req"]))
        data = ctx.array(ph.image(ctx, "i", (2, 2)))
        im = data if cfg["form"] == "array" else ph._Holder(data)
        if cfg["form"] == "ccd" and not ctx.sym:
            from astropy.nddata import CCDData
            im = CCDData(data, unit="adu")
        w.add("image", im if not hasattr(im, "unit") else im.data)
        w.add("pixels", data)
        kw = dict(mask_background=True) if cfg["mask_bg"] else {}
        out, fill = [], ctx.real("fill")
        for rnd in ("first call", "second call"):
            o = ctx.call(ctx.impl.segmentation.masked_segm_image, q, im, seg, fill=fill, **kw)
            if not ctx.check_call(rnd, o):
                return
            w.check(rnd)
            v = o.value
            out.append(flat(ctx, v if isinstance(v, np.ndarray) else v.data))
        ctx.observe("image", out[0])
        for i, (x, y) in enumerate(zip(*out)):
            w.value("repeated pixel %d" % i, y, x)
        # what is done to the result does not reach the original
        v = o.value if isinstance(o.value, np.ndarray) else o.value.data
        v[0, 0] = 12345.0
        w.check("after writing to the result")

    def run_source(self, ctx, cfg):
        shape = (7, 8)
        det, lab, Seg, Cat = ph.real_source(shape, ph.BLOBS[cfg["blob"]], ph.OTHER[cfg["blob"]])
        segm = Seg(lab.copy())
        src = Cat(det, segm)[0]
        w = Watch(ctx)
        im = w.add("image", ctx.array(ph.image(ctx, "i", shape)))
        R = w.add("r_list", [1.0, 1.8])
        kw = dict(cutout_size=cfg["size"], mask_background=cfg["mask_bg"])
        if cfg["bg"]:
            kw.update(bg_sub=True, sigma=20.0)
        if cfg["err"]:
            kw["error"] = w.add("error", ctx.array(ph.image(ctx, "e", shape, 0, 16)))
        self.twice(ctx, ctx.impl.segmentation.source_photometry, w, src, im, segm, R, **kw)
        ctx.check("label map kept", bool((np.asarray(segm.data) == lab).all()))

    # ---- helpers
    def run_resample(self, ctx, cfg):
        w = Watch(ctx)
        form = cfg.get("form", "array")
        x, y = w.add("x", self.seq(ctx, form, [0.0, 1.0, 2.5, 3.0])), w.add("y", self.seq(ctx, form, ctx.reals("y", 4)))
        self.twice(ctx, ctx.impl.utils.get_interpolated_values, w, x, y, num=5, kind=cfg["kind"])

    def run_nearest(self, ctx, cfg):
        w = Watch(ctx)
        a = w.add("array", self.seq(ctx, cfg["form"], ctx.reals("a", 3)))
        self.twice(ctx, ctx.impl.utils.closest_value_index, w, ctx.real("v"), a, growing=cfg["grow"])

    def run_order(self, ctx, cfg):
        w = Watch(ctx)
        a = ctx.reals("v", 3)
        if ctx.sym:
            col = w.add("column", ctx.array(a))
            cat = ph._Cat({"area": col, "label": ctx.array([1, 2, 3], "i")})
        else:
            from astropy.table import Table
            t = Table()
            t["area"], t["label"] = ctx.array(a), np.arange(1, 4)
            cat = ph._Cat(t)
            w.add("column", t["area"].data)
        self.twice(ctx, ctx.impl.segmentation.order_cat, w, cat, reverse=cfg["reverse"])

    def run_sort(self, ctx, cfg):
        names = ["b%d" % ctx.choice("k", [3, 10, 21]), "b2", "a11", "A3"]
        w = Watch(ctx)
        w.add("names", names)
        o = ctx.call(ctx.impl.utils.natural_sort, names)
        if ctx.check_call("sorting", o):
            w.check("sorting")
            o2 = ctx.call(ctx.impl.utils.natural_sort, names)
            ctx.check("sorted again alike", o2.ok and list(o.value) == list(o2.value))

    def run_subtract(self, ctx, cfg):
        w = Watch(ctx)
        im, t = w.add("image", ctx.array(ph.image(ctx, "i", (4, 5)))), w.add("target", ctx.array(ph.image(ctx, "t", (2, 2))))
        v = self.twice(ctx, ctx.impl.utils.cutout_subtract, w, im, t, 2, 1)
        if v is not None:
            v[0, 0] = 12345.0
            v[1, 2] = 54321.0
            w.check("after writing to the result")

    def run_mags(self, ctx, cfg):
        w = Watch(ctx)
        h = w.add("header", {"PHOTFLAM": 2.5e-19, "PHOTPLAM": 12500.0, "PHOTZPT": -21.1})
        f = w.add("flux", ctx.array(ctx.reals("f", 2, 1, 64)))
        self.twice(ctx, ctx.impl.utils.hst_flux_to_abmag, w, f, h)

    def run_apertures(self, ctx, cfg):
        w = Watch(ctx)
        pos = w.add("position", [ctx.real("x"), ctx.real("y")])
        p = ctx.impl.photometry
        r = ctx.real("r", 0.5, 8)
        for k in range(2):
            if cfg["what"] == "aperture":
                o = ctx.call(p.radial_elliptical_aperture, pos, r, elong=1.5, theta=0.25)
            else:
                o = ctx.call(p.radial_elliptical_annulus, pos, r, 1.0, elong=1.5, theta=0.25)
            if not ctx.check_call("aperture", o):
                return
            w.check("aperture")
