"""Detection, deblending and catalogue plumbing (C39) and default fit bounds (C40)."""
import math

import numpy as np

from symx import core as c
from symx.harness import Prop, prop

from .display import CCD, Cutout, Pyplot

nan = float("nan")


class Segmentation:
    def __init__(self, data, name):
        self.data, self.name = data, name
        self.shape = np.shape(data)
        self.nlabels, self.max_label, self.labels = 2, 2, [1, 2]

    def make_cmap(self, *a, **k):
        return self.name + " colours"

    def copy(self):
        return self


class Catalogue:
    def __init__(self, args):
        self.args = args


class Library:
    """photutils' detection functions: every call is recorded, the results are distinguishable objects"""
    DEFAULTS = dict(connectivity=8, mask=None, mode="exponential", labels=None, relabel=True, nproc=1, error=None, background=None, convolved_data=None, kernel=None,
                    localbkg_width=0, apermask_method="correct", kron_params=None, detection_cat=None)

    def __init__(self):
        self.detected, self.deblended, self.catalogued = [], [], []

    def other(self, kw):
        return {k: v for k, v in kw.items() if k != "progress_bar" and not (k in self.DEFAULTS and self.DEFAULTS[k] == v)}

    def detect_sources(self, data, threshold, npixels, *a, **kw):
        s = Segmentation(np.array([[1] * np.shape(data)[1]] * np.shape(data)[0]), "segmentation")
        self.detected.append(dict(data=data, threshold=threshold, npixels=npixels, rest=a, kw=self.other(kw), out=s))
        return s

    def deblend_sources(self, data, segment_img, npixels, *a, nlevels=32, contrast=0.001, **kw):
        s = Segmentation(np.array([[2] * np.shape(data)[1]] * np.shape(data)[0]), "deblended")
        self.deblended.append(dict(data=data, segm=segment_img, npixels=npixels, nlevels=nlevels, contrast=contrast, rest=a, kw=self.other(kw), out=s))
        return s

    def SourceCatalog(self, data, segment_img, *a, wcs=None, **kw):
        cat = Catalogue(dict(data=data, segm=segment_img, wcs=wcs, rest=a, kw=self.other(kw)))
        self.catalogued.append(cat)
        return cat


@prop
class C39(Prop):
    id = "C39"
    strict = False
    bounds = "images of 2x3 and 3x2 pixels, every pixel value, scalar and per-pixel thresholds of every value, every npixels, nlevels and contrast, deblending and plotting on, off and at their defaults, arrays and image objects, with and without a sky coordinate system; label maps with every 0/1 pattern on six pixels for the residual plot"
    outside = "photutils' detection, deblending and catalogue measurements themselves; images in which nothing is detected"
    assumptions = ("photutils detection is replaced by functions that record what they are given", "matplotlib is replaced by a recorder")

    def configs(self, tier):
        out = []
        n = 0
        for sh in ([2, 3], [3, 2]):
            for form in ("array", "ccd", "cutout"):
                for deb in ("default", True, False):
                    for plot in ("default", True, False):
                        n += 1
                        if tier == "quick" and sh == [3, 2] and n % 3:
                            continue
                        out.append(dict(what="catalogue", shape=sh, form=form, deblend=deb, plot=plot, thr="array" if n % 2 else "scalar", wcs=n % 3 == 0, opts=n % 4 != 0))
            out.append(dict(what="residual", shape=sh))
            out.append(dict(what="steps", shape=sh, opts=True))
            out.append(dict(what="steps", shape=sh, opts=False))
        return out

    def over(self, ctx, cfg):
        ctx.plt = Pyplot()
        self.lib = L = Library()
        return {"matplotlib.pyplot": ctx.plt, "astropy.nddata.CCDData": CCD, "astropy.nddata.Cutout2D": Cutout, "photutils.segmentation.detect_sources": L.detect_sources,
                "photutils.segmentation.deblend_sources": L.deblend_sources, "photutils.segmentation.SourceCatalog": L.SourceCatalog}

    def run(self, ctx, cfg):
        seg = ctx.impl.segmentation
        ny, nx = cfg["shape"]
        I = [[ctx.real("i%d_%d" % (j, i), -64, 64) for i in range(nx)] for j in range(ny)]
        flat = sum(I, [])
        image = ctx.array(I)
        if cfg["what"] == "residual":
            return self.residual(ctx, cfg, seg, image, flat)
        L = self.lib
        thr = ctx.real("thr", -8, 8)
        if cfg.get("thr") == "array":
            T = [[ctx.real("t%d_%d" % (j, i), -8, 8) for i in range(nx)] for j in range(ny)]
            thr = ctx.array(T)
        npix = ctx.int("npixels", 1, 500)
        opts = dict(nlevels=ctx.int("nlevels", 2, 100), contrast=ctx.real("contrast", 0, 1)) if cfg["opts"] else {}
        if cfg["what"] == "steps":
            o = ctx.call(seg.make_segments, image, npixels=npix, threshold=thr)
            if not ctx.check_call("make_segments", o) or not ctx.check("the segmentation is returned", len(L.detected) == 1 and o.value is L.detected[0]["out"]):
                return
            self.detection(ctx, image, flat, thr, npix)
            o = ctx.call(seg.deblend_segments, image, o.value, npixels=npix, **opts)
            if ctx.check_call("deblend_segments", o) and ctx.check("the deblended map is returned", len(L.deblended) == 1 and o.value is L.deblended[0]["out"]):
                self.deblending(ctx, image, flat, npix, opts)
            return
        held = {"array": lambda v: v, "ccd": CCD, "cutout": Cutout}[cfg["form"]](image)
        kw = dict(opts)
        for k in ("deblend", "plot"):
            if cfg[k] != "default":
                kw[k] = cfg[k]
        wcs = object() if cfg["wcs"] else None
        if wcs is not None:
            kw["wcs"] = wcs
        o = ctx.call(seg.make_catalog, held, threshold=thr, npixels=npix, **kw)
        if not ctx.check_call("make_catalog", o):
            return
        if not ctx.check("three results", len(o.value) == 3):
            return
        drawn = ctx.plt.named("imshow")
        if cfg["plot"] is False:
            ctx.check("nothing is drawn unless asked for", not drawn and not ctx.plt.made, str(len(drawn)))
        elif cfg["plot"] is True:
            ctx.check("the maps are drawn when asked for", len(drawn) > 0)
        cat, segm, deb = o.value
        want_deb = cfg["deblend"] is not False
        if not ctx.check("one detection, one catalogue", len(L.detected) == 1 and len(L.catalogued) == 1 and len(L.deblended) == want_deb):
            return
        self.detection(ctx, image, flat, thr, npix)
        ctx.check("the segmentation is returned", segm is L.detected[0]["out"])
        if want_deb:
            self.deblending(ctx, image, flat, npix, opts)
            ctx.check("the deblended map is returned", deb is L.deblended[0]["out"])
        else:
            ctx.check("no deblended map", deb is None)
        ctx.check("the catalogue is returned", cat is L.catalogued[0])
        a = cat.args
        ctx.check("the catalogue describes the %s map" % ("deblended" if want_deb else "detected"), a["segm"] is (deb if want_deb else segm))
        self.pixels(ctx, "catalogue", a["data"], flat, cfg["shape"])
        ctx.check("the catalogue's coordinate system", a["wcs"] is wcs)
        ctx.check("no other catalogue option", not a["rest"] and not a["kw"], str(sorted(a["kw"])))
        ctx.check_eq_arr("the image is left as it was", ctx.flat(image), flat)

    def pixels(self, ctx, label, data, flat, shape):
        if ctx.check(label + ": the image's pixels", ctx.shape(data) == tuple(shape), str(ctx.shape(data))):
            ctx.check_eq_arr(label + ": pixel", ctx.flat(data), flat)

    def number(self, ctx, label, got, want):
        if np.ndim(want):
            if ctx.check(label + " is per pixel", ctx.shape(got) == ctx.shape(want)):
                ctx.check_eq_arr(label, ctx.flat(got), ctx.flat(want))
        elif ctx.check(label + " is a number", got is not None and np.ndim(c.unwrap0(got)) == 0):
            ctx.check_eq(label, c.unwrap0(got), want)

    def detection(self, ctx, image, flat, thr, npix):
        d = self.lib.detected[0]
        self.pixels(ctx, "detection", d["data"], flat, ctx.shape(image))
        self.number(ctx, "threshold", d["threshold"], thr)
        self.number(ctx, "npixels", d["npixels"], npix)
        ctx.check("no other detection option", not d["rest"] and not d["kw"], str(sorted(d["kw"])))

    def deblending(self, ctx, image, flat, npix, opts):
        d = self.lib.deblended[0]
        self.pixels(ctx, "deblending", d["data"], flat, ctx.shape(image))
        ctx.check("the detected map is deblended", d["segm"] is self.lib.detected[0]["out"])
        self.number(ctx, "npixels for deblending", d["npixels"], npix)
        self.number(ctx, "nlevels", d["nlevels"], opts.get("nlevels", 30))
        self.number(ctx, "contrast", d["contrast"], opts.get("contrast", 0.001))
        ctx.check("no other deblending option", not d["rest"] and not d["kw"], str(sorted(d["kw"])))

    def residual(self, ctx, cfg, seg, image, flat):
        ny, nx = cfg["shape"]
        lab = [[int(bool(ctx.bool("l%d_%d" % (j, i)))) * (1 + (i + j) % 3) for i in range(nx)] for j in range(ny)]
        sm = Segmentation(np.array(lab), "map")
        o = ctx.call(seg.plot_segment_residual, sm, image)
        if not ctx.check_call("plot_segment_residual", o):
            return
        ctx.check_eq_arr("the image is left as it was", ctx.flat(image), flat)
        ctx.check("the map is left as it was", np.array_equal(sm.data, np.array(lab)))
        shows = ctx.plt.named("imshow")
        if ctx.check("one image drawn", len(shows) == 1):
            want = [0.0 if l else v for l, v in zip(sum(lab, []), flat)]
            ctx.check_eq_arr("sources blanked", ctx.flat(shows[0][2][0]), want)


PARAMS = dict(sersic=("amplitude", "r_eff", "n", "x_0", "y_0", "ellip", "theta"))
PARAMS["gen"] = PARAMS["sersic"] + ("c_0",)
DEFAULT = dict(amplitude=(0.0, None), r_eff=(0.001, None), n=(0.1, 10.0), ellip=(0.0, 0.99), theta=(-2 * math.pi, 2 * math.pi))


@prop
class C40(Prop):
    id = "C40"
    bounds = "every subset of up to three overridden parameters (and extra ones such as the centre) with every real pair or open limit, up to three calls in a row for both profiles, the returned dictionaries changed between the calls"
    outside = "nothing beyond the number of calls"

    def configs(self, tier):
        out = []
        sets = ([], ["n"], ["x_0", "y_0"], ["amplitude", "c_0"], ["ellip", "theta", "x_0"], ["r_eff", "n", "y_0"])
        for first in ("sersic", "gen"):
            for second in ("sersic", "gen"):
                for i, s in enumerate(sets):
                    out.append(dict(seq=[first, second, first], over=s, edit=bool(i % 2), how=("pos", "kw", "none")[i % 3] if not s else ("pos", "kw")[i % 2]))
        return out

    def run(self, ctx, cfg):
        mod = ctx.impl.models
        f = dict(sersic=mod.get_default_sersic_bounds, gen=mod.get_default_gen_sersic_bounds)
        over = {}
        for k in cfg["over"]:
            lo, hi = ctx.real(k + "_lo", -100, 100), ctx.real(k + "_hi", -100, 100)
            form = ctx.choice("form_" + k, ["both", "low", "high"])
            over[k] = (lo if form != "high" else None, hi if form != "low" else None)
        kept = dict(over)
        for i, kind in enumerate(cfg["seq"]):
            use = over if i != 1 else {}
            if cfg["how"] == "none" or (i == 1 and cfg["edit"]):
                o = ctx.call(f[kind])
                use = {}
            elif cfg["how"] == "pos":
                o = ctx.call(f[kind], use)
            else:
                o = ctx.call(f[kind], override=use)
            if not ctx.check_call("call %d" % i, o):
                return
            want = dict(DEFAULT)
            if kind == "gen":
                want["c_0"] = (0.0, 2.0)
            want.update(use)
            got = o.value
            if not ctx.check("call %d: the bounded parameters" % i, set(got) == set(want), str(sorted(got))):
                return
            for k in want:
                ctx.check("call %d: %s has two limits" % (i, k), len(got[k]) == 2)
                for s, g, w in zip(("lower", "upper"), got[k], want[k]):
                    if w is None:
                        ctx.check("call %d: no %s limit of %s" % (i, s, k), g is None)
                    elif ctx.check("call %d: a %s limit of %s" % (i, s, k), g is not None):
                        ctx.check_eq("call %d: %s limit of %s" % (i, s, k), g, w)
            ctx.check("call %d: the override is left as it was" % i, list(over) == list(kept) and all(over[k] is kept[k] for k in kept) and got is not over)
            if cfg["edit"]:
                got["n"] = (5, 6)
                got["extra"] = (1, 2)
                got.pop("theta")


class Isophotes:
    """photutils' isophote fitter: records the geometry and radius it is asked for"""

    def __init__(self, ctx, cfg):
        self.ctx, self.cfg, self.geo, self.fits = ctx, cfg, [], []
        lib = self

        class EllipseGeometry:
            def __init__(self, x0, y0, sma, eps, pa, astep=0.1, linear_growth=False, fix_center=False, fix_pa=False, fix_eps=False):
                self.x0, self.y0, self.sma, self.eps, self.pa = x0, y0, sma, eps, pa
                self.rest = (astep, linear_growth, fix_center, fix_pa, fix_eps)
                lib.geo.append(self)

        class Iso:
            intens = ctx.real("intens", -100, 100)
            sma = eps = pa = int_err = rms = pix_stddev = grad = 12345.0
            valid, stop_code = True, 0

        class Ellipse:
            def __init__(self, image, geometry=None, threshold=0.1):
                self.image, self.geometry, self.threshold = image, geometry, threshold

            def fit_isophote(self, sma, *a, **k):
                lib.fits.append((self, sma, a, k))
                if cfg.get("fail"):
                    raise [ValueError, RuntimeError, IndexError][cfg["fail"] - 1]("no isophote")
                return Iso()
        self.EllipseGeometry, self.Ellipse = EllipseGeometry, Ellipse


@prop
class C42(Prop):
    id = "C42"
    strict = False
    bounds = "images of 2x3 and 3x2 pixels, arrays and image objects, every centre, radius, ellipticity and angle, every intensity found, three kinds of failure of the isophote fitter; catalogues of 1-3 positions with every right ascension and declination, three units"
    outside = "the isophote fit and the sphere geometry themselves (photutils, astropy)"
    assumptions = ("photutils' isophote fitter and astropy's SkyCoord are replaced by stand-ins that record what they are given",)

    def configs(self, tier):
        out = [dict(what="isophote", shape=sh, form=f, fail=fail, rint=(i + (fail or 0)) % 2 == 1) for sh in ([2, 3], [3, 2]) for i, f in enumerate(("array", "ccd", "cutout")) for fail in (0, 1, 2, 3)]
        out += [dict(what="match", n=[a, b], unit=un) for a, b in ((1, 2), (3, 2), (2, 3)) for un in (None, "deg", "rad", "hourangle")]
        return out

    def over(self, ctx, cfg):
        if cfg["what"] == "match":
            log = self.coords = []

            class SkyCoord:
                def __init__(self, ra=None, dec=None, unit=None, **k):
                    self.ra, self.dec, self.unit, self.rest = ra, dec, unit, k

                def match_to_catalog_sky(self, other, nthneighbor=1):
                    log.append((self, other, nthneighbor))
                    return "index", "angle", "distance"
            self.SkyCoord = SkyCoord
            return {"astropy.coordinates.SkyCoord": SkyCoord}
        self.iso = L = Isophotes(ctx, cfg)
        return {"astropy.nddata.CCDData": CCD, "astropy.nddata.Cutout2D": Cutout, "photutils.isophote.EllipseGeometry": L.EllipseGeometry, "photutils.isophote.Ellipse": L.Ellipse}

    def run(self, ctx, cfg):
        if cfg["what"] == "match":
            return self.match(ctx, cfg)
        ny, nx = cfg["shape"]
        I = [[ctx.real("i%d_%d" % (j, i), -64, 64) for i in range(nx)] for j in range(ny)]
        image = ctx.array(I)
        held = {"array": lambda v: v, "ccd": CCD, "cutout": Cutout}[cfg["form"]](image)
        r = ctx.int("r", 1, 64) if cfg["rint"] else ctx.real("r", 0.125, 64)
        x0, y0, e, th = ctx.real("x0", -64, 64), ctx.real("y0", -64, 64), ctx.real("ellip", 0, 0.9375), ctx.real("theta", -7, 7)
        o = ctx.call(ctx.impl.segmentation.get_amplitude_at_r, r, held, x0, y0, e, th)
        L = self.iso
        if not ctx.check_call("get_amplitude_at_r", o) or not ctx.check("one isophote fitted", len(L.fits) == 1):
            return
        el, sma, a, k = L.fits[0]
        ctx.check_eq("fitted at the radius", c.unwrap0(sma), r)
        ctx.check("no other fit option", not a and not k)
        g = el.geometry
        if ctx.check("with a geometry", g in L.geo):
            for n, got, want in (("x centre", g.x0, x0), ("y centre", g.y0, y0), ("ellipticity", g.eps, e), ("angle", g.pa, th)):
                ctx.check_eq(n, c.unwrap0(got), want)
            ctx.check("nothing else is fixed", g.rest == (0.1, False, False, False, False))
        if ctx.check("the image's pixels", ctx.shape(el.image) == (ny, nx), str(type(el.image))):
            ctx.check_eq_arr("pixel", ctx.flat(el.image), sum(I, []))
        ctx.observe("amplitude", o.value)
        if cfg["fail"]:
            ctx.check("undefined if the fit fails", ctx.isnan(c.unwrap0(o.value)))
        else:
            ctx.check_eq("the intensity of the isophote", c.unwrap0(o.value), ctx.real("intens", -100, 100))
        ctx.check_eq_arr("the image is left as it was", ctx.flat(image), sum(I, []))

    def match(self, ctx, cfg):
        a, b = cfg["n"]
        v = [ctx.reals("ra1_", a, 0, 6), ctx.reals("dec1_", a, -1, 1), ctx.reals("ra2_", b, 0, 6), ctx.reals("dec2_", b, -1, 1)]
        kw = {} if cfg["unit"] is None else dict(unit=cfg["unit"])
        o = ctx.call(ctx.impl.utils.match_catalogs, *[ctx.array(x) for x in v], **kw)
        if not ctx.check_call("match_catalogs", o) or not ctx.check("one match", len(self.coords) == 1):
            return
        one, two, nth = self.coords[0]
        ctx.check("the nearest neighbour", nth == 1)
        ctx.check("index, angle and distance are returned", tuple(o.value) == ("index", "angle", "distance"))
        for n, cat, ra, dec in (("first", one, v[0], v[1]), ("second", two, v[2], v[3])):
            if ctx.check(n + " catalogue is a sky position", isinstance(cat, self.SkyCoord) and cat.ra is not None and cat.dec is not None):
                ctx.check_eq_arr(n + " right ascension", ctx.flat(cat.ra), ra)
                ctx.check_eq_arr(n + " declination", ctx.flat(cat.dec), dec)
                un = cat.unit if isinstance(cat.unit, (tuple, list)) else (cat.unit, cat.unit)
                ctx.check(n + " unit", [str(x) for x in un] == [cfg["unit"] or "deg"] * 2, str(un))
                ctx.check(n + ": no other option", not cat.rest)
