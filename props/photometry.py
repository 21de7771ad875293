"""Apertures, radial photometry, source photometry, segmentation masks, catalogues (C15-C20)."""
import functools

import numpy as np

from symx import core as c, arr, shims
from symx.harness import Prop, prop
from symx.masked import SymMasked

nan = float("nan")
ROUND = 1.1e-6


@prop
class C15(Prop):
    id = "C15"
    bounds = "every position, radius, thickness, elongation and orientation; integer and real radii; tuple, list and array positions; defaults"
    assumptions = ("an aperture is identified by the attributes photutils documents (positions, semi-axes, theta)",)

    def configs(self, tier):
        out = []
        for w in ("aperture", "annulus"):
            for pos in ("tuple", "list", "array"):
                out.append(dict(what=w, pos=pos, form="real", default=False, call="pos"))
            out += [dict(what=w, pos="tuple", form="int", default=False, call="pos"), dict(what=w, pos="tuple", form="real", default=True, call="pos"),
                    dict(what=w, pos="tuple", form="real", default=False, call="kw"), dict(what=w, pos="tuple", form="int", default=True, call="kw"),
                    dict(what=w, pos="tuple", form="round", default=False, call="kw")]
        return out

    def run(self, ctx, cfg):
        p = ctx.impl.photometry
        x, y = ctx.reals("p", 2)
        if cfg["form"] == "int":
            r, dr = ctx.int("r", 1, 40), ctx.int("dr", 1, 20)
        else:
            r, dr = ctx.real("r", 0.0625, 64), ctx.real("dr", 0.0625, 64)
        if cfg["default"]:
            e, t, kw = 1.0, 0.0, {}
        else:
            e = ctx.real("elong", 1, 16) if cfg["form"] != "round" else 1.0
            t = ctx.real("theta", -8, 8)
            kw = dict(elong=e, theta=t)
        P = (x, y) if cfg["pos"] == "tuple" else [x, y] if cfg["pos"] == "list" else ctx.array([x, y])
        if cfg["what"] == "aperture":
            a = (P, r) if cfg["call"] == "pos" else ()
            k = dict(kw) if cfg["call"] == "pos" else dict(kw, position=P, r=r)
            out = ctx.call(p.radial_elliptical_aperture, *a, **k)
        else:
            a = (P, r, dr) if cfg["call"] == "pos" else ()
            k = dict(kw) if cfg["call"] == "pos" else dict(kw, position=P, r=r, dr=dr)
            out = ctx.call(p.radial_elliptical_annulus, *a, **k)
        if not ctx.check_call(cfg["what"], out):
            return
        ap = out.value
        pos = ctx.flat(ap.positions)
        if not ctx.check("one position", len(pos) == 2):
            return
        ctx.check_eq("centre x", pos[0], x)
        ctx.check_eq("centre y", pos[1], y)
        th = getattr(ap.theta, "value", ap.theta)
        ctx.observe("theta", th)
        if not c.is_sym(th) and not cfg["default"] and not ctx.sym and hasattr(ap.theta, "unit"):
            th = ap.theta.to("rad").value
        ctx.check_eq("orientation", th, t)
        if cfg["what"] == "aperture":
            if not ctx.check("an ellipse", all(hasattr(ap, n) for n in ("a", "b"))):
                return
            ctx.check_eq("semi-major axis", ap.a, r)
            ctx.check_eq("semi-minor axis", ap.b * e, r)
        else:
            if not ctx.check("an elliptical annulus", all(hasattr(ap, n) for n in ("a_in", "a_out", "b_in", "b_out"))):
                return
            ctx.check_eq("inner semi-major axis", ap.a_in, r)
            ctx.check_eq("outer semi-major axis", ap.a_out, r + dr)
            ctx.check_eq("outer semi-minor axis", ap.b_out * e, r + dr)
            ctx.check_eq("inner semi-minor axis", ap.b_in * e, r)


@functools.lru_cache(maxsize=512)
def overlap(pos, r, elong, theta, shape, method):
    """overlap weights of the requested ellipse, from photutils itself (concrete geometry)"""
    from photutils.aperture import EllipticalAperture
    return EllipticalAperture(pos, r, r / elong, theta=theta).to_mask(method=method, subpixels=5).to_image(shape)


def image(ctx, name, shape, lo=-64, hi=64, kind="f"):
    ny, nx = shape
    if kind == "i":
        v = [[ctx.int("%s%d_%d" % (name, j, i), int(lo), int(hi)) for i in range(nx)] for j in range(ny)]
    else:
        v = [[ctx.real("%s%d_%d" % (name, j, i), lo, hi) for i in range(nx)] for j in range(ny)]
    return v


GEO = [dict(pos=(2.0, 1.5), e=1.0, t=0.0), dict(pos=(2.3, 1.2), e=2.0, t=0.7), dict(pos=(0.0, 3.0), e=1.5, t=-0.4), dict(pos=(3.6, 0.1), e=1.3, t=2.5)]


@prop
class C16(Prop):
    id = "C16"
    bounds = "images of 3x4 to 5x5 pixels with every pixel, error and mask value (NaN under the mask included); 1-4 radii in any order, 4 positions (on and off pixel centres, apertures partly off the image), 4 shapes, the three overlap methods"
    outside = "geometry values other than the listed ones (weights come from photutils for concrete geometry)"
    timeout_ms = 8000
    max_paths = 300

    def configs(self, tier):
        out = []
        rl = [[1.0, 2.0], [2.5, 0.7, 2.5], [0.6, 1.1, 1.9, 3.0]]
        for g in range(len(GEO)):
            for m in ("exact", "center", "subpixel"):
                for err, mask in ((False, None), (True, "sym"), (True, None), (True, "nan"), (False, "nan"), (False, "sym")):
                    if tier == "quick" and (g + len(m) + err + (mask is not None)) % 2:
                        continue
                    out.append(dict(g=g, method=m, err=err, mask=mask, r=rl[(g + len(m)) % 3], shape=[3, 4] if g % 2 else [4, 4], form="f"))
        out += [dict(g=0, method="exact", err=True, mask="sym", r=[1, 2], shape=[4, 4], form="i"), dict(g=1, method="exact", err=False, mask=None, r=[1.5], shape=[3, 4], form="i"),
                dict(g=0, method="default", err=True, mask=None, r=[0.5, 1.5, 1.0], shape=[4, 4], form="default"), dict(g=3, method="exact", err=True, mask="all", r=[1.5], shape=[3, 4], form="f"),
                dict(g=1, method="exact", err=True, mask="nan", r=[2.0, 1.0], shape=[3, 4], form="rarray"), dict(g=2, method="exact", err=True, mask="none", r=[2.0, 1.0], shape=[4, 4], form="f")]
        # brightness does not matter: counts of tens of millions per pixel
        out += [dict(g=0, method="exact", err=e, mask=None, r=[1.5], shape=[3, 3], form="big") for e in (False, True)]
        if tier == "thorough":
            out += [dict(g=g, method="exact", err=True, mask="sym", r=rl[2], shape=[5, 5], form="f") for g in range(len(GEO))]
            out += [dict(g=g, method="exact", err=True, mask="nan", r=rl[1], shape=[4, 6], form="f") for g in range(len(GEO))]
        return out

    def run(self, ctx, cfg):
        ny, nx = shape = tuple(cfg["shape"])
        g = GEO[cfg["g"]]
        kind = "i" if cfg["form"] == "i" else "f"
        big = 2.0 ** 24 if cfg["form"] == "big" else 64
        I = image(ctx, "i", shape, -big, big, kind=kind)
        E = image(ctx, "e", shape, 0, 64) if cfg["err"] else None
        M = None
        mk = cfg["mask"]
        if mk == "sym":
            M = [[ctx.bool("m%d_%d" % (j, i)) for i in range(nx)] for j in range(ny)]
        elif mk in ("nan", "all", "none"):
            M = [[(mk == "none") or (mk == "nan" and (2 * i + j) % 3 != 0) for i in range(nx)] for j in range(ny)]
            if mk != "none":
                for j in range(ny):
                    for i in range(nx):
                        if not M[j][i]:
                            I[j][i] = nan
                            if E is not None:
                                E[j][i] = nan
        kw = dict(elong=g["e"], theta=g["t"])
        if cfg["method"] != "default":
            kw["method"] = cfg["method"]
        elong, theta = g["e"], g["t"]
        if cfg["form"] == "default":
            del kw["elong"], kw["theta"]
            elong, theta = 1.0, 0.0
        if E is not None:
            kw["error"] = ctx.array(E)
        if M is not None:
            kw["mask"] = ctx.array(M, "b")
        R = cfg["r"]
        rl = ctx.array(R) if cfg["form"] == "rarray" else list(R)
        out = ctx.call(ctx.impl.photometry.radial_photometry, ctx.array(I, kind), g["pos"], rl, **kw)
        if not ctx.check_call("radial_photometry", out):
            return
        flux, area, err = [ctx.flat(v) for v in out.value]
        ctx.observe("flux", flux)
        ctx.observe("area", area)
        ctx.observe("err", err)
        if not ctx.check("one value per radius", len(flux) == len(area) == len(err) == len(R)):
            return
        for k, r in enumerate(R):
            w = overlap(g["pos"], float(r), elong, theta, shape, "exact" if cfg["method"] == "default" else cfg["method"])
            tf, ta, te = [0.0], [0.0], [0.0]
            for j in range(ny):
                for i in range(nx):
                    wv = float(w[j, i])
                    if wv <= 0:
                        continue
                    on = True if M is None else M[j][i]
                    if on is False:
                        continue
                    tf.append(ctx.ite(on, wv * I[j][i], 0.0))
                    ta.append(ctx.ite(on, wv, 0.0))
                    if E is not None:
                        te.append(ctx.ite(on, wv * E[j][i] * E[j][i], 0.0))
            near = lambda a, b: ctx.abs(a - b) <= ROUND
            ctx.check("flux at radius %d" % k, self.num(flux[k]) and near(flux[k], ctx.sum(tf)))
            ctx.check("area at radius %d" % k, self.num(area[k]) and near(area[k], ctx.sum(ta)))
            if E is None:
                ctx.check("error is NaN without an error map", ctx.isnan(err[k]))
            elif ctx.check("error is a number", self.num(err[k])):
                # sqrt(T) - R <= err <= sqrt(T) + R, without the root
                T = ctx.sum(te)
                v = err[k]
                ctx.check("error at radius %d" % k, near(v, ctx.sqrt(T)))

    @staticmethod
    def num(v):
        return c.ok(v) and not c.is_nan(v)


class Nested:
    """apertures that are only known to be nested: overlap weights are unknown, between 0 and 1, growing with the radius"""

    def __init__(self, ctx, shape, n, unit):
        self.ctx, self.shape, self.unit = ctx, shape, unit
        self.w = []
        for k in range(n):
            w = [[ctx.real("w%d_%d_%d" % (k, j, i), 0, 1) for i in range(shape[1])] for j in range(shape[0])]
            if k:
                for a, b in zip(sum(self.w[-1], []), sum(w, [])):
                    ctx.assume(a <= b)
            self.w.append(w)

    def at(self, r):
        """one unit -> first, two units -> second, ..."""
        return self.w[int(round(float(r) / self.unit)) - 1]


@prop
class C17(Prop):
    id = "C17"
    bounds = "images of up to 3x4 pixels: (a) every nested weighting with concrete non-negative images and every error map scale; (b) every non-negative image and mask with photutils' weights and a concrete error map, 3-4 increasing radii from a twentieth of a pixel to beyond the image"
    outside = "larger images; apertures that do not overlap the image (refused by design)"
    assumptions = ("(a) an aperture's photometry is the weighted sum of the unmasked pixels with weights in [0, 1] growing with the radius",)
    timeout_ms = 8000
    max_paths = 300

    def configs(self, tier):
        out = [dict(what="nested", shape=[2, 3], n=n, mask=m, img=k, unit=(1.0, 0.15, 40.0)[(n + m + k) % 3]) for n in (2, 3) for m in (False, True) for k in (0, 1)]
        radii = [[0.8, 1.6, 2.7], [0.2, 0.45, 0.55], [0.5, 0.51, 1.0, 5.0], [0.05, 3.0, 12.0]]
        n = 0
        for g in range(len(GEO)):
            for m in ("exact", "center") if tier == "quick" else ("exact", "center", "subpixel"):
                for mk in (None, "sym", "conc"):
                    n += 1
                    for q in (n % 4,) if tier == "quick" else range(4):
                        # (an aperture that misses the image altogether has no photometry: petrofit refuses it)
                        shape = {2: [4, 3], 3: [3, 5]}.get(g, [3, 4]) if tier == "quick" else [4, 5]
                        out.append(dict(what="real", g=g, method=m, mask=mk, shape=shape, r=radii[q]))
        return out

    def over(self, ctx, cfg):
        if cfg["what"] != "nested":
            return {}
        nest = self.nest = Nested(ctx, cfg["shape"], cfg["n"], cfg["unit"])
        if ctx.sym:
            class EllipticalAperture(shims.EllipticalAperture):
                nonneg = True

                def weights(self, shape, method="exact", subpixels=5):
                    return arr.mk(nest.at(self.a), "f")
        else:
            from photutils.aperture import EllipticalAperture as R

            class EllipticalAperture(R):
                def do_photometry(self, data, error=None, mask=None, method="exact", subpixels=5):
                    w = np.array(nest.at(self.a))
                    on = (w > 0) if mask is None else (w > 0) & ~mask
                    s = np.array([(w * data)[on].sum()])
                    return s, (np.array([]) if error is None else np.array([np.sqrt((w * error ** 2)[on].sum())]))
        return {"photutils.aperture.EllipticalAperture": EllipticalAperture}

    def run(self, ctx, cfg):
        ny, nx = shape = tuple(cfg["shape"])
        M = None
        if cfg["what"] == "nested":
            V = [[(3 * j + 5 * i + 7 * cfg["img"]) % 8 * 0.5 + 0.25 * cfg["img"] for i in range(nx)] for j in range(ny)]
            E = [[(5 * j + 3 * i) % 4 * 0.5 for i in range(nx)] for j in range(ny)]
            R = [cfg["unit"] * (k + 1) for k in range(cfg["n"])]
            if cfg["mask"]:
                M = [[(i + j) % 3 != 1 for i in range(nx)] for j in range(ny)]
            g, kw = GEO[0], {}
        else:
            V = image(ctx, "i", shape, 0, 64)
            E = [[(5 * j + 3 * i) % 4 * 0.5 + 0.25 for i in range(nx)] for j in range(ny)]
            if cfg["mask"] == "sym":
                M = [[ctx.bool("m%d_%d" % (j, i)) if (i + j) % 2 else True for i in range(nx)] for j in range(ny)]
            elif cfg["mask"] == "conc":
                M = [[(i + j) % 3 != 1 for i in range(nx)] for j in range(ny)]
            R = cfg["r"]
            g = GEO[cfg["g"]]
            kw = dict(elong=g["e"], theta=g["t"], method=cfg["method"])
        if M is not None:
            kw["mask"] = ctx.array(M, "b")
        out = ctx.call(ctx.impl.photometry.radial_photometry, ctx.array(V), g["pos"], list(R), error=ctx.array(E), **kw)
        if not ctx.check_call("radial_photometry", out):
            return
        flux, area, err = [ctx.flat(v) for v in out.value]
        ctx.observe("flux", flux)
        ctx.observe("area", area)
        n = len(R)
        if not ctx.check("one value per radius", len(flux) == len(area) == len(err) == n):
            return
        on = [(V[j][i], True if M is None else M[j][i]) for j in range(ny) for i in range(nx)]
        count = ctx.sum([ctx.ite(m, 1.0, 0.0) for _, m in on])
        if cfg["what"] == "real":
            # any bounds of the unmasked pixels (two fixed ones where the area itself is unknown)
            lo, hi = (2.0, 5.0) if cfg["mask"] == "sym" else (ctx.real("lo", 0, 64), ctx.real("hi", 0, 64))
            within = ctx.And(*[ctx.Implies(m, ctx.And(lo <= v, v <= hi)) for v, m in on])
        else:
            lo, hi = min(v for v, m in on if m), max(v for v, m in on if m)
            within = True
        for k in range(n):
            for nm, v in (("flux", flux), ("area", area), ("error", err)):
                ctx.check_le("%s %d is not negative" % (nm, k), 0.0, v[k], 1e-9)
                if k:
                    ctx.check_le("%s does not shrink at %d" % (nm, k), v[k - 1], v[k], ROUND)
            ctx.check_le("area %d within the unmasked pixels" % k, area[k], count, ROUND)
            ctx.check("flux %d above the smallest pixel" % k, ctx.Implies(within, area[k] * lo - 70e-6 <= flux[k]))
            ctx.check("flux %d below the largest pixel" % k, ctx.Implies(within, flux[k] <= area[k] * hi + 70e-6))


def real_source(shape, blob, others=()):
    """a genuine photutils catalogue entry for a source of known pixels: [(x, y, value)]"""
    from photutils.segmentation import SegmentationImage, SourceCatalog
    lab = np.zeros(shape, dtype=int)
    det = np.zeros(shape)
    for k, pix in enumerate([blob] + list(others)):
        for x, y, v in pix:
            lab[y, x] = k + 1
            det[y, x] = v
    return det, lab, SegmentationImage, SourceCatalog


BLOBS = {
    # the peak is away from the centroid, the source is elongated and inclined
    "mid": [(3, 3, 9.0), (4, 3, 4.0), (4, 4, 5.0), (5, 4, 2.0), (3, 2, 1.0), (5, 5, 1.5)],
    "corner": [(0, 1, 9.0), (1, 1, 4.0), (0, 0, 3.0), (1, 2, 2.5), (2, 2, 2.0)],
    "edge": [(7, 2, 9.0), (6, 2, 4.0), (6, 3, 3.0), (5, 3, 2.0), (5, 4, 1.0)],
}
OTHER = {"mid": [[(5, 3, 3.0), (6, 3, 7.0), (6, 2, 2.0), (1, 2, 1.0)], [(2, 5, 3.0), (2, 6, 4.0)]],
         "corner": [[(2, 1, 3.0), (3, 1, 7.0)], [(0, 3, 3.0), (0, 4, 4.0)]],
         "edge": [[(7, 3, 3.0), (7, 4, 7.0)], [(4, 2, 1.0), (4, 1, 2.0), (3, 1, 3.0)]]}


@prop
class C18(Prop):
    id = "C18"
    bounds = "8x7 images with every pixel value and every error value, three sources (two contaminating neighbours), target in the middle, at a corner and at an edge, concrete catalogue entries with peak away from the centroid; 1-3 radii; default, even and odd cutouts; background masked or kept; background subtraction (planar; 'clip' mode with nothing clipped, 'bound' mode with symbolic sigma, background mean and deviation over a concrete background, the target's pixels symbolic); with and without plots"
    outside = "other label maps and image sizes; 'clip' mode with background pixels beyond the threshold; how sigma_clipped_stats finds the mean (stand-in)"
    assumptions = ("sigma clipping at sigma >= sqrt(N)+1 removes only NaN pixels", "LinearLSQFitter's parameters are linear in the data with coefficients read off the real fitter")
    timeout_ms = 8000
    max_paths = 250

    def configs(self, tier):
        out = []
        for b in BLOBS:
            for size in (None, 6, 5) if tier == "quick" else (None, 6, 5, 8, 10, 4):
                for mb in (False, True):
                    for err in (False, True):
                        if tier == "quick" and (len(b) + (size or 0) + mb + err) % 2:
                            continue
                        out.append(dict(blob=b, size=size, mask_bg=mb, err=err, bg=False, r=[1.0, 1.8], method="exact", which=0))
        out += [dict(blob="mid", size=6, mask_bg=False, err=True, bg=False, r=[2.0, 0.7, 1.2], method="center", which=0),
                dict(blob="mid", size=6, mask_bg=False, err=False, bg=False, r=[2.0, 1.2], method="exact", which=1),
                dict(blob="edge", size=None, mask_bg=False, err=True, bg=False, r=[1.5], method="subpixel", which=2)]
        # the cutout is never smaller than requested, and apertures larger than it are cut at its border
        out += [dict(blob=b, size=z, mask_bg=False, err=e, bg=False, r=r, method="exact", which=0) for b, z, e, r in (("mid", 5, True, [1.0, 2.75]), ("corner", 3, False, [0.8, 1.9]), ("edge", 6, True, [4.0, 2.0]), ("mid", 4, False, [3.3]))]
        # a cutout much larger than the image
        out.append(dict(blob="edge", size=22, mask_bg=False, err=False, bg=True, r=[1.0, 1.8], method="exact", which=0))
        for b in BLOBS:
            for size in (6, 8) if tier == "quick" else (6, 7, 8, 10):
                if b == "corner" and size < 8:
                    continue  # ten pixels or fewer: no subtraction
                out.append(dict(blob=b, size=size, mask_bg=False, err=False, bg=True, r=[1.0, 1.8], method="exact", which=0))
        out.append(dict(blob="mid", size=6, mask_bg=True, err=True, bg=True, r=[1.5], method="exact", which=0))
        out += [dict(blob=b, size=8 if b == "corner" else 6, mask_bg=m, err=m, bg=False, r=[1.0, 1.8], method="exact", which=0, plot=True) for b, m in (("mid", False), ("edge", True))]
        for b in BLOBS if tier == "thorough" else ("mid", "edge"):
            for mb in (False, True):
                if tier == "quick" and mb != (b == "edge"):
                    continue
                out.append(dict(blob=b, size=8 if b == "corner" else 6, mask_bg=mb, err=False, bg="bound", r=[1.0, 1.8], method="exact", which=0))
        return out

    def over(self, ctx, cfg):
        self.sigmas = sig = []
        self.noise = []
        o = {}
        if cfg.get("plot"):
            from .display import Pyplot
            ctx.plt = o["matplotlib.pyplot"] = Pyplot()
        if not cfg["bg"]:
            return o

        def stats(data, *a, **k):
            return self.noise[0], self.noise[0], self.noise[1]
        o["astropy.stats.sigma_clipped_stats"] = stats
        if ctx.sym:
            def sigma_clip(data, sigma=3, *a, **k):
                sig.append(sigma)
                d = arr.A(data)
                m = np.zeros(d.shape, dtype=bool)
                for ix in np.ndindex(*d.shape):
                    m[ix] = bool(c.is_nan(arr.nd(d)[ix]))
                return SymMasked(d, m)

            class LinearLSQFitter:
                def __init__(self, *a, **k):
                    self.fit_info = {}

                def __call__(self, model, x, y, z=None, weights=None, **k):
                    if weights is not None:
                        raise c.Unsupported("weighted background fit")
                    return shims.linear_fit(model, x, y, z)
            o["astropy.modeling.fitting.LinearLSQFitter"] = LinearLSQFitter
        else:
            from astropy.stats import sigma_clip as R

            def sigma_clip(data, sigma=3, *a, **k):
                sig.append(sigma)
                return R(data, sigma, *a, **k)
        o["astropy.stats.sigma_clip"] = sigma_clip
        return o

    def run(self, ctx, cfg):
        shape = (7, 8)
        ny, nx = shape
        det, lab, Seg, Cat = real_source(shape, BLOBS[cfg["blob"]], OTHER[cfg["blob"]])
        segm = Seg(lab.copy())
        src = Cat(det, segm)[cfg["which"]]
        label = cfg["which"] + 1
        px, py = int(src.maxval_xindex), int(src.maxval_yindex)
        I = image(ctx, "i", shape)
        E = image(ctx, "e", shape, 0, 16) if cfg["err"] else None
        SIG = 20.0
        R = cfg["r"]
        kw = dict(cutout_size=cfg["size"], mask_background=cfg["mask_bg"], method=cfg["method"])
        bound = cfg["bg"] == "bound"
        if cfg["bg"]:
            kw.update(bg_sub=True, sigma=SIG)
        if bound:
            # background and neighbours concrete: the cut decides which of them are fitted
            SIG = ctx.real("sigma", 0.5, 6)
            kw.update(sigma=SIG, sigma_type="bound")
            I = [[I[y][x] if lab[y, x] == label else ((5 * x + 3 * y) % 7 - 3) * 0.75 + 0.25 * x for x in range(nx)] for y in range(ny)]
            mean = ctx.real("mean", -1, 1)
            self.noise[:] = [mean, ctx.real("std", 0.25, 4)]
            size = int(np.ceil(max(R) * 3)) if cfg["size"] is None else cfg["size"]
            size += size % 2
            x0, y0 = px - size // 2, py - size // 2
            fit = [(x, y) for y in range(max(y0, 0), min(y0 + size, ny)) for x in range(max(x0, 0), min(x0 + size, nx)) if lab[y, x] == 0 and bool(ctx.abs(I[y][x] - mean) <= SIG)]
            if len(fit) < 4 or np.linalg.matrix_rank(np.array([[1.0, x, y] for x, y in fit])) < 3:
                return
        if cfg.get("plot"):
            kw["plot"] = True
        if E is not None:
            kw["error"] = ctx.array(E)
        im = ctx.array(I)
        out = ctx.call(ctx.impl.segmentation.source_photometry, src, im, segm, list(R), **kw)
        if not ctx.check_call("source_photometry", out):
            return
        flux, area, err = [ctx.flat(v) for v in out.value]
        ctx.observe("flux", flux)
        ctx.observe("area", area)
        if not ctx.check("one value per radius", len(flux) == len(area) == len(err) == len(R)):
            return
        size = int(np.ceil(max(R) * 3)) if cfg["size"] is None else cfg["size"]
        size += size % 2
        x0, y0 = px - size // 2, py - size // 2
        elong, theta = float(src.elongation.value), float(src.orientation.to("rad").value)
        # background model: least-squares plane through the unlabelled pixels of the cutout, in cutout coordinates
        B = {}
        subtracted = False
        if cfg["bg"]:
            if not bound:
                ctx.check("the requested clipping threshold", len(self.sigmas) >= 1 and all(float(s) == SIG for s in self.sigmas))
            bp = [(x, y) for y in range(max(y0, 0), min(y0 + size, ny)) for x in range(max(x0, 0), min(x0 + size, nx)) if lab[y, x] == 0]
            if len(bp) > 10:
                subtracted = True
                if bound:
                    bp = fit
                A = np.array([[1.0, x - px, y - py] for x, y in bp])
                G = np.linalg.pinv(A)
                co = [ctx.sum([float(q) * I[y][x] for q, (x, y) in zip(row, bp)]) for row in G]
                for y in range(ny):
                    for x in range(nx):
                        B[x, y] = co[0] + co[1] * float(x - px) + co[2] * float(y - py)
        # weights evaluated on a frame large enough to hold the cutout
        pad = size
        for k, r in enumerate(R):
            w = overlap((float(px + pad), float(py + pad)), float(r), elong, theta, (ny + 2 * pad, nx + 2 * pad), cfg["method"])
            tf, ta, te = [0.0], [0.0], [0.0]
            for y in range(max(y0, 0), min(y0 + size, ny)):
                for x in range(max(x0, 0), min(x0 + size, nx)):
                    wv = float(w[y + pad, x + pad])
                    if wv <= 0 or not (lab[y, x] == label or (lab[y, x] == 0 and not cfg["mask_bg"])):
                        continue
                    v = I[y][x] - B.get((x, y), 0.0)
                    if bound and subtracted:
                        v = ctx.ite(v < -SIG, -SIG, v)
                    tf.append(wv * v)
                    ta.append(wv)
                    if E is not None:
                        te.append(wv * E[y][x] * E[y][x])
            ctx.check("flux at radius %d" % k, C16.num(flux[k]) and ctx.abs(flux[k] - ctx.sum(tf)) <= 2 * ROUND)
            ctx.check("area at radius %d" % k, C16.num(area[k]) and ctx.abs(area[k] - ctx.sum(ta)) <= 2 * ROUND)
            if E is None:
                ctx.check("error is NaN without an error map", ctx.isnan(err[k]))
            elif ctx.check("error is a number", C16.num(err[k])):
                ctx.check("error at radius %d" % k, ctx.abs(err[k] - ctx.sqrt(ctx.sum(te))) <= 2 * ROUND)
        for j in range(ny):
            for i in range(nx):
                ctx.check_eq("image kept", ctx.flat(im)[j * nx + i], I[j][i])
        ctx.check("label map kept", bool((segm.data == lab).all()))
        if cfg.get("plot"):
            from .display import arg, one
            curves = []
            for e in ctx.plt.named("plot", "errorbar", "scatter"):
                u, v = arg(e, 0, ("x",)), arg(e, 1, ("y",))
                if v is not None and one(u) is None and len(u) == len(v) == len(R) and all(float(c.unwrap0(p)) == float(q) for p, q in zip(u, R)):
                    curves.append(v)
            if ctx.check("the curve of growth is drawn", len(curves) >= 1):
                ctx.check_eq_arr("the curve drawn", list(ctx.flat(curves[0])), flux)


class _Holder:
    """an image object holding its pixels in .data (CCDData, Cutout2D)"""

    def __init__(self, data):
        self.data = data


class _Segm:
    def __init__(self, data):
        self.data = data
        self.shape = np.shape(data)

    def __array__(self, *a, **k):
        raise TypeError


@prop
class C19(Prop):
    id = "C19"
    bounds = "label maps of 2x3 and 3x3 pixels with every label 0-5 per pixel, 1-3 requested labels of every value 1-5 (repeats included), every image value; labels as int, NumPy integer, catalogue entry and lists; image arrays and objects holding .data; calls repeated with the same arguments"
    outside = "larger label maps; images whose type cannot hold the fill value"
    max_paths = 600

    def configs(self, tier):
        out = []
        for req in ("int", "np", "list1", "list2", "list3", "cat", "listcat", "mixed", "empty"):
            for mb in (False, True):
                if req == "empty" and mb:
                    continue
                out.append(dict(what="mask", req=req, mask_bg=mb, shape=[2, 3] if tier == "quick" else [3, 3]))
        for req in ("int", "list2", "cat"):
            for mb in (False, True):
                for fill in (None, "zero", "sym"):
                    for form in ("array", "holder", "iarray"):
                        if (form == "iarray" and fill != "zero") or (form == "holder" and fill == "zero" and tier == "quick"):
                            continue
                        out.append(dict(what="image", req=req, mask_bg=mb, fill=fill, form=form, shape=[2, 2] if tier == "quick" else [2, 3]))
        return out

    def run(self, ctx, cfg):
        ny, nx = cfg["shape"]
        L = [[ctx.int("l%d_%d" % (j, i), 0, 5) for i in range(nx)] for j in range(ny)]
        req = cfg["req"]
        labels, want = None, None
        if req in ("int", "np"):
            v = ctx.int("q0", 1, 5)
            want = [v]
            labels = v if ctx.sym or req == "int" else np.int64(v)
        elif req in ("cat", "listcat", "mixed"):
            det, lab, Seg, Cat = real_source((6, 6), [(1, 1, 3.0), (2, 1, 1.0), (1, 2, 1.0)], [[(4, 4, 3.0), (4, 3, 1.0), (3, 4, 1.0)]])
            cat = Cat(det, Seg(lab))
            want = [1] if req == "cat" else [1, 2]
            labels = cat[0] if req == "cat" else [cat[0], cat[1]]
            if req == "mixed":
                v = ctx.int("q0", 1, 5)
                want, labels = [2, v], [cat[1], v]
        else:
            n = dict(list1=1, list2=2, list3=3, empty=0)[req]
            want = [ctx.int("q%d" % k, 1, 5) for k in range(n)]
            labels = list(want)
        keep = list(labels) if isinstance(labels, list) else None
        seg = _Segm(ctx.array(L, "i"))
        sel = [[ctx.Or(*([L[j][i] == q for q in want] + ([] if cfg["mask_bg"] else [L[j][i] == 0]))) for i in range(nx)] for j in range(ny)]
        S = ctx.impl.segmentation
        if cfg["what"] == "mask":
            for rnd in range(2):
                out = ctx.call(S.segm_mask, labels, seg, mask_background=cfg["mask_bg"]) if cfg["mask_bg"] or rnd else ctx.call(S.segm_mask, labels, seg)
                ctx.observe("mask%d" % rnd, out)
                if not ctx.check_call("segm_mask", out):
                    return
                if not ctx.check("shape", tuple(np.shape(out.value)) == (ny, nx)):
                    return
                for g, w in zip(ctx.flat(out.value), sum(sel, [])):
                    ctx.check_eq("call %d: selected exactly where requested" % rnd, self.b(g), self.b(w))
                if keep is not None:
                    ctx.check("list of labels kept", len(keep) == len(labels) and all(a is b for a, b in zip(keep, labels)))
        else:
            if cfg["form"] == "iarray":
                V = [[ctx.int("i%d_%d" % (j, i), -99, 99) for i in range(nx)] for j in range(ny)]
                data = ctx.array(V, "i")
            else:
                V = image(ctx, "i", (ny, nx))
                data = ctx.array(V)
            im = _Holder(data) if cfg["form"] == "holder" else data
            fill = None if cfg["fill"] is None else 0 if cfg["fill"] == "zero" else ctx.real("fill")
            kw = {} if fill is None else dict(fill=fill)
            if cfg["mask_bg"]:
                kw["mask_background"] = True
            out = ctx.call(S.masked_segm_image, labels, im, seg, **kw)
            if not ctx.check_call("masked_segm_image", out):
                return
            got = out.value
            if cfg["form"] == "holder":
                ctx.check("a new image object", got is not im)
            g = got.data if cfg["form"] == "holder" else got
            ctx.observe("image", ctx.flat(g))
            if not ctx.check("shape", tuple(np.shape(g)) == (ny, nx)):
                return
            g = ctx.flat(g)
            for k, (v, w) in enumerate(zip(sum(V, []), sum(sel, []))):
                if ctx.sym:
                    w = bool(w)
                ctx.check_eq("pixel %d" % k, g[k], v if w else (nan if fill is None else fill))
            for a, b in zip(ctx.flat(data), sum(V, [])):
                ctx.check_eq("original image untouched", a, b)
        for a, b in zip(ctx.flat(seg.data), sum(L, [])):
            ctx.check_eq("label map untouched", a, b)

    @staticmethod
    def b(x):
        x = arr.unwrap0(x)
        return x if c.is_sym(x) else bool(x)


class _Col(dict):
    pass


class _Cat:
    def __init__(self, cols):
        self.cols = cols

    def to_table(self, *a, **k):
        return self.cols


@prop
class C20(Prop):
    id = "C20"
    bounds = "catalogues of 1-5 entries with every column value (ties included), any column, both directions; every position, elongation, ellipticity and orientation of a table row; a grid of genuine catalogue entries"
    outside = "larger catalogues; orientations of source objects other than the listed shapes"

    def configs(self, tier):
        out = [dict(what="order", n=n, reverse=r, key=k) for n in ((1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5)) for r in (True, False) for k in ("default", "flux")]
        out += [dict(what="order", n=3, reverse=r, key="ints") for r in (True, False)]
        out += [dict(what="row"), dict(what="source", blob="mid"), dict(what="source", blob="corner"), dict(what="source", blob="edge")]
        return out

    def run(self, ctx, cfg):
        S = ctx.impl.segmentation
        if cfg["what"] == "order":
            n = cfg["n"]
            a = [ctx.int("v%d" % i, -9, 9) for i in range(n)] if cfg["key"] == "ints" else ctx.reals("v", n)
            other = [float((7 * i) % 5) for i in range(n)]
            key = "area" if cfg["key"] == "default" else cfg["key"]
            kind = "i" if cfg["key"] == "ints" else "f"
            if ctx.sym:
                cat = _Cat({key: ctx.array(a, kind), "label": ctx.array(list(range(1, n + 1)), "i"), "other": ctx.array(other)})
            else:
                from astropy.table import QTable
                t = QTable()
                t["label"], t["other"], t[key] = np.arange(1, n + 1), np.array(other), ctx.array(a, kind)
                cat = _Cat(t)
            kw = {} if cfg["key"] == "default" else dict(key=key)
            if not cfg["reverse"]:
                kw["reverse"] = False
            out = ctx.call(S.order_cat, cat, **kw)
            if not ctx.check_call("order_cat", out):
                return
            idx = [c.concretize_int(i) if c.is_sym(i) else int(i) for i in ctx.flat(out.value if isinstance(out.value, np.ndarray) else list(out.value))]
            ctx.observe("n", len(idx))
            if not ctx.check("every index exactly once", sorted(idx) == list(range(n))):
                return
            for p, q in zip(idx, idx[1:]):
                ctx.check("in order", a[p] >= a[q] if cfg["reverse"] else a[p] <= a[q])
            return
        if cfg["what"] == "row":
            x, y = ctx.int("x", 0, 4000), ctx.int("y", 0, 4000)
            e, l, o = ctx.real("elong", 1, 64), ctx.real("ellip", 0, 1), ctx.real("orient", -90, 90)
            row = dict(maxval_xindex=x, maxval_yindex=y, elongation=e, ellipticity=l, orientation=o, xcentroid=1.5, ycentroid=2.5, label=1)
            vals = (x, y), e, l, o * (np.pi / 180)
        else:
            det, lab, Seg, Cat = real_source((7, 8), BLOBS[cfg["blob"]], OTHER[cfg["blob"]])
            row = Cat(det, Seg(lab))[0]
            iy, ix = np.unravel_index(np.argmax(np.where(lab == 1, det, -1)), det.shape)
            # second moments of the source written out
            yy, xx = np.nonzero(lab == 1)
            v = det[yy, xx]
            mx, my = (v * xx).sum() / v.sum(), (v * yy).sum() / v.sum()
            cxx, cyy, cxy = (v * (xx - mx) ** 2).sum() / v.sum(), (v * (yy - my) ** 2).sum() / v.sum(), (v * (xx - mx) * (yy - my)).sum() / v.sum()
            ev = np.sort(np.linalg.eigvalsh([[cxx, cxy], [cxy, cyy]]))
            th = 0.5 * np.arctan2(2 * cxy, cxx - cyy)
            vals = (int(ix), int(iy)), float(np.sqrt(ev[1] / ev[0])), float(1 - np.sqrt(ev[0] / ev[1])), float(th)
        for nm, f, want in (("position", S.get_source_position, vals[0]), ("elongation", S.get_source_elong, vals[1]),
                            ("ellipticity", S.get_source_ellip, vals[2]), ("orientation", S.get_source_theta, vals[3])):
            out = ctx.call(f, row)
            if not ctx.check_call(nm, out):
                continue
            if nm == "position":
                g = ctx.flat(tuple(out.value))
                ctx.check_eq("x of the peak", g[0], want[0])
                ctx.check_eq("y of the peak", g[1], want[1])
            else:
                ctx.check_eq(nm, getattr(out.value, "value", out.value), want)
