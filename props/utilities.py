"""Utility functions and catalogue/segmentation helpers (C19, C20, C31-C36)."""
import numpy as np
import z3

from symx import core as c
from symx.harness import Prop, prop
from symx.strs import SymStr
from props.petrosian import resample, reads, is_one_of, weights, nan, EPS, chord, RADII, flat_scales, sky_coordinates


@prop
class C31(Prop):
    id = "C31"
    bounds = "every ellipticity in [0, 1-2^-10], elongation in [1, 1024], area, angle and pixel scale; scalars and 2-element arrays; 5 angular units and 3 WCS units"
    assumptions = ("proj_plane_pixel_scales is replaced by the (equal) symbolic scales it returns for a square-pixel WCS; unit conversion factors are astropy's",)

    UNITS = ("arcsec", "arcmin", "deg", "mas", "rad")

    def configs(self, tier):
        out = [dict(what=w, form=f) for w in ("ellip", "elong", "area", "circle") for f in ("scalar", "array")]
        for u1 in self.UNITS:
            for cu in ("deg",) if tier == "quick" else ("deg", "arcsec", "rad"):
                out.append(dict(what="angle", unit=u1, cunit=cu))
        for cu in ("deg", "arcsec", "rad"):
            out.append(dict(what="pixel", cunit=cu, form="number"))
            out.append(dict(what="pixel", cunit=cu, form="pix"))
        return out

    def over(self, ctx, cfg):
        return flat_scales(ctx) if "cunit" in cfg else {}

    def run(self, ctx, cfg):
        u = ctx.impl.utils
        w = cfg["what"]
        if w in ("ellip", "elong", "area", "circle"):
            n = 1 if cfg["form"] == "scalar" else 2
            wrap = (lambda v: v[0]) if n == 1 else ctx.array
            if w == "ellip":
                e = ctx.reals("e", n, 0, 1 - 2.0 ** -10)
                out = ctx.call(lambda: u.elong_to_ellip(u.ellip_to_elong(wrap(e))))
                out1 = ctx.call(u.ellip_to_elong, wrap(e))
                ctx.observe("o", out1)
                if ctx.check_call("conversion", out):
                    for i in range(n):
                        ctx.check_eq("round trip", ctx.flat(out.value)[i], e[i])
                        ctx.check_le("elongation at least 1", 1.0, ctx.flat(out1.value)[i])
                        ctx.check_eq("definition", ctx.flat(out1.value)[i] * (1 - e[i]), 1.0)
            elif w == "elong":
                e = ctx.reals("E", n, 1, 1024)
                out = ctx.call(lambda: u.ellip_to_elong(u.elong_to_ellip(wrap(e))))
                out1 = ctx.call(u.elong_to_ellip, wrap(e))
                ctx.observe("o", out1)
                if ctx.check_call("conversion", out):
                    for i in range(n):
                        ctx.check_eq("round trip", ctx.flat(out.value)[i], e[i])
                        ctx.check_le("ellipticity not negative", 0.0, ctx.flat(out1.value)[i])
                        ctx.check("ellipticity below 1", ctx.flat(out1.value)[i] < 1)
            elif w == "area":
                ar, e = ctx.reals("area", n, 0, 4096), ctx.reals("E", n, 1, 1024)
                out = ctx.call(u.elliptical_area_to_r, wrap(ar), wrap(e))
                ctx.observe("o", out)
                if ctx.check_call("conversion", out):
                    a, b = ctx.flat(out.value[0]), ctx.flat(out.value[1])
                    for i in range(n):
                        ctx.check_eq("area", a[i] * b[i] * float(np.pi), ar[i])
                        ctx.check_eq("elongation", b[i] * e[i], a[i])
                        ctx.check_le("axes not negative", 0.0, a[i])
            else:
                ar = ctx.reals("area", n, 0, 4096)
                out = ctx.call(u.circle_area_to_r, wrap(ar))
                ctx.observe("o", out)
                if ctx.check_call("conversion", out):
                    for i, r in enumerate(ctx.flat(out.value)):
                        ctx.check_eq("area", r * r * float(np.pi), ar[i])
                        ctx.check_le("radius not negative", 0.0, r)
            return
        import astropy.units as au
        scale = ctx.real("scale", 2.0 ** -6, 4)
        wcs = sky_coordinates(ctx, scale, cfg["cunit"])
        per_pix = scale * float(au.Unit(cfg["cunit"]).to("arcsec"))
        if w == "pixel":
            p = ctx.real("p", 0, 64)
            P = p if cfg["form"] == "number" else p * au.pix
            out = ctx.call(u.pixel_to_angular, P, wcs)
            if not ctx.check_call("pixel_to_angular", out):
                return
            got = out.value.to("arcsec").value
            ctx.observe("angle", got)
            ctx.check_eq("angular size", got, p * per_pix)
            back = ctx.call(u.angular_to_pixel, out.value, wcs)
            if ctx.check_call("angular_to_pixel", back):
                ctx.check_eq("round trip", back.value, p)
        else:
            a = ctx.real("a", 0, 64)
            q = a * au.Unit(cfg["unit"])
            out = ctx.call(u.angular_to_pixel, q, wcs)
            if not ctx.check_call("angular_to_pixel", out):
                return
            ctx.observe("pix", out.value)
            ctx.check_eq("pixel size", out.value * per_pix, a * float(au.Unit(cfg["unit"]).to("arcsec")))
            back = ctx.call(u.pixel_to_angular, out.value, wcs)
            if ctx.check_call("pixel_to_angular", back):
                ctx.check_eq("round trip", back.value.to(cfg["unit"]).value, a)


@prop
class C32(Prop):
    id = "C32"
    bounds = "every positive header value and every real or integer flux: Python and NumPy scalars, lists and arrays of up to 3, 2-D arrays; any mix of signs"
    assumptions = ("log10 is an uninterpreted function satisfying the logarithm laws",)

    def configs(self, tier):
        out = [dict(form=f, n=n) for f in ("float", "int", "np") for n in (1,)] + [dict(form=f, n=n) for f in ("list", "array", "ilist", "iarray", "tuple") for n in (1, 2, 3)]
        return out + [dict(form="array2d", n=4)]

    def run(self, ctx, cfg):
        f, n = cfg["form"], cfg["n"]
        if f in ("int", "ilist", "iarray"):
            x = [ctx.int("flux%d" % i, -8, 1000) for i in range(n)]
        else:
            x = ctx.reals("flux", n, -8, 1000)
            for v in x:
                ctx.assume(ctx.Or(v <= 0, v >= 2.0 ** -10))
        hdr = dict(PHOTFLAM=ctx.real("PHOTFLAM", 2.0 ** -20, 4), PHOTZPT=ctx.real("PHOTZPT", -32, 0), PHOTPLAM=ctx.real("PHOTPLAM", 1, 2.0 ** 14))
        F = x[0] if f in ("float", "int") else (x[0] if ctx.sym else np.float64(x[0])) if f == "np" else list(x) if f in ("list", "ilist") else tuple(x) if f == "tuple" \
            else ctx.array([x[:2], x[2:]]) if f == "array2d" else ctx.array(x, "i" if f == "iarray" else "f")
        out = ctx.call(ctx.impl.utils.hst_flux_to_abmag, F, dict(hdr))
        ctx.observe("mag", out)
        if not ctx.check_call("hst_flux_to_abmag", out):
            return
        g = ctx.flat(out.value)
        if not ctx.check("one magnitude per flux", len(g) == n):
            return
        if f not in ("float", "int", "np"):
            ctx.check("shape", tuple(np.shape(out.value)) == ((2, 2) if f == "array2d" else (n,)))
        for i in range(n):
            pos = x[i] > 0
            if ctx.sym:
                pos = bool(pos)
            if not pos:
                ctx.check("NaN at non-positive flux %d" % i, ctx.isnan(g[i]))
                continue
            want = -2.5 * ctx.log10(x[i]) - 2.5 * ctx.log10(hdr["PHOTFLAM"]) + hdr["PHOTZPT"] - 5 * ctx.log10(hdr["PHOTPLAM"]) + 18.692
            ctx.check_eq("magnitude %d" % i, g[i], want)
        for i, v in enumerate(ctx.flat(F)):
            ctx.check_eq("input %d kept" % i, v, x[i])


@prop
class C33(Prop):
    id = "C33"
    bounds = "lists of 2-3 items; strings of up to 6 characters (and numbers of up to 20 digits) whose digits and letters are unknown, with literal, non-ASCII digit, separator and empty parts; every integer from -99 to 999; floats and None concrete"
    outside = "longer lists and strings; other unknown character classes; integers beyond 999"
    assumptions = ("regular expressions only distinguish the character classes digit / letter (checked on each call with the real re module)",)

    # D digit, A letter, other characters literal; int: an unknown number
    def configs(self, tier):
        two = [("DD", "D"), ("aD", "aDD"), ("AD", "AD"), ("A", "A"), ("D", "A"), ("DA", "DDA"), ("", "D"), ("A", ""), ("aDbD", "aDbDD"), ("A-D", "AD"), ("D.D", "D.DD"),
               ("x\u00b2D", "xDD"), ("\u0663", "D"), ("AAD", "AD"), ("D", 0), (0, 0), (0, "A"), ("aDDD", "aD"), (3.5, "DD"), ("DD", "DD"), ("img_DD.fits", "img_D.fits"), ("A D", "AD"), ("D" * 17, "D" * 18), ("t" + "D" * 20, "t" + "D" * 20)]
        three = [("aD", "aDD", "aD"), ("D", "DD", "D"), ("A", "A", "A"), (0, "D", "A"), ("AD", "D", "A"), ("D", "D", "D")]
        if tier == "thorough":
            two += [("ADA", "AD"), ("ADAD", "ADD"), ("aDDD", "aDDD"), ("DDDD", "DD"), ("AA", "AA"), ("A-D", "A-DD"), ("-D", 0), (1e20, "D"), ("D\u00b2", "DD")]
            three += [("DD", "D", "DD"), ("AD", "AD", "AD"), ("aD", "AD", "bD"), (0, 0, 0), ("D.D", "D.DD", "DD"), ("", "D", "A")]
        return [dict(items=list(t)) for t in two + three]

    def item(self, ctx, spec, k):
        """-> (value handed to the code, tokens: alternating text (list of code points) and numbers)"""
        if not isinstance(spec, str):
            if spec == 0:
                v = ctx.int("n%d" % k, -99, 999)
                neg = v < 0
                if ctx.sym:
                    neg = bool(neg)
                return v, ([[45], -v, []] if neg else [[], v, []])
            import re
            parts = re.split("([0-9]+)", str(spec))
            return spec, [int(p) if i % 2 else [ord(q) for q in p.lower()] for i, p in enumerate(parts)]
        chars, toks, num = [], [[]], None
        for j, ch in enumerate(spec):
            if ch == "D":
                v = ctx.int("c%d_%d" % (k, j), 48, 57)
                chars.append(("d", v.e) if isinstance(v, c.Sym) else chr(v))
                num = (0 if num is None else num * 10) + (v - 48)
                continue
            if num is not None:
                toks += [num, []]
                num = None
            if ch == "A":
                v = ctx.int("c%d_%d" % (k, j), 65, 122)
                ctx.assume(ctx.Or(v <= 90, v >= 97))
                chars.append(("a", v.e) if isinstance(v, c.Sym) else chr(v))
                toks[-1].append(ctx.ite(v <= 90, v + 32, v))
            elif ch in "0123456789":
                raise ValueError
            else:
                chars.append(ch)
                toks[-1] += [ord(q) for q in ch.lower()]
        if num is not None:
            toks += [num, []]
        return (SymStr(chars) if any(not isinstance(x, str) for x in chars) else "".join(chars)), toks

    def lt(self, ctx, a, b):
        """(less, equal) of token lists"""
        less, eq = False, True
        for i in range(max(len(a), len(b))):
            if i >= len(a):
                return ctx.Or(less, eq), False
            if i >= len(b):
                return less, False
            l, e = (a[i] < b[i], a[i] == b[i]) if i % 2 else self.text(ctx, a[i], b[i])
            less = ctx.Or(less, ctx.And(eq, l))
            eq = ctx.And(eq, e)
        return less, eq

    def text(self, ctx, a, b):
        less, eq = False, True
        for i in range(max(len(a), len(b))):
            if i >= len(a):
                return ctx.Or(less, eq), False
            if i >= len(b):
                return less, False
            less = ctx.Or(less, ctx.And(eq, a[i] < b[i]))
            eq = ctx.And(eq, a[i] == b[i])
        return less, eq

    def run(self, ctx, cfg):
        its = [self.item(ctx, s, k) for k, s in enumerate(cfg["items"])]
        L = [v for v, _ in its]
        keep = list(L)
        out = ctx.call(ctx.impl.utils.natural_sort, L)
        if not ctx.check_call("natural_sort", out):
            return
        r = list(out.value)
        ctx.check("input list kept", len(L) == len(keep) and all(x is y for x, y in zip(L, keep)))
        left, perm = list(range(len(keep))), []
        for x in r:
            k = next((i for i in left if keep[i] is x), None)
            if not ctx.check("a permutation of the input", k is not None):
                return
            left.remove(k)
            perm.append(k)
        if not ctx.check("nothing lost", not left):
            return
        ctx.observe("order", perm)
        for p, q in zip(perm, perm[1:]):
            less, eq = self.lt(ctx, its[q][1], its[p][1])
            ctx.check("in order", ctx.Not(less))
            if p > q and r[0] is not None:
                same = isinstance(keep[p], (str, int, float)) and keep[p] is keep[q]
                ctx.check("stable", ctx.Or(same, ctx.Not(eq)))


@prop
class C34(Prop):
    id = "C34"
    bounds = "images up to 4x5 and cutouts up to 5x5 of odd, even and mixed sizes with every pixel value; every integer centre from beyond one edge to beyond the other"
    outside = "larger images; fractional centres"
    max_paths = 4000

    def configs(self, tier):
        shapes = [(1, 1), (2, 2), (3, 3), (2, 3), (3, 1), (1, 4), (5, 5)] + ([(4, 4), (4, 3), (2, 5), (5, 2)] if tier == "thorough" else [])
        return [dict(image=im, cut=s, form=f) for s in shapes for im, f in (((3, 4), "f"), ((4, 3), "i"))]

    def run(self, ctx, cfg):
        (ny, nx), (dy, dx), k = cfg["image"], cfg["cut"], cfg["form"]
        if k == "f":
            I, T = ctx.reals("i", ny * nx), ctx.reals("t", dy * dx)
        else:
            I, T = [ctx.int("i%d" % j, -99, 99) for j in range(ny * nx)], [ctx.int("t%d" % j, -99, 99) for j in range(dy * dx)]
        x, y = ctx.int("x", -dx - 1, nx + dx + 1), ctx.int("y", -dy - 1, ny + dy + 1)
        im = ctx.array([I[j * nx:(j + 1) * nx] for j in range(ny)], k)
        tg = ctx.array([T[j * dx:(j + 1) * dx] for j in range(dy)], k)
        out = ctx.call(ctx.impl.utils.cutout_subtract, im, tg, x, y)
        ctx.observe("out", out)
        if not ctx.check_call("cutout_subtract", out):
            return
        g = ctx.flat(out.value)
        if not ctx.check("shape", tuple(np.shape(out.value)) == (ny, nx)):
            return
        x0, y0 = x - dx // 2, y - dy // 2
        for j in range(ny):
            for i in range(nx):
                want = I[j * nx + i]
                for b in range(dy):
                    for a in range(dx):
                        want = ctx.ite(ctx.And(x0 + a == i, y0 + b == j), I[j * nx + i] - T[b * dx + a], want)
                ctx.check_eq("pixel (%d, %d)" % (i, j), g[j * nx + i], want)
        for p, q in zip(ctx.flat(im), I):
            ctx.check_eq("image kept", p, q)
        for p, q in zip(ctx.flat(tg), T):
            ctx.check_eq("cutout kept", p, q)


@prop
class C35(Prop):
    id = "C35"
    bounds = "3-6 data points with every real value, every supported kind, 2-9 requested samples, concrete positions (symbolic for linear and none); searches in arrays of 1-5 unknown elements in both directions"
    outside = "more points; splines through symbolic positions"

    def configs(self, tier):
        out = []
        for kind in ("linear", "cubic", "quadratic", "nearest", "zero", "slinear", "previous", "next", "nearest-up"):
            for num in (2, 4, 7) if tier == "quick" else (2, 4, 5, 7, 9, 13):
                out.append(dict(what="interp", n=4, x=RADII[4][1], kind=kind, num=num))
        out += [dict(what="interp", n=5, x=RADII[5][0], kind=k, num=9) for k in ("linear", "cubic")]
        out += [dict(what="interp", n=4, x=[3.0, 1.0, 7.0, 2.0], kind="linear", num=7)]
        out += [dict(what="interp", n=3, x="sym", kind="linear", num=m) for m in (2, 5)]
        out += [dict(what="interp", n=3, x="sym", kind=None, num=5), dict(what="interp", n=4, x=RADII[4][0], kind=1, num=7), dict(what="interp", n=5, x=RADII[5][1], kind=3, num=5)]
        out += [dict(what="interp", n=4, x=RADII[4][1], kind=0, num=7), dict(what="interp", n=4, x=RADII[4][0], kind=2, num=3)]
        out += [dict(what="list", n=4, x=RADII[4][0], kind="linear", num=7)]
        out += [dict(what="search", n=n, growing=g) for n in (1, 2, 3, 4) + ((5, 6) if tier == "thorough" else ()) for g in (False, True)]
        out += [dict(what="search", n=3, growing=g, ints=True) for g in (False, True)]
        return out

    def run(self, ctx, cfg):
        n = cfg["n"]
        if cfg["what"] == "search":
            if cfg.get("ints"):
                a = [ctx.int("a%d" % i, -9, 9) for i in range(n)]
                v = ctx.int("v", -9, 9)
                A = ctx.array(a, "i")
            else:
                a, v = ctx.reals("a", n), ctx.real("v")
                A = ctx.array(a)
            up = cfg["growing"]
            out = ctx.call(ctx.impl.utils.closest_value_index, v, A, growing=up)
            ctx.observe("idx", out)
            if not ctx.check_call("closest_value_index", out):
                return
            ok = [(x >= v) if up else (x <= v) for x in a]
            if out.value is None:
                ctx.check("None only when nothing is reached", ctx.Not(ctx.Or(*ok)))
                return
            ctx.check("an index only when something is reached", ctx.Or(*ok))
            i = out.value
            d = [ctx.abs(x - v) for x in a]
            good = []
            for k in range(n):
                first = ctx.And(ok[k], *[ctx.Not(ok[j]) for j in range(k)])
                for m in range(k + 1):
                    near = ctx.And(*[d[m] <= d[j] + 1e-12 for j in range(k + 1)] + [d[m] < d[j] + (1e-12 if not ctx.sym else 0) for j in range(m)])
                    good.append(ctx.And(first, near, i == m))
            ctx.check("first of the nearest up to the first reached", ctx.Or(*good))
            for p, q in zip(ctx.flat(A), a):
                ctx.check_eq("array kept", p, q)
            return
        if cfg["x"] == "sym":
            x = ctx.reals("x", n, -16, 16)
            for i in range(n - 1):
                ctx.assume(x[i] + 0.0625 <= x[i + 1])
        else:
            x = list(cfg["x"])
        y = ctx.reals("y", n)
        kind, num = cfg["kind"], cfg["num"]
        X, Y = (list(x), list(y)) if cfg["what"] == "list" else (ctx.array(x), ctx.array(y))
        out = ctx.call(ctx.impl.utils.get_interpolated_values, X, Y, num=num, kind=kind)
        ctx.observe("out", out)
        if not ctx.check_call("get_interpolated_values", out):
            return
        gx, gy = out.value
        if kind is None:
            ctx.check_eq_arr("positions unchanged", gx, x)
            ctx.check_eq_arr("values unchanged", gy, y)
            return
        m = max(num, n)
        gx, gy = ctx.flat(gx), ctx.flat(gy)
        if not ctx.check("number of samples", len(gx) == m and len(gy) == m):
            return
        order = sorted(range(n), key=lambda i: x[i]) if cfg["x"] != "sym" else list(range(n))
        xs, ys = [x[i] for i in order], [y[i] for i in order]
        lo, hi = xs[0], xs[-1]
        for k in range(m):
            want = lo + (hi - lo) * ctx.div(float(k), float(m - 1))
            ctx.check_eq("position %d" % k, gx[k], want)
        if cfg["x"] == "sym":
            for k in range(m):
                ctx.check_eq("value %d" % k, gy[k], chord(ctx, lo + (hi - lo) * ctx.div(float(k), float(m - 1)), xs, ys))
        else:
            W = weights(xs, np.linspace(lo, hi, m), kind)
            for k in range(m):
                ctx.check_eq("value %d" % k, gy[k], ctx.sum([float(w) * v for w, v in zip(W[k], ys) if w != 0.0] or [0.0]))
        for p, q in zip(ctx.flat(Y), y):
            ctx.check_eq("input kept", p, q)


@prop
class C36(Prop):
    id = "C36"
    bounds = "every maximum in (0, 4096] (above 1 for logarithmic lists), 1-12 linear and 2-7 logarithmic radii; float and integer maxima"
    outside = "longer lists"

    def configs(self, tier):
        ns = (1, 2, 3, 5, 8) if tier == "quick" else tuple(range(1, 13))
        ls = (2, 3, 4, 5) if tier == "quick" else (2, 3, 4, 5, 6, 7)
        return [dict(n=n, log=False, form=f) for n in ns for f in ("f", "i")] + [dict(n=n, log=True, form=f) for n in ls for f in ("f", "i")]

    def run(self, ctx, cfg):
        n = cfg["n"]
        if cfg["form"] == "i":
            m = ctx.int("max", 2 if cfg["log"] else 1, 64)
        else:
            m = ctx.real("max", 1.0625 if cfg["log"] else 0.0625, 4096)
        out = ctx.call(ctx.impl.utils.make_radius_list, m, n, log=True) if cfg["log"] else ctx.call(ctx.impl.utils.make_radius_list, m, n)
        ctx.observe("out", out)
        if not ctx.check_call("make_radius_list", out):
            return
        r = ctx.flat(out.value)
        if not ctx.check("length", len(r) == n):
            return
        ctx.check_eq("ends at the maximum", r[-1], m)
        for i in range(n):
            ctx.check("positive", r[i] > 0)
            if i:
                ctx.check("increasing", r[i - 1] < r[i])
            if not cfg["log"]:
                ctx.check_eq("evenly spaced %d" % i, r[i], m * (i + 1) * (1.0 / n) if ctx.sym else m * (i + 1) / n)
        if cfg["log"]:
            ctx.check_eq("starts at 1", r[0], 1.0)
            for i in range(2, n):
                ctx.check_eq("constant ratio %d" % i, r[i] * r[i - 2], r[i - 1] * r[i - 1])
