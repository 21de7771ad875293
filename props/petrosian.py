"""Petrosian profile, radius, fraction radii, concentration, profile objects (C01-C11)."""
import numpy as np

from symx.harness import Prop, prop

nan = float("nan")


def curve(ctx, n, areas="sym", gaps=(), pos_flux=False, grow=False, name="", lo=0.125, hi=64):
    """n samples of a curve of growth: areas non-decreasing (positive), fluxes non-zero."""
    a = ctx.reals(name + "area", n, lo, hi)
    f = ctx.reals(name + "flux", n, 0.125 if pos_flux else -64, hi)
    for i in range(n - 1):
        if i in gaps:
            a[i + 1] = a[i]
        else:
            ctx.assume(a[i] + 0.03125 <= a[i + 1])
            if grow:
                ctx.assume(f[i] + 0.03125 <= f[i + 1])
    if not pos_flux:
        for v in f:
            ctx.assume(ctx.Or(v >= 0.03125, v <= -0.03125))
    return a, f


@prop
class C01(Prop):
    id = "C01"
    bounds = "3-4 samples (thorough: 3-6), every real area/flux from 1/32 to 64 and the same at 2^-30 and 2^30 times the scale; repeated areas at every position; list/array/int/float inputs"

    def configs(self, tier):
        out = []
        nmax = 4 if tier == "quick" else 6
        for n in range(3, nmax + 1):
            for mask in range(2 ** (n - 1)):
                out.append(dict(n=n, gaps=[i for i in range(n - 1) if mask >> i & 1], form="array"))
        out += [dict(n=4, gaps=[1], form="list"), dict(n=3, gaps=[], form="list"), dict(n=4, gaps=[2], form="iarray"), dict(n=3, gaps=[], form="iarray"),
                dict(n=3, gaps=[], form="ilist"),
                dict(n=4, gaps=[1], form="tiny"), dict(n=4, gaps=[], form="huge"), dict(n=3, gaps=[], form="tiny"), dict(n=4, gaps=[], form="iflux"), dict(n=4, gaps=[], form="free")]
        out += [dict(bad=b) for b in ("unsorted", "short", "unequal")]
        return out

    def run(self, ctx, cfg):
        f_ = ctx.impl.core.calculate_petrosian
        if "bad" in cfg:
            return self.bad(ctx, cfg, f_)
        n, gaps, form = cfg["n"], cfg["gaps"], cfg["form"]
        if form in ("iarray", "ilist"):
            a = [ctx.int("area%d" % i, 1, 40) for i in range(n)]
            fl = [ctx.int("flux%d" % i, -40, 40) for i in range(n)] 
            for i in range(n - 1):
                if i in gaps:
                    a[i + 1] = a[i]
                else:
                    ctx.assume(a[i] < a[i + 1])
            for v in fl:
                ctx.assume(v != 0)
        elif form == "iflux":
            a = [3, 5, 8, 13][:n]
            fl = ctx.reals("flux", n, -64, 64)
            for v in fl:
                ctx.assume(ctx.Or(v >= 0.03125, v <= -0.03125))
        elif form == "free":
            # areas only known to be non-decreasing
            a = ctx.reals("area", n, 0.125, 64)
            fl = ctx.reals("flux", n, 0.125, 64)
            for i in range(n - 1):
                ctx.assume(ctx.Or(a[i] == a[i + 1], a[i] + 0.03125 <= a[i + 1]))
        else:
            a, fl = curve(ctx, n, gaps=gaps)
            if form in ("tiny", "huge"):
                # any pixel scale: powers of two, so that the scaling is exact in floats
                k, h = (2.0 ** -30, 2.0 ** 26) if form == "tiny" else (2.0 ** 30, 2.0 ** -26)
                a, fl = [k * v for v in a], [h * v for v in fl]
        if form in ("list", "ilist"):
            A, FL = list(a), list(fl)
        elif form == "iarray":
            A, FL = ctx.array(a, "i"), ctx.array(fl, "i")
        elif form == "iflux":
            A, FL = ctx.array(a, "i"), ctx.array(fl)
        else:
            A, FL = ctx.array(a), ctx.array(fl)
        out = ctx.call(f_, A, FL)
        ctx.observe("out", out)
        if not ctx.check_call("calculate_petrosian", out):
            return
        got, err = out.value
        ctx.check("no error array without errors", err is None)
        g = ctx.flat(got)
        if not ctx.check("length", len(g) == n):
            return
        ctx.check("first sample is NaN", ctx.isnan(g[0]))
        for i in range(1, n):
            same = a[i] == a[i - 1]
            want = None
            if ctx.sym:
                same = bool(same) if not isinstance(same, bool) else same
            if same:
                ctx.check_eq("repeated area %d takes the first value" % i, g[i], g[i - 1])
            else:
                want = ((fl[i] - fl[i - 1]) / (a[i] - a[i - 1])) / (fl[i] / a[i])
                ctx.check_eq("value %d" % i, g[i], want)

    def bad(self, ctx, cfg, f_):
        if cfg["bad"] == "unsorted":
            a, fl = ctx.reals("area", 4, 0.125, 64), ctx.reals("flux", 4, 0.125, 64)
            ctx.assume(ctx.Or(a[1] < a[0], a[2] < a[1], a[3] < a[2]))
        elif cfg["bad"] == "short":
            a, fl = ctx.reals("area", 2, 0.125, 64), ctx.reals("flux", 2, 0.125, 64)
        else:
            a, fl = ctx.reals("area", 4, 0.125, 64), ctx.reals("flux", 3, 0.125, 64)
            for i in range(3):
                ctx.assume(a[i] < a[i + 1])
        out = ctx.call(f_, ctx.array(a), ctx.array(fl))
        ctx.observe("out", out)
        ctx.check("refused", not out.ok)


# ---------------------------------------------------------------- reference semantics
EPS = 1e-10


def weights(xs, xn, kind):
    """interpolation as a matrix on the data, from the real scipy on unit vectors"""
    from scipy.interpolate import interp1d
    w = interp1d(np.array(xs, dtype=float), np.eye(len(xs)), axis=0, kind=kind)(np.array(xn, dtype=float))
    for v in (0.0, 1.0):
        w = np.where(np.abs(w - v) < 1e-14, v, w)
    return w


def chord(ctx, p, xs, ys):
    """piecewise linear interpolation at p (inside the range), symbolic positions allowed"""
    v = ys[-1]
    for i in range(len(xs) - 2, -1, -1):
        seg = ys[i] + (ys[i + 1] - ys[i]) * ctx.div(p - xs[i], xs[i + 1] - xs[i])
        v = ctx.ite(p <= xs[i + 1], seg, v)
    return v


def at(ctx, p, xs, ys, kind):
    kind = "cubic" if kind is None else kind
    if kind == "linear":
        return chord(ctx, p, xs, ys)
    w = weights(xs, [p], kind)[0]
    return ctx.sum([float(a) * y for a, y in zip(w, ys)])


def resample(ctx, xs, ys, kind, num):
    if kind is None:
        return list(xs), list(ys)
    num = max(num, len(xs))
    if all(not hasattr(x, "e") for x in xs):
        xn = np.linspace(float(xs[0]), float(xs[-1]), num)
        W = weights(xs, xn, kind)
        return [float(x) for x in xn], [ctx.sum([float(a) * y for a, y in zip(w, ys) if a != 0.0] or [0.0]) for w in W]
    xn = [xs[0] + (xs[-1] - xs[0]) * ctx.div(float(k), float(num - 1)) for k in range(num)]
    return xn, [chord(ctx, p, xs, ys) for p in xn]


def reads(ctx, xs, ys, target, rising):
    """[(condition, x)] of the admissible readings plus (condition, None): first sample reaching the target, nearest so far"""
    n = len(xs)
    d = [ctx.abs(y - target) for y in ys]
    hit = [(y >= target - EPS) if rising else (y <= target + EPS) for y in ys]
    miss = [(y < target + EPS) if rising else (y > target - EPS) for y in ys]
    first = [ctx.And(*([miss[j] for j in range(k)] + [hit[k]])) for k in range(n)]
    out = []
    for i in range(n):
        alt = []
        for k in range(i, n):
            alt.append(ctx.And(first[k], *[d[i] <= d[j] + EPS for j in range(k + 1) if j != i]))
        out.append((ctx.Or(*alt), xs[i]))
    out.append((ctx.And(*miss), None))
    return out


def is_one_of(ctx, got, cands, tol=1e-9):
    """got (possibly NaN) equals a candidate whose condition holds"""
    if ctx.isnan(got):
        return ctx.Or(*[cnd for cnd, x in cands if x is None])
    return ctx.Or(*[ctx.And(cnd, ctx.abs(got - x) <= tol * (1 + ctx.abs(x))) for cnd, x in cands if x is not None])


RADII = {3: [[1.0, 2.0, 4.0], [2.0, 5.0, 6.0]], 4: [[1.0, 2.0, 3.0, 4.0], [0.5, 2.0, 3.0, 7.0]], 5: [[1.0, 2.0, 4.0, 5.0, 9.0], [1.0, 2.0, 3.0, 4.0, 5.0]],
         6: [[1.0, 2.0, 4.0, 5.0, 7.0, 10.0]]}


@prop
class C02(Prop):
    id = "C02"
    bounds = "3 samples (each value depends on two neighbours) and 4-5 with repeated areas; every real flux, flux error, area error and area; list/array/int input; either error array omitted"
    outside = "samples whose flux does not change (the relative error is undefined there)"
    timeout_ms = 8000

    def configs(self, tier):
        out = [dict(n=3, gaps=[], have=h, areas=a, form=f) for h in ("both", "flux", "area") for a in ("sym", "conc") for f in ("array", "list")]
        out += [dict(n=n, gaps=g, have="both", areas="conc", form="array") for n, g in ((4, [1]), (4, [0]), (5, [1, 3]), (5, [2]))]
        out += [dict(n=3, gaps=[], have="both", areas="conc", form="iarray"), dict(n=4, gaps=[], have="flux", areas="conc", form="iarray")]
        out += [dict(bad=b) for b in ("area", "flux")]
        if tier == "thorough":
            out += [dict(n=n, gaps=g, have="both", areas=a, form="array") for n, g in ((4, []), (4, [1]), (5, [])) for a in ("sym", "conc")]
        return out

    def run(self, ctx, cfg):
        f_ = ctx.impl.core.calculate_petrosian
        if "bad" in cfg:
            n = 3
            e = ctx.reals("e", 2, 0, 4)
            kw = {cfg["bad"] + "_err": ctx.array(e)}
            out = ctx.call(f_, ctx.array([1.0, 2.0, 3.0]), ctx.array(ctx.reals("flux", 3, 0.125, 64)), **kw)
            ctx.check("refused", not out.ok)
            return
        n, gaps, form = cfg["n"], cfg["gaps"], cfg["form"]
        if cfg["areas"] == "sym":
            a, fl = curve(ctx, n, gaps=gaps)
        else:
            a = [3.0, 7.0, 12.0, 20.0, 33.0][:n]
            if form == "iarray":
                a = [int(v) for v in a]
            for i in gaps:
                a[i + 1] = a[i]
            fl = ctx.reals("flux", n, -64, 64) if form != "iarray" else [ctx.int("flux%d" % i, -64, 64) for i in range(n)]
        for v in fl:
            ctx.assume(ctx.Or(v >= 0.03125, v <= -0.03125))
        for i in range(n - 1):
            if i not in gaps:
                ctx.assume(ctx.Or(fl[i + 1] - fl[i] >= 0.03125, fl[i] - fl[i + 1] >= 0.03125))
        if form == "iarray":
            ea = [ctx.int("ea%d" % i, 0, 4) for i in range(n)]
            ef = [ctx.int("ef%d" % i, 0, 4) for i in range(n)]
        else:
            ea, ef = ctx.reals("ea", n, 0, 4), ctx.reals("ef", n, 0, 4)
        mkf = (lambda v: list(v)) if form == "list" else (lambda v: ctx.array(v, "i" if form == "iarray" else "f"))
        kw = {}
        if cfg["have"] in ("both", "flux"):
            kw["flux_err"] = mkf(ef)
        else:
            ef = [0.0] * n
        if cfg["have"] in ("both", "area"):
            kw["area_err"] = mkf(ea)
        else:
            ea = [0.0] * n
        out = ctx.call(f_, mkf(a), mkf(fl), **kw)
        plain = ctx.call(f_, mkf(a), mkf(fl))
        ctx.observe("out", out)
        if not (ctx.check_call("with errors", out) and ctx.check_call("without errors", plain)):
            return
        g, e, p = ctx.flat(out.value[0]), out.value[1], ctx.flat(plain.value[0])
        if not ctx.check("errors returned", e is not None):
            return
        e = ctx.flat(e)
        if not ctx.check("lengths", len(g) == n and len(e) == n and len(p) == n):
            return
        ctx.check("first error is NaN", ctx.isnan(e[0]))
        for i in range(n):
            ctx.check_eq("value %d unchanged" % i, g[i], p[i])
        for i in range(1, n):
            if i - 1 in gaps:
                # belongs to an earlier sample with the same area
                ctx.check_eq("repeated area %d" % i, e[i], e[i - 1])
                continue
            df, da = fl[i] - fl[i - 1], a[i] - a[i - 1]
            v2 = ((df / da) / (fl[i] / a[i])) ** 2
            # (relative error)^2 times v2, multiplied out
            want = v2 * ((ef[i] ** 2 + ef[i - 1] ** 2) / df ** 2 + (ea[i] ** 2 + ea[i - 1] ** 2) / da ** 2 + ef[i] ** 2 / fl[i] ** 2 + ea[i] ** 2 / a[i] ** 2)
            if not ctx.check("error %d exists" % i, not ctx.isnan(e[i])):
                return
            ctx.check_le("error %d not negative" % i, 0.0, e[i])
            ctx.check_eq("error %d squared" % i, e[i] ** 2, want)


@prop
class C03(Prop):
    id = "C03"
    bounds = "3-6 samples, every real profile value and eta; linear sampling with concrete and symbolic radii, other kinds (named and numbered) with concrete radii; interpolation disabled; up to 11 resampled points"
    outside = "more than 11 resampled points; splines through symbolic radii; NaN profile values beyond the first sample"

    def configs(self, tier):
        out = []
        for n in (3, 4, 5):
            out.append(dict(n=n, kind=None, radii="sym"))
        for n, num in ((3, 5), (4, 7), (5, 4)):
            for r in RADII[n]:
                out.append(dict(n=n, kind="linear", radii=r, num=num))
        for k in ("cubic", "quadratic", "nearest", "zero", "previous"):
            out.append(dict(n=4, kind=k, radii=RADII[4][1], num=6))
        out.append(dict(n=3, kind="linear", radii="sym", num=4))
        out += [dict(n=4, kind=k, radii=RADII[4][1], num=6) for k in (0, 2)]      # a kind may be an order
        out.append(dict(n=4, kind="linear", radii=RADII[4][1], num=6, form="list"))
        out.append(dict(n=4, kind=None, radii=RADII[4][1], num=6, form="ints"))
        if tier == "thorough":
            out += [dict(n=n, kind=k, radii=r, num=num) for n in (4, 5, 6) for k in ("linear", "cubic", "nearest-up", "next", "slinear") for r in RADII[n] for num in (n, 9, 11)]
            out += [dict(n=4, kind="linear", radii="sym", num=6), dict(n=6, kind=None, radii="sym")]
        return out

    def inputs(self, ctx, cfg):
        n = cfg["n"]
        if cfg["radii"] == "sym":
            r = ctx.reals("r", n, 0.125, 32)
            for i in range(n - 1):
                ctx.assume(r[i] + 0.0625 <= r[i + 1])
        else:
            r = list(cfg["radii"])
        y = [nan] + ctx.reals("p", n - 1, -2, 4)
        return r, y

    def run(self, ctx, cfg):
        r, y = self.inputs(ctx, cfg)
        eta = ctx.real("eta", 0.0625, 0.9375)
        form = cfg.get("form", "array")
        if form == "list":
            R, Y = list(r), list(y)
        elif form == "ints":
            r = [int(v) for v in (1, 2, 4, 7)]
            R, Y = ctx.array(r, "i"), ctx.array(y)
        else:
            R, Y = ctx.array(r), ctx.array(y)
        out = ctx.call(ctx.impl.core.calculate_petrosian_r, R, Y, eta=eta, interp_kind=cfg["kind"], interp_num=cfg.get("num", 5))
        ctx.observe("out", out)
        if not ctx.check_call("calculate_petrosian_r", out):
            return
        got, err = out.value
        ctx.check("error is NaN without errors", ctx.isnan(err))
        xs, ys = resample(ctx, [0.0] + list(r[1:]), [1.0] + list(y[1:]), cfg["kind"], cfg.get("num", 5))
        ctx.check("first crossing, nearest sample", is_one_of(ctx, got, reads(ctx, xs, ys, eta, False)))
        if not ctx.isnan(got):
            ctx.check_le("not negative", 0.0, got)
            ctx.check_le("within the measured radii", got, r[-1])


@prop
class C04(Prop):
    id = "C04"
    bounds = "3-5 samples, every real profile, error and eta; linear, cubic, nearest and numbered (order 0, 1) sampling at concrete radii and no interpolation; up to 7 resampled points"
    outside = "more resampled points; symbolic radii"

    def configs(self, tier):
        out = [dict(n=3, kind=None, radii=RADII[3][0]), dict(n=4, kind=None, radii=RADII[4][1]),
               dict(n=3, kind="linear", radii=RADII[3][1], num=5), dict(n=4, kind="linear", radii=RADII[4][0], num=5),
               dict(n=4, kind="cubic", radii=RADII[4][1], num=5), dict(n=4, kind="nearest", radii=RADII[4][0], num=4),
               dict(n=3, kind=0, radii=RADII[3][1], num=5), dict(n=3, kind=1, radii=RADII[3][1], num=5),
               dict(n=3, kind=None, radii=RADII[3][0], zero=True), dict(n=4, kind="linear", radii=RADII[4][0], num=5, zero=True)]
        if tier == "thorough":
            out += [dict(n=n, kind=k, radii=r, num=7) for n in (4, 5) for k in ("linear", "cubic", "quadratic", None) for r in RADII[n]]
        return out

    def run(self, ctx, cfg):
        n, r = cfg["n"], list(cfg["radii"])
        y = [nan] + ctx.reals("p", n - 1, -2, 4)
        e = [nan] + (ctx.reals("e", n - 1, 0, 2) if not cfg.get("zero") else [0.0] * (n - 1))
        eta = ctx.real("eta", 0.0625, 0.9375)
        kw = dict(eta=eta, interp_kind=cfg["kind"], interp_num=cfg.get("num", 5))
        f_ = ctx.impl.core.calculate_petrosian_r
        out = ctx.call(f_, ctx.array(r), ctx.array(y), petrosian_err=ctx.array(e), **kw)
        base = ctx.call(f_, ctx.array(r), ctx.array(y), **kw)
        ctx.observe("out", out)
        if not (ctx.check_call("with errors", out) and ctx.check_call("without", base)):
            return
        got, err = out.value
        ctx.check_eq("radius unchanged by errors", got, base.value[0])
        if ctx.isnan(got):
            ctx.check("no radius, no error", ctx.isnan(err))
            return
        rr = [0.0] + r[1:]
        yy, ee = [1.0] + list(y[1:]), [0.0] + list(e[1:])
        up = reads(ctx, *resample(ctx, rr, [a + b for a, b in zip(yy, ee)], cfg["kind"], cfg.get("num", 5)), eta, False)
        lo = reads(ctx, *resample(ctx, rr, [a - b for a, b in zip(yy, ee)], cfg["kind"], cfg.get("num", 5)), eta, False)
        cands = [(ctx.And(c1, c2), None if x1 is None or x2 is None else (x1 - x2) / 2) for c1, x1 in up for c2, x2 in lo]
        ctx.check("half the spread", is_one_of(ctx, err, cands))
        if cfg.get("zero"):
            ctx.check_eq("zero errors give zero", err, 0.0)


class Fraction(Prop):
    """shared by C05-C07"""

    def settings(self, ctx, cfg):
        mode = cfg.get("mode", "flux")
        n, r = cfg["n"], list(cfg["radii"])
        if mode == "flux":      # symbolic curve, concrete settings
            fl = ctx.reals("flux", n, -8, 64)
            if cfg.get("grow"):
                ctx.assume(fl[0] >= 0)
                for i in range(n - 1):
                    ctx.assume(fl[i] <= fl[i + 1])
            rp, eps, ef = cfg.get("rp", 2.0), cfg.get("eps", 1.5), cfg.get("ef", 0.75)
        else:                   # concrete curve, symbolic settings
            fl = {3: [2.0, 5.0, 6.0], 4: [1.0, 4.0, 6.0, 6.5], 5: [1.0, 4.0, 6.0, 6.5, 5.0]}[n]
            rp, eps = ctx.real("rp", 0.25, 16), cfg.get("eps", 2.0)
            ef = ctx.real("ef", 0.25, 1) if mode == "settings2" else cfg.get("ef", 0.75)
        return r, fl, rp, eps, ef


FRAC_CFG = [
    dict(n=4, radii=RADII[4][0], kind="linear", num=5), dict(n=4, radii=RADII[4][1], kind="linear", num=6), dict(n=3, radii=RADII[3][1], kind="linear", num=4, rp=3.0),
    dict(n=4, radii=RADII[4][1], kind="cubic", num=5), dict(n=4, radii=RADII[4][0], kind="nearest", num=5), dict(n=4, radii=RADII[4][0], kind="quadratic", num=4, rp=1.25, eps=2.0),
    dict(n=4, radii=RADII[4][1], kind=None, num=5), dict(n=4, radii=RADII[4][0], kind=0, num=5, rp=1.75), dict(n=4, radii=RADII[4][1], kind=3, num=4, rp=1.75),
    dict(n=4, radii=RADII[4][0], kind="nearest", num=5, rp=1.875), dict(n=4, radii=RADII[4][0], kind=None, num=5, rp=1.875),
    dict(n=4, radii=RADII[4][0], kind="linear", num=5, mode="settings"), dict(n=3, radii=RADII[3][0], kind="linear", num=3, mode="settings2"),
    dict(n=4, radii=RADII[4][1], kind=None, num=5, rp=0.25), dict(n=4, radii=RADII[4][1], kind="linear", num=5, rp=0.25),
    dict(n=4, radii=RADII[4][1], kind="linear", num=5, rp=5.0), dict(n=4, radii=RADII[4][1], kind="cubic", num=5, rp=nan), dict(n=4, radii=RADII[4][0], kind="linear", num=5, rp=nan)]


@prop
class C05(Fraction):
    id = "C05"
    bounds = "3-5 samples at concrete radii; every real flux and fraction with fixed settings, and every r_petrosian, fraction and epsilon_fraction on fixed curves; linear, cubic, quadratic, nearest, numbered (order 0, 3) or no interpolation; up to 7 resampled points"
    outside = "curve and r_petrosian symbolic together; more resampled points"

    def configs(self, tier):
        out = [dict(c) for c in FRAC_CFG]
        out += [dict(n=4, radii=RADII[4][0], kind="linear", num=5, grow=True, mono=True), dict(n=4, radii=RADII[4][1], kind=None, num=5, grow=True, mono=True, rp=3.0)]
        out += [dict(n=4, radii=RADII[4][0], kind="linear", num=5, form="list"), dict(n=4, radii=RADII[4][0], kind="linear", num=5, form="int")]
        if tier == "thorough":
            out += [dict(n=n, radii=r, kind=k, num=7, rp=rp, eps=eps) for n in (4, 5) for r in RADII[n] for k in ("linear", "cubic", None) for rp, eps in ((1.5, 2.0), (3.0, 1.0), (1.0, 1.0))]
            out += [dict(n=n, radii=r, kind="linear", num=7, mode="settings") for n in (3, 4, 5) for r in RADII[n]]
            out += [dict(n=5, radii=RADII[5][0], kind="linear", num=6, grow=True, mono=True, rp=3.0)]
        return out

    def run(self, ctx, cfg):
        r, fl, rp, eps, ef = self.settings(ctx, cfg)
        frac = ctx.real("fraction", 0.0625, 1.25)
        kind, num = cfg["kind"], cfg["num"]
        f_ = ctx.impl.core.fraction_to_r
        kw = dict(epsilon=eps, epsilon_fraction=ef, interp_kind=kind, interp_num=num)
        if cfg.get("form") == "list":
            R, FL = list(r), list(fl)
        elif cfg.get("form") == "int":
            r = [1, 2, 3, 4]
            fl = [ctx.int("iflux%d" % i, -8, 64) for i in range(4)]
            R, FL = ctx.array(r, "i"), ctx.array(fl, "i")
        else:
            R, FL = ctx.array(r), ctx.array(fl)
        out = ctx.call(f_, frac, R, FL, rp, **kw)
        ctx.observe("out", out)
        if not ctx.check_call("fraction_to_r", out):
            return
        got, err = out.value
        ctx.check("no errors, no error", ctx.isnan(err))
        re = rp * eps
        if ctx.isnan(rp):
            ctx.check("NaN radius gives NaN", ctx.isnan(got))
            return
        inside = ctx.And(re >= r[0], re <= r[-1])
        if not inside if not hasattr(inside, "e") else not bool(inside):
            ctx.check("outside the measured radii gives NaN", ctx.isnan(got))
            return
        target = at(ctx, re, [float(v) for v in r], fl, kind) * ctx.div(frac, ef)
        xs, ys = resample(ctx, [float(v) for v in r], fl, kind, num)
        ctx.check("nearest sample up to the first that reaches the target", is_one_of(ctx, got, reads(ctx, xs, ys, target, True)))
        if cfg.get("mono"):
            f2 = ctx.real("fraction2", 0.0625, 1.25)
            ctx.assume(frac <= f2)
            o2 = ctx.call(f_, f2, R, FL, rp, **kw)
            if ctx.check_call("second fraction", o2):
                g2 = o2.value[0]
                if not ctx.isnan(g2) and not ctx.isnan(got):
                    ctx.check_le("monotone in the fraction", got, g2)
                ctx.check("a reachable larger fraction implies a reachable smaller one", not (ctx.isnan(got) and not ctx.isnan(g2)))


@prop
class C06(Fraction):
    id = "C06"
    bounds = "3-4 samples at concrete radii; every real flux and flux error with fixed settings and radius error, and every r_petrosian and radius error on fixed curves; linear, cubic, nearest, order-0 or no interpolation"
    outside = "curve and r_petrosian symbolic together; more than 6 resampled points"
    timeout_ms = 6000

    def configs(self, tier):
        base = [dict(n=4, radii=RADII[4][0], kind="linear", num=5, rpe=0.25), dict(n=3, radii=RADII[3][1], kind="linear", num=4, rp=3.0, rpe=0.5),
                dict(n=4, radii=RADII[4][1], kind="cubic", num=4, rpe=0.25), dict(n=4, radii=RADII[4][0], kind="nearest", num=4, rpe=0.25),
                dict(n=4, radii=RADII[4][1], kind=None, num=5, rpe=0.25), dict(n=4, radii=RADII[4][1], kind=None, num=5, rpe=None),
                dict(n=3, radii=RADII[3][1], kind="linear", num=4, rp=3.0, rpe=nan), dict(n=3, radii=RADII[3][1], kind="linear", num=4, rp=3.75, rpe=0.75),
                dict(n=3, radii=RADII[3][1], kind="linear", num=4, rp=1.5, rpe=0.5),
                dict(n=3, radii=RADII[3][0], kind="linear", num=3, mode="settings", rpe="sym"), dict(n=3, radii=RADII[3][0], kind=None, num=3, mode="settings", rpe="sym", skip=True),
                dict(n=3, radii=RADII[3][1], kind="linear", num=4, rp=1.0, eps=1.0, rpe=0.5),
                dict(n=3, radii=RADII[3][1], kind="linear", num=4, rp=1.25, eps=3.0, rpe=1.5),      # an error larger than the radius
                dict(n=3, radii=RADII[3][1], kind=0, num=5, rp=2.5, eps=1.5, rpe=0.5)]
        out = [c for c in base if not c.get("skip")]
        if tier == "thorough":
            out += [dict(n=n, radii=r, kind=k, num=5, rp=rp, eps=1.0, rpe=e) for n in (3, 4) for r in RADII[n] for k in ("linear", "cubic", None) if not (n == 3 and k != "linear")
                    for rp in (2.0, 3.5) for e in (0.25, 1.0)]
        return out

    def run(self, ctx, cfg):
        r, fl, rp, eps, ef = self.settings(ctx, cfg)
        n = cfg["n"]
        frac = 0.5 if cfg.get("mode", "flux") == "flux" else ctx.real("fraction", 0.25, 1.0)
        kind, num, rpe = cfg["kind"], cfg["num"], cfg["rpe"]
        if cfg.get("mode", "flux") == "flux":
            fe = ctx.reals("ferr", n, 0, 4)
        else:
            fe = [0.25, 0.5, 0.5, 1.0][:n]
        if rpe == "sym":
            rpe = ctx.real("rpe", 0, 1)
        f_ = ctx.impl.core.fraction_to_r
        kw = dict(epsilon=eps, epsilon_fraction=ef, interp_kind=kind, interp_num=num)
        out = ctx.call(f_, frac, ctx.array(r), ctx.array(fl), rp, flux_err=ctx.array(fe), r_petrosian_err=rpe, **kw)
        base = ctx.call(f_, frac, ctx.array(r), ctx.array(fl), rp, r_petrosian_err=rpe, **kw)
        ctx.observe("out", out)
        if not (ctx.check_call("with errors", out) and ctx.check_call("without errors", base)):
            return
        got, err = out.value
        ctx.check("NaN error without flux errors", ctx.isnan(base.value[1]))
        ctx.check_eq("radius unchanged by errors", got, base.value[0])
        if ctx.isnan(got):
            ctx.check("no radius, no error", ctx.isnan(err))
            return
        re = rp * eps
        de = 0.0 if rpe is None or ctx.isnan(rpe) else rpe
        inside = ctx.And(re - de >= r[0], re + de <= r[-1])
        inside = bool(inside)
        if not inside:
            ctx.check("out of range gives a NaN error", ctx.isnan(err))
            return
        up, lo = [a + b for a, b in zip(fl, fe)], [a - b for a, b in zip(fl, fe)]
        target = at(ctx, re, r, fl, kind) * ctx.div(frac, ef)
        terr = (at(ctx, re + de, r, up, kind) - at(ctx, re - de, r, lo, kind)) / 2
        cu = reads(ctx, *resample(ctx, r, lo, kind, num), target + terr, True)
        cl = reads(ctx, *resample(ctx, r, up, kind, num), target - terr, True)
        cands = [(ctx.And(c1, c2), None if x1 is None or x2 is None else (x1 - x2) / 2) for c1, x1 in cu for c2, x2 in cl]
        ctx.check("half the bracket", is_one_of(ctx, err, cands))


@prop
class C07(Fraction):
    id = "C07"
    bounds = "as C05, both fractions symbolic"
    outside = "as C05"

    def configs(self, tier):
        out = [dict(c) for c in FRAC_CFG if c.get("kind") != "quadratic"]
        out += [dict(n=4, radii=RADII[4][0], kind="linear", num=5, grow=True), dict(n=4, radii=RADII[4][1], kind=None, num=5, grow=True, rp=3.0)]
        out += [dict(n=3, radii=RADII[3][1], kind="linear", num=3, rp=3.0, errs=True)]
        if tier == "thorough":
            out += [dict(n=5, radii=RADII[5][0], kind="linear", num=6, grow=True, rp=3.0), dict(n=5, radii=RADII[5][1], kind="cubic", num=6, rp=2.0)]
        return out

    def run(self, ctx, cfg):
        r, fl, rp, eps, ef = self.settings(ctx, cfg)
        f1, f2 = ctx.real("f1", 0.125, 1.0), ctx.real("f2", 0.125, 1.0)
        kw = dict(epsilon=eps, epsilon_fraction=ef, interp_kind=cfg["kind"], interp_num=cfg["num"])
        kw2 = dict(kw, flux_err=ctx.array([0.25] * cfg["n"]), r_petrosian_err=0.25) if cfg.get("errs") else kw
        core = ctx.impl.core
        R, FL = ctx.array(r), ctx.array(fl)
        out = ctx.call(core.calculate_concentration_index, f1, f2, R, FL, rp, **kw2)
        ctx.observe("out", out)
        a, b = ctx.call(core.fraction_to_r, f1, R, FL, rp, **kw), ctx.call(core.fraction_to_r, f2, R, FL, rp, **kw)
        if not (ctx.check_call("index", out) and ctx.check_call("radius 1", a) and ctx.check_call("radius 2", b)):
            return
        v = list(out.value)
        if not ctx.check("three values", len(v) == 3):
            return
        r1, r2 = a.value[0], b.value[0]
        if ctx.isnan(r1) or ctx.isnan(r2):
            for k in range(3):
                ctx.check("undefined radius gives NaN %d" % k, ctx.isnan(v[k]))
            return
        ctx.check_eq("first radius", v[0], r1)
        ctx.check_eq("second radius", v[1], r2)
        ctx.check_eq("index", v[2], 5 * ctx.log10(r2 / r1))
        if cfg.get("grow"):
            ctx.check("sign", ctx.Implies(f1 <= f2, v[2] >= -1e-9))
            sw = ctx.call(core.calculate_concentration_index, f2, f1, R, FL, rp, **kw)
            if ctx.check_call("swapped", sw):
                ctx.check_eq("swap flips the sign", list(sw.value)[2], 0 - v[2])


MEASURES = ["r_petrosian", "r_petrosian_err", "r_epsilon", "r_epsilon_in_range", "r_total_flux", "r_total_flux_err", "total_flux", "total_flux_err", "half_flux", "half_flux_err",
            "r_half_light", "r_half_light_err", "r_50", "r_50_err", "c2080", "c5090"]


class Obj(Prop):
    """profile objects with a concrete geometry; fluxes, errors and settings symbolic as configured"""

    def split_index(self, cfg):
        return True

    def data(self, ctx, cfg):
        n = cfg["n"]
        r = list(cfg["radii"])
        a = [round(3.0 * v * v, 6) for v in r]
        if cfg.get("curve") == "sym":
            fl = ctx.reals("flux", n, 1, 64)
            for i in range(n - 1):
                ctx.assume(fl[i] + 0.125 <= fl[i + 1])
        elif cfg.get("curve") == "half":
            fl = list(CURVES[n][0])
            fl[-2], fl[-1] = ctx.reals("flux", 2, 9.5, 64)
            if n == 3:
                ctx.assume(fl[0] + 0.125 <= fl[1])
            ctx.assume(fl[-2] + 0.125 <= fl[-1])
        else:
            fl = CURVES[n][cfg.get("curve", 0)]
        fe = None
        if cfg.get("errs") is not None:
            fe = [0.25, 0.5, 0.25, 1.0, 0.5][:n]
            if cfg["errs"] != "conc":
                fe[cfg["errs"]] = ctx.real("ferr", 0, 2)
        return r, a, fl, fe

    def make(self, ctx, cfg, d, **kw):
        r, a, fl, fe = d
        k = dict(interp_kind=cfg["kind"], interp_num=cfg["num"])
        k.update(kw)
        return ctx.impl.core.Petrosian(ctx.array(r), ctx.array(a), ctx.array(fl), flux_err=None if fe is None else ctx.array(fe), **k)


# settings under which every measurement of the concrete curves below is defined
START = dict(eta=0.5, epsilon=0.78125, epsilon_fraction=0.9375, total_flux_fraction=0.75)
CURVES = {3: [[3.0, 9.0, 11.0], [2.0, 4.0, 4.5]], 4: [[3.0, 9.0, 12.0, 13.0], [2.0, 7.0, 8.0, 8.25]], 5: [[3.0, 9.0, 12.0, 13.0, 13.5], [2.0, 10.0, 15.0, 15.5, 15.625]]}


def flat_scales(ctx):
    """astropy's projection scale of a stand-in coordinate system"""
    return {"astropy.wcs.utils.proj_plane_pixel_scales": lambda w: ctx.array([w.scale, w.scale])} if ctx.sym else {}


def sky_coordinates(ctx, scale, cunit):
    """a sky coordinate system with square pixels of the given size, in units of cunit"""
    import astropy.units as au

    class W:
        pass
    w2 = W()
    w2.wcs = W()
    w2.wcs.cunit = [au.Unit(cunit)] * 2
    if ctx.sym:
        w2.scale = scale
        return w2
    from astropy.wcs import WCS
    wcs = WCS(naxis=2)
    wcs.wcs.ctype = ["RA---TAN", "DEC--TAN"]
    wcs.wcs.cdelt = [-scale, scale]
    wcs.wcs.cunit = ["deg", "deg"]
    wcs.wcs.set()
    if cunit == "deg":
        return wcs
    # astropy normalises to degrees; present the same scale in another unit
    w2.celestial = wcs.celestial
    w2.pixel_scale_matrix = wcs.pixel_scale_matrix
    return w2


@prop
class C08(Obj):
    id = "C08"
    bounds = "3-5 samples at concrete radii and areas; every increasing real curve of growth with fixed settings, and every eta/epsilon/epsilon_fraction/total_flux_fraction on fixed curves; linear, cubic, nearest, order-0 and no interpolation; with and without flux errors"
    outside = "curve and settings symbolic together; more than 6 resampled points; fewer than 4 samples with cubic or no interpolation"

    def over(self, ctx, cfg):
        return flat_scales(ctx)

    def configs(self, tier):
        out = []
        for kind in ("linear", "cubic", "nearest", None):
            for errs in (None, "conc"):
                if tier == "quick" and errs:
                    out += [dict(n=4, radii=RADII[4][0], kind=kind, num=4, errs=errs, curve=0, sym=[v]) for v in ("eta", "epsilon", "epsilon_fraction", "total_flux_fraction")]
                    continue
                out.append(dict(n=4, radii=RADII[4][0], kind=kind, num=4, errs=errs, curve=0, sym=["eta", "epsilon"]))
                out.append(dict(n=4, radii=RADII[4][0], kind=kind, num=4, errs=errs, curve=1, sym=["epsilon_fraction", "total_flux_fraction"]))
        out.append(dict(n=3, radii=RADII[3][0], kind="linear", num=3, errs=None, curve="sym", sym=[]))
        out.append(dict(n=4, radii=RADII[4][0], kind=0, num=5, errs="conc", curve=0, sym=["eta"]))
        out.append(dict(n=4, radii=RADII[4][0], kind=None, num=4, errs=None, curve="half", sym=[]))
        out += [dict(n=3, radii=RADII[3][0], kind="linear", num=4, errs=i, curve=0, sym=[]) for i in (1, 2)]
        if tier == "thorough":
            for kind in ("linear", "cubic", "nearest", "quadratic", None):
                for errs in (None, "conc"):
                    for cv in (0, 1):
                        out.append(dict(n=5, radii=RADII[5][0], kind=kind, num=6, errs=errs, curve=cv, sym=["eta", "epsilon"]))
                        out.append(dict(n=5, radii=RADII[5][1], kind=kind, num=5, errs=errs, curve=cv, sym=["eta", "total_flux_fraction"]))
            out.append(dict(n=4, radii=RADII[4][0], kind="linear", num=4, errs="conc", curve="sym", sym=[]))
        return out

    def run(self, ctx, cfg):
        d = self.data(ctx, cfg)
        r, a, fl, fe = d
        S = dict(START)
        lim = dict(eta=(0.0625, 0.9375), epsilon=(0.5, 4), epsilon_fraction=(0.25, 1), total_flux_fraction=(0.25, 1))
        for k in cfg["sym"]:
            S[k] = ctx.real(k, *lim[k])
        out = ctx.call(self.make, ctx, cfg, d, **S)
        if not ctx.check_call("constructing", out):
            return
        p = out.value
        M = {}
        for m in MEASURES:
            o = ctx.call(getattr, p, m)
            if not ctx.check_call("reading " + m, o):
                return
            M[m] = o.value
        ctx.observe("measures", [M[m] for m in MEASURES])
        core, kw = ctx.impl.core, dict(interp_kind=cfg["kind"], interp_num=cfg["num"])
        R, A, FL, FE = ctx.array(r), ctx.array(a), ctx.array(fl), None if fe is None else ctx.array(fe)
        o = ctx.call(core.calculate_petrosian, A, FL, flux_err=FE)
        if not ctx.check_call("profile", o):
            return
        prof, perr = o.value
        ctx.check_eq_arr("profile", p.petrosian_list, prof)
        rp, rpe = core.calculate_petrosian_r(R, prof, petrosian_err=perr, eta=S["eta"], **kw)
        ctx.check_eq("r_petrosian", M["r_petrosian"], rp)
        ctx.check_eq("r_petrosian_err", M["r_petrosian_err"], rpe)
        ctx.check_eq("r_epsilon", M["r_epsilon"], rp * S["epsilon"] if not ctx.isnan(rp) else nan)
        if not ctx.isnan(rp):
            ctx.check_eq("r_epsilon_in_range", M["r_epsilon_in_range"], ctx.And(rp * S["epsilon"] >= r[0], rp * S["epsilon"] <= r[-1]))
        kw.update(flux_err=FE, r_petrosian_err=rpe, epsilon=S["epsilon"], epsilon_fraction=S["epsilon_fraction"])
        fr = lambda f: core.fraction_to_r(f, R, FL, rp, **kw)
        rt, rte = fr(S["total_flux_fraction"])
        rh, rhe = fr(0.5)
        for m, v in (("r_total_flux", rt), ("r_total_flux_err", rte), ("r_half_light", rh), ("r_half_light_err", rhe), ("r_50", rh), ("r_50_err", rhe)):
            ctx.check_eq(m, M[m], v)
        for m, (f1, f2) in (("c2080", (0.2, 0.8)), ("c5090", (0.5, 0.9))):
            ctx.check_eq(m, M[m], list(core.calculate_concentration_index(f1, f2, R, FL, rp, **kw))[2])
        ctx.check_eq("fraction_flux_to_r", p.fraction_flux_to_r(0.375), fr(0.375)[0])
        ctx.check_eq("fraction_flux_to_r_err", p.fraction_flux_to_r_err(0.375), fr(0.375)[1])
        ci = list(p.concentration_index(0.25, 0.75))
        cw = list(core.calculate_concentration_index(0.25, 0.75, R, FL, rp, **kw))
        for k in range(3):
            ctx.check_eq("concentration_index[%d]" % k, ci[k], cw[k])
        scale, unit, arcsec = ((0.125, "arcsec", 1.0), (2.0 ** -10, "deg", 3600.0))[cfg["errs"] is not None]
        wcs = sky_coordinates(ctx, scale, unit)
        for m, x in (("r_half_light_arcsec", rh), ("r_total_flux_arcsec", rt)):
            o = ctx.call(getattr(p, m), wcs)
            if ctx.check_call(m, o):
                if ctx.isnan(x):
                    ctx.check(m + " undefined", ctx.isnan(o.value))
                else:
                    ctx.check_eq(m, o.value, x * scale * arcsec)
        for m, x, xe in (("total_flux", rt, rte), ("half_flux", rh, rhe)):
            if ctx.isnan(x):
                ctx.check(m + " is NaN without a radius", ctx.isnan(M[m]))
                ctx.check(m + "_err is NaN without a radius", ctx.isnan(M[m + "_err"]))
                continue
            want, near = self.lookup(ctx, cfg, x, r, fl, fe)
            ctx.check_eq(m, M[m], want)
            if fe is None or ctx.isnan(xe):
                ctx.check(m + "_err undefined", ctx.isnan(M[m + "_err"]))
            else:
                e = M[m + "_err"]
                if ctx.check(m + "_err defined", not ctx.isnan(e)):
                    ctx.check_le(m + "_err not negative", 0.0, e)
                    ctx.check(m + "_err", ctx.Or(*[ctx.And(cnd, ctx.abs(e ** 2 - (v ** 2 + xe ** 2)) <= 1e-8 * (1 + v ** 2 + xe ** 2)) for cnd, v in near]))

    def lookup(self, ctx, cfg, x, r, fl, fe):
        """flux at radius x (one of the resampled radii) and the admissible nearest errors"""
        kind = "cubic" if cfg["kind"] is None else cfg["kind"]
        xs = r if cfg["kind"] is None else [float(v) for v in np.linspace(r[0], r[-1], max(cfg["num"], len(r)))]
        ys = [at(ctx, v, r, fl, kind) for v in xs]
        v = ys[-1]
        for i in range(len(xs) - 2, -1, -1):
            v = ctx.ite(ctx.abs(x - xs[i]) <= 1e-9, ys[i], v)
        near = []
        if fe is not None:
            d = [ctx.abs(x - q) for q in r]
            near = [(ctx.And(*[d[i] <= d[j] + 1e-9 for j in range(len(r)) if j != i]), fe[i]) for i in range(len(r))]
        return v, near


@prop
class C09(Obj):
    id = "C09"
    bounds = "objects with 3-4 samples; every sequence of up to 2 (quick) or 3 (thorough) assignments to the four settings with symbolic values, with all, some or no measurements read before each; shallow copies"
    outside = "longer histories; more samples"

    def configs(self, tier):
        L = 2 if tier == "quick" else 3
        names = ["eta", "epsilon", "epsilon_fraction", "total_flux_fraction"]
        out = []
        for s1 in names:
            for s2 in names:
                n = 3 if L == 2 and {s1, s2} == {"epsilon", "epsilon_fraction"} else 4
                out.append(dict(n=n, radii=RADII[n][0], kind=None, num=4, errs=None, curve=1, seq=[s1, s2], read="all"))
        for s in names:
            out.append(dict(n=4, radii=RADII[4][0], kind="linear", num=4, errs=None, curve=0, seq=[s], read="all"))
            out.append(dict(n=3, radii=RADII[3][0], kind="linear", num=3, errs="conc", curve=0, seq=[s], read="all"))
            out.append(dict(n=4, radii=RADII[4][0], kind=None, num=4, errs=None, curve=1, seq=[s], read="c2080"))
            out.append(dict(n=4, radii=RADII[4][0], kind=None, num=4, errs=None, curve=1, seq=[s], read="all", copy=True))
        # the interpolation settings are settings as well
        for start in (("linear", 4), ("cubic", 5), (None, 4), ("nearest", 5)):
            for s in ("interp_kind", "interp_num"):
                out.append(dict(n=4, radii=RADII[4][0], kind=start[0], num=start[1], errs=None, curve=1, seq=[s], read="all"))
        for s in names:
            out.append(dict(n=4, radii=RADII[4][L == 3], kind="linear", num=2 + L, errs=None, curve=0, seq=[s, "interp_kind"], read="all"))
            out.append(dict(n=4, radii=RADII[4][1], kind="cubic", num=4, errs=None, curve=0, seq=["interp_num", s], read="r_half_light"))
        out.append(dict(n=4, radii=RADII[4][0], kind="linear", num=4, errs="conc", curve=1, seq=["interp_kind", "interp_num"], read="all"))
        out.append(dict(n=4, radii=RADII[4][0], kind="linear", num=4, errs="conc", curve=1, seq=["interp_num", "interp_kind"], read="all", copy=True))
        if L == 3:
            for s1 in names:
                for s2 in names:
                    for s3 in names:
                        out.append(dict(n=4, radii=RADII[4][1], kind=None, num=4, errs=None, curve=1, seq=[s1, s2, s3], read="all"))
        return out

    LIM = dict(eta=(0.0625, 0.9375), epsilon=(0.5, 3), epsilon_fraction=(0.25, 1), total_flux_fraction=(0.25, 1))

    def measure(self, ctx, p, names=MEASURES):
        out = []
        for m in names:
            o = ctx.call(getattr, p, m)
            out.append((m, o))
        return out

    def same(self, ctx, label, a, b):
        for (m, x), (_, y) in zip(a, b):
            if not ctx.check("%s: %s defined alike" % (label, m), x.ok == y.ok, repr(x.exc)):
                continue
            if x.ok:
                ctx.check_eq("%s: %s" % (label, m), x.value, y.value)

    def run(self, ctx, cfg):
        d = self.data(ctx, cfg)
        S = dict(START, interp_kind=cfg["kind"], interp_num=cfg["num"])
        p = self.make(ctx, cfg, d, **S)
        core = ctx.impl.core
        names = MEASURES if cfg["errs"] is not None else [m for m in MEASURES if not m.endswith("_err")]
        orig = None
        if cfg.get("copy"):
            import copy
            before = self.measure(ctx, p, names)
            orig, p = p, copy.copy(p)
        for k, s in enumerate(cfg["seq"]):
            if cfg["read"] == "all":
                self.measure(ctx, p, names)
            else:
                self.measure(ctx, p, [cfg["read"]])
            if s == "interp_kind":
                v = ctx.choice("%s%d" % (s, k), ["linear", "cubic", "nearest", None])
            elif s == "interp_num":
                v = ctx.choice("%s%d" % (s, k), [4, 5, 7])
            else:
                v = ctx.real("%s%d" % (s, k), *self.LIM[s])
            setattr(p, s, v)
            S[s] = v
        if orig is not None:
            # nothing else may be built or read before the original is read again
            self.same(ctx, "the original after its copy was changed", self.measure(ctx, orig, names), before)
        a = self.measure(ctx, p, names)
        q = self.make(ctx, cfg, d, **S)
        b = self.measure(ctx, q, names)
        self.same(ctx, "after the changes", a, b)
        ctx.observe("m", [o.value if o.ok else None for _, o in a])
        for s in S:
            if s == "interp_kind":
                ctx.check("setting " + s, getattr(p, s) == S[s])
            else:
                ctx.check_eq("setting " + s, getattr(p, s), S[s])
        if orig is not None:
            q0 = self.make(ctx, cfg, d, **START)
            self.same(ctx, "the copied object", self.measure(ctx, orig, names), self.measure(ctx, q0, names))


@prop
class C11(Obj):
    id = "C11"
    bounds = "3-4 samples; profile and errors for every real curve and every positive factor; radii and indices for every real curve at factors 2^-40, 1/8 and 2^40 (thorough: 2^-60 to 2^40; powers of two, where floating point scales exactly); pixel factors 2^-14 and 4 (thorough: 2^-14 to 2^14)"
    outside = "other factors for the radii (the code has no branch on the magnitude of the factor except through comparisons decided here)"

    def configs(self, tier):
        out = [dict(what="profile", n=3, errs=e) for e in (None, "sym")] + [dict(what="profile", n=4, errs=None)]
        ks = (0.125, 2.0 ** 40, 2.0 ** -40) if tier == "quick" else (0.125, 2.0, 1024.0, 2.0 ** 20, 2.0 ** 40, 2.0 ** -20, 2.0 ** -40, 2.0 ** -60)
        for k in ks:
            for kind in ("linear", None):
                out.append(dict(what="radii", n=4, radii=RADII[4][0], kind=kind, num=4, k=k, curve="half" if kind == "linear" or tier == "thorough" else 0, errs=None))
                out.append(dict(what="fraction", n=4, radii=RADII[4][0], kind=kind, num=5, k=k, unit="flux"))
            out.append(dict(what="radii", n=3, radii=RADII[3][0], kind="linear", num=3, k=k, curve=0, errs=1))
        for k in ((2.0 ** -14, 4.0) if tier == "quick" else (0.25, 4.0, 128.0, 2.0 ** -14, 2.0 ** 14)):
            for kind in ("linear", "cubic", None):
                out.append(dict(what="pixels", n=4, radii=RADII[4][0], kind=kind, num=4, k=k, curve="half" if kind == "linear" or tier == "thorough" else 0, errs=None))
                out.append(dict(what="fraction", n=4, radii=RADII[4][0], kind=kind, num=5, k=k, unit="pixel"))
            out.append(dict(what="pixels", n=3, radii=RADII[3][0], kind="linear", num=3, k=k, curve="sym" if tier == "thorough" else "half", errs=None))
        return out

    def fraction(self, ctx, cfg):
        core, r, k = ctx.impl.core, list(cfg["radii"]), cfg["k"]
        f = ctx.reals("flux", cfg["n"], 1, 64)
        for i in range(cfg["n"] - 1):
            ctx.assume(f[i] + 0.125 <= f[i + 1])
        rp = ctx.choice("rp", [1.5, 2.0, 3.0, 3.2])
        fr = ctx.real("fraction", 0.125, 1)
        kf, kr = (k, 1.0) if cfg["unit"] == "flux" else (1.0, k)
        kw = dict(epsilon=1.25, interp_kind=cfg["kind"], interp_num=cfg["num"])
        a = ctx.call(core.fraction_to_r, fr, ctx.array(r), ctx.array(f), rp, **kw)
        b = ctx.call(core.fraction_to_r, fr, ctx.array([kr * v for v in r]), ctx.array([kf * v for v in f]), kr * rp, **kw)
        ctx.observe("base", a)
        if ctx.check_call("base", a) and ctx.check_call("rescaled", b):
            x, y = a.value[0], b.value[0]
            if ctx.isnan(x) or ctx.isnan(y):
                ctx.check("NaN alike", ctx.isnan(x) and ctx.isnan(y))
            else:
                ctx.check_eq("radius", y, x * kr)

    def run(self, ctx, cfg):
        core = ctx.impl.core
        if cfg["what"] == "profile":
            n = cfg["n"]
            a, f = curve(ctx, n)
            k = ctx.real("k", 2.0 ** -20, 2.0 ** 20)
            for i in range(n - 1):
                ctx.assume(ctx.Or(f[i + 1] - f[i] >= 0.03125, f[i] - f[i + 1] >= 0.03125))
            e = ctx.reals("e", n, 0, 4) if cfg["errs"] else None
            o1 = ctx.call(core.calculate_petrosian, ctx.array(a), ctx.array(f), flux_err=None if e is None else ctx.array(e))
            o2 = ctx.call(core.calculate_petrosian, ctx.array(a), ctx.array([k * v for v in f]), flux_err=None if e is None else ctx.array([k * v for v in e]))
            o3 = ctx.call(core.calculate_petrosian, ctx.array([k * k * v for v in a]), ctx.array(f), flux_err=None if e is None else ctx.array(e))
            if not (ctx.check_call("base", o1) and ctx.check_call("scaled flux", o2) and ctx.check_call("scaled area", o3)):
                return
            for name, o in (("flux unit", o2), ("pixel unit", o3)):
                ctx.check_eq_arr("profile in another " + name, o.value[0], o1.value[0])
                if e is not None:
                    x, y = ctx.flat(o.value[1]), ctx.flat(o1.value[1])
                    for i in range(1, n):
                        ctx.check_eq("error %d in another %s" % (i, name), x[i] ** 2, y[i] ** 2)
            return
        if cfg["what"] == "fraction":
            return self.fraction(ctx, cfg)
        d = self.data(ctx, cfg)
        r, a, fl, fe = d
        k = cfg["k"]
        S = dict(START)
        names = ["r_petrosian", "r_epsilon", "r_total_flux", "r_half_light", "c2080", "c5090", "total_flux", "half_flux"]
        if fe is not None:
            names += ["r_petrosian_err", "r_total_flux_err", "r_half_light_err"]
        p = self.make(ctx, cfg, d, **S)
        if cfg["what"] == "radii":
            q = self.make(ctx, cfg, (r, a, [k * v for v in fl], None if fe is None else [k * v for v in fe]), **S)
            scale = {m: (k if m.endswith("flux") and not m.startswith("r_") else 1.0) for m in names}
        else:
            q = self.make(ctx, cfg, ([k * v for v in r], [k * k * v for v in a], fl, fe), **S)
            scale = {m: (k if m.startswith("r_") else 1.0) for m in names}
        ctx.observe("base", [ctx.call(getattr, p, m).value for m in names])
        for m in names:
            x, y = ctx.call(getattr, p, m), ctx.call(getattr, q, m)
            if not ctx.check(m + " defined alike", x.ok and y.ok, repr(x.exc or y.exc)):
                return
            if ctx.isnan(x.value) or ctx.isnan(y.value):
                ctx.check(m + " NaN alike", ctx.isnan(x.value) and ctx.isnan(y.value))
            else:
                ctx.check_eq(m, y.value, x.value * scale[m], 1e-6)
