"""Analytic Sersic relations and two-dimensional light profiles (C28, C29)."""
import numpy as np

from symx import core as c, arr
from symx.harness import Prop, prop

PI = float(np.pi)


def law(ctx, r, amp, re, n):
    """circular Sersic law I(r), amplitude at the effective radius"""
    bn = ctx.apply("gammaincinv", 2.0 * n, 0.5)
    return amp * ctx.apply("exp", -bn * ((r / re) ** (1 / n) - 1))


@prop
class C28(Prop):
    id = "C28"
    tol = 1e-6
    bounds = "every radius, amplitude, effective radius, Sersic index (symbolic 0.125-8) and ellipticity; scalar and array radii, custom-model wrappers"
    assumptions = ("scipy's gammainc(a, .) and gammaincinv(a, .) are mutually inverse and increasing, gamma is positive, exp and log obey their functional equations",)
    py_div = True
    timeout_ms = 8000

    def configs(self, tier):
        out = []
        rels = ("inverse", "inverse2", "half", "zero", "monotone", "scale", "petrosian", "intensity")
        for rel in rels:
            out.append(dict(rel=rel, n="sym", form="scalar"))
            for n in (0.5, 1.0, 4.0) if tier == "quick" else (0.25, 0.5, 0.7, 1.0, 1.5, 2.5, 3.3, 4.0, 6.0, 8.0):
                out.append(dict(rel=rel, n=n, form="scalar"))
        out += [dict(rel=r, n="sym", form="array") for r in ("inverse", "petrosian", "half", "intensity")]
        out += [dict(rel=r, n="sym", form="model") for r in ("inverse", "petrosian", "half", "scale")]
        return out

    def run(self, ctx, cfg):
        m = ctx.impl.models
        rel, form = cfg["rel"], cfg["form"]
        n = ctx.real("n", 0.125, 8) if cfg["n"] == "sym" else cfg["n"]
        amp = ctx.real("amp", 0.0625, 64)
        re = ctx.real("re", 0.125, 32)
        el = ctx.real("ellip", 0, 0.875)
        r = ctx.real("r", 0.0625, 64)

        def wrap(x):
            return ctx.array([x]) if form in ("array", "model") else x

        def enc(x, a=amp, e=el):
            if form == "model":
                mm = m.sersic_enclosed_model
                out = ctx.call(mm.evaluate, wrap(x), a, re, n, e)
            elif e is None:
                out = ctx.call(m.sersic_enclosed, wrap(x), a, re, n)
            else:
                out = ctx.call(m.sersic_enclosed, wrap(x), a, re, n, ellip=e)
            if not ctx.check_call("sersic_enclosed", out):
                return None
            v = ctx.flat(out.value)
            return v[0] if ctx.check("one value", len(v) == 1) else None

        def inv(f):
            out = ctx.call(m.sersic_enclosed_inv, wrap(f), amp, re, n, ellip=el)
            if not ctx.check_call("sersic_enclosed_inv", out):
                return None
            v = ctx.flat(out.value)
            return v[0] if ctx.check("one value", len(v) == 1) else None

        if rel == "inverse":
            f = enc(r)
            if f is None:
                return
            g = inv(f)
            if g is not None and self.well(ctx, r / re, n):
                ctx.check_eq("radius of the flux within r", g, r)
        elif rel == "inverse2":
            tot = enc(float("inf"))
            if tot is None:
                return
            q = ctx.real("q", 0.0625, 0.9375)
            g = inv(tot * q)
            if g is None:
                return
            f = enc(g)
            if f is not None:
                ctx.check_eq("flux within the radius of a flux", f, tot * q)
        elif rel == "half":
            f, tot = enc(re), enc(float("inf"))
            if f is None or tot is None:
                return
            ctx.check("total is finite and positive", tot > 0)
            ctx.check_eq("half the total within r_eff", f * 2, tot)
        elif rel == "zero":
            f = enc(0.0)
            if f is not None:
                ctx.check_eq("nothing within radius 0", f, 0.0)
            g = inv(0.0)
            if g is not None:
                ctx.check_eq("no flux, radius 0", g, 0.0)
        elif rel == "monotone":
            r2 = ctx.real("r2", 0.0625, 64)
            ctx.assume(r < r2)
            f, g = enc(r), enc(r2)
            if f is not None and g is not None:
                ctx.check_le("non-decreasing", f, g)
                ctx.check("non-negative", f >= 0)
        elif rel == "scale":
            k = ctx.real("k", 0.125, 8)
            e2 = ctx.real("ellip2", 0, 0.875)
            f, g, h, z = enc(r), enc(r, a=amp * k), enc(r, e=e2), enc(r, e=0 if form == "model" else None)
            if None in (f, g, h, z):
                return
            ctx.check_eq("proportional to amplitude", g, f * k)
            ctx.check_eq("proportional to the axis ratio", h * (1 - el), f * (1 - e2))
            ctx.check_eq("circular by default", f, z * (1 - el))
        elif rel == "petrosian":
            f = enc(r, e=0 if form == "model" else None)
            if form == "model":
                out = ctx.call(m.petrosian_model.evaluate, wrap(r), re, n)
            else:
                out = ctx.call(m.petrosian_profile, wrap(r), re, n)
            if f is None or not ctx.check_call("petrosian_profile", out):
                return
            eta = ctx.flat(out.value)[0]
            ctx.assume(f > 0)
            ctx.check_eq("Petrosian profile times mean intensity is the intensity", eta * f, PI * r * r * law(ctx, r, amp, re, n))
        else:
            I0 = ctx.call(m.Ie_to_I0, wrap(amp), n)
            Ie = ctx.call(m.I0_to_Ie, wrap(amp), n)
            if not (ctx.check_call("Ie_to_I0", I0) and ctx.check_call("I0_to_Ie", Ie)):
                return
            ctx.check_eq("central intensity of the law", ctx.flat(I0.value)[0], law(ctx, 0.0, amp, re, n))
            a = ctx.call(m.I0_to_Ie, I0.value, n)
            b = ctx.call(m.Ie_to_I0, Ie.value, n)
            if ctx.check_call("I0_to_Ie", a) and ctx.check_call("Ie_to_I0", b):
                ctx.check_eq("out and back", ctx.flat(a.value)[0], amp)
                ctx.check_eq("back and out", ctx.flat(b.value)[0], amp)

    @staticmethod
    def well(ctx, x, n):
        """the inverse is only well conditioned where the curve of growth still rises in double precision"""
        if ctx.sym:
            return True
        from scipy.special import gammainc, gammaincinv
        p = gammainc(2 * n, gammaincinv(2 * n, 0.5) * float(x) ** (1 / n))
        return 1e-6 < p < 1 - 1e-6


def gen_law(ctx, dx, dy, amp, re, n, el, c0, ct, st):
    """Sersic law on generalised ellipses, from its definition"""
    u, v = ctx.abs((dx * ct + dy * st) / re), ctx.abs((dy * ct - dx * st) / ((1 - el) * re))
    p = c0 + 2
    z = ctx.sqrt(u * u + v * v) if not c.is_sym(c0) and c0 == 0 else (u ** p + v ** p) ** (1 / p)
    return amp * ctx.apply("exp", -ctx.apply("gammaincinv", 2.0 * n, 0.5) * (z ** (1 / n) - 1))


@prop
class C29(Prop):
    id = "C29"
    tol = 1e-7
    bounds = "every amplitude, radius, index, centre, ellipticity, orientation, boxiness (c_0 from -1 to 2 and 0, 1, 2), alpha, beta, gamma within the stated ranges; points on the principal axes, reflected pairs, rotated pairs, break-radius points, arbitrary points"
    assumptions = ("sine and cosine of one angle have squared sum 1; exp, ln and powers obey their functional equations; gammaincinv is increasing",)
    py_div = True
    timeout_ms = 8000

    def configs(self, tier):
        out = []
        cs = ("sym", 0, 2) if tier == "quick" else ("sym", 0, 1, 2, -0.5, 0.5)
        ns = ("sym", 1, 4) if tier == "quick" else ("sym", 0.5, 1, 2, 4)
        for n in ns:
            out.append(dict(model="gen", what="standard", n=n, c0=0))
            for c0 in cs:
                out += [dict(model="gen", what=w, n=n, c0=c0) for w in ("major", "minor", "reflect", "amplitude")]
                if n != "sym":
                    out.append(dict(model="gen", what="law", n=n, c0=c0, axis=True))
        for g in ("sym", 0, 1):
            out += [dict(model="nuker", what=w, gamma=g) for w in ("swap", "mirror", "rotate", "break", "amplitude")]
            out += [dict(model="nuker", what=w, gamma=g, shape="concrete") for w in ("law", "centre")]
        for n in ns:
            out += [dict(model="core", what=w, n=n, gamma=g) for w in ("break", "amplitude") for g in ("sym", 0, 0.5)]
            out += [dict(model="core", what=w, n=n, gamma=g, turned=True) for w in ("break",) for g in ("sym", 0.5)]
        if tier == "quick":
            drop = lambda d: (d["what"] == "amplitude" and (d["model"] == "gen" and d["n"] == 4 or d["model"] == "core" and (d["n"] != 1 or d["gamma"] == 0.5))
                              or d["model"] == "nuker" and d["gamma"] == 1 and d["what"] in ("swap", "mirror", "rotate"))
            out = [d for d in out if not drop(d)]
        return out

    def run(self, ctx, cfg):
        getattr(self, cfg["model"])(ctx, cfg)

    def common(self, ctx):
        return ctx.real("amp", 0.0625, 64), ctx.real("x_0", -16, 16), ctx.real("y_0", -16, 16)

    def angle(self, ctx):
        t = ctx.real("theta", -6.25, 6.25)
        return t, ctx.apply("cos", t), ctx.apply("sin", t)

    def value(self, ctx, label, f, x, y, *p):
        out = ctx.call(f, ctx.array([x]), ctx.array([y]), *p)
        if not ctx.check_call(label, out):
            return None
        v = ctx.flat(out.value)
        if not ctx.check(label + ": one value", len(v) == 1):
            return None
        ctx.observe(label, v[0])
        return v[0]

    # ---- generalised Sersic
    def gen(self, ctx, cfg):
        m = ctx.impl.models
        amp, x0, y0 = self.common(ctx)
        wide = cfg["what"] in ("major", "minor")
        re, el = ctx.real("re", 2.0 ** -10 if wide else 0.5, 1024 if wide else 32), ctx.real("ellip", 0, 0.9921875 if wide else 0.875)
        n = ctx.real("n", 0.5, 8) if cfg["n"] == "sym" else cfg["n"]
        c0 = ctx.real("c_0", -1, 2) if cfg["c0"] == "sym" else cfg["c0"]
        t, ct, st = self.angle(ctx)
        ev = m.GenSersic2D.evaluate
        par = (re, n, x0, y0, el, t, c0)
        w = cfg["what"]
        if w in ("major", "minor"):
            sg = ctx.choice("side", [1, -1])
            d = re if w == "major" else (1 - el) * re
            ux, uy = (ct, st) if w == "major" else (-st, ct)
            v = self.value(ctx, w, ev, x0 + sg * d * ux, y0 + sg * d * uy, amp, *par)
            if v is not None:
                ctx.check_eq("amplitude at the effective radius, %s axis" % w, v, amp)
            return
        dx, dy = ctx.real("dx", -16, 16), ctx.real("dy", -16, 16)
        if w == "law":
            dx, dy = dx * ct, dx * st      # any point of the major axis
        v = self.value(ctx, "point", ev, x0 + dx, y0 + dy, amp, *par)
        if v is None:
            return
        if w == "reflect":
            u = self.value(ctx, "opposite point", ev, x0 - dx, y0 - dy, amp, *par)
            if u is not None:
                ctx.check_eq("same on the other side of the centre", u, v)
        elif w == "amplitude":
            k = ctx.real("k", 0.125, 8)
            u = self.value(ctx, "scaled", ev, x0 + dx, y0 + dy, amp * k, *par)
            if u is not None:
                ctx.check_eq("proportional to amplitude", u, v * k)
        else:
            ctx.check_eq("the law", v, gen_law(ctx, dx, dy, amp, re, n, el, c0, ct, st))

    # ---- Nuker
    def nuker(self, ctx, cfg):
        f = ctx.impl.models.Nuker2D.evaluate
        amp, x0, y0 = self.common(ctx)
        rb = ctx.real("r_break", 0.5, 16)
        g = ctx.real("gamma", 0, 2) if cfg["gamma"] == "sym" else cfg["gamma"]
        if cfg.get("shape") == "concrete":
            al, be = ctx.choice("alpha", [1, 2]), ctx.choice("betta", [2, 4])
        else:
            al, be = ctx.real("alpha", 0.5, 4), ctx.real("betta", 0.5, 6)
        w = cfg["what"]
        par = (rb, x0, y0, al, be, g)
        if w == "break":
            ux, uy = ctx.choice("dir", [(1.0, 0.0), (0.0, -1.0), (0.6, 0.8), (-0.28, 0.96)])
            if ctx.sym:
                from fractions import Fraction
                ux, uy = [Fraction(u).limit_denominator(100) for u in (ux, uy)]
                ux, uy = c.Sym(c.z3.Q(ux.numerator, ux.denominator)), c.Sym(c.z3.Q(uy.numerator, uy.denominator))
            v = self.value(ctx, "break radius", f, x0 + rb * ux, y0 + rb * uy, amp, *par)
            if v is not None:
                ctx.check_eq("amplitude at the break radius", v, amp)
            return
        if w == "centre":
            v = self.value(ctx, "centre", f, x0, y0, amp, *par)
            return
        dx, dy = ctx.real("dx", -16, 16), ctx.real("dy", -16, 16)
        ctx.assume(dx * dx + dy * dy >= 0.0625)
        v = self.value(ctx, "point", f, x0 + dx, y0 + dy, amp, *par)
        if v is None:
            return
        if w == "amplitude":
            k = ctx.real("k", 0.125, 8)
            u = self.value(ctx, "scaled", f, x0 + dx, y0 + dy, amp * k, *par)
            if u is not None:
                ctx.check_eq("proportional to amplitude", u, v * k)
        elif w == "law":
            r = ctx.sqrt(dx * dx + dy * dy) / rb
            s = 1 + r ** al
            want = amp * (2 ** ((be - g) / al)) * r ** (-g) * s ** ((g - be) / al)
            ctx.check_eq("the law", v, want)
        else:
            pts = {"swap": [(dy, dx)], "mirror": [(-dx, dy), (dx, -dy), (-dx, -dy)]}.get(w)
            if pts is None:
                a, b = ctx.choice("turn", [(3, 4), (-5, 12), (8, -15)])
                h = {4: 5, 12: 13, -15: 17}[b]
                pts = [((dx * a - dy * b) / h, (dx * b + dy * a) / h)]
            for x, y in pts:
                u = self.value(ctx, "other point", f, x0 + x, y0 + y, amp, *par)
                if u is not None:
                    ctx.check_eq("same at the same distance", u, v)

    # ---- core Sersic
    def core(self, ctx, cfg):
        f = ctx.impl.models.CoreSersic2D.evaluate
        amp, x0, y0 = self.common(ctx)
        re, rb = ctx.real("re", 1, 16), ctx.real("r_break", 0.5, 8)
        el = ctx.real("ellip", 0, 0.75)
        n = ctx.real("n", 0.5, 8) if cfg["n"] == "sym" else cfg["n"]
        g = ctx.real("gamma", 0, 2) if cfg["gamma"] == "sym" else cfg["gamma"]
        al = ctx.real("alpha", 1, 4)
        if cfg.get("turned"):
            t, ct, st = self.angle(ctx)
        else:
            t, ct, st = 0.0, 1.0, 0.0
        par = (re, rb, n, x0, y0, al, g, el, t)
        if cfg["what"] == "break":
            if ctx.choice("axis", ["major", "minor"]) == "major":
                x, y = x0 + rb * ct, y0 + rb * st
            else:
                x, y = x0 - (1 - el) * rb * st, y0 + (1 - el) * rb * ct
            v = self.value(ctx, "break radius", f, x, y, amp, *par)
            if v is not None:
                ctx.check_eq("amplitude at the break radius", v, amp)
            return
        dx, dy, k = ctx.real("dx", -16, 16), ctx.real("dy", -16, 16), ctx.real("k", 0.125, 8)
        ctx.assume(dx * dx + dy * dy >= 0.0625)
        v = self.value(ctx, "point", f, x0 + dx, y0 + dy, amp, *par)
        u = self.value(ctx, "scaled", f, x0 + dx, y0 + dy, amp * k, *par)
        if None not in (u, v):
            ctx.check_eq("proportional to amplitude", u, v * k)


def law_numbers(n):
    """(C2080 of the 99% flux, C2080 measured with epsilon 2, 99% radius / Petrosian radius, P0502) of a circular Sersic law, from its definition"""
    from scipy.special import gammainc, gammaincinv
    from scipy.optimize import brentq
    b = gammaincinv(2 * n, 0.5)
    inc = lambda r: gammainc(2 * n, b * r ** (1 / n))            # enclosed fraction of the total flux
    inv = lambda f: (gammaincinv(2 * n, f) / b) ** n

    def eta(r):                                                  # local over mean intensity, from r f'(r) / (2 f(r))
        h = 1e-5 * r
        return r * (inc(r + h) - inc(r - h)) / (2 * h) / (2 * inc(r))
    rp = {e: brentq(lambda r: eta(r) - e, 1e-2, 80) for e in (0.2, 0.5)}
    idx = lambda total: 5 * np.log10(inv(0.8 * total) / inv(0.2 * total))
    return idx(0.99), idx(inc(2 * rp[0.2]) / 0.99), inv(0.99) / rp[0.2], 5 * np.log10(rp[0.2] / rp[0.5])


class _Poly:
    """astropy's Polynomial1D / Exponential1D and their sums, on symbolic numbers"""

    def __init__(self, f):
        self.f = f

    def __call__(self, x):
        return self.f(x)

    def __add__(self, o):
        return _Poly(lambda x: self(x) + o(x))

    def __sub__(self, o):
        return _Poly(lambda x: self(x) - o(x))

    def __mul__(self, o):
        return _Poly(lambda x: self(x) * o(x))


@prop
class C44(Prop):
    id = "C44"
    tol = 1e-9
    bounds = "every Sersic index from 0.5 to 4.5 (twenty cells, thorough: eighty; inside a cell the law is its chord with twice the deviation measured at the middle), numbers and arrays"
    outside = "indices outside [0.5, 4.5], the range the approximations are made for"
    assumptions = ("the concentration indices and radius ratios of the Sersic law vary smoothly with n between the ends of a cell", "exp lies between its chord and its tangents on an interval")
    timeout_ms = 10000

    FN = {"c2080_to_n": (0, "n", 0.01, 0.0), "u2080_to_c2080": (1, 0, 0.08, 0.0), "n_to_epsilon": ("n", 2, 0.01, 0.005), "p0502_to_epsilon": (3, 2, 0.01, 0.02)}

    def configs(self, tier):
        h = 0.2 if tier == "quick" else 0.05
        cells = [(0.5 + i * h, 0.5 + (i + 1) * h) for i in range(int(round(4.0 / h)))]
        out = [dict(fn=f, cell=[round(a, 6), round(b, 6)], form="array" if i % 5 == 2 else "number") for f in self.FN for i, (a, b) in enumerate(cells)]
        return out

    def over(self, ctx, cfg):
        if not ctx.sym:
            return {}
        a, b = cfg["cell"]
        xi = self.FN[cfg["fn"]][0]
        A, B = (a, b) if xi == "n" else (law_numbers(a)[xi], law_numbers(b)[xi])

        def poly(degree, **co):
            cs = [float(co.pop("c%d" % i, 0.0)) for i in range(degree + 1)]
            if co:
                raise c.Unsupported("polynomial options %r" % list(co))

            def f(x):
                acc = 0.0
                for q in reversed(cs):
                    acc = acc * x + q
                return acc
            return _Poly(f)

        def expo(amplitude=1, tau=-1, **k):
            def one(x):
                e = ctx.real("exp%d" % len(self.made), 0, 1e9)
                self.made.append(e)
                p, q = float(A) / tau, float(B) / tau
                lo, hi = min(p, q), max(p, q)
                u = x / tau
                m = (lo + hi) / 2
                ctx.assume(ctx.And(*[e >= float(np.exp(z)) * (1 + (u - z)) - 1e-12 for z in np.linspace(lo, hi, 9)]))
                # chords of eight pieces
                zs = np.linspace(lo, hi, 9)
                for z0, z1 in zip(zs[:-1], zs[1:]):
                    z0, z1 = float(z0), float(z1)
                    s = float((np.exp(z1) - np.exp(z0)) / (z1 - z0))
                    # (a little more than the piece: rounding must not leave a gap between two pieces)
                    ctx.assume(ctx.Implies(ctx.And(u >= z0 - 1e-9, u <= z1 + 1e-9), e <= float(np.exp(z0)) + s * (u - z0) + 1e-7))
                return float(amplitude) * e

            def f(x):
                if isinstance(x, np.ndarray):
                    return ctx.array([one(v) for v in ctx.flat(x)])
                return one(x)
            return _Poly(f)
        self.made = []
        return {"astropy.modeling.models.Polynomial1D": poly, "astropy.modeling.models.Exponential1D": expo}

    def run(self, ctx, cfg):
        xi, yi, absol, rel = self.FN[cfg["fn"]]
        a, b = cfg["cell"]
        m = (a + b) / 2
        La, Lm, Lb = law_numbers(a), law_numbers(m), law_numbers(b)
        pick = lambda L, n, i: float(n if i == "n" else L[i])
        xa, xm, xb = (pick(L, n, xi) for L, n in ((La, a), (Lm, m), (Lb, b)))
        ya, ym, yb = (pick(L, n, yi) for L, n in ((La, a), (Lm, m), (Lb, b)))
        # the law between the ends: its chord, with twice the deviation at the middle
        yc = ya + (xm - xa) / (xb - xa) * (yb - ya)
        slack = 2 * abs(ym - yc) + 1e-6
        t = ctx.real("t", 0, 1)
        x = xa + t * (xb - xa)
        want = ya + t * (yb - ya)
        arg = ctx.array([x, xa]) if cfg["form"] == "array" else x
        f = getattr(ctx.impl.models.PetroApprox, cfg["fn"])
        out = ctx.call(f, arg)
        if not ctx.check_call(cfg["fn"], out):
            return
        v = ctx.flat(out.value)
        if not ctx.check("one value per argument", len(v) == (2 if cfg["form"] == "array" else 1)):
            return
        tol = absol + slack + rel * max(ya, yb)
        ctx.check("close to the Sersic law", ctx.And(v[0] - want <= tol, want - v[0] <= tol))
        if len(v) == 2:
            ctx.check("each on its own", ctx.And(v[1] - ya <= tol, ya - v[1] <= tol))
        if not cfg["fn"].endswith("epsilon"):
            # increasing
            s = ctx.real("s", 0, 1)
            ctx.assume(s >= t + 0.001)
            out = ctx.call(f, xa + s * (xb - xa))
            if ctx.check_call(cfg["fn"], out):
                ctx.check("increasing", ctx.flat(out.value)[0] > v[0])
