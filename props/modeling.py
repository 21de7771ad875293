"""Sampling grids, PSF-convolved model images, model-to-image, fitting (C21-C27, C30)."""
import contextlib
import math
from fractions import Fraction

import numpy as np

from symx import core as c, arr, shims
from symx.harness import Prop, prop

nan = float("nan")


def conc(v):
    """a coordinate as a Fraction; a symbolic one (a rounded window position plus constants) forks over its values"""
    v = c.unwrap0(v)
    if not c.is_sym(v):
        return Fraction(float(v)).limit_denominator(4096)
    n = c.concretize_int(c.Sym(c.z3.ToInt(c.z3.simplify(v.zr() * 840 + c.z3.RealVal("1/2"))), "i"))
    return Fraction(n, 840)


def stub(ctx, f, n_par=0, kind="f"):
    """a 2-D astropy model with parameters x_0, y_0, p0.. whose value at a point is f(x, y, *params)"""
    from astropy.modeling import FittableModel, Parameter

    names = ("x_0", "y_0") + tuple("p%d" % i for i in range(n_par))

    def evaluate(self, x, y, *params):
        X, Y = arr.nd(arr.mk(x)) if ctx.sym else np.asarray(x), arr.nd(arr.mk(y)) if ctx.sym else np.asarray(y)
        X, Y = np.broadcast_arrays(X, Y)
        ps = [c.unwrap0(p[0]) if isinstance(p, (list, tuple)) or np.ndim(p) else p for p in params]
        out = np.empty(X.shape, dtype=object)
        for ix in np.ndindex(*X.shape):
            out[ix] = f(conc(X[ix]), conc(Y[ix]), *ps)
        return ctx.array(out.tolist(), kind)

    d = {n: Parameter(default=float(i)) for i, n in enumerate(names)}
    d.update(n_inputs=2, n_outputs=1, evaluate=evaluate, __module__="stubs")
    return type("Stub", (FittableModel,), d)()


def pixels(x0, y0, nx, ny):
    """integer pixel coordinates of an nx-by-ny image, as floats"""
    x, y = np.meshgrid(np.arange(nx) + float(x0), np.arange(ny) + float(y0))
    return x, y


def sub(o, i, k):
    """the k evenly spaced points of pixel o+i"""
    return [Fraction(o) + i + Fraction(2 * s + 1, 2 * k) - Fraction(1, 2) for s in range(k)]


def mean_of(ctx, vals):
    return ctx.sum(vals) / len(vals) if len(vals) > 1 else vals[0]


def conv_same(ctx, im, psf):
    """same-size convolution with zeros outside; result aligned on the kernel's pixel ((M-1)//2, (N-1)//2)"""
    ny, nx = len(im), len(im[0])
    M, N = len(psf), len(psf[0])
    out = [[None] * nx for _ in range(ny)]
    for j in range(ny):
        for i in range(nx):
            t = []
            for a in range(M):
                for b in range(N):
                    jj, ii = j + (M - 1) // 2 - a, i + (N - 1) // 2 - b
                    if 0 <= jj < ny and 0 <= ii < nx and (c.is_sym(psf[a][b]) or psf[a][b] != 0):
                        t.append(c.mul(psf[a][b], im[jj][ii]))
            out[j][i] = ctx.sum(t) if t else 0.0
    return out


def block_mean(ctx, im, f):
    if f == 1:
        return im
    return [[mean_of(ctx, [im[j * f + a][i * f + b] for a in range(f) for b in range(f)]) for i in range(len(im[0]) // f)] for j in range(len(im) // f)]


def expected(ctx, val, x0, y0, nx, ny, over, f, psf):
    """the image the property describes: rows of pixel values of the enclosing square"""
    n = max(nx, ny)
    win = over if isinstance(over, tuple) else None
    k = f if win else (over or 1)
    im = [[None] * (n * f) for _ in range(n * f)]
    for j in range(n):
        for i in range(n):
            kk = k
            if win:
                wx, wy, ws, wf = win
                if wx - ws // 2 <= x0 + i < wx - ws // 2 + ws and wy - ws // 2 <= y0 + j < wy - ws // 2 + ws:
                    kk = wf
            xs, ys = sub(x0, i, kk), sub(y0, j, kk)
            g = kk // f
            for a in range(f):
                for b in range(f):
                    im[j * f + a][i * f + b] = mean_of(ctx, [val(x, y) for y in ys[a * g:(a + 1) * g] for x in xs[b * g:(b + 1) * g]])
    if psf is not None:
        im = conv_same(ctx, im, psf)
    im = block_mean(ctx, im, f)
    return [r[:nx] for r in im[:ny]]


def compare(ctx, label, got, want, ny, nx):
    if not ctx.check(label + ": shape", ctx.shape(got) == (ny, nx), str(ctx.shape(got))):
        return
    g = ctx.flat(got)
    ctx.observe(label, got)
    for j in range(ny):
        for i in range(nx):
            ctx.check_eq("%s: pixel (%d,%d)" % (label, j, i), g[j * nx + i], want[j][i])


PSFS = {
    "asym": [[0.0, 0.125, 0.0625], [0.25, 0.3125, 0.0], [0.03125, 0.1875, 0.03125]],
    "delta": [[0.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 0.0]],
    "rect": [[0.5, 0.25, 0.125], [0.0, 0.0625, 0.0625]],
    "five": [[((3 * a + 5 * b + a * b) % 7) / 64.0 for b in range(5)] for a in range(5)],
    "counts": [[0, 1, 0], [2, 5, 1], [0, 3, 4]],
    "hit": [[0, 0, 0], [0, 1, 0], [0, 0, 0]],
    "unnorm": [[1.0, 0.0, 2.0], [0.5, 3.0, 0.0], [0.25, 0.0, 1.5]],
}


@prop
class C21(Prop):
    id = "C21"
    bounds = "sizes 1-6, factors 1-5 (thorough: 1-9 and 1-8), every real origin (tuple, list or array)"

    def configs(self, tier):
        S, F = ((1, 2, 3, 6), (1, 2, 3, 5)) if tier == "quick" else (range(1, 10), range(1, 9))
        out = [dict(size=s, factor=f, origin="tuple") for s in S for f in F]
        out += [dict(size=3, factor=2, origin=o) for o in ("list", "array", "default", "int")]
        out += [dict(size=3, factor=None, origin="default"), dict(size=3, factor="bad", origin="tuple"), dict(size=3, factor="default", origin="tuple")]
        return out

    def run(self, ctx, cfg):
        m = ctx.impl.models
        s, f = cfg["size"], cfg["factor"]
        if cfg["origin"] == "int":
            ox, oy = ctx.int("ox", -40, 40), ctx.int("oy", -40, 40)
        else:
            ox, oy = ctx.reals("o", 2)
        if f in (None, "bad"):
            bad = ctx.choice("bad", [2.0, 1.5, None, "2", (2,)])
            out = ctx.call(m.make_grid, s, (0, 0), bad)
            ctx.check("refused", not out.ok)
            return
        O = {"tuple": (ox, oy), "list": [ox, oy], "array": ctx.array([ox, oy]), "default": (0, 0), "int": (ox, oy)}[cfg["origin"]]
        if cfg["origin"] == "default":
            out = ctx.call(m.make_grid, s, factor=f)
            ox = oy = 0
        elif f == "default":
            out = ctx.call(m.make_grid, s, O)
            f = 1
        else:
            out = ctx.call(m.make_grid, s, O, f)
        if not ctx.check_call("make_grid", out):
            return
        if not ctx.check("a pair", len(out.value) == 2):
            return
        X, Y = out.value
        n = s * f
        if not ctx.check("shape", ctx.shape(X) == (n, n) and ctx.shape(Y) == (n, n), "%s %s" % (ctx.shape(X), ctx.shape(Y))):
            return
        X, Y = ctx.flat(X), ctx.flat(Y)
        for r in range(n):
            for q in range(n):
                i, j, a, b = q // f, r // f, q % f, r % f
                ctx.check_eq("x[%d,%d]" % (r, q), X[r * n + q], ox + i + (a + 0.5) / f - 0.5)
                ctx.check_eq("y[%d,%d]" % (r, q), Y[r * n + q], oy + j + (b + 0.5) / f - 0.5)


def make(ctx, model, psf, over, f, **kw):
    return ctx.impl.models.PSFConvolvedModel2D(model, psf=psf, oversample=over, psf_oversample=f, **kw)


def psf_array(ctx, name, rows=None):
    rows = PSFS[name] if rows is None else rows
    return None if name is None else np.array(rows)


@prop
class C22(Prop):
    id = "C22"
    bounds = "images of 1x1 to 5x5 pixels (square and rectangular) at integer origins including negative ones, oversampling 1-4, psf_oversample 1-3, PSFs of 1x1 to 5x5 (symmetric or not, normalised or not, of floats or integers, symbolic ones included), PSF angles 0, 90, 180, 37; every real or integer model value; whole images, single rows and scattered pixels; scalar and one-element-array parameters"
    outside = "image origins that are not integers, larger images, scipy's choice of FFT convolution for large inputs (same result up to rounding)"
    assumptions = ("scipy.ndimage.rotate is linear in the image it rotates (its weights are taken from scipy itself)",)

    def configs(self, tier):
        out = []

        def add(nx, ny, o=(0, 0), over=None, f=None, psf=None, pa=0.0, sel="all", par="float", how="evaluate", val="f"):
            out.append(dict(nx=nx, ny=ny, o=list(o), over=over, f=f, psf=psf, pa=pa, sel=sel, par=par, how=how, val=val))
        for (nx, ny) in ((3, 3), (4, 2), (2, 3), (1, 1), (1, 4)):
            for o in ((0, 0), (3, -2)):
                for over in (None, 1, 2, 3):
                    add(nx, ny, o, over)
                    if (over or 1) < 3:
                        add(nx, ny, o, over, None, "asym")
        for psf in ("delta", "rect", "five", "unnorm"):
            add(4, 3, (1, 2), None, None, psf)
            add(3, 3, (0, 0), 2, None, psf)
        for (over, f) in ((2, 2), (4, 2), (3, 3), (2, 1), (6, 3), ):
            for psf in ("asym", "five") if over < 6 else ("delta",):
                add(2, 2, (0, 0), over, f, psf)
                add(3, 2, (-1, 4), over, f, psf)
        add(2, 3, (5, 1), 2, 2, "delta")
        for pa in (90.0, 180.0, 37.0, -90.0):
            add(3, 3, (0, 0), None, None, "asym", pa)
            add(3, 2, (1, 0), 2, 2, "asym", pa, par="array")
        for sel in ("row", "scatter", "flat"):
            add(4, 4, (0, 0), None, None, None, sel=sel)
            add(3, 4, (2, 1), 2, None, "asym", sel=sel, par="array")
        for how in ("call",):
            add(3, 3, (0, 0), None, None, "asym", how=how)
            add(4, 3, (0, 0), 2, 2, "asym", 90.0, how=how)
            add(3, 4, (2, 1), 2, None, None, how=how)
        for (over, f) in ((None, None), (2, 2), (2, None)):
            add(3, 2, (0, 1), over, f, "sym")
        # whole numbers: PSFs counted in photons, models that are steps or labels
        for psf in ("counts", "hit"):
            for pa in (0.0, 90.0, 37.0, -20.0):
                add(3, 3, (0, 0), None, None, psf, pa)
            add(2, 2, (0, 1), 2, 2, psf, 37.0)
            add(3, 2, (0, 1), 2, 1, psf, val="i")
            add(3, 3, (0, 1), None, None, psf, 37.0, val="i")
        add(3, 2, (0, 1), None, None, None, val="i")
        add(2, 2, (0, 1), 3, None, None, val="i")
        add(2, 2, (0, 1), 2, 2, "asym", val="i")
        if tier == "thorough":
            for (nx, ny) in ((5, 5), (5, 3), (2, 5)):
                for o in ((0, 0), (-3, 7)):
                    for over, f in ((None, None), (2, None), (4, None), (2, 2), (4, 2), (3, 3)):
                        for psf in (None, "asym", "five", "rect"):
                            if f and psf is None:
                                continue
                            add(nx, ny, o, over, f, psf)
            for pa in (1.0, 45.0, 359.0):
                add(4, 4, (0, 0), 2, 2, "five", pa)
            for (over, f) in ((4, 2), (3, 3), (4, None)):
                add(4, 3, (0, 1), over, f, "sym")
        return out

    def run(self, ctx, cfg):
        nx, ny = cfg["nx"], cfg["ny"]
        x0, y0 = cfg["o"]
        f = cfg["f"] or 1
        pa = cfg["pa"]
        if cfg["psf"] == "sym":
            # the model is concrete and the PSF is symbolic
            def val(x, y, *p):
                return float(np.sin(3 * float(x) + 5 * float(y)) * 4 + float(x))
            P = [[ctx.real("psf%d_%d" % (a, b), -2, 2) for b in range(3)] for a in range(3)]
            psf = ctx.array(P)
        else:
            u = ctx.uf("F", kind=cfg["val"])

            def val(x, y, *p):
                return u(x, y)
            psf = None if cfg["psf"] is None else np.array(PSFS[cfg["psf"]])
            P = None if psf is None else psf
            if P is not None and pa:
                from scipy.ndimage import rotate
                P = rotate(psf.astype(float), pa, reshape=False)
            P = None if P is None else [[float(v) for v in r] for r in P]
        model = stub(ctx, val, kind=cfg["val"])
        out = ctx.call(make, ctx, model, psf, cfg["over"], cfg["f"])
        if not ctx.check_call("construction", out):
            return
        m = out.value
        X, Y = pixels(x0, y0, nx, ny)
        sel = [(j, i) for j in range(ny) for i in range(nx)]
        if cfg["sel"] == "row":
            X, Y = X[1], Y[1]
            sel = [(0, i) for i in range(nx)]      # the enclosing square starts at the lowest coordinates given
            y0 = y0 + 1
        elif cfg["sel"] == "scatter":
            sel = [p for n, p in enumerate(sel) if n % 3 != 1 or n in (0, nx * ny - 1)]
            X, Y = np.array([X[p] for p in sel]), np.array([Y[p] for p in sel])
        elif cfg["sel"] == "flat":
            X, Y = X.reshape(-1), Y.reshape(-1)
        if cfg["par"] == "float":
            par = (0.5, 0.25, pa)
        else:
            par = tuple(np.array([v]) for v in (0.5, 0.25, pa))
        if cfg["how"] == "call" and not ctx.sym:
            m.x_0, m.y_0, m.psf_pa = 0.5, 0.25, pa
            out = ctx.call(m, X, Y)
        else:
            out = ctx.call(m.evaluate, X, Y, *par)
        if not ctx.check_call("evaluate", out):
            return
        want = expected(ctx, val, x0, y0, nx, 1 if cfg["sel"] == "row" else ny, cfg["over"], f, P)
        if cfg["sel"] == "all":
            compare(ctx, "image", out.value, want, ny, nx)
            if psf is not None:
                # evaluating is repeatable, whatever angles were used in between
                other = par[:2] + (par[2] * 0 + 90.0,)
                mid = ctx.call(m.evaluate, X, Y, *other)
                again = ctx.call(m.evaluate, X, Y, *par)
                if ctx.check_call("another angle", mid) and ctx.check_call("second evaluation", again):
                    compare(ctx, "second image", again.value, want, ny, nx)
        else:
            got = ctx.flat(out.value)
            if ctx.check("as many values as pixels", len(got) == len(sel), "%d" % len(got)):
                for n, (j, i) in enumerate(sel):
                    ctx.check_eq("value at (%d,%d)" % (j, i), got[n], want[j][i])


def rnd(v):
    return int(np.round(float(v)))


@prop
class C23(Prop):
    id = "C23"
    bounds = "images of 3x3 to 5x4 pixels at integer origins, windows of 1-5 pixels at every real centre from well outside on one side to well outside on the other (one axis symbolic at a time, the other at quarter steps), factors 1-4, psf_oversample 1-2, with and without PSF; centres given as numbers or as names of parameters (scalar and one-element-array values); every real or integer model value"
    outside = "windows in images whose origin is not an integer"

    def configs(self, tier):
        out = []

        def add(ny, nx, o, ws, wf, axis, other, f=None, psf=None, named=None, par="float", val="f"):
            out.append(dict(ny=ny, nx=nx, o=list(o), ws=ws, wf=wf, axis=axis, other=other, f=f, psf=psf, named=named, par=par, val=val))
        others = (0.0, 1.5, -1.25, 2.5)
        n = 0
        for ws, wf in ((1, 2), (2, 3), (3, 2), (4, 2), (5, 2)):
            for axis in ("x", "y"):
                for o in ((0, 0), (4, -3)):
                    add(3, 4 if n % 2 else 3, o, ws, wf, axis, others[n % 4])
                    n += 1
        add(3, 3, (0, 0), 3, 1, "x", 1.0)
        for axis in ("x", "y"):
            add(3, 3, (2, 5), 2, 2, axis, 0.5, named="both")
            add(3, 3, (0, 0), 3, 2, axis, 1.0, named="both", par="array")
            add(2, 3, (1, 0), 3, 2, axis, 1.0, named="x")
            add(3, 2, (1, 0), 2, 2, axis, 0.5, named="y")
            add(3, 3, (0, 0), 2, 2, axis, 1.25, psf="asym")
            add(2, 2, (3, 1), 2, 4, axis, 0.0, f=2, psf="delta")
            add(3, 2, (0, 0), 1, 2, axis, 1.0, f=2, psf="asym")
            add(2, 3, (0, -2), 3, 2, axis, 0.5, f=1, psf="asym")
            # a model of whole numbers (a step, a count, a label) is a model too
            add(3, 3, (0, 0), 2, 2, axis, 1.0, val="i")
            add(2, 2, (1, 0), 3, 4, axis, 1.0, f=2, psf="delta", val="i")
        if tier == "thorough":
            for ws, wf in ((1, 3), (2, 2), (3, 4), (4, 3), (5, 2), (7, 2)):
                for axis in ("x", "y"):
                    for other in (-2.75, -0.5, 0.5, 1.0, 3.5):
                        add(4, 5, (-2, 3), ws, wf, axis, other)
            for axis in ("x", "y"):
                for other in (-0.75, 1.5):
                    add(3, 4, (0, 0), 3, 4, axis, other, f=2, psf="asym")
                    add(3, 3, (1, 1), 2, 3, axis, other, f=3, psf="delta")
                    add(4, 4, (5, -9), 3, 2, axis, other, psf="five", named="both")
        return out

    def run(self, ctx, cfg):
        ny, nx, ws, wf = (cfg[k] for k in ("ny", "nx", "ws", "wf"))
        x0, y0 = cfg["o"]
        f = cfg["f"] or 1
        n = max(nx, ny)
        u = ctx.uf("F", kind=cfg.get("val", "f"))
        lo, hi = -ws - 1, n + ws
        if cfg["axis"] == "x":
            cx, cy = ctx.real("c", x0 + lo, x0 + hi), float(y0 + cfg["other"])
        else:
            cx, cy = float(x0 + cfg["other"]), ctx.real("c", y0 + lo, y0 + hi)
        psf = None if cfg["psf"] is None else np.array(PSFS[cfg["psf"]])
        named = cfg["named"]
        model = stub(ctx, lambda x, y, *p: u(x, y), kind=cfg.get("val", "f"))
        ox = "x_0" if named in ("both", "x") else cx
        oy = "y_0" if named in ("both", "y") else cy
        out = ctx.call(make, ctx, model, psf, (ox, oy, ws, wf), cfg["f"])
        if not ctx.check_call("construction", out):
            return
        m = out.value
        par = (cx, cy, 0.0)
        if cfg["par"] == "array":
            par = tuple(ctx.array([p]) for p in par)
        X, Y = pixels(x0, y0, nx, ny)
        out = ctx.call(m.evaluate, X, Y, *par)
        if not ctx.check_call("evaluate", out):
            return
        # the window's corner, from the definition: round to the nearest integer (halves to even)
        v = cx if cfg["axis"] == "x" else cy
        if ctx.sym:
            fl = c.Sym(c.z3.ToInt(c.zr(v)), "i")
            k = c.concretize_int(fl)
            d = v - k
            r = k if bool(d < 0.5) else k + 1 if bool(d > 0.5) else k + k % 2
        else:
            r = rnd(v)
        wx, wy = (r, rnd(cy)) if cfg["axis"] == "x" else (rnd(cx), r)
        want = expected(ctx, lambda x, y: u(x, y), x0, y0, nx, ny, (wx, wy, ws, wf), f, None if psf is None else psf.tolist())
        compare(ctx, "image", out.value, want, ny, nx)


START = [("none", "none"), ("int", "none"), ("int", "int"), ("win", "none"), ("win", "int")]
OVER = ["none", "int", "win", "list", "3-tuple", "5-tuple", "float factor", "float size", "string", "float", "dict"]
PSFO = ["none", "int", "float", "string", "tuple"]


@prop
class C24(Prop):
    id = "C24"
    bounds = "every valid starting state (none, integer, window; with and without PSF oversampling) with factors 1-12, and every sequence of two (thorough: three) assignments to either setting: None, every integer from -3 to 12, 4-tuple and list windows, and values of wrong length or type; construction with every pair"
    outside = "factors above 12; numpy integers (neither accepted nor refused by the statement)"

    def configs(self, tier):
        out = [dict(start=list(s), ops=2, first=o) for s in START for o in ("over", "psf")]
        out += [dict(start="init", over=o, psf=p, has_psf=h) for o in ("none", "int", "win") for p in ("none", "int", "float") for h in (True, False)]
        out += [dict(start=[s, "none"], ops=2, first="psf", has_psf=False) for s in ("none", "int")]
        if tier == "thorough":
            out += [dict(start=list(s), ops=3, first=o) for s in START for o in ("over", "psf")]
        return out

    @staticmethod
    def over_value(ctx, name, form, k):
        return {"none": None, "int": k, "win": (1.5, "y_0", 3, k), "list": [2, 2, 2, k], "3-tuple": (1, 2, k), "5-tuple": (1, 2, 3, k, k), "float factor": (1, 2, 3, 2.5),
                "float size": (1, 2, 3.5, k), "string": "2", "float": 2.5, "dict": {1: 2}}[form]

    @staticmethod
    def psf_value(ctx, name, form, k):
        return {"none": None, "int": k, "float": 1.5, "string": "2", "tuple": (1, 1, 1, k)}[form]

    @staticmethod
    def eff(ctx, m):
        o, p = m.oversample, m.psf_oversample
        if isinstance(o, (tuple, list)) and len(o) == 4:
            o = o[3]
        return 1 if o is None else o, 1 if p is None else p

    def invariant(self, ctx, label, m):
        o, p = self.eff(ctx, m)
        isint = lambda v: (c.is_sym(v) and v.kind == "i") or (isinstance(v, (int, np.integer)) and not isinstance(v, bool))
        if not ctx.check(label + ": both factors are integers", isint(o) and isint(p), "%r %r" % (o, p)):
            return
        ctx.check(label + ": positive", ctx.And(o > 0, p > 0))
        ctx.check(label + ": a multiple", c.eq(o % p, 0))

    @staticmethod
    def same(ctx, a, b):
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return a is b or a == b
        if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
            if not (isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b)):
                return False
            return ctx.And(*[C24.same(ctx, x, y) for x, y in zip(a, b)])
        return c.eq(a, b)

    def valid(self, ctx, eo, ep):
        return bool(ctx.And(eo > 0, ep > 0)) and bool(c.eq(eo % ep, 0))

    def run(self, ctx, cfg):
        model = stub(ctx, lambda x, y, *p: 0.0)
        has_psf = cfg.get("has_psf", True)
        psf = np.array(PSFS["asym"]) if has_psf else None
        if cfg["start"] == "init":
            ko, kp = ctx.int("o", -3, 12), ctx.int("p", -3, 12)
            O, P = self.over_value(ctx, "o", cfg["over"], ko), self.psf_value(ctx, "p", cfg["psf"], kp)
            out = ctx.call(make, ctx, model, psf, O, P)
            eo = 1 if cfg["over"] == "none" else ko
            ep = 1 if cfg["psf"] == "none" else kp
            if cfg["psf"] != "float" and (has_psf or cfg["psf"] == "none") and self.valid(ctx, eo, ep):
                if ctx.check_call("consistent settings", out):
                    ctx.check("kept", ctx.And(self.same(ctx, out.value.oversample, O), self.same(ctx, out.value.psf_oversample, P)))
            elif out.ok:
                self.invariant(ctx, "construction", out.value)
                ctx.check("inconsistent settings refused", bool(cfg["psf"] != "float" and not has_psf))
            else:
                ctx.check("inconsistent settings refused", isinstance(out.exc, Exception))
            return
        so, sp = cfg["start"]
        ko, kp = ctx.int("o", 1, 12), ctx.int("p", 1, 12)
        if sp == "none":
            kp = 1
        if so == "none":
            ko = 1
        ctx.assume(c.eq(ko % kp, 0))
        out = ctx.call(make, ctx, model, psf, self.over_value(ctx, "o", so, ko), self.psf_value(ctx, "p", sp, kp))
        if not ctx.check_call("construction", out):
            return
        m = out.value
        for n in range(cfg["ops"]):
            what = cfg["first"] if n == 0 else ctx.choice("what%d" % n, ["over", "psf"])
            k = ctx.int("k%d" % n, -3, 12)
            o0, p0 = m.oversample, m.psf_oversample
            eo, ep = self.eff(ctx, m)
            if what == "over":
                form = ctx.choice("form%d" % n, OVER)
                v = self.over_value(ctx, "k", form, k)
                good = form in ("none", "int", "win", "list")
                neo, nep = (1 if form == "none" else k), ep
            else:
                form = ctx.choice("form%d" % n, PSFO)
                v = self.psf_value(ctx, "k", form, k)
                good = form == "none" or (form == "int" and has_psf)
                neo, nep = eo, (1 if form == "none" else k)
            out = ctx.call(setattr, m, "oversample" if what == "over" else "psf_oversample", v)
            label = "assignment %d (%s %s)" % (n, what, form)
            ctx.observe(label, 1 if out.ok else 0)
            if good and self.valid(ctx, neo, nep):
                if not ctx.check_call(label, out):
                    return
                ctx.check(label + ": stored", self.same(ctx, m.oversample if what == "over" else m.psf_oversample, v))
                ctx.check(label + ": the other setting is unchanged", self.same(ctx, m.psf_oversample if what == "over" else m.oversample, p0 if what == "over" else o0))
            elif not out.ok:
                ctx.check(label + ": refusal leaves oversample", self.same(ctx, m.oversample, o0))
                ctx.check(label + ": refusal leaves psf_oversample", self.same(ctx, m.psf_oversample, p0))
            self.invariant(ctx, label, m)


SIZES = [(3, 3, 0, 0), (2, 3, 0, 0), (3, 2, 0, 0), (2, 2, 0, 0), (3, 3, 1, 0), (2, 2, 0, 1), (3, 3, -1, -1), (3, 3, 0, 2)]


@prop
class C25(Prop):
    id = "C25"
    bounds = "every history of two (thorough: three) operations - evaluations at 8 size/origin combinations with several parameter sets and PSF angles, changes of oversampling, PSF and PSF oversampling, caching off, on, cleared - followed by an evaluation; every model value"
    outside = "sub-models that modify the coordinate arrays they are given"

    OPS = [("eval", s, p) for s in range(len(SIZES)) for p in (0,)] + [("eval", 0, 1), ("eval", 0, 2)] + [
        ("over", None), ("over", 2), ("over", (1, 1, 2, 2)), ("over", ("x_0", "y_0", 1, 2)), ("psf", "asym"), ("psf", None), ("psf", "rect"), ("f", None), ("f", 2), ("cache", False), ("cache", True), ("clear",)]

    def configs(self, tier):
        out = []
        for start in ("plain", "over", "window", "psf"):
            for last in ((0, 4) if start != "psf" else (1,)) if tier == "quick" else range(len(SIZES)):
                out += [dict(start=start, last=last, n=2, op0=o) for o in range(len(self.OPS))] if start == "psf" else [dict(start=start, last=last, n=2)]
        if tier == "thorough":
            out += [dict(start=s, last=t, n=3, op0=o) for s, t in (("over", 0), ("window", 4)) for o in range(len(self.OPS))]
        return out

    PAR = [(1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (1.0, 0.0, 90.0)]

    def run(self, ctx, cfg):
        u = ctx.uf("F")

        def val(x, y, px, py):
            return u(x, y, float(px), float(py))
        model = stub(ctx, val)
        st = dict(plain=(None, None, None), over=(2, None, None), window=((1, 1, 1, 2), None, None), psf=(2, 2, "asym"))[cfg["start"]]
        over, f, pn = st
        psf = None if pn is None else np.array(PSFS[pn])
        m = make(ctx, model, psf, over, f)

        def ev(obj, s, p):
            nx, ny, x0, y0 = SIZES[s]
            X, Y = pixels(x0, y0, nx, ny)
            return ctx.call(obj.evaluate, X, Y, *self.PAR[p])
        # the operation before the last evaluation is the one that matters most; it also varies
        out = ev(m, cfg["last"], 0)
        if not ctx.check_call("first evaluation", out):
            return
        for n in range(cfg["n"]):
            op = self.OPS[cfg["op0"]] if n == 0 and "op0" in cfg else ctx.choice("op%d" % n, self.OPS)
            if op[0] == "eval":
                out = ev(m, op[1], op[2])
                ctx.check_call("evaluation %d" % n, out)
            elif op[0] == "over":
                if ctx.call(setattr, m, "oversample", op[1]).ok:
                    over = op[1]
            elif op[0] == "f":
                if ctx.call(setattr, m, "psf_oversample", op[1]).ok:
                    f = op[1]
            elif op[0] == "psf":
                if op[1] is None and f is not None:
                    continue
                psf = None if op[1] is None else np.array(PSFS[op[1]])
                m.psf = psf
            elif op[0] == "cache":
                m.cache_grid = op[1]
            else:
                m.clear_cached_grid()
        p = ctx.choice("par", [0, 1] if psf is None else [0, 1, 2])
        out = ev(m, cfg["last"], p)
        if not ctx.check_call("last evaluation", out):
            return
        fresh = ev(make(ctx, model, psf, over, f), cfg["last"], p)
        if not ctx.check_call("fresh model", fresh):
            return
        if ctx.check("same shape", ctx.shape(out.value) == ctx.shape(fresh.value)):
            ctx.check_eq_arr("image", out.value, fresh.value)


@prop
class C26(Prop):
    id = "C26"
    bounds = "sizes 1-5 (thorough: 1-8) per axis given as int, numpy integer, whole float, tuple or list; every whole-number or real centre (tuple or list); an arbitrary model for whole-number origins and every bilinear model a + bx + cy + dxy for symbolic ones; 'center' and 'oversample' modes"
    outside = "fractional centres for which centre + size - centre is not exactly size in floating point (astropy refuses them)"

    def configs(self, tier):
        out = []
        forms = ("int", "npint", "float", "tuple", "list", "ftuple")
        for n, (a, b) in enumerate(((3, 3), (1, 1), (4, 4), (2, 5), (5, 2), (3, 1), (1, 4))):
            for form in forms:
                if form in ("int", "npint", "float") and a != b:
                    continue
                for centre in (None, "int", "real"):
                    if tier == "quick" and (n + len(form) + len(str(centre))) % 2:
                        continue
                    out.append(dict(size=[a, b], form=form, centre=centre, cform="tuple" if n % 2 else "list", mode="center"))
        out += [dict(size=[2, 3], form="tuple", centre=ce, cform="tuple", mode="oversample") for ce in (None, "int", "real")]
        out += [dict(size=[3, 2], form="list", centre="uf", cform="tuple", mode="center"), dict(size=[2, 4], form="tuple", centre="uf", cform="list", mode="oversample")]
        out.append(dict(bad=True))
        out.append(dict(badcentre=True))
        if tier == "thorough":
            out += [dict(size=[a, b], form="tuple", centre=ce, cform="tuple", mode="center") for a in range(1, 9) for b in range(1, 9) for ce in ("int", "real") if a + b > 7]
        return out

    def run(self, ctx, cfg):
        fit = ctx.impl.fitting
        if cfg.get("bad"):
            bad = ctx.choice("bad", [2.5, (3, 2.5), [1.5, 2], (3,), (3, 3, 3), (), "3", None, np.float64(0.5), {3: 3}])
            out = ctx.call(fit.model_to_image, lambda x, y: x + y, bad)
            ctx.check("size %r refused" % (bad,), not out.ok)
            cen = ctx.choice("cen", [None, (1, 1)])
            out = ctx.call(fit.model_to_image, lambda x, y: x + y, bad, center=cen)
            ctx.check("size %r refused with centre" % (bad,), not out.ok)
            return
        if cfg.get("badcentre"):
            bad = ctx.choice("bad", [(1,), (1, 2, 3), 5])
            out = ctx.call(fit.model_to_image, lambda x, y: x + y, 3, center=bad)
            ctx.check("centre %r refused" % (bad,), not out.ok)
            return
        a, b = cfg["size"]
        size = {"int": a, "npint": np.int64(a), "float": float(a), "tuple": (a, b), "list": [a, b], "ftuple": (float(a), float(b))}[cfg["form"]]
        ce = cfg["centre"]
        kw = {}
        if ce is None:
            x0 = y0 = 0
        else:
            if ce == "real":
                cx, cy = ctx.reals("c", 2)
            elif ce == "int":
                cx, cy = ctx.int("cx", -50, 50), ctx.int("cy", -50, 50)
            else:
                cx, cy = 7, -4
            kw["center"] = (cx, cy) if cfg["cform"] == "tuple" else [cx, cy]
            x0, y0 = cx - a // 2, cy - b // 2
        if ce in ("real", "int"):
            k = [ctx.real("k%d" % i, -4, 4) for i in range(4)]
            val = lambda x, y: k[0] + k[1] * x + k[2] * y + k[3] * (x * y)
            f = val
        else:
            u = ctx.uf("F")
            val = lambda x, y: u(x, y)

            def f(x, y):
                X, Y = np.broadcast_arrays(*(arr.nd(arr.mk(v)) if ctx.sym else np.asarray(v) for v in (x, y)))
                o = np.empty(X.shape, dtype=object)
                for ix in np.ndindex(*X.shape):
                    o[ix] = u(conc(X[ix]), conc(Y[ix]))
                return ctx.array(o.tolist(), "f")
        if cfg["mode"] == "oversample":
            kw.update(mode="oversample", factor=2)
        out = ctx.call(fit.model_to_image, f, size, **kw)
        if not ctx.check_call("model_to_image", out):
            return
        if not ctx.check("y_size rows, x_size columns", ctx.shape(out.value) == (b, a), str(ctx.shape(out.value))):
            return
        g = ctx.flat(out.value)
        ctx.observe("image", out.value)
        for j in range(b):
            for i in range(a):
                if cfg["mode"] == "center":
                    w = val(x0 + i, y0 + j)
                else:
                    w = ctx.sum([val(x0 + i + dx, y0 + j + dy) for dx in (-0.25, 0.25) for dy in (-0.25, 0.25)]) / 4
                ctx.check_eq("pixel (%d,%d)" % (j, i), g[j * a + i], w)


FITTERS = ("TRFLSQFitter", "DogBoxLSQFitter", "LevMarLSQFitter", "LMLSQFitter", "LinearLSQFitter")


@contextlib.contextmanager
def recording(result="fitted"):
    """astropy's fitters record what they are given instead of fitting"""
    from astropy.modeling import fitting
    calls, undo = [], []

    def call(self, model, x, y, z=None, weights=None, *a, **kw):
        calls.append(dict(cls=type(self).__name__, init=getattr(self, "_rec", {}), model=model, x=x, y=y, z=z, w=weights, extra=a, kw=kw))
        return result

    def init(self, calc_uncertainties=False, *a, **kw):
        self._rec = dict(kw, calc_uncertainties=calc_uncertainties)
    for n in FITTERS:
        cls = getattr(fitting, n)
        for k, v in (("__call__", call), ("__init__", init)):
            undo.append((cls, k, cls.__dict__.get(k)))
            setattr(cls, k, v)
    try:
        yield calls
    finally:
        for cls, k, v in reversed(undo):
            if v is None:
                delattr(cls, k)
            else:
                setattr(cls, k, v)


@prop
class C27(Prop):
    id = "C27"
    strict = False
    bounds = "images of 2x3, 3x2 and 3x3 pixels (thorough: also 2x5 and 3x4), float or integer, every pixel and weight value, every pattern of NaN pixels (3x3 and larger: every pattern on six pixels); masked images; the five astropy least-squares fitters, default and given options; background clipping with every 0/1 clipping pattern on six pixels and every sigma"
    outside = "which pixels sigma_clip itself discards and what the optimiser does with them"
    max_paths = 3000

    def configs(self, tier):
        out = []
        for n, sh in enumerate(([2, 3], [3, 2], [3, 3])):
            for ft in (None,) + FITTERS:
                out.append(dict(what="fit", shape=sh, fitter=ft, weights=(n + len(str(ft))) % 2 == 0, opts=(n + len(str(ft))) % 3 != 0, kind="f"))
        out += [dict(what="fit", shape=[2, 3], fitter=None, weights=True, opts=False, kind="i"), dict(what="fit", shape=[3, 2], fitter="LevMarLSQFitter", weights=True, opts="some", kind="f"),
                dict(what="fit", shape=[1, 4], fitter=None, weights=True, opts="some", kind="f"), dict(what="fit", shape=[4, 1], fitter="LinearLSQFitter", weights=True, opts=True, kind="f")]
        out += [dict(what="masked", shape=[2, 3], fitter=ft, weights=w) for ft in (None, "LinearLSQFitter") for w in (True, False)]
        out += [dict(what="badweights", shape=[2, 3], fitter=ft) for ft in (None, "LinearLSQFitter")]
        for s in ("sym", None, "default"):
            out += [dict(what="bg", shape=[2, 3], sigma=s, fitter=ft) for ft in (None, "TRFLSQFitter")]
        if tier == "thorough":
            out += [dict(what="fit", shape=sh, fitter=ft, weights=w, opts=True, kind="f") for sh in ([2, 5], [3, 4]) for ft in (None, "LinearLSQFitter", "LevMarLSQFitter") for w in (True, False)]
            out += [dict(what="bg", shape=[3, 3], sigma="sym", fitter=ft) for ft in (None, "LevMarLSQFitter")]
        return out

    def over(self, ctx, cfg):
        if cfg["what"] != "bg":
            return {}
        self.clips = clips = []

        def sigma_clip(data, sigma=3, *a, **k):
            mask = self.mask
            clips.append((data, sigma, a, k))
            if ctx.sym:
                from symx.masked import SymMasked
                return SymMasked(data, mask)
            return np.ma.MaskedArray(np.array(data, copy=True), mask=np.array(mask))
        return {"astropy.stats.sigma_clip": sigma_clip}

    def image(self, ctx, cfg, kind="f", nans=True):
        ny, nx = cfg["shape"]
        I = [[ctx.int("i%d_%d" % (j, i), -50, 50) if kind == "i" else ctx.real("i%d_%d" % (j, i), -64, 64) for i in range(nx)] for j in range(ny)]
        valid = [[True] * nx for _ in range(ny)]
        if nans and kind == "f":
            n = 0
            for j in range(ny):
                for i in range(nx):
                    if nx * ny > 6 and (j * nx + i) % 3 == 1:
                        continue
                    n += 1
                    if n > 6:
                        break
                    if bool(ctx.bool("nan%d_%d" % (j, i))):
                        I[j][i] = nan
                        valid[j][i] = False
        return I, valid

    def run(self, ctx, cfg):
        from astropy.modeling import fitting as af, models as am
        fit = ctx.impl.fitting
        ny, nx = cfg["shape"]
        model = am.Planar2D() if cfg.get("fitter") == "LinearLSQFitter" else am.Gaussian2D()
        kw = {}
        ft = cfg["fitter"]
        if ft:
            kw["fitter"] = getattr(af, ft)
        I, valid = self.image(ctx, cfg, cfg.get("kind", "f"))
        image = ctx.array(I, cfg.get("kind", "f"))
        W = weights = None
        opts = {}
        what = cfg["what"]
        if what == "badweights":
            sh = ctx.choice("wshape", [(3, 2), (2, 2), (6,), (1, 3), (3, 3), (2, 4)])
            weights = ctx.array(np.ones(sh).tolist())
            with recording() as calls:
                out = ctx.call(fit.fit_model, image, model, weights=weights, **kw)
            ctx.check("weights of another shape are refused", not out.ok and not calls)
            return
        if cfg.get("weights"):
            W = [[ctx.real("w%d_%d" % (j, i), 0, 16) for i in range(nx)] for j in range(ny)]
            weights = ctx.array(W)
            kw["weights"] = weights
        if cfg.get("opts"):
            opts = dict(maxiter=ctx.int("maxiter", 1, 10 ** 6), epsilon=ctx.real("epsilon", 0, 1), acc=ctx.real("acc", 0, 1),
                        estimate_jacobian=ctx.choice("ej", [True, False]), calc_uncertainties=ctx.choice("cu", [False, True]))
            if cfg["opts"] == "some":
                opts.pop("epsilon"), opts.pop("estimate_jacobian")
        if what == "masked":
            M = [[bool(ctx.bool("m%d_%d" % (j, i))) if (j * nx + i) % 2 else (i == 2) for i in range(nx)] for j in range(ny)]
            valid = [[v and not m for v, m in zip(a, b)] for a, b in zip(valid, M)]
            if ctx.sym:
                from symx.masked import SymMasked
                image = SymMasked(image, M)
            else:
                image = np.ma.MaskedArray(image, mask=M)
        if what == "bg":
            M = [[bool(ctx.bool("m%d_%d" % (j, i))) if (j * nx + i) % 2 else (i == 2) for i in range(nx)] for j in range(ny)]
            self.mask = M
            sg = cfg["sigma"]
            if sg == "sym":
                kw["sigma"] = ctx.real("sigma", 0.125, 16)
            elif sg is None:
                kw["sigma"] = None
            if sg is not None:
                valid = [[v and not m for v, m in zip(a, b)] for a, b in zip(valid, M)]
            if ctx.choice("cu", [None, True]):
                opts = dict(calc_uncertainties=True)
        with recording() as calls:
            if what == "bg":
                out = ctx.call(fit.fit_background, image, model, **kw, **opts)
            else:
                out = ctx.call(fit.fit_model, image, model, **kw, **opts)
        if not ctx.check_call("fit", out):
            return
        if what == "bg" and cfg["sigma"] is not None:
            if not ctx.check("clipped once", len(self.clips) == 1):
                return
            data, sigma, a, k = self.clips[0]
            ctx.check_eq("the requested sigma", sigma, kw.get("sigma", 3.0))
            ctx.check("no other clipping option", not a and not {x for x in k if k[x] is not None} - {"masked", "copy", "axis"})
            ctx.check_eq_arr("clips the image", data, sum(I, []))
        if not ctx.check("one fit", len(calls) == 1):
            return
        r = calls[0]
        want = ft or ("LinearLSQFitter" if what == "bg" else "TRFLSQFitter")
        ctx.check("the requested fitter", r["cls"] == want, r["cls"])
        ctx.check("the model given", r["model"] is model)
        z, zm = r["z"], None
        if hasattr(z, "mask"):
            zm = [bool(v) for v in np.ravel(np.ma.getmaskarray(z) if not ctx.sym else z.mask)]
            z = z.data
        x, y, z = ctx.flat(r["x"]), ctx.flat(r["y"]), ctx.flat(z)
        w = None if r["w"] is None else ctx.flat(r["w"])
        if not ctx.check("as many coordinates as values", len(x) == len(y) == len(z) and (w is None or len(w) == len(z)), "%d %d %d" % (len(x), len(y), len(z))):
            return
        keep = [n for n in range(len(z)) if not (zm and zm[n] and want == "LinearLSQFitter")]
        pos = {}
        for n in keep:
            pos.setdefault((int(float(y[n])), int(float(x[n]))), []).append(n)
        n_valid = sum(map(sum, valid))
        ctx.observe("pixels", len(keep))
        ctx.check("every valid pixel once and no other", sorted(pos) == [(j, i) for j in range(ny) for i in range(nx) if valid[j][i]] and len(keep) == n_valid,
                  "got %s" % sorted(pos))
        ctx.check("weights", (w is None) == (W is None))
        for (j, i), ns in pos.items():
            if not (0 <= j < ny and 0 <= i < nx):
                continue
            for n in ns:
                ctx.check_eq("value of pixel (%d,%d)" % (j, i), z[n], I[j][i])
                if w is not None and W is not None:
                    ctx.check_eq("weight of pixel (%d,%d)" % (j, i), w[n], W[j][i])
        given = dict(r["init"], **r["kw"])
        names = ("maxiter", "acc", "epsilon", "estimate_jacobian", "filter_non_finite")
        given.update(zip(names, r["extra"]))
        for k, v in opts.items():
            if want == "LinearLSQFitter" and k != "calc_uncertainties":
                continue
            if ctx.check("option %s reaches the optimiser" % k, k in given):
                if isinstance(v, bool):
                    ctx.check("option %s" % k, given[k] is v)
                else:
                    ctx.check_eq("option %s" % k, given[k], v)


# ------------------------------------------------------------------ wrapping
class FakeParam:
    def __init__(self, name="", description="", default=None, unit=None, getter=None, setter=None, fixed=False, tied=False, min=None, max=None, bounds=None, **k):
        self.name, self.default, self._value, self._fixed, self.tied = name, default, default, fixed, tied
        self._bounds = tuple(bounds) if bounds is not None else (min, max)
        self.model = None

    value = property(lambda s: s._value, lambda s, v: setattr(s, "_value", v))
    shape, size, unit = (), 1, None

    def _set_fixed(self, v):
        if not isinstance(v, (bool, c.SymB)):
            raise ValueError("Value must be boolean")
        self._fixed = v
    fixed = property(lambda s: s._fixed, _set_fixed)

    def _set_bounds(self, v):
        lo, hi = v
        self._bounds = (lo, hi)
    bounds = property(lambda s: s._bounds, _set_bounds)
    min = property(lambda s: s._bounds[0], lambda s, v: setattr(s, "_bounds", (v, s._bounds[1])))
    max = property(lambda s: s._bounds[1], lambda s, v: setattr(s, "_bounds", (s._bounds[0], v)))

    def copy(self):
        p = FakeParam(self.name, default=self.default, fixed=self._fixed, tied=self.tied, bounds=self._bounds)
        p._value = self._value
        return p

    def __deepcopy__(self, memo):
        return self.copy()
    __copy__ = copy


class Constraints(__import__("collections").UserDict):
    def __init__(self, model, kind):
        self.model, self.kind = model, kind
        super().__init__({n: getattr(model.__dict__[n], kind) for n in model.param_names})

    def __setitem__(self, k, v):
        super().__setitem__(k, v)
        if "model" in self.__dict__ and self.model is not None:
            setattr(self.model.__dict__[k], self.kind, v)

    def __delitem__(self, k):
        super().__delitem__(k)
        setattr(self.model.__dict__[k], self.kind, False if self.kind == "fixed" else (None, None))

    def __copy__(self):
        return dict(self.data)

    copy = __copy__


class FakeModel:
    """the parameter handling of astropy's FittableModel, for symbolic values"""
    _param_names = ()
    n_inputs, n_outputs = 2, 1
    tied = {}

    param_names = property(lambda s: s._param_names)
    parameters = property(lambda s: [s.__dict__[n].value for n in s.param_names])

    def __init__(self, *args, name=None, fixed=None, bounds=None, tied=None, meta=None, **params):
        if len(args) > len(self.param_names):
            raise TypeError("too many parameters")
        self.__dict__["name"] = name
        for n in self.param_names:
            if n not in self.__dict__:
                self.__dict__[n] = getattr(type(self), n).copy()
            p = self.__dict__[n]
            p._value = p.default
        params.update(zip(self.param_names, args))
        for n, v in params.items():
            if n not in self.param_names:
                raise TypeError("unrecognized parameter %r" % n)
            if v is not None:
                self.__dict__[n]._value = v
        for kind, d in (("fixed", fixed), ("bounds", bounds)):
            for n, v in (d or {}).items():
                setattr(self.__dict__[n], kind, v)

    fixed = property(lambda s: Constraints(s, "fixed"))
    bounds = property(lambda s: Constraints(s, "bounds"))

    def __setattr__(self, n, v):
        if n in (self.param_names or ()) and n in self.__dict__ and not isinstance(v, FakeParam):
            self.__dict__[n].value = v
        else:
            object.__setattr__(self, n, v)

    def copy(self):
        o = object.__new__(type(self))
        for k, v in self.__dict__.items():
            o.__dict__[k] = v.copy() if isinstance(v, (FakeParam, FakeModel)) else dict(v) if isinstance(v, dict) else v
        return o

    deepcopy = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        o = object.__new__(type(self))
        o.__dict__.update(self.__dict__)
        return o


@prop
class C30(Prop):
    id = "C30"
    strict = False
    bounds = "sub-models of 2-4 parameters (simple, compound), every value, every fixed flag and bound (absent on either side or every number); overrides of values, flags and bounds when wrapping; every change of the wrapper's values, flags and bounds before unwrapping"
    assumptions = ("astropy's Parameter and Model bookkeeping behaves as documented (replayed on the real classes for sampled paths)",)
    compare_obs = True

    def configs(self, tier):
        out = []
        for kind, n in (("simple", 2), ("simple", 3), ("compound", 2)):
            for over in (None, "value", "fixed", "bounds", "psf"):
                out.append(dict(kind=kind, n=n, over=over))
        if tier == "thorough":
            out += [dict(kind="simple", n=4, over=o) for o in (None, "fixed")] + [dict(kind="compound", n=3, over=o) for o in (None, "value")]
        return out

    def over(self, ctx, cfg):
        return {"astropy.modeling.FittableModel": FakeModel, "astropy.modeling.Parameter": FakeParam} if ctx.sym else {}

    def submodel(self, ctx, cfg, vals, fixed, bounds):
        if ctx.sym:
            n = len(vals)
            names = ["a", "b", "q", "d"][:cfg["n"]]
            if cfg["kind"] == "compound":
                names = [m + "_0" for m in names] + [m + "_1" for m in names]
            d = {m: FakeParam(m, default=0.0) for m in names}
            M = type("Sub", (FakeModel,), dict(d, _param_names=tuple(names)))
            return M(fixed=dict(zip(names, fixed)), bounds=dict(zip(names, bounds)), **dict(zip(names, vals))), names
        from astropy.modeling import FittableModel, Parameter
        names = ["a", "b", "q", "d"][:cfg["n"]]
        M = type("Sub", (FittableModel,), dict({m: Parameter(default=0.0) for m in names}, n_inputs=2, n_outputs=1, evaluate=lambda self, x, y, *p: x * 0, __module__="stubs"))
        k = cfg["n"]
        one = lambda s: M(fixed=dict(zip(names, fixed[s])), bounds=dict(zip(names, bounds[s])), **dict(zip(names, vals[s])))
        if cfg["kind"] == "compound":
            m = one(slice(0, k)) + one(slice(k, 2 * k))
            return m, [x + "_0" for x in names] + [x + "_1" for x in names]
        return one(slice(0, k)), names

    def state(self, m):
        return {n: (c.unwrap0(getattr(m, n).value), m.fixed[n], tuple(m.bounds[n])) for n in m.param_names}

    def same(self, ctx, label, got, want):
        for n, (v, f, b) in want.items():
            if not ctx.check("%s: has %s" % (label, n), n in got):
                continue
            gv, gf, gb = got[n]
            ctx.check_eq("%s: value of %s" % (label, n), gv, v)
            ctx.check("%s: fixed flag of %s" % (label, n), c.eq(gf, f))
            for k in (0, 1):
                ctx.check_eq("%s: bound %d of %s" % (label, k, n), gb[k], b[k])

    def agree(self, ctx, label, m):
        """parameter objects and constraint dictionaries say the same"""
        for n in m.param_names:
            p = getattr(m, n)
            ctx.check("%s: %s.fixed" % (label, n), c.eq(p.fixed, m.fixed[n]))
            for k in (0, 1):
                ctx.check_eq("%s: %s.bounds[%d]" % (label, n, k), tuple(p.bounds)[k], m.bounds[n][k])

    def run(self, ctx, cfg):
        n = cfg["n"] * (2 if cfg["kind"] == "compound" else 1)

        def bound(name, i):
            lo = ctx.real("%slo%d" % (name, i), -8, 0) if i != 1 else None
            hi = ctx.real("%shi%d" % (name, i), 0, 8) if i % 2 == 0 else None
            return lo, hi
        V = ctx.reals("v", n)
        F = [ctx.bool("f%d" % i) for i in range(n)]
        B = [bound("b", i) for i in range(n)]
        sub, names = self.submodel(ctx, cfg, V, F, B)
        s0 = {m: (V[i], F[i], B[i]) for i, m in enumerate(names)}
        self.same(ctx, "sub-model", self.state(sub), s0)
        kw, w0 = {}, dict(s0, psf_pa=(0.0, False, (None, None)))
        ov = cfg["over"]
        a = names[0]
        if ov == "value":
            kw[a] = ctx.real("ov", -8, 8)
            w0[a] = (kw[a],) + s0[a][1:]
        elif ov == "fixed":
            fs = {m: ctx.bool("of%d" % i) for i, m in enumerate(names + ["psf_pa"])}
            kw["fixed"] = fs
            w0 = {m: (w0[m][0], fs[m], w0[m][2]) for m in w0}
        elif ov == "bounds":
            bs = {m: bound("ob", i + 1) for i, m in enumerate(names + ["psf_pa"])}
            kw["bounds"] = bs
            w0 = {m: (w0[m][0], w0[m][1], bs[m]) for m in w0}
        elif ov == "psf":
            kw["psf_pa"] = ctx.real("pa", -180, 180)
            w0["psf_pa"] = (kw["psf_pa"], False, (None, None))
            kw["psf"] = np.array(PSFS["asym"])
            kw["oversample"] = 2
            kw["psf_oversample"] = 2
            kw["name"] = "wrapped"
        out = ctx.call(ctx.impl.models.PSFConvolvedModel2D, sub, **kw)
        if not ctx.check_call("wrapping", out):
            return
        w = out.value
        if not ctx.check("names and order", tuple(w.param_names) == tuple(names) + ("psf_pa",), str(w.param_names)):
            return
        self.same(ctx, "wrapped", self.state(w), w0)
        self.agree(ctx, "wrapped", w)
        self.same(ctx, "sub-model after wrapping", self.state(sub), s0)
        if ov == "psf" and not ctx.sym:
            ctx.check("name", w.name == "wrapped")
        # unwrap straight away
        out = ctx.call(getattr, w, "model")
        if not ctx.check_call("unwrapping", out):
            return
        u0 = out.value
        ctx.check("original parameters", tuple(u0.param_names) == tuple(names))
        self.same(ctx, "unwrapped", self.state(u0), {m: w0[m] for m in names})
        self.agree(ctx, "unwrapped", u0)
        # change the wrapper, then unwrap
        w1 = {}
        for i, m in enumerate(names + ["psf_pa"]):
            nv, nf, nb = ctx.real("nv%d" % i, -8, 8), ctx.bool("nf%d" % i), bound("nb", i + 1)
            if i % 3 != 2:
                setattr(w, m, nv)
            else:
                getattr(w, m).value = nv
            if i % 2:
                w.fixed[m] = bool(nf) if not ctx.sym else nf
                w.bounds[m] = nb
            else:
                getattr(w, m).fixed = nf
                getattr(w, m).bounds = nb
            w1[m] = (nv, nf, nb)
        self.same(ctx, "changed wrapper", self.state(w), w1)
        out = ctx.call(getattr, w, "model")
        if not ctx.check_call("unwrapping again", out):
            return
        u = out.value
        self.same(ctx, "unwrapped again", self.state(u), {m: w1[m] for m in names})
        self.agree(ctx, "unwrapped again", u)
        self.same(ctx, "wrapper after unwrapping", self.state(w), w1)
        self.agree(ctx, "wrapper after unwrapping", w)
        self.same(ctx, "sub-model after unwrapping", self.state(sub), s0)
        # changing the unwrapped model touches neither
        setattr(u, a, V[0] + 1)
        u.fixed[a] = ctx.bool("zf")
        u.bounds[a] = (-9.0, 9.0)
        self.same(ctx, "wrapper after a change of the unwrapped model", self.state(w), w1)
        self.same(ctx, "sub-model after a change of the unwrapped model", self.state(sub), s0)
        self.same(ctx, "first unwrapped model", self.state(u0), {m: w0[m] for m in names})
