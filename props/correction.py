"""Correction grids: nearest row, corrected epsilon, grid generation (C12-C14)."""
import numpy as np

from symx import core as c
from symx.harness import Prop, prop

CORE = "petrofit.petrosian.core."


# ---------------------------------------------------------------- a table that can hold symbolic cells
class Col:
    def __init__(self, ctx, vals):
        self.ctx, self.vals = ctx, vals

    @property
    def value(self):
        return self.ctx.array(self.vals)

    data = value

    def __array__(self, *a, **k):
        return self.ctx.array(self.vals)

    def __len__(self):
        return len(self.vals)

    def __getitem__(self, i):
        return self.vals[int(i)] if not isinstance(i, slice) else Col(self.ctx, self.vals[i])

    def __iter__(self):
        return iter(self.vals)

    def __eq__(self, o):
        return self.ctx.array(self.vals) == o

    def __ne__(self, o):
        return self.ctx.array(self.vals) != o

    __hash__ = None


class Row:
    def __init__(self, table, i):
        self.table, self.index, self.colnames = table, i, table.colnames

    def __getitem__(self, k):
        k = self.colnames[k] if not isinstance(k, str) else k
        return self.table.cols[k][self.index]

    def keys(self):
        return list(self.colnames)

    def __iter__(self):
        return (self[k] for k in self.colnames)


class FakeTable:
    """the part of astropy's Table the package uses"""
    ctx = None

    def __init__(self, data=None, names=None, rows=None, **kw):
        if rows is None and isinstance(data, (list, tuple)) and data and isinstance(data[0], dict):
            rows, data = data, None
        if rows is not None:
            rows = list(rows)
            if names is None:
                names = list(rows[0].keys())
            cells = [[r[n] for n in names] if isinstance(r, (dict, Row)) else list(r) for r in rows]
            if any(len(r) != len(names) for r in cells):
                raise ValueError("Inconsistent data column lengths")
            self.cols = {n: [r[i] for r in cells] for i, n in enumerate(names)}
        elif isinstance(data, dict):
            self.cols = {n: list(v) for n, v in data.items()}
        elif data is not None:
            self.cols = {n: list(v) for n, v in zip(names, data)}
        else:
            self.cols = {n: [] for n in (names or [])}

    @property
    def colnames(self):
        return list(self.cols)

    keys = lambda self: list(self.cols)

    def __len__(self):
        return len(next(iter(self.cols.values()))) if self.cols else 0

    def __getitem__(self, k):
        if isinstance(k, str):
            return Col(self.ctx, self.cols[k])
        if isinstance(k, tuple) and len(k) == 1:
            k = k[0]
        if isinstance(k, slice):
            return self.take(range(len(self))[k])
        if np.ndim(k) == 1:
            k = self.ctx.flat(k)
            if k and all(isinstance(v, (bool, np.bool_)) or isinstance(v, c.SymB) or getattr(v, "kind", None) == "b" for v in k):
                return self.take([i for i, v in enumerate(k) if bool(v)])
            return self.take([int(v) for v in k])
        k = c.unwrap0(k)
        if c.is_sym(k):
            k = c.concretize_int(k, limit=64)
        n = len(self)
        k = int(k)
        if not -n <= k < n:
            raise IndexError("index %d is out of bounds" % k)
        return Row(self, k % n)

    def take(self, idx):
        return type(self)(rows=[[self.cols[n][i] for n in self.cols] for i in idx], names=list(self.cols))

    def add_row(self, vals=None):
        if isinstance(vals, dict):
            vals = [vals[n] for n in self.cols]
        for n, v in zip(self.cols, vals):
            self.cols[n].append(v)

    def __iter__(self):
        return (self[i] for i in range(len(self)))

    def write(self, *a, **k):
        raise OSError("no files here")

    @classmethod
    def read(cls, *a, **k):
        raise OSError("no files here")


def table_class(ctx):
    if not ctx.sym:
        from astropy.table import Table
        return Table
    return type("Table", (FakeTable,), dict(ctx=ctx))


RADII = [1.0, 2.0, 3.0, 5.0]
AREAS = [3.0, 12.0, 27.0, 75.0]
FLUX = [3.0, 9.0, 12.0, 13.0]


class Measured:
    """stands for the measurements of a profile: the radius at each eta and at each fraction is an arbitrary number"""

    def __init__(self, ctx, rp, frac):
        self.ctx, self.rp, self.frac, self.calls = ctx, rp, frac, []

    def petro_r(self, r_list, petrosian_list, petrosian_err=None, eta=0.2, **kw):
        self.calls.append(("r", r_list, petrosian_list, eta))
        return self.rp[round(float(eta), 6)], self.ctx.div(1.0, 8.0)

    def fraction(self, fraction, r_list, flux_list, r_petrosian, flux_err=None, r_petrosian_err=None, epsilon=2.0, epsilon_fraction=0.99, **kw):
        self.calls.append(("f", fraction, epsilon, epsilon_fraction, r_petrosian))
        return self.frac[round(float(fraction), 6)], 0.125


GRIDS = {
    "irregular": dict(p02=[20.0, 26.0, 33.0, 58.0, 61.0], u_r_50=[8.0, 12.0, 9.5, 30.0, 21.0], u_c2080=[2.5, 3.25, 4.5, 3.0, 4.25]),
    "repeated": dict(p02=[20.0, 20.0, 40.0, 40.0], u_r_50=[8.0, 8.0, 16.0, 24.0], u_c2080=[2.5, 2.5, 2.5, 4.0]),
    "two": dict(p02=[20.0, 32.0], u_r_50=[16.0, 8.0], u_c2080=[3.0, 4.0]),
    "ints": dict(p02=[20, 26, 33], u_r_50=[8, 12, 9], u_c2080=[2, 4, 3]),
}
COLS = ("p02", "u_r_50", "u_c2080")


class Corr(Prop):
    tol = 1e-7

    def over(self, ctx, cfg):
        over = {"astropy.table.Table": table_class(ctx)} if ctx.sym else {}
        self.meas = m = Measured(ctx, {}, {})
        over[CORE + "calculate_petrosian_r"] = m.petro_r
        over[CORE + "fraction_to_r"] = m.fraction
        if not ctx.sym:
            over["petrofit.petrosian.correction.calculate_petrosian_r"] = m.petro_r
        ctx.meas = m
        return over

    def table(self, ctx, rows, names):
        T = ctx.impl.correction.Table if ctx.sym else table_class(ctx)
        return T(rows=rows, names=list(names))

    def profile(self, ctx, x0, y0, r20, r80, eta=0.2, ef=0.99, **kw):
        ctx.meas.rp.update({0.2: x0, 0.3: x0 * 0.75, 0.4: x0 * 0.625, 0.5: x0 * 0.5})
        ctx.meas.frac.update({0.2: r20, 0.5: y0, 0.8: r80, 0.99: y0 * 4.0, 0.9: y0 * 2.0, round(ef, 6): y0 * 4.0} if ef not in (0.5, 0.2, 0.8, 0.9) else {0.2: r20, 0.5: y0, 0.8: r80, 0.9: y0 * 2.0, 0.99: y0 * 4.0})
        return ctx.impl.core.Petrosian(ctx.array(RADII), ctx.array(AREAS), ctx.array(FLUX), eta=eta, epsilon_fraction=ef, **kw)


def spread(ctx, v):
    """variance of the column"""
    n = float(len(v))
    m = ctx.sum(v) / n
    return ctx.sum([(x - m) * (x - m) for x in v]) / n


def distance2(ctx, cols, q, i, scale=None):
    return ctx.sum([ctx.div((col[i] - v) * (col[i] - v), s) for col, v, s in zip(cols, q, scale)])


@prop
class C12(Corr):
    id = "C12"
    bounds = "concrete grids of 2-5 rows (irregular, repeated rows, integer cells) with every real measurement; symbolic 2-row grids (3 rows in one column, thorough) with concrete measurements; range enforcement on and off"
    outside = "larger grids; grids with a constant column (its standard deviation is zero)"
    assumptions = ("the measurements of a profile (radii at eta and at fractions) are arbitrary numbers here; what they are is C03, C05 and C07",)
    timeout_ms = 8000

    def configs(self, tier):
        out = []
        for g in GRIDS:
            for enf in (True, False, "default"):
                if tier == "quick" and enf == "default" and g != "two":
                    continue
                out.append(dict(grid=g, enforce=enf))
        out += [dict(grid="sym", cols=["p02"], rows=2, enforce=e) for e in (True, False)]
        out += [dict(grid="sym", cols=["u_r_50"], rows=2, enforce=e) for e in (True, False)]
        out += [dict(grid="sym", cols=["u_c2080"], rows=2, enforce=e) for e in (True, False)]
        out += [dict(grid=g, enforce=e, exact=True) for g in GRIDS for e in (True, False)]
        if tier == "thorough":
            out += [dict(grid="sym", cols=[k], rows=3, enforce=False) for k in COLS] + [dict(grid="sym", cols=["p02", "u_r_50"], rows=2, enforce=e) for e in (True, False)]
        return out

    def run(self, ctx, cfg):
        if cfg["grid"] == "sym":
            k = cfg["rows"]
            base = {n: GRIDS["irregular"][n][:k] for n in COLS}
            for n in cfg["cols"]:
                v = ctx.reals(n, k, 1, 64)
                for i in range(k):
                    for j in range(i):
                        ctx.assume(ctx.Or(v[i] - v[j] >= 0.5, v[j] - v[i] >= 0.5)) if k == 2 else ctx.assume(v[i] - v[j] >= 0.5)
                base[n] = v
            cols = base
            x0, y0, r20, r80 = 24.0, 11.0, 2.0, 8.0
        else:
            cols = GRIDS[cfg["grid"]]
            r20 = 2.0
            if cfg.get("exact"):
                i = ctx.choice("row", list(range(len(cols["p02"]))))
                x0, y0 = float(cols["p02"][i]), float(cols["u_r_50"][i])
                r80 = 2.0 * 10 ** (cols["u_c2080"][i] / 5.0)
            else:
                x0, y0, r80 = ctx.real("x0", 1, 128), ctx.real("y0", 1, 64), 2.0 * ctx.apply("exp", ctx.real("w", 0, 3.5))
        z0 = 5 * ctx.log10(r80 / r20)
        q = [x0, y0, z0]
        n = len(cols["p02"])
        cells = [cols[k] for k in COLS]
        # an identifying column, and the ones the correction reads
        extra = dict(n=[0.5 + i for i in range(n)], c_r_50=[100.0 + i for i in range(n)], c_r_80=[200.0 + 2 * i for i in range(n)], c_r_99=[300.0 + 4 * i for i in range(n)],
                     p03=[12.0] * n, p04=[11.0] * n, p05=[10.0] * n, c_epsilon=[2.0 + i for i in range(n)])
        names = list(COLS) + list(extra)
        rows = [[col[i] for col in cells] + [extra[e][i] for e in extra] for i in range(n)]
        grid = self.table(ctx, rows, names)
        PC = ctx.impl.correction.PetrosianCorrection
        enf = cfg["enforce"]
        out = ctx.call(PC, grid) if enf == "default" else ctx.call(PC, grid, enforce_range=enf)
        if not ctx.check_call("constructing", out):
            return
        p = self.profile(ctx, x0, y0, r20, r80)
        o = ctx.call(out.value.estimate_n, p)
        ctx.observe("n", o)
        inside = ctx.And(*[ctx.And(ctx.Or(*[v <= x for v in col]), ctx.Or(*[v >= x for v in col])) for col, x in zip(cells, q)])
        slack = 1e-9
        clear_in = ctx.And(*[ctx.And(ctx.Or(*[v + slack <= x for v in col]), ctx.Or(*[v - slack >= x for v in col])) for col, x in zip(cells, q)])
        clear_out = ctx.Or(*[ctx.Or(ctx.And(*[v - slack > x for v in col]), ctx.And(*[v + slack < x for v in col])) for col, x in zip(cells, q)])
        if not o.ok:
            if enf is False:
                ctx.check_call("estimating without range enforcement", o)
            else:
                ctx.check("refused only outside the range", ctx.Not(clear_in) if not cfg.get("exact") else ctx.Not(inside), repr(o.exc))
            return
        if enf is not False:
            ctx.check("accepted only inside the range", ctx.Not(clear_out))
        k = o.value
        k = int(round(float(c.unwrap0(k)) - 0.5))
        if not ctx.check("a row of the grid", 0 <= k < n):
            return
        sc = [spread(ctx, [v * 1.0 for v in col]) for col in cells]
        d = [distance2(ctx, cells, q, i, sc) for i in range(n)]
        for i in range(n):
            if i != k:
                ctx.check_le("row %d is nearest (not %d)" % (k, i), d[k], d[i], 1e-9)
        o = ctx.call(out.value.estimate_epsilon, p)
        if ctx.check_call("estimating epsilon", o):
            ctx.check_eq("epsilon of the same row", o.value, ctx.div(extra["c_r_99"][k], cols["p02"][k] * 1.0))


@prop
class C13(Corr):
    id = "C13"
    bounds = "grids of 2-3 rows whose corrected radii and Petrosian radii are arbitrary positive numbers; eta in {0.2, 0.3, 0.4, 0.5} and three others; epsilon_fraction in {0.5, 0.8, 0.99} and two others; profiles with and without errors, every epsilon and total_flux_fraction"
    assumptions = ("the measurements of a profile are arbitrary numbers here",)

    def configs(self, tier):
        out = []
        for eta in (0.2, 0.3, 0.4, 0.5, 0.25, 0.1, 0.6):
            for ef in (0.5, 0.8, 0.99, 0.9, 1.0):
                bad = eta not in (0.2, 0.3, 0.4, 0.5) or ef not in (0.5, 0.8, 0.99)
                if tier == "quick" and bad and eta not in (0.2, 0.25) and ef != 0.99:
                    continue
                out.append(dict(eta=eta, ef=ef, rows=2, errs=False))
        out += [dict(eta=0.3, ef=0.8, rows=3, errs=True), dict(eta=0.2, ef=0.99, rows=3, errs=True, kind="linear"), dict(eta=0.5, ef=0.5, rows=3, errs=False, kind=None)]
        out += [dict(bad=b) for b in ("str", "list", "none", "dict")]
        return out

    def run(self, ctx, cfg):
        PC = ctx.impl.correction.PetrosianCorrection
        if "bad" in cfg:
            o = ctx.call(PC, dict(str="grid.yml", list=[[1.0]], none=None, dict={"p02": [1.0]})[cfg["bad"]])
            ctx.check("refused with TypeError", isinstance(o.exc, TypeError), repr(o.exc))
            return
        n = cfg["rows"]
        xyz = dict(p02=[20.0, 26.0, 58.0][:n], u_r_50=[8.0, 12.0, 30.0][:n], u_c2080=[2.5, 3.25, 4.5][:n])
        names = list(xyz) + ["n", "p03", "p04", "p05", "c_r_50", "c_r_80", "c_r_99", "c_epsilon", "c_epsilon_50", "c_epsilon_80", "u_r_80", "u_r_99"]
        cells = dict(xyz)
        for k in names:
            if k not in cells:
                cells[k] = ctx.reals(k + "_", n, 0.5, 64)
        grid = self.table(ctx, [[cells[k][i] for k in names] for i in range(n)], names)
        pc = PC(grid)
        i = ctx.choice("row", list(range(n)))
        x0, y0, r80 = float(xyz["p02"][i]), float(xyz["u_r_50"][i]), 2.0 * 10 ** (xyz["u_c2080"][i] / 5.0)
        off = 0.0 if i in (0, n - 1) else 0.125
        # strictly inside the range, clearly nearest to row i
        x0 += 0.5 if i == 0 else -0.5
        y0 += 0.25 if i == 0 else -0.25
        r80 = r80 * (1.0 + (1 if i == 0 else -1) / 64.0)
        eta, ef = cfg["eta"], cfg["ef"]
        eps, tf = ctx.real("epsilon", 0.5, 4), ctx.choice("tf", [0.99, 0.9])
        kw = dict(epsilon=eps, total_flux_fraction=tf)
        if cfg["errs"]:
            kw.update(flux_err=ctx.array([0.25, 0.5, 0.25, 1.0]), area_err=ctx.array([0.0, 0.25, 0.0, 0.5]))
        if "kind" in cfg:
            kw.update(interp_kind=cfg["kind"], interp_num=17)
        ctx.meas.rp.update({round(eta, 6): x0 * 0.875})
        p = self.profile(ctx, x0, y0, 2.0, r80, eta=eta, ef=ef, **kw)
        before = self.state(ctx, p)
        o = ctx.call(pc.estimate_epsilon, p)
        o2 = ctx.call(pc.correct, p)
        ctx.observe("epsilon", o)
        self.same(ctx, "the original profile", self.state(ctx, p), before)
        if eta not in (0.2, 0.3, 0.4, 0.5) or ef not in (0.5, 0.8, 0.99):
            ctx.check("estimate refused with ValueError", isinstance(o.exc, ValueError), repr(o.exc))
            ctx.check("correction refused with ValueError", isinstance(o2.exc, ValueError), repr(o2.exc))
            return
        if not (ctx.check_call("estimating", o) and ctx.check_call("correcting", o2)):
            return
        rc = cells[{0.5: "c_r_50", 0.8: "c_r_80", 0.99: "c_r_99"}[ef]][i]
        rp = cells[{0.2: "p02", 0.3: "p03", 0.4: "p04", 0.5: "p05"}[eta]][i]
        want = ctx.div(rc, rp)
        ctx.check_eq("epsilon", o.value, want)
        q = o2.value
        if not ctx.check("another object", q is not p and type(q) is type(p)):
            return
        got = self.state(ctx, q)
        ctx.check_eq("epsilon of the corrected profile", got.pop("epsilon"), want)
        w = dict(before)
        w.pop("epsilon")
        self.same(ctx, "the corrected profile", got, w)
        # re-configuring one does not affect the other
        q.eta = 0.4
        q.epsilon = 3.0
        self.same(ctx, "the original after changing the corrected one", self.state(ctx, p), before)
        o3 = ctx.call(pc.estimate_epsilon, p)
        if ctx.check_call("estimating again", o3):
            ctx.check_eq("same epsilon again", o3.value, want)

    KEYS = ("eta", "epsilon", "epsilon_fraction", "total_flux_fraction", "interp_kind", "interp_num", "verbose", "r_list", "area_list", "flux_list", "area_err", "flux_err",
            "petrosian_list", "petrosian_err")

    def state(self, ctx, p):
        d = {}
        for k in self.KEYS:
            v = getattr(p, k)
            d[k] = ctx.flat(v) if isinstance(v, np.ndarray) else v
        return d

    def same(self, ctx, label, got, want):
        for k, w in want.items():
            g = got[k]
            if isinstance(w, list):
                ctx.check_eq_arr("%s: %s" % (label, k), g, w) if isinstance(g, list) else ctx.check("%s: %s" % (label, k), False)
            elif w is None or isinstance(w, (str, bool)):
                ctx.check("%s: %s" % (label, k), g == w)
            else:
                ctx.check_eq("%s: %s" % (label, k), g, w)


# ---------------------------------------------------------------- grid generation
class Sky:
    """records the image request; the image itself is not looked at"""

    def __init__(self, ctx, cfg):
        self.ctx, self.cfg = ctx, cfg
        self.images, self.phot, self.rcalls, self.fcalls = [], [], [], []
        self.row = -1
        self.known = []

    # model image
    def model_to_image(self, model, size, mode="center", factor=1, center=None):
        self.row += 1
        self.images.append(dict(model=model, size=size, mode=mode, factor=factor, center=center))
        return np.full((3, 3), float(self.row))

    def radial_photometry(self, image, position, r_list, error=None, mask=None, elong=1.0, theta=0.0, plot=False, vmin=0, vmax=None, method="exact"):
        ctx = self.ctx
        r = [float(v) for v in ctx.flat(r_list)]
        n, k = len(r), int(round(float(ctx.flat(image)[0])))
        fl = self.flux(k, r)
        area = [round(3.125 * v * v, 6) for v in r]
        self.phot.append(dict(row=k, position=position, r=r, flux=fl, area=area, mask=mask, elong=elong, theta=theta, method=method, error=error))
        return ctx.array(fl), ctx.array(area), ctx.array([float("nan")] * n)

    def flux(self, k, r):
        """a growing curve which holds 80% of the analytic total after the first and 99% before the last sample"""
        ctx, L = self.ctx, self.total(k)
        n = len(r)
        if n > 12 or self.cfg.get("free", "radii") != "curve":
            t = np.array(r) / r[-1]
            return [float(v) for v in L * 1.05 * (1 - (1 - t) ** 4)]
        fr = [ctx.real("cog%d_%d" % (k, i), 0.0625, 1.25) for i in range(n)]
        ctx.assume(fr[0] <= 0.75)
        ctx.assume(fr[-1] >= 1.0)
        for i in range(n - 1):
            ctx.assume(fr[i] + 0.015625 <= fr[i + 1])
        return [v * L for v in fr]

    def total(self, k):
        n, re = self.pairs[k]
        return analytic(n, re)[1]

    # measurements, as functions of everything they may depend on
    def coef(self, name):
        return self.ctx.real("%s_%d" % (name, self.row), 0.5, 4)

    def petro_r(self, r_list, petrosian_list, petrosian_err=None, eta=0.2, **kw):
        self.rcalls.append((self.row, self.ctx.flat(r_list), self.ctx.flat(petrosian_list)))
        return self.R(self.row, eta), float("nan")

    def R(self, k, eta):
        e = round(float(eta), 6)
        if self.cfg.get("free", "radii") == "curve":
            return 8.0 - k / 2.0 - 8 * e
        return self.ctx.real("R%d(%g)" % (k, e), 1, 16)

    def fraction(self, fraction, r_list, flux_list, r_petrosian, flux_err=None, r_petrosian_err=None, epsilon=2.0, epsilon_fraction=0.99, **kw):
        self.fcalls.append((self.row, self.ctx.flat(r_list), self.ctx.flat(flux_list)))
        v = self.F(self.row, fraction, r_petrosian, epsilon, epsilon_fraction)
        self.known.append((self.row, round(float(fraction), 6), epsilon, v))
        return v, float("nan")

    def F(self, k, fraction, rp, epsilon, ef=0.99):
        f = float(fraction)
        a, b = (1.5, 0.75 + k) if self.cfg.get("free", "radii") == "curve" else (self.ctx.real("a%d" % k, 0.5, 4), self.ctx.real("b%d" % k, 0.5, 4))
        return (f * 4.0 + f * f / float(ef)) * rp * 0.25 + f * a * epsilon + f * f * b * epsilon + 0.125 * a


def analytic(n, re):
    """(amplitude, total, r20, r80, r99) of the simulated galaxy from the Sersic law"""
    from scipy.special import gammaincinv, gammainc, gamma
    b = gammaincinv(2.0 * n, 0.5)
    amp = 100 / np.exp(b)
    L = float(amp * re ** 2 * 2 * np.pi * n * np.exp(b) * b ** (-2.0 * n) * gamma(2.0 * n))
    rad = [float((gammaincinv(2.0 * n, 0.99 * f) / b) ** n * re) for f in (0.2, 0.8, 1.0)]
    return amp, L, rad


class Bar:
    def __init__(self, total_or_items=0, *a, **k):
        self.items = total_or_items

    def __iter__(self):
        return iter(range(self.items) if isinstance(self.items, int) else self.items)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def update(self, *a, **k):
        pass

    @classmethod
    def map(cls, function, items, *a, **k):
        return [function(i) for i in items]

    @classmethod
    def map_unordered(cls, function, items, *a, **k):
        """the results arrive in another order"""
        return [function(i) for i in items][::-1]

    @classmethod
    def iterate(cls, items, *a, **k):
        return list(items)


@prop
class C14(Corr):
    id = "C14"
    strict = False
    tol = 1e-6
    bounds = "grids of 1-4 rows for concrete (n, r_eff) giving 4-8 aperture radii, with every growing real curve of growth that holds 80% and 99% of the total inside the apertures and every value of the measured radii; large galaxies (over 100 radii) with a concrete curve"
    outside = "the pixel values of the simulated image (C22, C26) and their photometry (C16); measured radii as numbers (C03, C05)"
    assumptions = ("radial photometry, Petrosian radii and fraction radii are replaced by arbitrary values (radii at eta) or by a family of functions with arbitrary coefficients (radii at fractions)",)

    def over(self, ctx, cfg):
        S = ctx.sky = Sky(ctx, cfg)
        S.pairs = [(n, r) for n in cfg["n"] for r in cfg["r_eff"]]
        o = {"petrofit.modeling.fitting.model_to_image": S.model_to_image, "petrofit.photometry.radial_photometry": S.radial_photometry,
             CORE + "calculate_petrosian_r": S.petro_r, CORE + "fraction_to_r": S.fraction, "astropy.utils.console.ProgressBar": Bar}
        if ctx.sym:
            o["astropy.table.Table"] = table_class(ctx)
        return o

    def configs(self, tier):
        out = [dict(n=[1.0], r_eff=[0.75], over=None), dict(n=[2.515625], r_eff=[0.8125], over=None), dict(n=[2.0], r_eff=[1.0], over=2), dict(n=[4.0], r_eff=[0.5], over=("x_0", "y_0", 4, 4)),
               dict(n=[3.0, 1.5], r_eff=[0.5], over=None), dict(n=[2.0], r_eff=[1.0, 0.5], over=None), dict(n=[2.5], r_eff=[1.0], over=2, psf=True, po=2), dict(n=[2.5], r_eff=[1.0], over=2, psf=True, po=None),
               dict(n=[4.0], r_eff=[30.0], over="default"), dict(n=[0.5], r_eff=[5.0], over=None)]
        out += [dict(n=[a], r_eff=[b], over=None, free="curve") for a, b in ((1.0, 0.75), (2.0, 1.0), (2.5, 0.75))] + [dict(n=[2.0], r_eff=[1.0, 0.5], over=None, free="curve")]
        if tier == "thorough":
            out += [dict(n=[a], r_eff=[b], over=None) for a in (1.0, 1.5, 2.5, 3.5) for b in (0.5, 0.75, 1.0)] + [dict(n=[2.0, 3.0], r_eff=[0.5, 1.0], over=None)]
            out += [dict(n=[a], r_eff=[b], over=None, free="curve") for a in (1.0, 1.5, 3.0) for b in (0.5, 1.0)] + [dict(n=[2.0, 3.0], r_eff=[0.5], over=None, free="curve")]
        return out

    def run(self, ctx, cfg):
        S = ctx.sky
        kw = dict(r_eff_list=list(cfg["r_eff"]), n_list=list(cfg["n"]))
        if cfg["over"] != "default":
            kw["oversample"] = cfg["over"]
        psf = None
        if cfg.get("psf"):
            psf = kw["psf"] = np.array([[0.0, 0.125, 0.0], [0.125, 0.5, 0.125], [0.0, 0.125, 0.0]])
            kw["psf_oversample"] = cfg["po"]
        o = ctx.call(ctx.impl.correction.generate_petrosian_sersic_correction, None, **kw)
        if not ctx.check_call("generating", o):
            return
        t = o.value
        pairs = S.pairs
        if not ctx.check("one row per pair", len(t) == len(pairs) and len(S.images) == len(pairs) and len(S.phot) == len(pairs), "%d rows" % len(t)):
            return
        for k, (n, re) in enumerate(pairs):
            row = {m: c.unwrap0(t[m][k]) for m in t.colnames}
            ctx.observe("row %d" % k, [row[m] for m in t.colnames])
            self.image(ctx, cfg, S, k, n, re, psf)
            self.row(ctx, cfg, S, k, n, re, row)

    def image(self, ctx, cfg, S, k, n, re, psf):
        im, ph = S.images[k], S.phot[k]
        m, size = im["model"], im["size"]
        lab = "galaxy %d: " % k
        val = lambda name: float(c.unwrap0(getattr(m, name).value))
        for name, want in (("n", n), ("r_eff", re), ("ellip", 0.0), ("amplitude", analytic(n, re)[0])):
            ctx.check_eq(lab + name, val(name), want)
        if not ctx.check(lab + "square image of whole pixels", np.ndim(size) == 0 and int(size) == size):
            return
        size = int(size)
        c0 = (0, 0) if im["center"] is None else (float(im["center"][0]) - size // 2, float(im["center"][1]) - size // 2)
        pos = [float(v) for v in ctx.flat(ph["position"])]
        ctx.check_eq(lab + "apertures centred on the galaxy, x", pos[0], val("x_0") - c0[0])
        ctx.check_eq(lab + "apertures centred on the galaxy, y", pos[1], val("y_0") - c0[1])
        ctx.check(lab + "apertures of this galaxy", ph["row"] == k)
        ctx.check(lab + "circular apertures, nothing masked", ph["elong"] == 1.0 and ph["mask"] is None)
        r = ph["r"]
        ctx.check(lab + "radii increase", all(a < b for a, b in zip(r, r[1:])) and r[0] > 0)
        ctx.check(lab + "apertures inside the image", pos[0] + 0.5 >= max(r) - 1e-9 and pos[1] + 0.5 >= max(r) - 1e-9 and size - pos[0] >= max(r) - 1e-9 and size - pos[1] >= max(r) - 1e-9)
        ctx.check(lab + "apertures reach the 99% radius", max(r) >= analytic(n, re)[2][2])
        ctx.check(lab + "psf", (m.psf is None) if psf is None else (m.psf is not None and np.array_equal(np.array([float(v) for v in ctx.flat(m.psf)]), psf.reshape(-1))))
        want = ("x_0", "y_0", 10, 50) if cfg["over"] == "default" else cfg["over"]
        ctx.check(lab + "oversampling", m.oversample == want)
        ctx.check(lab + "psf oversampling", (m.psf_oversample or 1) == (cfg.get("po") or 1))

    def row(self, ctx, cfg, S, k, n, re, row):
        _, L, (s20, s80, s99) = analytic(n, re)
        ph = S.phot[k]
        lab = "row %d: " % k
        R = {e: S.R(k, e) for e in (0.2, 0.3, 0.4, 0.5)}
        want = dict(n=n, r_eff=re, sersic_r_20=s20, sersic_r_80=s80, sersic_r_99=s99, sersic_L_inf=L, p02=R[0.2], p03=R[0.3], p04=R[0.4], p05=R[0.5],
                    p0502=5 * ctx.log10(R[0.2] / R[0.5]), p0302=5 * ctx.log10(R[0.2] / R[0.3]), u_epsilon=2.0)
        F = lambda f, e: S.F(k, f, R[0.2], e)
        want.update(u_r_50=F(0.5, 2.0), u_r_20=F(0.2, 2.0), u_r_80=F(0.8, 2.0), u_r_99=F(0.99, 2.0), u_epsilon_50=ctx.div(F(0.5, 2.0), R[0.2]), u_epsilon_80=ctx.div(F(0.8, 2.0), R[0.2]),
                    u_c2080=5 * ctx.log10(ctx.div(F(0.8, 2.0), F(0.2, 2.0))), u_c5090=5 * ctx.log10(ctx.div(F(0.9, 2.0), F(0.5, 2.0))))
        at = lambda f: self.invert(ctx, ph["r"], ph["flux"], f)
        e99, e80 = ctx.div(at(0.99 * L), R[0.2]), ctx.div(at(0.99 * 0.8 * L), R[0.2])
        want.update(c_epsilon=e99, c_epsilon_80=e80, c_r_50=F(0.5, e99), c_r_20=F(0.2, e99), c_r_80=F(0.8, e99), c_r_99=F(0.99, e99), c_epsilon_50=ctx.div(F(0.5, e99), R[0.2]),
                    c_c2080=5 * ctx.log10(ctx.div(F(0.8, e99), F(0.2, e99))), c_c5090=5 * ctx.log10(ctx.div(F(0.9, e99), F(0.5, e99))))
        for m, w in want.items():
            if ctx.check(lab + "has " + m, m in row):
                if m in ("u_c2080", "c_c2080", "p0502", "p0302"):
                    # from the cells of the row itself, which are checked on their own
                    a, b = dict(u_c2080=("u_r_80", "u_r_20"), c_c2080=("c_r_80", "c_r_20"), p0502=("p02", "p05"), p0302=("p02", "p03"))[m]
                    w = 5 * ctx.log10(ctx.div(row[a], row[b]))
                if m in ("u_c5090", "c_c5090"):
                    # from the measured 90% radius
                    eps = 2.0 if m[0] == "u" else e99
                    v90 = [v for kk, f, e, v in [(kk, f, c.unwrap0(e), v) for kk, f, e, v in S.known] if kk == k and abs(f - 0.9) < 1e-9 and (m[0] == "u") == (not c.is_sym(e) and float(e) == 2.0)] if ctx.sym else []
                    if v90 and c.is_sym(e99):
                        for v in v90:
                            ctx.check_eq(lab + "90% radius", v, F(0.9, eps))
                        w = 5 * ctx.log10(ctx.div(v90[0], row[m[0] + "_r_50"]))
                ctx.check_eq(lab + m, row[m], w)
        # the measurements were taken on this galaxy's curves
        prof = ctx.call(ctx.impl.core.calculate_petrosian, ctx.array(ph["area"]), ctx.array(ph["flux"]))
        prof = ctx.flat(prof.value[0])
        for kk, r, q in S.rcalls[:]:
            if kk == k:
                ctx.check_eq_arr(lab + "radii of the profile", r, ph["r"])
                ctx.check_eq_arr(lab + "profile", q, prof)
                break
        for kk, r, f in S.fcalls:
            if kk == k:
                ctx.check_eq_arr(lab + "radii of the curve of growth", r, ph["r"])
                ctx.check_eq_arr(lab + "curve of growth", f, ph["flux"])
                break

    def invert(self, ctx, r, f, target):
        v = r[-1]
        for i in range(len(r) - 2, -1, -1):
            seg = r[i] + (r[i + 1] - r[i]) * ctx.div(target - f[i], f[i + 1] - f[i])
            v = ctx.ite(target <= f[i + 1], seg, v)
        return v


def saving(ctx, log):
    """a table class whose files are entries of a dictionary; every write and read is recorded"""
    base = table_class(ctx)

    def write(self, *a, **k):
        log.append(("write", self, a, k))
        name = a[0] if a else k.get("output")
        if str(name).startswith("/bad"):
            raise OSError("no such directory")
        if name in log.files and not k.get("overwrite"):
            raise OSError("file exists")
        log.files[name] = self

    def read(cls, *a, **k):
        log.append(("read", a, k))
        return log.files[a[0]]
    return type("Table", (base,), dict(write=write, read=classmethod(read), __module__="stubs"))


class Log(list):
    pass


@prop
class C41(C14):
    id = "C41"
    strict = False
    bounds = "2-row and 4-row grids with arbitrary measured radii generated serially, with one, several or all processors and every mix of list, tuple and array arguments; files that are new, exist already or cannot be written; tables of 3-4 rows with every pattern of equal and different cell values for filtering"
    outside = "the file formats; how the processes are scheduled (the contract that results come back in the order of the inputs is astropy's)"
    assumptions = C14.assumptions + ("ProgressBar.map returns the results in the order of the inputs", "files are entries of a dictionary")

    def configs(self, tier):
        out = []
        n = 0
        pair = [dict(n=[2.0], r_eff=[1.0, 0.5]), dict(n=[3.0, 1.515625], r_eff=[0.5]), dict(n=[2.0], r_eff=[0.5, 1.0]), dict(n=[1.5, 3.0], r_eff=[0.5])] + ([dict(n=[2.0, 3.0], r_eff=[0.5, 1.0])] if tier == "thorough" else [])
        for g in pair:
            for cpu in (None, 1, 2, True):
                for file in (None, "new.yaml", "old.yaml", "old.yaml!", "/bad/x.yaml"):
                    n += 1
                    if tier == "quick" and (n + n // 20) % 3 and not (cpu == 2 and file is None):
                        continue
                    out.append(dict(g, over=None, what="generate", cpu=cpu, file=file, fmt=(None, "ascii.ecsv")[n % 3 == 0], form=("list", "tuple", "array")[n % 3]))
        out += [dict(n=[], r_eff=[], what="filter", rows=r, key=k, cell=ce) for r in (3, 4) for k in ("n", "p02") for ce in ("sym", "own")]
        out += [dict(n=[], r_eff=[], what="files", fmt=f, how=h) for f in (None, "ascii.ecsv") for h in ("pos", "kw")]
        return out

    def over(self, ctx, cfg):
        o = super().over(ctx, cfg)
        self.log = Log()
        self.log.files = {"old.yaml": "earlier contents"}
        o["astropy.table.Table"] = self.T = saving(ctx, self.log)
        return o

    def run(self, ctx, cfg):
        getattr(self, "do_" + cfg["what"])(ctx, cfg)

    def do_generate(self, ctx, cfg):
        S, log = ctx.sky, self.log
        f = dict(list=list, tuple=tuple, array=np.array)[cfg["form"]]
        kw = dict(r_eff_list=f(cfg["r_eff"]), n_list=f(cfg["n"]), oversample=None)
        if cfg["cpu"] is not None:
            kw["n_cpu"] = cfg["cpu"]
        name = cfg["file"]
        if name == "old.yaml!":
            name = "old.yaml"
            kw["overwrite"] = True
        if cfg["fmt"]:
            kw["out_format"] = cfg["fmt"]
        o = ctx.call(ctx.impl.correction.generate_petrosian_sersic_correction, name, **kw)
        if not ctx.check_call("generating", o):
            return
        t = o.value
        if not ctx.check("one row per pair", len(t) == len(S.pairs) and len(S.phot) == len(S.pairs), "%d rows" % len(t)):
            return
        for k, (n, re) in enumerate(S.pairs):
            row = {m: c.unwrap0(t[m][k]) for m in t.colnames}
            self.row(ctx, cfg, S, k, n, re, row)
        writes = [e for e in log if e[0] == "write"]
        if name is None:
            ctx.check("nothing is written", not writes)
            return
        ctx.check("the grid returned is the one saved", bool(writes) and writes[-1][1] is t)
        for _, _, a, k in writes:
            ctx.check("saved under the name given", (a[0] if a else k.get("output")) == name)
            ctx.check("saved in the format asked for", (k.get("format") or None) == cfg["fmt"], str(k.get("format")))
            ctx.check("overwrites on request only", bool(k.get("overwrite")) == (cfg["file"] == "old.yaml!"))
        kept = log.files.get("old.yaml")
        if cfg["file"] in ("new.yaml", "old.yaml!"):
            ctx.check("saved", log.files.get(name) is t)
        if cfg["file"] != "old.yaml!":
            ctx.check("an existing file survives", kept == "earlier contents")

    def do_filter(self, ctx, cfg):
        m, key = cfg["rows"], cfg["key"]
        v = ctx.reals("v", m, 0, 4)
        cells = dict(p02=[20.0 + i for i in range(m)], u_r_50=[8.0 + i * i for i in range(m)], u_c2080=[2.5 + 0.125 * i for i in range(m)], n=[0.5 + i for i in range(m)], tag=[float(i) for i in range(m)])
        cells[key] = v
        names = list(cells)
        grid = self.T(rows=[[cells[k][i] for k in names] for i in range(m)], names=names)
        pc = ctx.call(ctx.impl.correction.PetrosianCorrection, grid)
        if not ctx.check_call("constructing", pc):
            return
        pc = pc.value
        q = v[1] if cfg["cell"] == "own" else ctx.real("q", 0, 4)
        o = ctx.call(pc.filter_grid, key, q)
        if not ctx.check_call("filter_grid", o):
            return
        t = o.value
        tags = [float(c.unwrap0(x)) for x in t["tag"]] if len(t) else []
        ctx.observe("rows", tags)
        want = [float(i) for i in range(m) if bool(v[i] == q)]
        if ctx.check("exactly the rows with that value, in order", tags == want, "%s, not %s" % (tags, want)):
            ctx.check("every column", list(t.colnames) == names)
            for k in names:
                for a, i in zip(list(t[k]), want):
                    ctx.check_eq("cell " + k, c.unwrap0(a), cells[k][int(i)])
        o = ctx.call(pc.unique_grid_values, key)
        if ctx.check_call("unique_grid_values", o):
            u = ctx.flat(o.value)
            ctx.observe("unique", o.value)
            for i in range(len(u) - 1):
                ctx.check("increasing", u[i] < u[i + 1])
            for i, x in enumerate(u):
                ctx.check("value %d is in the grid" % i, ctx.Or(*[x == w for w in v]))
            for i, w in enumerate(v):
                ctx.check("the value of row %d is listed" % i, ctx.Or(*[x == w for x in u]))
        ctx.check("the grid's columns", list(pc.grid_keys) == names)
        ctx.check("the grid is left as it was", len(grid) == m and [float(c.unwrap0(x)) for x in grid["tag"]] == cells["tag"])

    def do_files(self, ctx, cfg):
        log, PC = self.log, ctx.impl.correction.PetrosianCorrection
        v = ctx.reals("v", 2, 0, 4)
        names = ["p02", "u_r_50", "u_c2080", "n"]
        grid = self.T(rows=[[20.0, 8.0, 2.5, v[0]], [26.0, 12.0, 3.25, v[1]]], names=names)
        log.files["grid.yaml"] = grid
        a, kw = ["grid.yaml"], {}
        if cfg["fmt"] and cfg["how"] == "pos":
            a.append(cfg["fmt"])
        elif cfg["fmt"]:
            kw["file_format"] = cfg["fmt"]
        o = ctx.call(PC.read, *a, **kw)
        if not ctx.check_call("reading", o):
            return
        pc = o.value
        ctx.check("a correction with the grid of the file", type(pc) is PC and pc.grid is grid)
        ctx.check("read once in the format given", len(log) == 1 and log[0][0] == "read" and log[0][1][0] == "grid.yaml" and (log[0][2].get("format") or None) == cfg["fmt"])
        a[0] = "copy.yaml"
        o = ctx.call(pc.write, *a, **kw)
        if ctx.check_call("writing", o):
            ctx.check("the grid is written", log.files.get("copy.yaml") is grid and (log[-1][3].get("format") or None) == cfg["fmt"])
        o = ctx.call(pc.write, "/bad/x.yaml")
        ctx.check("a failed write is reported", not o.ok)
