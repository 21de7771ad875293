"""Runs a property harness symbolically on the encoded sources and concretely on the real package."""
import functools
import importlib
import json
import math
import os
import random
import re
import sys
import time
import traceback
import warnings
from fractions import Fraction

import numpy as np
import z3

from . import core as c, arr, loader, evalf
from .core import Engine, Sym, SymB, Unsupported, Inconclusive, PathDead, Budget, is_sym, is_nan, is_special, unwrap0
from .arr import SymArray, mk, nd, LazyIdx

PROPS = {}


def prop(cls):
    PROPS[cls.id] = cls()
    return cls


class Skip(BaseException):
    """assumption violated in a concrete run"""


class Outcome:
    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None

    def __repr__(self):
        return "Outcome(%r)" % (self.exc if self.exc is not None else self.value,)


class Found(BaseException):
    """a confirmed violation ends the run of this configuration"""


def tofrac(v):
    """z3 model value -> Fraction / int / bool"""
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return v.as_fraction()
    if z3.is_algebraic_value(v):
        return v.approx(30).as_fraction()
    return None


class Base:
    sym = False

    # ---- values shared by both modes (dispatch on content)
    def And(self, *xs):
        return c.band(*xs)

    def Or(self, *xs):
        return c.bor(*xs)

    def Not(self, x):
        return c.bnot(x)

    def Implies(self, a, b):
        return c.implies(a, b)

    def ite(self, cond, a, b):
        return c.ite(cond, a, b)

    def sqrt(self, x):
        return c.sqrt(x)

    def log10(self, x):
        from . import uf
        return uf.apply("log10", x)

    def apply(self, name, *a):
        from . import uf
        return uf.apply(name, *a)

    def abs(self, x):
        return c.absv(x)

    def max(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = c.maxv(r, x)
        return r

    def min(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = c.minv(r, x)
        return r

    def sum(self, xs):
        return arr.sum_list(list(xs))

    def div(self, a, b):
        return c.div(a, b)

    def isnan(self, x):
        return is_nan(unwrap0(x))

    def reals(self, name, n, lo=-64, hi=64):
        return [self.real("%s%d" % (name, i), lo, hi) for i in range(n)]

    def flat(self, x):
        """array-like result -> flat list of elements"""
        if isinstance(x, LazyIdx):
            x = x._mat()
        if isinstance(x, SymArray):
            return list(nd(x).reshape(-1))
        if isinstance(x, np.ndarray):
            return list(x.reshape(-1))
        if isinstance(x, (list, tuple)):
            return [unwrap0(v) for v in x]
        return [unwrap0(x)]

    def shape(self, x):
        return tuple(np.shape(nd(x))) if isinstance(x, np.ndarray) else np.shape(x) if not isinstance(x, (list, tuple)) else (len(x),)

    def call(self, f, *a, **k):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return Outcome(f(*a, **k))
        except Exception as e:
            return Outcome(exc=e)

    def check_eq_arr(self, label, got, want, tol=None):
        g, w = self.flat(got), self.flat(want)
        if not self.check(label + ": size", len(g) == len(w)):
            return
        for i, (x, y) in enumerate(zip(g, w)):
            self.check_eq("%s[%d]" % (label, i), x, y, tol)

    def check_call(self, label, out):
        """the call must not raise"""
        return self.check(label + " does not raise", out.ok, repr(out.exc) if out.exc is not None else "")

    def numeric(self, x):
        x = unwrap0(x)
        return is_sym(x) or isinstance(x, c.NUM)


def once(f):
    """A check already made at the same point of an earlier path (same decisions taken so far,
    hence the same path condition) is not repeated when that point is replayed."""
    @functools.wraps(f)
    def g(self, *a, **k):
        e = self.eng
        if self.depth:
            return f(self, *a, **k)
        self.nth += 1
        key, pos, r = (self.nth, e.forks), e.pos, self.r.made.get((self.nth, e.forks))
        if r is not None and e.pos < len(e.prefix):
            return r
        self.depth = 1
        try:
            r = bool(f(self, *a, **k))
        finally:
            self.depth = 0
        if e.pos == pos:
            self.r.made[key] = r
        return r
    return g


class SymCtx(Base):
    sym = True

    def __init__(self, runner, eng):
        self.r = runner
        self.eng = eng
        self.inputs = {}   # name -> z3 var
        self.ranges = {}
        self.obs = []
        self.tol = runner.prop.tol
        self.nth = self.depth = 0

    # ---- inputs
    def real(self, name, lo=None, hi=None):
        v = z3.Real(name)
        self.inputs[name] = v
        self.ranges[name] = (-8 if lo is None else lo, 8 if hi is None else hi)
        if lo is not None:
            self.eng.add(v >= c.q(lo))
        if hi is not None:
            self.eng.add(v <= c.q(hi))
        return Sym(v)

    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        self.inputs[name] = v
        if lo is not None:
            self.eng.add(v >= lo)
        if hi is not None:
            self.eng.add(v <= hi)
        return Sym(v, "i")

    def bool(self, name):
        v = z3.Bool(name)
        self.inputs[name] = v
        return SymB(v)

    def choice(self, name, options):
        v = self.int(name, 0, len(options) - 1)
        return options[c.concretize_int(v, limit=max(64, len(options)))]

    def uf(self, name, lo=-8, hi=8, kind="f"):
        tab = {}

        def f(*args):
            key = tuple(round(float(a), 6) + 0.0 for a in args)
            if key not in tab:
                tab[key] = (self.real if kind == "f" else self.int)("%s(%s)" % (name, ",".join("%.6g" % k for k in key)), lo, hi)
            return tab[key]
        f.table = tab
        return f

    def array(self, x, kind="f"):
        return mk(x, kind)

    def concrete_array(self, x):
        return mk(x)

    def assume(self, cond):
        cond = unwrap0(cond)
        if is_sym(cond):
            self.eng.assume(c.tob(cond))
        elif not cond:
            raise PathDead()

    def observe(self, name, v):
        self.obs.append((name, v))

    # ---- verdicts
    @once
    def check(self, label, cond, detail=""):
        self.r.n_checks += 1
        cond = unwrap0(cond)
        if not is_sym(cond):
            if cond:
                return True
            return self.r.candidate(self, label, None, detail)
        e = z3.simplify(z3.Not(c.tob(cond)))
        if z3.is_false(e):
            self.r.n_rewrite += 1
            return True
        r, m = self.eng.refute(e)
        if r == z3.unsat:
            self.r.n_unsat += 1
            return True
        if r == z3.unknown:
            self.r.unknown(self, label, e)
            return True
        return self.r.candidate(self, label, e, detail, m)

    @once
    def check_eq(self, label, a, b, tol=None):
        a, b = unwrap0(a), unwrap0(b)
        if a is None or b is None:
            return self.check(label, a is b)
        if isinstance(a, (SymB, bool, np.bool_)) and isinstance(b, (SymB, bool, np.bool_)):
            return self.check(label, c.eq(a, b))
        a, b = c.num(c.norm(a)), c.num(c.norm(b))
        if not (c.ok(a) and c.ok(b)):
            return self.check(label, False, "non-numeric result %r" % (a,))
        if is_special(a) or is_special(b):
            same = (is_nan(a) and is_nan(b)) or (not is_nan(a) and not is_nan(b) and not is_sym(a) and not is_sym(b) and a == b)
            return self.check(label, same, "got %s want %s" % (a, b))
        tol = self.tol if tol is None else tol
        if not is_sym(a) and not is_sym(b):
            return self.check(label, abs(float(a) - float(b)) <= tol * max(1.0, abs(float(b))), "got %s want %s" % (a, b))
        self.r.n_checks += 1
        d = z3.simplify(c.zr(a) - c.zr(b), som=True)
        if z3.is_rational_value(d) and abs(d.as_fraction()) <= tol:
            self.r.n_rewrite += 1
            return True
        if evalf.rational_identity(c.zr(a), c.zr(b)):
            self.r.n_rewrite += 1
            return True
        r, m = self.eng.refute(d != 0)
        if r == z3.unsat:
            self.r.n_unsat += 1
            return True
        t = c.q(tol)
        sb = z3.If(c.zr(b) >= 0, c.zr(b), -c.zr(b))
        neg = z3.Or(d > t * (1 + sb), -d > t * (1 + sb))
        r, m = self.eng.refute(neg)
        if r == z3.unsat:
            self.r.n_unsat += 1
            return True
        if r == z3.unknown:
            self.r.unknown(self, label, neg)
            return True
        return self.r.candidate(self, label, neg, "", m, margin=(d, sb))

    @once
    def check_le(self, label, a, b, tol=None):
        a, b = unwrap0(a), unwrap0(b)
        if is_nan(a) or is_nan(b):
            return self.check(label, False, "NaN")
        if is_special(a) or is_special(b):
            return self.check(label, c.le(a, b))
        tol = self.tol if tol is None else tol
        if not is_sym(a) and not is_sym(b):
            return self.check(label, float(a) <= float(b) + tol * max(1.0, abs(float(b))))
        r = c.le(a, b)
        if r is True:
            self.r.n_checks += 1
            return True
        self.r.n_checks += 1
        d = z3.simplify(c.zr(a) - c.zr(b), som=True)
        if z3.is_rational_value(d) and d.as_fraction() <= tol:
            self.r.n_rewrite += 1
            return True
        rr, m = self.eng.refute(d > c.q(tol))
        if rr == z3.unsat:
            self.r.n_unsat += 1
            return True
        sb = c.zr(c.absv(b))
        neg = c.zr(a) - c.zr(b) > c.q(tol) * (1 + sb)
        rr, m = self.eng.refute(neg)
        if rr == z3.unsat:
            self.r.n_unsat += 1
            return True
        if rr == z3.unknown:
            self.r.unknown(self, label, neg)
            return True
        return self.r.candidate(self, label, neg, "", m)


class ConcCtx(Base):
    sym = False

    def __init__(self, runner, values):
        self.r = runner
        self.values = values
        self.fails = []
        self.obs = []
        self.n = 0
        self.tol = max(runner.prop.tol, 1e-9)
        self.used = {}

    def _val(self, name, default):
        v = self.values.get(name, default)
        self.used[name] = v
        return v

    def call(self, f, *a, **k):
        out = Base.call(self, f, *a, **k)
        if out.exc is not None and stub_limit(out.exc, getattr(self, "over", None)):
            raise Skip("stand-in: %s" % out.exc)
        return out

    def real(self, name, lo=None, hi=None):
        d = 1.0 if lo is None else float(lo) if hi is None else (float(lo) + float(hi)) / 2
        return float(self._val(name, d))

    def int(self, name, lo=None, hi=None):
        return int(self._val(name, lo if lo is not None else 0))

    def bool(self, name):
        return bool(self._val(name, False))

    def choice(self, name, options):
        return options[int(self._val(name, 0))]

    def uf(self, name, lo=-8, hi=8, kind="f"):
        tab = {}

        def f(*args):
            key = tuple(round(float(a), 6) + 0.0 for a in args)
            if key not in tab:
                nm = "%s(%s)" % (name, ",".join("%.6g" % k for k in key))
                rnd = random.Random(nm)
                v = self._val(nm, lo + (hi - lo) * rnd.random())
                tab[key] = float(v) if kind == "f" else int(v)
            return tab[key]
        f.table = tab
        return f

    def array(self, x, kind="f"):
        def un(v):
            if isinstance(v, (list, tuple)):
                return [un(u) for u in v]
            return v
        return np.array(un(x), dtype=arr.REALDT[kind])

    def concrete_array(self, x):
        return np.array(x)

    def assume(self, cond):
        if not bool(cond):
            raise Skip()

    def observe(self, name, v):
        self.obs.append((name, v))

    def check(self, label, cond, detail=""):
        self.n += 1
        if not bool(cond):
            self.fails.append((label, detail))
            return False
        return True

    def check_eq(self, label, a, b, tol=None):
        a, b = unwrap0(a), unwrap0(b)
        if a is None or b is None:
            return self.check(label, a is b)
        if not isinstance(a, c.NUM) or not isinstance(b, c.NUM):
            return self.check(label, False, "non-numeric result %r" % (a,))
        a, b = float(a), float(b)
        tol = self.tol if tol is None else max(tol, 1e-12)
        if math.isnan(a) or math.isnan(b):
            return self.check(label, math.isnan(a) and math.isnan(b), "got %r want %r" % (a, b))
        if math.isinf(a) or math.isinf(b):
            return self.check(label, a == b, "got %r want %r" % (a, b))
        return self.check(label, abs(a - b) <= tol * (1 + abs(b)), "got %r want %r" % (a, b))

    def check_le(self, label, a, b, tol=None):
        a, b = float(unwrap0(a)), float(unwrap0(b))
        tol = self.tol if tol is None else tol
        return self.check(label, a <= b + tol * (1 + abs(b)), "%r <= %r" % (a, b))


class Prop:
    id = None
    tol = 1e-7
    bounds = ""
    outside = ""
    functions = ()
    max_paths = 20000
    timeout_ms = 4000
    py_div = False

    def split_index(self, cfg):
        """fork on symbolic array indices instead of building if-then-else values"""
        return False

    validate = 25          # traces validated per configuration
    compare_obs = True
    strict = True          # a result the harness cannot use on the real code either is a violation

    def configs(self, tier):
        return [{}]

    def over(self, ctx, cfg):
        return {}

    def run(self, ctx, cfg):
        raise NotImplementedError


class Runner:
    """One property, one configuration."""

    def __init__(self, prop_, cfg, tier="quick", seconds=120, known=(), seed=1):
        self.prop, self.cfg, self.tier, self.known, self.seed = prop_, cfg, tier, known, seed
        self.n_checks = self.n_unsat = self.n_rewrite = 0
        self.unknowns = []
        self.spurious = []
        self.violations = []
        self.undecided = []
        self.made = {}
        self.known_hits = []
        self.validated = self.mismatch = self.skipped = self.ties = 0
        self.mismatch_info = []
        self.samples = []
        self.funcs = set()
        self.deadline = time.time() + seconds
        self.eng = None

    # ---- symbolic exploration
    def explore(self):
        res = dict(config=self.cfg, complete=True, error=None)
        t0 = time.time()
        eng = self.eng = Engine(timeout_ms=self.prop.timeout_ms, max_paths=self.prop.max_paths, deadline=self.deadline, seed=self.seed)
        eng.py_div, eng.split_index = self.prop.py_div, self.prop.split_index(self.cfg)

        def fn():
            ctx = self.ctx = SymCtx(self, eng)
            eng.py_div, eng.split_index = self.prop.py_div, self.prop.split_index(self.cfg)
            over = self.prop.over(ctx, self.cfg)
            ctx.impl = loader.Impl(over)
            prof = eng.paths < 3
            if prof:
                sys.setprofile(self._prof)
            try:
                with np.errstate(all="ignore"), warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    try:
                        self.prop.run(ctx, self.cfg)
                    except (Unsupported, Inconclusive, Exception) as e:
                        sys.setprofile(None)
                        self._undecided(ctx, e)
                    self._path_end(ctx)
            finally:
                if prof:
                    sys.setprofile(None)

        try:
            eng.explore(fn, lambda: None)
        except Found:
            pass
        except Budget as e:
            res["complete"] = False
            res["error"] = "budget: %s" % e
        except (Unsupported, Inconclusive) as e:
            res["complete"] = False
            res["error"] = "%s: %s" % (type(e).__name__, e)
            res["trace"] = traceback.format_exc(limit=-6)
        except Exception as e:
            res["complete"] = False
            res["error"] = "harness error %s: %s" % (type(e).__name__, e)
            res["trace"] = traceback.format_exc(limit=-8)
        finally:
            Engine.cur = None
            sys.setprofile(None)
        if self.undecided:
            res["complete"] = False
        res.update(paths=eng.paths, dead=eng.dead, transitions=eng.transitions, queries=eng.queries, solver_time=eng.solver_time,
                   unknown_decides=eng.unknown_decides, checks=self.n_checks, unsat=self.n_unsat, rewrite=self.n_rewrite, unknown=self.unknowns[:5],
                   n_unknown=len(self.unknowns), spurious=self.spurious[:5], violations=self.violations, known=self.known_hits,
                   validated=self.validated, mismatch=self.mismatch, mismatch_info=self.mismatch_info[:3], skipped=self.skipped + self.ties,
                   samples=self.samples[:2], undecided=self.undecided[:3], n_undecided=len(self.undecided), funcs=sorted(self.funcs), wall=time.time() - t0)
        return res

    def _undecided(self, ctx, e):
        """the encoding gave up on this path: try its inputs on the real code, note it, go on with the next path"""
        self.undecided.append(dict(error="%s: %s" % (type(e).__name__, str(e)[:300]), trace=traceback.format_exc(limit=-6)))
        eng = self.eng
        m = eng.model
        if m is None:
            r, m = eng._check()
            if r == z3.unsat:
                self.undecided.pop()
                raise PathDead()
        if m is not None:
            m, vals = self._polish(ctx, m, None)
            for vv in [vals] + list(self._variants(ctx, None, m)):
                rep = self.concrete(vv)
                if rep["fails"] and not rep["skip"]:
                    self._confirm(ctx, rep["fails"][0][0], vv, rep, "on a path the encoding could not finish")
                if isinstance(e, Exception) and rep.get("unusable") and rep.get("error_type") == type(e).__name__:
                    rep = dict(rep, fails=[rep["unusable"]])
                    self._confirm(ctx, rep["fails"][0][0], vv, rep, "on a path the encoding could not finish")
        if len(self.undecided) >= 12:
            raise e
        raise PathDead()

    def _prof(self, frame, event, arg):
        if event == "call":
            co = frame.f_code
            if co.co_filename.startswith(loader.REPO + "/petrofit"):
                self.funcs.add("%s:%s" % (os.path.relpath(co.co_filename, loader.REPO), co.co_qualname))

    def _path_end(self, ctx):
        if not self._want_validation():
            return
        eng = self.eng
        if eng.model is None:
            r, m = eng._check()
            if r == z3.unsat:
                raise PathDead()
            if r == z3.unknown:
                self.skipped += 1
                return
            eng.model = m
        m, vals = self._spread(ctx, eng.model)
        rep = self.concrete(vals)
        if rep["skip"]:
            m, vals = self._polish(ctx, eng.model, None)
            rep = self.concrete(vals)
        if rep["skip"]:
            # decimal rounding left the assumed region
            self.skipped += 1
            return
        if rep["fails"]:
            # the real code breaks the property although the encoding did not: require a second, different input
            for vv in self._variants(ctx, None, m):
                r2 = self.concrete(vv)
                if r2["fails"] and not r2["skip"]:
                    self._confirm(ctx, r2["fails"][0][0], vv, r2, "during trace validation")
                    return
            self.mismatch += 1
            self.mismatch_info.append(dict(inputs=_show(vals), fails=rep["fails"][:2]))
            return
        bad = None
        if self.prop.compare_obs:
            m = _Eval(m, {k: (float(v) if isinstance(v, Fraction) else v) for k, v in vals.items()}, eng.defs)
            if eng.defs and not m.holds(eng.pc):
                # the path relies on function values the true functions do not take there
                self.skipped += 1
                return
            for (n1, v1), (n2, v2) in zip(ctx.obs, rep["obs"]):
                d = _differs(m, v1, v2)
                if d:
                    bad = (n1, d)
                    break
        if bad:
            # floating-point ties can flip a decision: a real encoding error shows on other inputs of the path too
            for vv in self._variants(ctx, None, eng.model if eng.model is not None else m.m):
                rep2 = self.concrete(vv)
                if rep2["skip"] or rep2["fails"]:
                    continue
                ev = _Eval(None, {k: (float(v) if isinstance(v, Fraction) else v) for k, v in vv.items()}, eng.defs)
                if not any(_differs(ev, v1, v2) for (n1, v1), (n2, v2) in zip(ctx.obs, rep2["obs"])):
                    bad = None
                    vals = vv
                    break
        if bad and self._is_tie(ctx, m, vals):
            # only this exact input takes the path in exact arithmetic; its neighbours agree
            self.ties += 1
        elif bad:
            self.mismatch += 1
            self.mismatch_info.append(dict(inputs=_show(vals), obs=str(bad)[:300]))
        else:
            self.validated += 1
            if len(self.samples) < 2:
                self.samples.append(_show(vals))

    def _is_tie(self, ctx, m, vals):
        """does the encoding agree with the real code within rounding distance of the input?"""
        names = [k for k, v in vals.items() if isinstance(v, (Fraction, float)) and not isinstance(v, bool)]
        moves = [{k: s} for k in names[:6] for s in (1, -1)] + [{k: (1 if (i >> j) & 1 else -1) for j, k in enumerate(names[:6])} for i in range(8)]
        for mv in moves:
            vv = dict(vals)
            for k, sg in mv.items():
                vv[k] = vals[k] + type(vals[k])(sg) * (Fraction(1, 10 ** 9) if isinstance(vals[k], Fraction) else 1e-9)
            rep = self.concrete(vv)
            if rep["skip"] or rep["fails"]:
                continue
            ev = _Eval(None, {k: (float(v) if isinstance(v, Fraction) else v) for k, v in vv.items()}, self.eng.defs)
            if not any(_differs(m, v1, v2) and _differs(ev, v1, v2) for (n1, v1), (n2, v2) in zip(ctx.obs, rep["obs"])):
                return True
        return False

    def _want_validation(self):
        lim = self.prop.validate if self.tier == "quick" else self.prop.validate * 4
        n = self.eng.paths
        if self.validated + self.mismatch + self.skipped >= lim:
            # keep sampling the tail of the exploration sparsely
            return False
        return n < lim // 2 or n % 7 == 0

    # ---- counterexamples
    def candidate(self, ctx, label, neg, detail, model=None, margin=None):
        eng = self.eng
        if model is None:
            r, model = eng._check(*([neg] if neg is not None else []))
            if r == z3.unsat:
                return True
            if r == z3.unknown:
                self.unknown(ctx, label, neg)
                return False
        tried = []
        m, vals = self._polish(ctx, model, neg)
        for k, vv in enumerate([vals] + list(self._variants(ctx, neg, m, margin))):
            if vv in tried:
                continue
            tried.append(vv)
            rep = self.concrete(vv)
            if rep["fails"] and not rep["skip"]:
                return self._confirm(ctx, label, vv, rep, detail)
        self.spurious.append(dict(label=label, detail=str(detail)[:200], inputs=_show(vals)))
        raise Inconclusive("counterexample for %r does not reproduce on the real code: %s %s" % (label, detail, _show(vals)))

    def _confirm(self, ctx, label, vals, rep, detail):
        fl = rep["fails"][0]
        for k in self.known:
            if k.get("property") == self.prop.id and all(self.cfg.get(a) == b for a, b in k.get("config", {}).items()) \
                    and fl[0].startswith(k.get("label", "\0")):
                if k["what"] not in self.known_hits:
                    self.known_hits.append(k["what"])
                raise PathDead()
        self.violations.append(dict(label=fl[0], detail=fl[1], symbolic_label=label, config=self.cfg, inputs=_json(vals)))
        raise Found()

    def unknown(self, ctx, label, neg):
        """solver gave up on a check: look for a concrete witness, otherwise record it"""
        self.unknowns.append(label)

    def _vals(self, ctx, m):
        out = {}
        for n, v in ctx.inputs.items():
            x = tofrac(m.eval(v, model_completion=True))
            if x is not None:
                out[n] = x
        return out

    def _spread(self, ctx, m):
        """a model of the path with generic (random, short) input values where the path leaves them free"""
        eng = self.eng
        rnd = random.Random("%s/%s/%s" % (self.seed, eng.paths, sorted(ctx.inputs)[:3]))
        want = []
        for n, v in ctx.inputs.items():
            if z3.is_real(v):
                lo, hi = ctx.ranges.get(n, (-8, 8))
                lo, hi = max(float(lo), -16), min(float(hi), 16)
                if hi > lo:
                    k = rnd.randint(0, int((hi - lo) * 32))
                    want.append(v == z3.Q(int(round(lo * 32)) + k, 32))
        rnd.shuffle(want)
        t0, got, step = time.time(), [], len(want)
        while want and time.time() - t0 < 2.5:
            r, m2 = eng._check(*(got + want[:step]), hard=False)
            if r == z3.sat:
                got, want, m = got + want[:step], want[step:], m2
                step = min(step, len(want))
            elif step <= max(1, len(want) // 8):
                want = want[step:]
            else:
                step = max(1, step // 3)
        return self._polish(ctx, m, z3.And(*got) if got else None)

    def _polish(self, ctx, m, neg):
        """prefer short dyadic values so that the floats are exact"""
        eng = self.eng
        ex = [neg] if neg is not None else []
        vals = self._vals(ctx, m)
        if all(_dyadic(v) for v in vals.values()):
            return m, vals
        t0 = time.time()
        for bits in (2, 6, 12, 24):
            cons = []
            for n, v in vals.items():
                if isinstance(v, Fraction):
                    cons.append(ctx.inputs[n] == z3.Q(round(v * 2 ** bits), 2 ** bits))
            r, m2 = eng._check(*(ex + cons), hard=False) if time.time() - t0 < 6 else (z3.unknown, None)
            if r == z3.sat:
                return m2, self._vals(ctx, m2)
        # one variable at a time
        cons = []
        for n, v in vals.items():
            if not isinstance(v, Fraction) or time.time() - t0 > 12:
                continue
            cur = tofrac(m.eval(ctx.inputs[n], model_completion=True))
            for bits in (3, 10, 20):
                g = ctx.inputs[n] == z3.Q(round(cur * 2 ** bits), 2 ** bits)
                r, m2 = eng._check(*(ex + cons + [g]), hard=False)
                if r == z3.sat:
                    cons.append(g)
                    m = m2
                    break
        return m, self._vals(ctx, m)

    def _variants(self, ctx, neg, m, margin=None):
        eng = self.eng
        ex = [neg] if neg is not None else []
        if margin is not None:
            d, sb = margin
            for k in (10000, 1000, 100):
                t = z3.Q(k, 100000)
                r, m2 = eng._check(*(ex + [z3.Or(d > t * (1 + sb), -d > t * (1 + sb))]))
                if r == z3.sat:
                    m2, v = self._polish(ctx, m2, z3.And(*(ex + [z3.Or(d > t * (1 + sb), -d > t * (1 + sb))])))
                    yield v
                    break
        reals = [(n, v) for n, v in ctx.inputs.items() if z3.is_real(v)]
        rnd = random.Random(self.seed)
        cur = m
        for k in range(4):
            if not reals:
                return
            cons = []
            for n, v in rnd.sample(reals, min(len(reals), 3)):
                x = tofrac(cur.eval(v, model_completion=True))
                step = z3.Q(rnd.randint(1, 64), 64)
                cons.append(z3.Or(v > z3.Q(x.numerator, x.denominator) + step, v < z3.Q(x.numerator, x.denominator) - step))
            r, m2 = eng._check(*(ex + cons))
            if r != z3.sat:
                r, m2 = eng._check(*(ex + cons[:1]))
            if r == z3.sat:
                m2, v = self._polish(ctx, m2, z3.And(*(ex + cons[:1])) if ex else cons[0])
                cur = m2
                yield v

    # ---- the real code
    def concrete(self, vals):
        save = Engine.cur
        Engine.cur = None
        prof = sys.getprofile()
        sys.setprofile(None)
        try:
            return run_concrete(self, vals)
        finally:
            Engine.cur = save
            sys.setprofile(prof)


class _Patched:
    def __init__(self, over):
        self.over, self.undo = over, []

    def __enter__(self):
        for full, obj in self.over.items():
            mod, attr = full.rsplit(".", 1)
            lib = importlib.import_module(mod)
            old = getattr(lib, attr)
            self.undo.append((lib, attr, old))
            setattr(lib, attr, obj)
            for n, pm in list(sys.modules.items()):
                if n.startswith("petrofit") and pm is not None:
                    for k, v in list(vars(pm).items()):
                        if v is old:
                            self.undo.append((pm, k, old))
                            setattr(pm, k, obj)
        return self

    def __exit__(self, *a):
        for o, k, v in reversed(self.undo):
            setattr(o, k, v)


def _stubs(over):
    """name -> (stub, real object) of the stand-ins in use, their methods included"""
    out = {}
    for full, obj in (over or {}).items():
        mod, attr = full.rsplit(".", 1)
        try:
            real = getattr(importlib.import_module(mod), attr, None)
        except Exception:
            real = None
        out[getattr(obj, "__qualname__", type(obj).__qualname__)] = (obj, real)
    return out


def stub_limit(e, over):
    """the exception comes from a stand-in of the harness that lacks something the real library object has"""
    def ours(cls):
        return str(getattr(cls, "__module__", "")).split(".")[0] in ("props", "symx", "stubs")
    if isinstance(e, AttributeError) and getattr(e, "obj", None) is not None:
        cls = e.obj if isinstance(e.obj, type) else type(e.obj)
        if not ours(cls):
            return False
        real = getattr(cls, "real", None) or _REAL.get(cls.__name__)
        return real is None or hasattr(real(), e.name)
    if isinstance(e, TypeError):
        m = re.match(r"([\w.<>]+)\(\) (?:got|missing|takes)", str(e))
        if m:
            head = m.group(1).replace("<locals>", "").split(".")
            names = {q for q in _stubs(over)}
            return any(q == m.group(1) or q.split(".")[-1] in head for q in names if ours(_stubs(over)[q][0]) or not isinstance(_stubs(over)[q][0], type))
        m = re.match(r"'(\w+)' object (?:is not (?:iterable|subscriptable|callable)|does not support)", str(e))
        if m:
            if m.group(1) in _REAL:
                return False
            return any(m.group(1) == q.split(".")[-1] for q in _stubs(over))
    return False


def _real_class(mod, name):
    return lambda: getattr(importlib.import_module(mod), name)


# stand-ins for image objects: what these lack the real ones lack too, unless the real class has it
_REAL = {"CCD": _real_class("astropy.nddata", "CCDData"), "Cutout": _real_class("astropy.nddata", "Cutout2D"), "_Holder": _real_class("astropy.nddata", "Cutout2D"),
         "_Segm": _real_class("photutils.segmentation", "SegmentationImage"), "Segmentation": _real_class("photutils.segmentation", "SegmentationImage")}


def run_concrete(runner, vals):
    impl = loader.RealImpl()
    ctx = ConcCtx(runner, vals)
    ctx.impl = impl
    skip = False
    over = ctx.over = runner.prop.over(ctx, runner.cfg)
    with _Patched(over), np.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            runner.prop.run(ctx, runner.cfg)
        except Skip:
            skip = True
        except Exception as e:
            if not ctx.fails:
                return dict(fails=[], skip=True, obs=ctx.obs, n=ctx.n, error=traceback.format_exc(), error_type=type(e).__name__,
                            unusable=("the result is of the documented kind", "%s: %s" % (type(e).__name__, str(e)[:200])) if runner.prop.strict and not stub_limit(e, over) else None)
    return dict(fails=ctx.fails, skip=skip and not ctx.fails, obs=ctx.obs, n=ctx.n)


def _dyadic(v):
    return not isinstance(v, Fraction) or (v.denominator & (v.denominator - 1) == 0 and v.denominator <= 2 ** 24)


def _show(vals):
    return {k: (float(v) if isinstance(v, Fraction) else v) for k, v in list(vals.items())[:40]}


def _json(vals):
    return {k: (float(v) if isinstance(v, Fraction) else v) for k, v in vals.items()}


class _Eval:
    """values of terms under the concrete inputs, with the true functions in place of the solver's interpretation"""

    def __init__(self, m, vals, defs):
        self.m, self.f, self.defs = m, evalf.evaluator(vals, defs), defs

    def holds(self, pc):
        for g in pc:
            try:
                if not self.f(g):
                    return False
            except (evalf.NoValue, RecursionError):
                continue
        return True

    def value(self, e):
        try:
            return self.f(e)
        except (evalf.NoValue, RecursionError):
            if self.defs or self.m is None:
                return None
            v = self.m.eval(e, model_completion=True)
            return tofrac(v)


def _mval(m, v):
    v = unwrap0(v)
    if isinstance(v, SymB):
        return m.value(v.e)
    if isinstance(v, Sym):
        x = m.value(v.e)
        return float(x) if x is not None else None
    return v


def _differs(m, a, b):
    """symbolic observation a (under model m) against concrete b"""
    if isinstance(a, Outcome) or isinstance(b, Outcome):
        if not (isinstance(a, Outcome) and isinstance(b, Outcome)):
            return "outcome kind"
        if a.ok != b.ok:
            return "symbolic %r concrete %r" % (a.exc, b.exc)
        if not a.ok:
            return None if type(a.exc).__name__ == type(b.exc).__name__ or True else "exception"
        return _differs(m, a.value, b.value)
    if isinstance(a, LazyIdx):
        a = a._mat()
    if isinstance(a, (list, tuple, np.ndarray)) and not (isinstance(a, np.ndarray) and a.ndim == 0):
        fa = list(nd(a).reshape(-1)) if isinstance(a, np.ndarray) else list(a)
        if not isinstance(b, (list, tuple, np.ndarray)):
            return "shape"
        fb = list(b.reshape(-1)) if isinstance(b, np.ndarray) else list(b)
        if len(fa) != len(fb):
            return "size %d vs %d" % (len(fa), len(fb))
        for i, (x, y) in enumerate(zip(fa, fb)):
            d = _differs(m, x, y)
            if d:
                return "[%d] %s" % (i, d)
        return None
    va, vb = _mval(m, a), unwrap0(b)
    if va is None or vb is None:
        return None if va is vb or is_sym(unwrap0(a)) else "%r vs %r" % (a, b)
    if isinstance(va, c.NUM) and isinstance(vb, c.NUM):
        va, vb = float(va), float(vb)
        if math.isnan(va) or math.isnan(vb):
            return None if math.isnan(va) and math.isnan(vb) else "%r vs %r" % (va, vb)
        if abs(va - vb) <= 1e-6 * (1 + abs(vb)) or va == vb:
            return None
        return "%r vs %r" % (va, vb)
    return None
