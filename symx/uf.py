"""Transcendental functions: fresh values constrained by axioms that hold for the true functions."""
import itertools
import math
from fractions import Fraction

import numpy as np
import z3

from . import core as c, evalf
from .core import Sym, E, Unsupported, is_sym, is_special, is_nan, nan

LN10 = math.log(10.0)
LN2 = math.log(2.0)


def apply(name, *args):
    args = [c.num(c.norm(a)) for a in args]
    if not any(is_sym(a) for a in args):
        import scipy.special as sp
        f = getattr(np, name, None) or getattr(sp, name)
        with np.errstate(all="ignore"):
            return np.float64(f(*[np.float64(a) for a in args]))
    if any(is_nan(a) for a in args):
        return np.float64(nan)
    vals = [_finite(a) for a in args]
    if all(v is not None for v in vals):
        n = 1
        for v in vals:
            n *= len(v)
        if n <= 48:
            return _cases(name, args, vals)
    return globals()["_" + name](*args)


def _finite(a):
    if not is_sym(a):
        return [None]
    v = evalf.finite(z3.simplify(a.zr()))
    return None if v is None else sorted(v)


def _cases(name, args, vals):
    """the arguments take finitely many constant values: evaluate the real function at each"""
    out, special = None, []
    for combo in itertools.product(*vals):
        conc = [np.float64(float(v)) if v is not None else np.float64(a) for v, a in zip(combo, args)]
        r = apply(name, *conc)
        cond = z3.And([z3.BoolVal(True)] + [a.zr() == z3.Q(v.numerator, v.denominator) for v, a in zip(combo, args) if v is not None])
        if is_special(r):
            special.append((cond, r))
        else:
            out = (cond, c.q(r), out)
    for cond, r in special:
        if E().decide(cond):
            return r
    if out is None:
        raise c.PathDead()
    e = out[1]
    out = out[2]
    while out is not None:
        e = z3.If(out[0], out[1], e)
        out = out[2]
    return Sym(e)


def _reg(name):
    return E().uf_apps.setdefault(name, [])


def _canon(e):
    return evalf.reduced(z3.simplify(e, som=True, mul_to_power=False))


# ---- natural log table: pairs (value v > 0, log t) with v = exp(t)
def _table():
    t = _reg("ln")
    if not t:
        t.append((z3.RealVal(1), z3.RealVal(0)))
    return t


def _owner(v, t):
    """the fresh constant whose first use makes the facts about v == exp(t) necessary"""
    for e, pre in ((v, ("exp!", "root!")), (t, ("ln!",))):
        if e.num_args() == 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name().startswith(pre):
            return e.decl().name()
    return None


def _facts(v, t, facts):
    eng = E()
    own = _owner(v, t)
    if own in eng.pending:
        eng.pending[own] += facts
    else:
        for f in facts:
            eng.add(f)


def _pair(v, t):
    """register v == exp(t), with axioms against everything already known"""
    eng = E()
    tab = _table()
    own = _owner(v, t)
    if own is not None and own not in eng.touched_names:
        eng.pending.setdefault(own, [])
    fs = [v > 0, t <= v - 1,       # ln v <= v - 1
          v * (1 - t) >= z3.If(t < 1, 0, v * (1 - t))]
    for (w, s) in tab:
        fs += [(v < w) == (t < s), (v == w) == (t == s)]
    for (w, s) in tab[1:]:
        fs.append((v * w == 1) == (t + s == 0))
    for (w, s) in _reg("lnconst"):
        fs += [(v < w) == (t < s), (v == w) == (t == s)]
    tab.append((v, t))
    _facts(v, t, fs)


def _const(f):
    """ln of a positive rational, to double precision; only order and equality relate it to the other logarithms"""
    t = c.q(math.log(float(f)))
    reg = _reg("lnconst")
    w = z3.RealVal(str(f))
    if not any(a.eq(w) for a, _ in reg):
        for (v, s) in _table()[1:]:
            _facts(v, s, [(v < w) == (s < t), (v == w) == (s == t)])
        reg.append((w, t))
    return t


def ln_expr(e):
    """z3 expr of ln(e), e implied positive"""
    e = evalf.reduced(z3.simplify(e))
    if z3.is_rational_value(e):
        f = e.as_fraction()
        if f == 1:
            return z3.RealVal(0)
        return _const(f)
    eng = E()
    # multiplicative structure
    if z3.is_mul(e) or (z3.is_div(e)) or (z3.is_app_of(e, z3.Z3_OP_POWER) and z3.is_rational_value(e.arg(1))):
        ch = e.children()
        if z3.is_mul(e):
            if all(_pos(x) for x in ch):
                return z3.Sum(*[ln_expr(x) for x in ch])
        elif z3.is_div(e):
            if _pos(ch[0]) and _pos(ch[1]):
                return ln_expr(ch[0]) - ln_expr(ch[1])
        else:
            if _pos(ch[0]):
                return e.arg(1) * ln_expr(ch[0])
    for (v, t) in _table():
        if v.eq(e):
            return t
    t = eng.fresh("ln")
    eng.defs[t.decl().name()] = ("ln", (e,))
    _pair(e, t)
    return t


def _pos(e):
    if z3.is_app(e) and _nonneg_quick(e):
        return True
    r, _ = E()._check(z3.Not(e > 0))
    return r == z3.unsat


def _nonneg_quick(e):
    """a function value that is positive by construction"""
    return e.num_args() == 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name().startswith(("exp!", "root!", "Gam!"))


def _log(x, k=None):
    if is_special(x):
        return np.float64(np.log(x)) if k is None else np.float64(np.log(x) / k)
    eng = E()
    if eng.decide(x.zr() < 0):
        return np.float64(nan)
    if eng.decide(x.zr() == 0):
        return np.float64(-np.inf)
    e = ln_expr(x.zr())
    return Sym(e if k is None else e * c._inv(k))


def _log10(x):
    return _log(x, LN10)


def _log2(x):
    return _log(x, LN2)


def _ipow(w, n):
    r = w
    for _ in range(n - 1):
        r = r * w
    return r


def _mono_exp(co, tail, e):
    """exp(co * tail), tail a product of powers of atoms; e is the whole monomial"""
    if not tail:
        return c.q(math.exp(float(co)))
    tab = E().uf_apps.setdefault("exps", {})
    known = tab.setdefault(tail, [])
    if not known:
        a = tail[0][0]
        if len(tail) == 1 and tail[0][1] == 1:
            known += [(Fraction(1), v) for (v, t) in _table() if t.get_id() == a]
    for c0, v in known:
        f = evalf.snap(co / c0)
        if abs(f.numerator) <= 12 and f.denominator == 1:
            w = _ipow(v, abs(f.numerator))
            return w if f > 0 else 1 / w
    for c0, v in known:
        f = evalf.snap(co / c0)
        if abs(f.numerator) <= 12 and f.denominator <= 8:
            r = z3.simplify(e / f.numerator)
            w = E().fresh("root")
            E().defs[w.decl().name()] = ("exp", (r,))
            E().lazily(w.decl().name(), [z3.And(w > 0, _ipow(w, f.denominator) == v)])
            _pair(w, r)
            known.append((co / f.numerator, w))
            w = _ipow(w, abs(f.numerator))
            return w if f > 0 else 1 / w
    if co < 0:
        return 1 / _mono_exp(-co, tail, z3.simplify(-e))
    v = E().fresh("exp")
    E().defs[v.decl().name()] = ("exp", (e,))
    known.append((co, v))
    _pair(v, e)
    return v


def _exp(x):
    if is_special(x):
        return np.float64(np.exp(x))
    e = z3.simplify(x.zr(), som=True, mul_to_power=False)
    if z3.is_rational_value(e):
        return np.float64(math.exp(float(e.as_fraction())))
    ts = evalf.terms(e)
    if ts is None or ts[1] is not None:
        return Sym(_whole_exp(e if ts is None else evalf.reduced(e)))
    num, _, atoms = ts
    E().uf_apps.setdefault("keep", []).append(atoms)
    r = None
    for co, p in sorted(num, key=lambda q: (sorted(q[1].items()), q[0])):
        m = _mono_exp(co, tuple(sorted(p.items())), z3.simplify(evalf.mono(co, p, atoms)))
        r = m if r is None else r * m
    return Sym(z3.RealVal(1) if r is None else r)


def _whole_exp(e):
    for (v, t) in _table():
        if t.eq(e) or evalf.rational_identity(t, e):
            return v
        if evalf.rational_identity(t, -e):
            return 1 / v
    v = E().fresh("exp")
    E().defs[v.decl().name()] = ("exp", (e,))
    _pair(v, e)
    return v


def _nonneg(e):
    """e >= 0 by its shape"""
    if z3.is_rational_value(e) or z3.is_int_value(e):
        return e.as_fraction() >= 0 if z3.is_rational_value(e) else e.as_long() >= 0
    if not z3.is_app(e):
        return False
    k, ch = e.decl().kind(), e.children()
    if k == z3.Z3_OP_UNINTERPRETED:
        return e.decl().name().startswith(("exp!", "root!", "sqrt!", "Gam!", "P!", "Pinv!")) or _pos(e)
    if k == z3.Z3_OP_ADD or k == z3.Z3_OP_DIV:
        return all(_nonneg(x) for x in ch)
    if k == z3.Z3_OP_MUL:
        odd = {}
        for x in ch:
            odd[x.get_id()] = None if odd.get(x.get_id()) is not None else x
        return all(_nonneg(x) for x in odd.values() if x is not None)
    if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].as_fraction().denominator == 1:
        return ch[1].as_fraction() % 2 == 0 or _nonneg(ch[0])
    if k == z3.Z3_OP_ITE and ch[0].decl().kind() == z3.Z3_OP_GE and ch[0].arg(0).eq(ch[1]):
        z, d = ch[0].arg(1), z3.simplify(ch[1] + ch[2], som=True)
        return z3.is_rational_value(z) and z.as_fraction() == 0 and z3.is_rational_value(d) and d.as_fraction() == 0
    return False


def _is_zero(e):
    """condition for a term that is non-negative by its shape to be 0"""
    if z3.is_app(e) and _nonneg(e):
        k, ch = e.decl().kind(), e.children()
        if k == z3.Z3_OP_ADD:
            return z3.And([_is_zero(x) for x in ch])
        if k == z3.Z3_OP_MUL:
            return z3.Or([_is_zero(x) for x in {x.get_id(): x for x in ch}.values()])
        if k == z3.Z3_OP_POWER and ch[1].as_fraction() > 0:
            return _is_zero(ch[0])
        if k == z3.Z3_OP_DIV:
            return _is_zero(ch[0])
        if k == z3.Z3_OP_ITE:
            return _is_zero(ch[1])
        if k == z3.Z3_OP_UNINTERPRETED and e.decl().name().startswith(("exp!", "root!", "Gam!")):
            return z3.BoolVal(False)
    return e == 0


def powr(a, b):
    """a ** b, symbolic exponent or non-trivial constant exponent"""
    if is_special(a) or is_special(b):
        if is_nan(a) or is_nan(b):
            return np.float64(nan)
        if is_special(b):
            # a ** (+-inf)
            m = c.absv(a)
            if bool(c.eq(m, 1)):
                return np.float64(1.0)
            big = bool(c.lt(1, m))
            return np.float64(np.inf) if big == (b > 0) else np.float64(0.0)
        if a > 0:
            if bool(c.eq(b, 0)):
                return np.float64(1.0)
            return np.float64(np.inf) if bool(c.lt(0, b)) else np.float64(0.0)
        raise Unsupported("(-inf) ** symbolic")
    eng = E()
    za = c.zr(a)
    shaped = _nonneg(za)
    if eng.decide(_is_zero(za)):
        if not is_sym(b):
            return np.float64(0.0) if b > 0 else np.float64(np.inf)
        if eng.decide(c.zr(b) == 0):
            return np.float64(1.0)
        return np.float64(0.0) if eng.decide(c.zr(b) > 0) else np.float64(np.inf)
    if not shaped and eng.decide(za < 0):
        if is_sym(b):
            if eng.decide(z3.IsInt(c.zr(b))):
                raise Unsupported("negative base, symbolic integer exponent")
            return np.float64(nan)
        if float(b) == int(b):
            m = powr(c.neg(a), b)
            return m if int(b) % 2 == 0 else c.neg(m)
        return np.float64(nan)
    return _exp(Sym(c.zr(b) * ln_expr(za)))


# ---- trigonometry
def _trig(x):
    tab = _reg("trig")
    e = _canon(x.zr())
    for (a, s, co) in tab:
        if a.eq(e):
            return s, co
    n = z3.simplify(-e, som=True)
    for (a, s, co) in tab:
        if a.eq(n):
            return -s, co
    eng = E()
    s, co = eng.fresh("sin"), eng.fresh("cos")
    eng.defs[s.decl().name()] = ("sin", (e,))
    eng.defs[co.decl().name()] = ("cos", (e,))
    eng.add(s * s + co * co == 1)
    eng.add(z3.And(s <= 1, s >= -1, co <= 1, co >= -1))
    eng.add(z3.Implies(e == 0, z3.And(s == 0, co == 1)))
    for (a, s2, c2) in tab:
        eng.add(z3.Implies(a == e, z3.And(s == s2, co == c2)))
    tab.append((e, s, co))
    return s, co


def _sin(x):
    return Sym(_trig(x)[0])


def _cos(x):
    return Sym(_trig(x)[1])


def _near(a, b):
    """equal up to rounding of concrete constants"""
    if a.eq(b):
        return True
    r = evalf.reduced(z3.simplify(a / b)) if not z3.is_rational_value(b) or b.as_fraction() != 0 else None
    if r is not None:
        r = z3.simplify(r)
        return z3.is_rational_value(r) and abs(r.as_fraction() - 1) < Fraction(1, 10 ** 13)
    return False


def _concrete(name, *es):
    es = [z3.simplify(e) for e in es]
    if all(z3.is_rational_value(e) or z3.is_int_value(e) for e in es):
        import scipy.special as sp
        return np.float64(getattr(sp, name)(*[float(e.as_fraction()) for e in es]))
    return None


# ---- incomplete gamma: triples (a, x, y) with y = P(a, x)
def _ginc(a, x, y):
    eng = E()
    tab = _reg("ginc")
    eng.add(z3.And(x >= 0, y >= 0, y < 1, (x == 0) == (y == 0)))
    for (b, x2, y2) in tab:
        eng.add(z3.Implies(a == b, z3.And((x < x2) == (y < y2), (x == x2) == (y == y2))))
    tab.append((a, x, y))


def _gammainc(a, x):
    eng = E()
    if is_special(x):
        return np.float64(1.0) if x > 0 else np.float64(nan)
    za, zx = _canon(c.zr(a)), _canon(c.zr(x))
    v = _concrete("gammainc", za, zx)
    if v is not None:
        return v
    if eng.decide(z3.Or(za <= 0, zx < 0)):
        return np.float64(nan)
    for (b, x2, y2) in _reg("ginc"):
        if _near(b, za) and _near(x2, zx):
            return Sym(y2)
    y = eng.fresh("P")
    eng.defs[y.decl().name()] = ("gammainc", (za, zx))
    _ginc(za, zx, y)
    return Sym(y)


def _gammaincinv(a, y):
    eng = E()
    za, zy = _canon(c.zr(a)), _canon(c.zr(y))
    v = _concrete("gammaincinv", za, zy)
    if v is not None:
        return v
    if eng.decide(z3.Or(za <= 0, zy < 0, zy > 1)):
        return np.float64(nan)
    if eng.decide(zy == 1):
        return np.float64(np.inf)
    for (b, x2, y2) in _reg("ginc"):
        if _near(b, za) and (_near(y2, zy) or evalf.rational_identity(y2, zy)):
            return Sym(x2)
    x = eng.fresh("Pinv")
    eng.defs[x.decl().name()] = ("gammaincinv", (za, zy))
    _ginc(za, x, zy)
    return Sym(x)


def _gamma(a):
    eng = E()
    za = _canon(c.zr(a))
    if eng.decide(za <= 0):
        raise Unsupported("gamma of a non-positive argument")
    tab = _reg("gamma")
    for (b, g) in tab:
        if b.eq(za):
            return Sym(g)
    g = eng.fresh("Gam")
    eng.defs[g.decl().name()] = ("gamma", (za,))
    eng.add(g > 0)
    eng.add(z3.Implies(z3.Or(za == 1, za == 2), g == 1))
    for (b, h) in tab:
        eng.add(z3.Implies(b == za, g == h))
        eng.add(z3.Implies(b == za + 1, h == za * g))
        eng.add(z3.Implies(za == b + 1, g == b * h))
    tab.append((za, g))
    return Sym(g)
