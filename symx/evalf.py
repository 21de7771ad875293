"""Floating-point evaluation of path terms with the true functions, finite-value analysis and rational normal forms."""
import math
from fractions import Fraction

import z3

K = z3


class NoValue(Exception):
    pass


def evaluator(env, defs):
    """float value of z3 terms; fresh function variables are computed from their definitions"""
    memo = {}

    def val(e):
        i = e.get_id()
        if i in memo:
            return memo[i][1]
        v = ev(e)
        memo[i] = (e, v)
        return v

    def ev(e):
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if z3.is_int_value(e):
            return e.as_long()
        if z3.is_rational_value(e):
            return float(e.as_fraction())
        if z3.is_algebraic_value(e):
            return float(e.approx(20).as_fraction())
        k = e.decl().kind()
        if k == z3.Z3_OP_UNINTERPRETED:
            n = e.decl().name()
            if n in defs:
                f, args = defs[n]
                a = [float(val(x)) for x in args]
                try:
                    return FUN[f](*a)
                except (ValueError, OverflowError, ZeroDivisionError):
                    raise NoValue(n)
            if n in env:
                v = env[n]
                return v if isinstance(v, (bool, int)) else float(v)
            raise NoValue(n)
        ch = e.children()
        if k == z3.Z3_OP_ITE:
            return val(ch[1]) if val(ch[0]) else val(ch[2])
        if k == z3.Z3_OP_AND:
            return all(val(x) for x in ch)
        if k == z3.Z3_OP_OR:
            return any(val(x) for x in ch)
        if k == z3.Z3_OP_IMPLIES:
            return (not val(ch[0])) or val(ch[1])
        a = [val(x) for x in ch]
        if k == z3.Z3_OP_ADD:
            return math.fsum(a) if any(isinstance(x, float) for x in a) else sum(a)
        if k == z3.Z3_OP_MUL:
            r = a[0]
            for x in a[1:]:
                r = r * x
            return r
        if k == z3.Z3_OP_SUB:
            r = a[0]
            for x in a[1:]:
                r = r - x
            return r
        if k == z3.Z3_OP_UMINUS:
            return -a[0]
        if k == z3.Z3_OP_DIV:
            if a[1] == 0:
                raise NoValue("division by zero")
            return a[0] / a[1]
        if k == z3.Z3_OP_POWER:
            try:
                r = a[0] ** a[1]
            except (ZeroDivisionError, OverflowError):
                raise NoValue("power")
            if isinstance(r, complex):
                raise NoValue("power")
            return r
        if k == z3.Z3_OP_IDIV:
            return int(a[0] // a[1]) if a[1] > 0 else -int(a[0] // -a[1])
        if k == z3.Z3_OP_MOD:
            return a[0] % abs(a[1])
        if k == z3.Z3_OP_TO_REAL:
            return float(a[0])
        if k == z3.Z3_OP_TO_INT:
            return math.floor(a[0])
        if k == z3.Z3_OP_IS_INT:
            return float(a[0]).is_integer()
        if k == z3.Z3_OP_NOT:
            return not a[0]
        if k == z3.Z3_OP_XOR:
            return bool(a[0]) != bool(a[1])
        if k == z3.Z3_OP_LE:
            return a[0] <= a[1]
        if k == z3.Z3_OP_LT:
            return a[0] < a[1]
        if k == z3.Z3_OP_GE:
            return a[0] >= a[1]
        if k == z3.Z3_OP_GT:
            return a[0] > a[1]
        if k == z3.Z3_OP_EQ:
            if isinstance(a[0], bool):
                return a[0] == a[1]
            return abs(a[0] - a[1]) <= 1e-9 * (1 + abs(a[1]))
        if k == z3.Z3_OP_DISTINCT:
            return len(set(a)) == len(a)
        raise NoValue(str(e.decl()))
    return val


def _sp(name):
    def f(*a):
        import scipy.special as sp
        v = float(getattr(sp, name)(*a))
        if not math.isfinite(v):
            raise NoValue(name)
        return v
    return f


FUN = dict(sqrt=math.sqrt, ln=math.log, exp=math.exp, sin=math.sin, cos=math.cos, gammainc=_sp("gammainc"), gammaincinv=_sp("gammaincinv"), gamma=_sp("gamma"),
           round=lambda x, n: float(round(x * 10 ** int(n))) / 10 ** int(n))


# ---- terms with finitely many constant values
def finite(e, limit=64, _memo=None):
    memo = {} if _memo is None else _memo
    i = e.get_id()
    if i in memo:
        return memo[i]
    r = _finite(e, limit, memo)
    memo[i] = r
    return r


def _finite(e, limit, memo):
    if z3.is_int_value(e):
        return {Fraction(e.as_long())}
    if z3.is_rational_value(e):
        return {e.as_fraction()}
    if not z3.is_app(e):
        return None
    k = e.decl().kind()
    ch = e.children()
    if k == z3.Z3_OP_ITE:
        a, b = finite(ch[1], limit, memo), finite(ch[2], limit, memo)
        if a is None or b is None or len(a | b) > limit:
            return None
        return a | b
    if k == z3.Z3_OP_TO_REAL:
        return finite(ch[0], limit, memo)
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_DIV, z3.Z3_OP_UMINUS):
        vs = [finite(x, limit, memo) for x in ch]
        if any(v is None for v in vs):
            return None
        if k == z3.Z3_OP_UMINUS:
            return {-x for x in vs[0]}
        acc = vs[0]
        for v in vs[1:]:
            if k == z3.Z3_OP_DIV and Fraction(0) in v:
                return None
            acc = {(x + y if k == z3.Z3_OP_ADD else x * y if k == z3.Z3_OP_MUL else x - y if k == z3.Z3_OP_SUB else x / y) for x in acc for y in v}
            if len(acc) > limit:
                return None
        return acc
    return None


# ---- rational normal form
def ratform(e, _memo=None):
    """(numerator, denominator) without divisions by terms; ites and functions are atoms"""
    memo = {} if _memo is None else _memo
    i = e.get_id()
    if i in memo:
        return memo[i][1]
    r = _ratform(e, memo)
    memo[i] = (e, r)
    return r


ONE = z3.RealVal(1)


def _ratform(e, memo):
    if not z3.is_app(e):
        return e, ONE
    k, ch = e.decl().kind(), e.children()
    if k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
        n, d = ratform(ch[0], memo)
        for x in ch[1:]:
            n2, d2 = ratform(x, memo)
            if k == z3.Z3_OP_SUB:
                n2 = -n2
            if d.eq(d2):
                n = n + n2
            else:
                n, d = n * d2 + n2 * d, (d2 if d.eq(ONE) else d if d2.eq(ONE) else d * d2)
        return n, d
    if k == z3.Z3_OP_MUL:
        n, d = ONE, ONE
        for x in ch:
            n2, d2 = ratform(x, memo)
            n = n2 if n.eq(ONE) else n * n2
            d = d2 if d.eq(ONE) else d if d2.eq(ONE) else d * d2
        return n, d
    if k == z3.Z3_OP_UMINUS:
        n, d = ratform(ch[0], memo)
        return -n, d
    if k == z3.Z3_OP_DIV:
        n1, d1 = ratform(ch[0], memo)
        n2, d2 = ratform(ch[1], memo)
        return (n1 if d2.eq(ONE) else n1 * d2), (n2 if d1.eq(ONE) else d1 * n2)
    if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]):
        f = ch[1].as_fraction()
        if f.denominator == 1 and 0 < abs(f) <= 8:
            n, d = ratform(ch[0], memo)
            if f < 0:
                n, d = d, n
            a = abs(int(f))
            rn, rd = n, d
            for _ in range(a - 1):
                rn, rd = rn * n, (rd if rd.eq(ONE) else rd * d)
            return rn, rd
    return e, ONE


def size_ok(e, limit=400):
    seen, stack = set(), [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if len(seen) > limit:
            return False
        stack += x.children()
    return True


def rational_identity(a, b):
    """True when a == b follows from expanding both as rational functions (denominators are non-zero on the path)"""
    if not (size_ok(a) and size_ok(b)):
        return False
    n, d = ratform(z3.simplify(a) - z3.simplify(b))
    if not size_ok(n, 1500):
        return False
    r = z3.simplify(n, som=True, som_blowup=20000)
    return z3.is_rational_value(r) and r.as_fraction() == 0


# ---- reduced rational functions, through sympy
def size(e):
    """nodes of the term written out as a tree"""
    memo = {}

    def go(x):
        i = x.get_id()
        if i not in memo:
            memo[i] = 1 + sum(go(y) for y in x.children())
        return memo[i]
    return go(e)


def has_div(e):
    seen, stack = set(), [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if not z3.is_app(x):
            continue
        k, ch = x.decl().kind(), x.children()
        if k == z3.Z3_OP_DIV and not z3.is_rational_value(ch[1]):
            return True
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_DIV, z3.Z3_OP_UMINUS, z3.Z3_OP_POWER):
            stack += ch
    return False


def snap(f):
    """the simple fraction that a rounded double stands for, if there is one"""
    if f.denominator <= 1000:
        return f
    g = f.limit_denominator(1000)
    return g if g != 0 and abs(f / g - 1) < Fraction(1, 10 ** 14) else f


def _sympy(e, atoms, memo):
    import sympy as sp
    i = e.get_id()
    if i in memo:
        return memo[i][1]

    def atom():
        if i not in atoms:
            atoms[i] = (sp.Symbol("v%d" % i), e)
        return atoms[i][0]
    if z3.is_int_value(e):
        r = sp.Integer(e.as_long())
    elif z3.is_rational_value(e):
        f = snap(e.as_fraction())
        r = sp.Rational(f.numerator, f.denominator)
    elif not z3.is_app(e):
        r = atom()
    else:
        k, ch = e.decl().kind(), e.children()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_DIV, z3.Z3_OP_UMINUS):
            vs = [_sympy(x, atoms, memo) for x in ch]
            r = vs[0]
            if k == z3.Z3_OP_UMINUS:
                r = -r
            for v in vs[1:]:
                r = r + v if k == z3.Z3_OP_ADD else r * v if k == z3.Z3_OP_MUL else r - v if k == z3.Z3_OP_SUB else r / v
        elif k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].as_fraction().denominator == 1 and abs(ch[1].as_fraction()) <= 12:
            r = _sympy(ch[0], atoms, memo) ** int(ch[1].as_fraction())
        else:
            r = atom()
    memo[i] = (e, r)
    return r


def _prod(ms, atoms):
    out = None
    for a, n in ms:
        for _ in range(n):
            out = atoms[a][1] if out is None else out * atoms[a][1]
    return ONE if out is None else out


def _poly(p, order, atoms):
    """sympy Poly -> [(Fraction, ((atom id, power), ...))]"""
    out = []
    for mon, co in p.terms():
        out.append((snap(Fraction(int(co.p), int(co.q))), tuple((a, int(n)) for a, n in zip(order, mon) if n)))
    return out


def _circle(atoms):
    """(sine, cosine) symbols of the same angle among the atoms"""
    from . import core
    if core.Engine.cur is None:
        return []
    out = []
    for (_, s, co) in core.Engine.cur.uf_apps.get("trig", ()):
        a, b = s.get_id(), co.get_id()
        if a in atoms and b in atoms:
            out.append((atoms[a][0], atoms[b][0]))
    return out


def circular(e):
    """e contains a known sine and cosine"""
    from . import core
    tab = core.Engine.cur.uf_apps.get("trig", ()) if core.Engine.cur is not None else ()
    if not tab:
        return False
    seen, stack = set(), [e]
    while stack:
        x = stack.pop()
        if x.get_id() not in seen:
            seen.add(x.get_id())
            stack += x.children()
    return any(s.get_id() in seen and co.get_id() in seen for (_, s, co) in tab)


def terms(e):
    """e as a reduced rational function: ([(coef, {atom: power})], None) when it is a sum of monomials (negative powers
    allowed), else (numerator terms, denominator terms); with the atoms' table.  None when it is too big"""
    import sympy as sp
    if not size_ok(e, 160):
        return None
    atoms, memo = {}, {}
    s = _sympy(e, atoms, memo)
    order = sorted(atoms)
    if not order:
        return None
    syms = [atoms[a][0] for a in order]
    try:
        n, d = sp.fraction(sp.cancel(s, *syms))
        rel = _circle(atoms)
        if rel:
            n, d = [sp.reduced(sp.expand(q), [x ** 2 + y ** 2 - 1 for x, y in rel], *syms, polys=False)[1] for q in (n, d)]
            n, d = sp.fraction(sp.cancel(n / d, *syms))
        num, den = _poly(sp.Poly(n, *syms, domain="QQ"), order, atoms), _poly(sp.Poly(d, *syms, domain="QQ"), order, atoms)
    except Exception:
        return None
    if len(den) == 1:
        c0, dm = den[0]
        out = []
        for co, m in num:
            p = dict(m)
            for a, k in dm:
                p[a] = p.get(a, 0) - k
            out.append((snap(co / c0), {a: k for a, k in p.items() if k}))
        return out, None, atoms
    return [(co, dict(m)) for co, m in num], [(co, dict(m)) for co, m in den], atoms


def mono(co, p, atoms):
    n = _prod([(a, k) for a, k in sorted(p.items()) if k > 0], atoms)
    d = _prod([(a, -k) for a, k in sorted(p.items()) if k < 0], atoms)
    r = n if d.eq(ONE) else n / d
    return z3.RealVal(str(co)) if not p else r if co == 1 else z3.RealVal(str(co)) * r


def reduced(e):
    """e with common factors cancelled"""
    if not has_div(e) and not circular(e):
        return e
    t = terms(e)
    if t is None:
        return e
    num, den, atoms = t
    sm = lambda ts: z3.simplify(z3.Sum(*[mono(co, p, atoms) for co, p in ts])) if len(ts) > 1 else mono(*ts[0], atoms) if ts else z3.RealVal(0)
    r = sm(num) if den is None else sm(num) / sm(den)
    return r if size(r) <= 2 * size(e) + 20 else e
