"""Symbolic values and path exploration (deciding engine: z3).

A symbolic value is a z3 term (Real or Int).  Everything else in an array is a
concrete python/numpy scalar; NaN and infinities are always concrete: an
operation that could produce one forks the path on the condition for it.
"""
import time
from fractions import Fraction

import numpy as np
import z3

z3.set_param("warning", False)
nan = float("nan")
inf = float("inf")


class Unsupported(BaseException):
    """The code did something the encoding cannot represent."""


class Inconclusive(BaseException):
    """The solver answered unknown."""


class PathDead(BaseException):
    """An assumption is infeasible on this path (or a path was closed)."""


class Budget(BaseException):
    """Path or time budget exhausted."""


# --------------------------------------------------------------------- helpers
_Q = {}


def q(x):
    """Concrete finite number -> z3 rational."""
    if type(x) is float or type(x) is int:
        r = _Q.get(x)
        if r is None:
            r = _Q[x] = _q(x)
        return r
    return _q(x)


def _q(x):
    f = Fraction(float(x)) if isinstance(x, (float, np.floating)) else Fraction(int(x)) \
        if isinstance(x, (int, np.integer)) else Fraction(x)
    return z3.Q(f.numerator, f.denominator)


def is_sym(x):
    return isinstance(x, (Sym, SymB))


def is_special(x):
    return (not is_sym(x)) and isinstance(x, (float, np.floating)) and not np.isfinite(x)


def is_nan(x):
    return (not is_sym(x)) and isinstance(x, (float, np.floating)) and np.isnan(x)


def unwrap0(x):
    """0-d arrays -> scalar."""
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return x.item() if x.dtype == object else x[()]
    return x


# ---------------------------------------------------------------------- engine
class Engine:
    cur = None

    def __init__(self, timeout_ms=8000, max_paths=20000, deadline=None, seed=1):
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.seed = seed
        self.queries = 0
        self.solver_time = 0.0
        self.paths = 0
        self.dead = 0
        self.transitions = 0
        self.unknown_decides = 0
        self.py_div = False
        self.split_index = False

    # ---- exploration
    def explore(self, fn, on_path):
        """Run fn() once per feasible path; on_path(result) at each end."""
        stack = [[]]
        while stack:
            prefix = stack.pop()
            if self.paths >= self.max_paths:
                raise Budget("more than %d paths" % self.max_paths)
            self._begin(prefix, stack)
            Engine.cur = self
            try:
                fn()
            except PathDead:
                self.dead += 1
                continue
            finally:
                self._end()
            self.paths += 1
            on_path()

    def _begin(self, prefix, stack):
        self.prefix = prefix
        self.pos = 0
        self.trail = []
        self.stack = stack
        self.pc = []
        self.solver = self._new_solver()
        self.model = None
        self.names = {}
        self.fresh_n = 0
        self.sqrt_cache = {}
        self.uf_apps = {}
        self.defs = {}
        self.keep = []
        self.pending = {}
        self.touched = {}
        self.touched_names = set()
        self.memo = {}
        self.forks = 0        # hash of the decisions taken so far that were not implied

    def _new_solver(self):
        s = z3.Solver()
        s.set("timeout", self.timeout_ms)
        s.set("random_seed", self.seed)
        return s

    def _end(self):
        pass

    def fresh(self, base, sort="r"):
        self.fresh_n += 1
        nm = "%s!%d" % (base, self.fresh_n)
        return z3.Real(nm) if sort == "r" else z3.Int(nm) if sort == "i" else z3.Bool(nm)

    # ---- solver access
    def _check(self, *extra, hard=True):
        """sat/unsat/unknown of pc + extra, and a model on sat"""
        if self.deadline and time.time() > self.deadline:
            raise Budget("time budget")
        for f in extra:
            self.touch(f)
        t = time.time()
        self.queries += 1
        r = self.solver.check(*extra)
        m = self.solver.model() if r == z3.sat else None
        self.solver_time += time.time() - t
        if r == z3.unknown and hard:
            r, m = self._hard(list(self.pc) + list(extra))
        return r, m

    def _hard(self, fs):
        for mk in (lambda: z3.Solver(), lambda: z3.Then("simplify", "purify-arith", "solve-eqs", "qfnra-nlsat").solver(),
                   lambda: z3.Tactic("qfnra").solver()):
            t = time.time()
            try:
                s = mk()
                s.set("timeout", self.timeout_ms * 3)
                s.add(*fs)
                self.queries += 1
                r = s.check()
                self.solver_time += time.time() - t
                if r != z3.unknown:
                    return r, (s.model() if r == z3.sat else None)
            except z3.Z3Exception:
                self.solver_time += time.time() - t
        return z3.unknown, None

    def add(self, f):
        """Add a fact (assumption or axiom) to the path condition."""
        self.touch(f)
        self.pc.append(f)
        self.solver.add(f)
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(f, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def lazily(self, name, facts):
        """Facts about a fresh constant, asserted as soon as a formula mentions it."""
        self.pending[name] = list(facts)

    def touch(self, f):
        seen, todo = self.touched, [f]
        while todo:
            e = todo.pop()
            k = e.get_id()
            if k in seen:
                continue
            seen[k] = e
            if z3.is_app(e):
                if e.num_args() == 0:
                    if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        self.touched_names.add(e.decl().name())
                        for g in self.pending.pop(e.decl().name(), ()):
                            self.pc.append(g)
                            self.solver.add(g)
                            self.model = None
                            todo.append(g)
                else:
                    todo.extend(e.children())
            elif z3.is_quantifier(e):
                todo.append(e.body())

    def assume(self, f):
        f = z3.simplify(f) if not isinstance(f, bool) else z3.BoolVal(f)
        if z3.is_false(f):
            raise PathDead()
        if z3.is_true(f):
            return
        self.add(f)
        if self.model is None and self.pos >= len(self.prefix):
            r, m = self._check()
            if r == z3.unsat:
                raise PathDead()
            self.model = m

    # ---- final checks
    def refute(self, neg, extra=()):
        """Is `neg` possible under the path condition?  Returns (z3 result, model)."""
        return self._check(neg, *extra)


def E():
    if Engine.cur is None:
        raise Unsupported("symbolic operation outside the engine")
    return Engine.cur


# Implied decisions are recorded too, so that a replayed prefix lines up without
# re-querying the solver.
def _decide(self, f):
    f = z3.simplify(f)
    if z3.is_true(f):
        return True
    if z3.is_false(f):
        return False
    # the path condition only grows, so a decided condition stays decided
    k = f.get_id()
    if k in self.memo:
        return self.memo[k][1]
    v = self._fork(f)
    self.memo[k] = (f, v)
    n = z3.simplify(z3.Not(f))
    self.memo[n.get_id()] = (n, not v)
    return v


def _fork(self, f):
    if self.pos < len(self.prefix):
        v, implied = self.prefix[self.pos]
        self.pos += 1
        self.trail.append((v, implied))
        if not implied:
            self.forks = hash((self.forks, v))
            g = f if v else z3.Not(f)
            self.touch(g)
            self.pc.append(g)
            self.solver.add(g)
            self.model = None
        return v
    self.touch(f)
    if self.model is None:
        r, m = self._check()
        if r == z3.unsat:
            raise PathDead()
        self.model = m
    hint = None
    if self.model is not None:
        try:
            e = self.model.eval(f, model_completion=True)
            hint = True if z3.is_true(e) else False if z3.is_false(e) else None
        except z3.Z3Exception:
            hint = None
    if hint is None:
        rt, mt = self._check(f)
        rf, mf = self._check(z3.Not(f))
    elif hint:
        rt, mt = z3.sat, self.model
        rf, mf = self._check(z3.Not(f))
    else:
        rf, mf = z3.sat, self.model
        rt, mt = self._check(f)
    if rt == z3.unknown or rf == z3.unknown:
        self.unknown_decides += 1
    if rt == z3.unsat and rf == z3.unsat:
        raise PathDead()
    if rf == z3.unsat or rt == z3.unsat:
        v = rf == z3.unsat
        self.trail.append((v, True))
        self.pos += 1
        self.prefix = self.trail
        return v
    self.transitions += 1
    self.stack.append(self.trail + [(False, False)])
    self.trail.append((True, False))
    self.forks = hash((self.forks, True))
    self.pos += 1
    self.prefix = self.trail
    self.pc.append(f)
    self.solver.add(f)
    self.model = mt
    return True


Engine.decide = _decide
Engine._fork = _fork


# ------------------------------------------------------------------ bool values
class SymB:
    __slots__ = ("e",)
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return E().decide(self.e)

    def __and__(self, o):
        return band(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return bor(self, o)

    __ror__ = __or__

    def __invert__(self):
        return bnot(self)

    def __xor__(self, o):
        return SymB(z3.Xor(tob(self), tob(o)))

    __rxor__ = __xor__

    def __eq__(self, o):
        return eq(self, o)

    def __ne__(self, o):
        return bnot(eq(self, o))

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def _num(self):
        return Sym(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)), "i")

    def __add__(self, o):
        return add(self, o)

    __radd__ = __add__

    def __mul__(self, o):
        return mul(self, o)

    __rmul__ = __mul__

    def __sub__(self, o):
        return sub(self, o)

    def __rsub__(self, o):
        return sub(o, self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def any(self, *a, **k):
        return self

    all = any

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr
        return arr.ufunc_dispatch(ufunc, method, inputs, kw)

    def __repr__(self):
        return "SymB(%s)" % self.e


def tob(x):
    """-> z3 Bool"""
    x = unwrap0(x)
    if isinstance(x, SymB):
        return x.e
    if isinstance(x, Sym):
        return x.z() != 0
    return z3.BoolVal(bool(x))


def mkb(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymB(e)


def band(*xs):
    if all(not is_sym(unwrap0(x)) for x in xs):
        r = True
        for x in xs:
            r = r and bool(x)
        return r
    return mkb(z3.And(*[tob(x) for x in xs]))


def bor(*xs):
    if all(not is_sym(unwrap0(x)) for x in xs):
        return any(bool(x) for x in xs)
    return mkb(z3.Or(*[tob(x) for x in xs]))


def bnot(x):
    x = unwrap0(x)
    if isinstance(x, (SymB, Sym)):
        return mkb(z3.Not(tob(x)))
    return not bool(x)


def implies(a, b):
    return bor(bnot(a), b)


# --------------------------------------------------------------- numeric values
class Sym:
    """A finite symbolic number. kind: 'r' (float) or 'i' (int)."""
    __slots__ = ("e", "kind", "sq")
    __array_priority__ = 1000
    ndim = 0
    shape = ()
    size = 1

    def __init__(self, e, kind="r", sq=None):
        self.e = e
        self.kind = kind
        self.sq = sq  # radicand when this is sqrt(radicand)

    def z(self):
        return self.e

    def zr(self):
        return z3.ToReal(self.e) if self.kind == "i" else self.e

    # arithmetic
    def __add__(self, o): return add(self, o) if ok(o) else NotImplemented
    def __radd__(self, o): return add(o, self) if ok(o) else NotImplemented
    def __sub__(self, o): return sub(self, o) if ok(o) else NotImplemented
    def __rsub__(self, o): return sub(o, self) if ok(o) else NotImplemented
    def __mul__(self, o): return mul(self, o) if ok(o) else _unit(self, o, 1)
    def __rmul__(self, o): return mul(o, self) if ok(o) else _unit(self, o, 1)
    def __truediv__(self, o): return sdiv(self, o) if ok(o) else _unit(self, o, -1)
    def __rtruediv__(self, o): return sdiv(o, self) if ok(o) else NotImplemented
    def __floordiv__(self, o): return floordiv(self, o) if ok(o) else NotImplemented
    def __rfloordiv__(self, o): return floordiv(o, self) if ok(o) else NotImplemented
    def __mod__(self, o): return mod(self, o) if ok(o) else NotImplemented
    def __rmod__(self, o): return mod(o, self) if ok(o) else NotImplemented
    def __divmod__(self, o): return floordiv(self, o), mod(self, o)
    def __pow__(self, o): return power(self, o) if ok(o) else NotImplemented
    def __rpow__(self, o): return power(o, self) if ok(o) else NotImplemented
    def __neg__(self): return Sym(-self.e, self.kind, self.sq)
    def __pos__(self): return self
    def __abs__(self): return absv(self)

    # comparison
    def __lt__(self, o): return lt(self, o) if ok(o) else NotImplemented
    def __le__(self, o): return le(self, o) if ok(o) else NotImplemented
    def __gt__(self, o): return lt(o, self) if ok(o) else NotImplemented
    def __ge__(self, o): return le(o, self) if ok(o) else NotImplemented
    def __eq__(self, o): return eq(self, o) if ok(o) else NotImplemented
    def __ne__(self, o): return bnot(eq(self, o)) if ok(o) else NotImplemented

    def __hash__(self):
        # dict/set membership on symbolic keys falls back to == (all collide)
        return 7

    def __bool__(self):
        return E().decide(self.z() != 0)

    def __index__(self):
        if self.kind != "i":
            raise TypeError("'float' object cannot be interpreted as an integer")
        return concretize_int(self)

    def __int__(self):
        return concretize_int(trunc(self))

    def __float__(self):
        v = z3.simplify(self.zr())
        if z3.is_rational_value(v):
            return float(v.as_fraction())
        raise Unsupported("symbolic number realised as a C float")

    def __round__(self, n=None):
        return roundv(self, n) if n is not None else trunc(rint(self))

    def __floor__(self): return toint(floor(self))
    def __ceil__(self): return toint(ceil(self))
    def __trunc__(self): return trunc(self)
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def copy(self): return self
    def item(self): return self
    def conjugate(self): return self
    def is_integer(self): return eq(self, floor(self))

    @property
    def real(self): return self

    @property
    def T(self): return self

    @property
    def dtype(self):
        return np.dtype("i8") if self.kind == "i" else np.dtype("f8")

    def astype(self, t, *a, **k):
        from . import arr
        return arr.cast(self, arr.kind_of_dtype(t))

    def round(self, n=0, *a): return roundv(self, n)
    def sum(self, *a, **k): return self
    def min(self, *a, **k): return self
    def max(self, *a, **k): return self
    def mean(self, *a, **k): return self
    def any(self, *a, **k): return mkb(self.z() != 0)
    all = any

    def ravel(self):
        from . import arr
        return arr.mk([self])

    flatten = ravel

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr
        return arr.ufunc_dispatch(ufunc, method, inputs, kw)

    def __format__(self, spec):
        return "<sym>"

    def __repr__(self):
        return "Sym(%s)" % self.e


def _unit(x, u, p):
    from astropy.units import UnitBase
    if isinstance(u, UnitBase):
        from .shims import SymQuantity
        return SymQuantity(x, u ** p)
    return NotImplemented


NUM = (int, float, np.number, np.bool_, bool, Fraction)


def ok(o):
    return isinstance(o, (Sym, SymB)) or isinstance(o, NUM)


def norm(x):
    x = unwrap0(x)
    if isinstance(x, SymB):
        return x._num()
    return x


def zr(x):
    """finite value -> z3 Real"""
    if isinstance(x, Sym):
        return x.zr()
    return q(x)


def isint(x):
    return (x.kind == "i") if isinstance(x, Sym) else isinstance(x, (int, np.integer, bool, np.bool_))


def mks(e, kind="r"):
    e = z3.simplify(e)
    if kind == "i" and z3.is_int_value(e):
        return int(e.as_long())
    # rationals stay symbolic terms: converting to float could round
    return Sym(e, kind)


def _conc(f, a, b):
    with np.errstate(all="ignore"):
        if isint(a) and isint(b):
            return f(int(a), int(b))
        return f(np.float64(a), np.float64(b))


def num(x):
    if is_sym(x):
        return x
    if isinstance(x, Fraction):
        return Sym(q(x))
    return x


def add(a, b):
    a, b = num(norm(a)), num(norm(b))
    if not is_sym(a) and not is_sym(b):
        return _conc(lambda x, y: x + y, a, b)
    if is_special(a):
        return np.float64(a)
    if is_special(b):
        return np.float64(b)
    if isint(a) and isint(b):
        return Sym(zi(a) + zi(b), "i")
    return Sym(zr(a) + zr(b))


def zi(x):
    return x.e if isinstance(x, Sym) else z3.IntVal(int(x))


def sub(a, b):
    a, b = num(norm(a)), num(norm(b))
    if not is_sym(a) and not is_sym(b):
        return _conc(lambda x, y: x - y, a, b)
    if is_special(a):
        return np.float64(a)
    if is_special(b):
        return np.float64(-b)
    if isint(a) and isint(b):
        return Sym(zi(a) - zi(b), "i")
    return Sym(zr(a) - zr(b))


def sign_decide(x):
    """-1, 0, 1 by forking"""
    if E().decide(zr(x) > 0):
        return 1
    if E().decide(zr(x) < 0):
        return -1
    return 0


def mul(a, b):
    a, b = num(norm(a)), num(norm(b))
    if not is_sym(a) and not is_sym(b):
        return _conc(lambda x, y: x * y, a, b)
    for s, o in ((a, b), (b, a)):
        if is_special(s):
            if is_nan(s):
                return np.float64(nan)
            sg = sign_decide(o)
            return np.float64(nan) if sg == 0 else np.float64(s * sg)
    if isint(a) and isint(b):
        return Sym(zi(a) * zi(b), "i")
    # 0.0 * x and 1.0 * x stay exact
    return Sym(zr(a) * zr(b), "r", sq=_sqmul(a, b))


def _sqof(x):
    """the square of x as a term, when x is a product with square roots in it"""
    return x.sq if isinstance(x, Sym) and x.sq is not None else None


def _sqmul(a, b):
    sa, sb = _sqof(a), _sqof(b)
    if sa is None and sb is None:
        return None
    return (zr(a) * zr(a) if sa is None else sa) * (zr(b) * zr(b) if sb is None else sb)


def _sqdiv(a, b):
    sa, sb = _sqof(a), _sqof(b)
    if sa is None and sb is None:
        return None
    return (zr(a) * zr(a) if sa is None else sa) / (zr(b) * zr(b) if sb is None else sb)


def sdiv(a, b):
    if E().py_div and not is_sym(b) and b == 0:
        raise ZeroDivisionError("division by zero")
    if E().py_div and isinstance(b, Sym) and E().decide(zr(b) == 0):
        raise ZeroDivisionError("division by zero")
    return div(a, b)


def div(a, b):
    a, b = num(norm(a)), num(norm(b))
    if not is_sym(a) and not is_sym(b):
        with np.errstate(all="ignore"):
            return np.float64(a) / np.float64(b)
    if is_nan(a) or is_nan(b):
        return np.float64(nan)
    if is_special(b):
        return np.float64(0.0)
    if is_special(a):
        sg = sign_decide(b)
        return np.float64(a * (sg or 1))
    if is_sym(b):
        if E().decide(zr(b) == 0):
            if is_sym(a):
                sg = sign_decide(a)
            else:
                sg = int(np.sign(a))
            return np.float64(nan) if sg == 0 else np.float64(inf * sg)
    elif b == 0:
        sg = sign_decide(a)
        return np.float64(nan) if sg == 0 else np.float64(inf * sg)
    if not is_sym(b):
        return Sym(zr(a) * _inv(b), 'r', sq=_sqdiv(a, b))
    return Sym(zr(a) / zr(b), 'r', sq=_sqdiv(a, b))


def _inv(b):
    f = Fraction(float(b)) if isinstance(b, (float, np.floating)) else Fraction(int(b))
    f = 1 / f
    return z3.Q(f.numerator, f.denominator)


def floor(x):
    x = num(norm(x))
    if not is_sym(x):
        return np.floor(np.float64(x)) if not isint(x) else x
    if x.kind == "i":
        return x
    return Sym(z3.ToReal(z3.ToInt(x.e)))


def ceil(x):
    x = num(norm(x))
    if not is_sym(x):
        return np.ceil(np.float64(x)) if not isint(x) else x
    if x.kind == "i":
        return x
    return Sym(-z3.ToReal(z3.ToInt(-x.e)))


def toint(x):
    """integral-valued float -> int"""
    x = num(norm(x))
    if not is_sym(x):
        return int(x)
    if x.kind == "i":
        return x
    return Sym(z3.ToInt(x.e), "i")


def trunc(x):
    """int(x)"""
    x = num(norm(x))
    if not is_sym(x):
        if is_special(x):
            return int(x)  # raises like python
        return int(x)
    if x.kind == "i":
        return x
    return Sym(z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e)), "i")


def rint(x):
    """round half to even, as a float"""
    x = num(norm(x))
    if not is_sym(x):
        return np.rint(np.float64(x))
    if x.kind == "i":
        return x
    f = z3.ToInt(x.e)
    d = x.e - z3.ToReal(f)
    half = z3.Q(1, 2)
    return Sym(z3.ToReal(z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1)))))


def roundv(x, n=0):
    x = num(norm(x))
    n = int(n or 0)
    if not is_sym(x):
        return np.round(x, n)
    if n == 0:
        return rint(x)
    if x.kind == "i" and n >= 0:
        return x
    # decimal rounding: contract of np.round (within half a unit, monotone, odd, fixes multiples used)
    eng = E()
    reg = eng.uf_apps.setdefault(("round", n), [])
    e = z3.simplify(x.zr())
    for (a, v) in reg:
        if a.eq(e):
            return Sym(v)
    v = eng.fresh("rnd")
    eng.defs[v.decl().name()] = ("round", (e, z3.IntVal(n)))
    h = Fraction(1, 2 * 10 ** n) if n >= 0 else Fraction(10 ** -n, 2)
    h = z3.Q(h.numerator, h.denominator)
    eng.add(z3.And(v - e <= h, e - v <= h, z3.Implies(e == 0, v == 0), z3.Implies(e >= 0, v >= 0), z3.Implies(e <= 0, v <= 0)))
    for (a, w) in reg:
        eng.add(z3.And(z3.Implies(a <= e, w <= v), z3.Implies(e <= a, v <= w)))
    reg.append((e, v))
    return Sym(v)


def floordiv(a, b):
    a, b = num(norm(a)), num(norm(b))
    if not is_sym(a) and not is_sym(b):
        return _conc(lambda x, y: x // y, a, b)
    if is_special(a) or is_special(b):
        return np.float64(nan)
    if isint(a) and isint(b):
        if is_sym(b):
            if E().decide(zi(b) == 0):
                raise ZeroDivisionError("integer division or modulo by zero")
            if E().decide(zi(b) > 0):
                return Sym(zi(a) / zi(b), "i")
            return Sym((-zi(a)) / (-zi(b)), "i")
        if b == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if b > 0:
            return Sym(zi(a) / zi(b), "i")
        return Sym((-zi(a)) / z3.IntVal(-int(b)), "i")
    r = div(a, b)
    return floor(r)


def mod(a, b):
    a, b = num(norm(a)), num(norm(b))
    if not is_sym(a) and not is_sym(b):
        return _conc(lambda x, y: x % y, a, b)
    if isint(a) and isint(b):
        return sub(a, mul(b, floordiv(a, b)))
    fd = floordiv(a, b)
    if is_special(fd):
        return np.float64(nan)
    return sub(a, mul(b, fd))


def ite(c, a, b):
    """If(c, a, b) without forking when both are finite numbers."""
    c = unwrap0(c)
    if not is_sym(c):
        return a if c else b
    a, b = num(norm(a)) if not isinstance(a, SymB) else a, num(norm(b)) if not isinstance(b, SymB) else b
    if isinstance(a, (SymB, bool, np.bool_)) and isinstance(b, (SymB, bool, np.bool_)):
        return mkb(z3.If(tob(c), tob(a), tob(b)))
    if not ok(a) or not ok(b) or is_special(a) or is_special(b):
        return a if bool(c) else b
    if isint(a) and isint(b):
        return Sym(z3.If(tob(c), zi(norm(a)), zi(norm(b))), "i")
    return Sym(z3.If(tob(c), zr(norm(a)), zr(norm(b))))


def absv(x):
    x = num(norm(x))
    if not is_sym(x):
        return abs(x)
    if isroot(x):
        return x
    if x.kind == "r" and x.sq is None and Engine.cur is not None and Engine.cur.uf_apps.get("trig"):
        from . import evalf
        if evalf.circular(x.e):
            # one form for an expression in sines and cosines and its negation
            e = evalf.reduced(z3.simplify(x.e, som=True))
            if z3.is_rational_value(e):
                return np.float64(abs(float(e.as_fraction())))
            o = evalf.reduced(z3.simplify(-e, som=True))
            x = Sym(e if e.sexpr() <= o.sexpr() else o)
    r = Sym(z3.If(x.e >= 0, x.e, -x.e), x.kind)
    r.sq = x.sq if x.sq is not None else (x.e * x.e if x.kind == "r" else None)
    return r


def neg(x):
    x = num(norm(x))
    return -x if is_sym(x) else (-int(x) if isint(x) else -np.float64(x))


def isroot(x):
    return isinstance(x, Sym) and x.sq is not None and z3.is_const(x.e) and x.e.decl().name().startswith("sqrt!")


def _below(a, b, strict):
    """a < b (a <= b), with the terms common to both sides cancelled"""
    from . import evalf
    if evalf.size_ok(a, 80) and evalf.size_ok(b, 80):
        d = z3.simplify(a - b, som=True)
        return d < 0 if strict else d <= 0
    return a < b if strict else a <= b


def lt(a, b):
    a, b = num(norm(a)), num(norm(b))
    if not is_sym(a) and not is_sym(b):
        return bool(a < b)
    if is_nan(a) or is_nan(b):
        return False
    if is_special(a):
        return bool(a < 0)
    if is_special(b):
        return bool(b > 0)
    if isroot(a) and isroot(b):
        return mkb(_below(a.sq, b.sq, True))
    if isint(a) and isint(b):
        return mkb(zi(a) < zi(b))
    return mkb(zr(a) < zr(b))


def le(a, b):
    a, b = num(norm(a)), num(norm(b))
    if not is_sym(a) and not is_sym(b):
        return bool(a <= b)
    if is_nan(a) or is_nan(b):
        return False
    if is_special(a):
        return bool(a < 0)
    if is_special(b):
        return bool(b > 0)
    if isroot(a) and isroot(b):
        return mkb(_below(a.sq, b.sq, False))
    if isint(a) and isint(b):
        return mkb(zi(a) <= zi(b))
    return mkb(zr(a) <= zr(b))


def eq(a, b):
    if isinstance(a, (SymB, bool, np.bool_)) and isinstance(b, (SymB, bool, np.bool_)):
        if not is_sym(a) and not is_sym(b):
            return bool(a == b)
        return mkb(tob(a) == tob(b))
    a, b = num(norm(a)), num(norm(b))
    if not ok(a) or not ok(b):
        return False
    if not is_sym(a) and not is_sym(b):
        return bool(a == b)
    if is_special(a) or is_special(b):
        return False
    if isint(a) and isint(b):
        return mkb(zi(a) == zi(b))
    return mkb(zr(a) == zr(b))


def ne(a, b):
    return bnot(eq(a, b))


def maxv(a, b):
    """np.maximum"""
    if is_nan(a) or is_nan(b):
        return np.float64(nan)
    return ite(lt(a, b), b, a)


def minv(a, b):
    if is_nan(a) or is_nan(b):
        return np.float64(nan)
    return ite(lt(b, a), b, a)


def _square_root(e):
    """the root of a term that is the square of a monomial"""
    from . import evalf
    if not evalf.size_ok(e, 40):
        return None
    f = z3.simplify(e, som=True)
    if not (z3.is_mul(f) or z3.is_app_of(f, z3.Z3_OP_POWER) or z3.is_div(f)):
        if not evalf.has_div(e) and not evalf.circular(e):
            return None
    ts = evalf.terms(f)
    if ts is None or ts[1] is not None or len(ts[0]) != 1:
        return None
    co, p = ts[0][0]
    import math
    if co <= 0 or any(k % 2 for k in p.values()):
        return None
    n, d = math.isqrt(co.numerator), math.isqrt(co.denominator)
    if n * n != co.numerator or d * d != co.denominator:
        return None
    m = evalf.mono(Fraction(n, d), {a: k // 2 for a, k in p.items()}, ts[2])
    if all(k % 4 == 0 or E()._check(z3.Not(ts[2][a][1] >= 0))[0] == z3.unsat for a, k in p.items()):
        return Sym(m)
    return absv(Sym(m))


def sqrt(x):
    x = num(norm(x))
    if not is_sym(x):
        with np.errstate(all="ignore"):
            return np.sqrt(np.float64(x))
    eng = E()
    e = z3.simplify(x.zr(), som=False)
    if z3.is_rational_value(e):
        f = e.as_fraction()
        if f >= 0:
            import math
            n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator:
                return Sym(z3.Q(n, d))
    from . import evalf
    root = _square_root(e)
    if root is not None:
        return root
    if eng.decide(e < 0):
        return np.float64(nan)
    f = z3.simplify(e, som=True) if evalf.size_ok(e, 60) else e
    key = f.get_id()
    if key in eng.sqrt_cache:
        return eng.sqrt_cache[key][1]
    s = eng.fresh("sqrt")
    eng.defs[s.decl().name()] = ("sqrt", (e,))
    eng.lazily(s.decl().name(), (s >= 0, s * s == e))
    r = Sym(s, "r", sq=e)
    eng.sqrt_cache[key] = (f, r)
    return r


def square(x):
    return power(x, 2)


def ipow(x, n):
    r = None
    for _ in range(n):
        r = x if r is None else mul(r, x)
    return 1 if r is None else r


def power(a, b):
    a, b = num(norm(a)), num(norm(b))
    if not is_sym(a) and not is_sym(b):
        with np.errstate(all="ignore"):
            if isint(a) and isint(b) and b >= 0:
                return int(a) ** int(b)
            return np.float64(a) ** np.float64(b)
    if is_sym(b):
        eb = z3.simplify(b.zr())
        if z3.is_rational_value(eb):
            f = eb.as_fraction()
            if f.denominator == 1:
                b = int(f)
            elif f == Fraction(1, 2):
                b = 0.5
    if not is_sym(b):
        if is_special(b):
            raise Unsupported("pow with special exponent")
        if float(b) == int(b) and abs(b) <= 12:
            n = int(b)
            if n == 0:
                return np.float64(1.0)
            if n > 0:
                if isinstance(a, Sym) and a.sq is not None and n % 2 == 0:
                    return ipow(Sym(a.sq), n // 2)
                return ipow(a, n)
            return div(1.0, ipow(a, -n))
        if float(b) == 0.5:
            return sqrt(a)
        if float(b) == -0.5:
            return div(1.0, sqrt(a))
    from . import uf
    return uf.powr(a, b)


def concretize_int(s, limit=64):
    """Fork over the feasible integer values of s."""
    e = z3.simplify(s.e)
    if z3.is_int_value(e):
        return e.as_long()
    eng = E()
    hit = eng.memo.get(e.get_id())
    if hit is not None:
        return hit[1]
    val = _concretize(eng, e, limit)
    eng.memo[e.get_id()] = (e, val)
    return val


def _concretize(eng, e, limit):
    for _ in range(limit):
        # pick a value deterministically: smallest feasible via model then decide
        if eng.pos < len(eng.prefix):
            v = eng.prefix[eng.pos]
            if not (isinstance(v[0], tuple)):
                raise Unsupported("replay mismatch")
            eng.pos += 1
            eng.trail.append(v)
            (val, yes), implied = v
            if not implied:
                eng.forks = hash((eng.forks, val, yes))
            g = (e == val) if yes else (e != val)
            eng.pc.append(g)
            eng.solver.add(g)
            eng.model = None
            if yes:
                return val
            continue
        if eng.model is None:
            r, m = eng._check()
            if r == z3.unsat:
                raise PathDead()
            if r == z3.unknown:
                raise Inconclusive("concretisation")
            eng.model = m
        val = eng.model.eval(e, model_completion=True).as_long()
        r, m = eng._check(e != val)
        if r != z3.unsat:
            eng.transitions += 1
            eng.stack.append(eng.trail + [((val, False), False)])
            eng.forks = hash((eng.forks, val, True))
        eng.trail.append(((val, True), r == z3.unsat))
        eng.pos += 1
        eng.prefix = eng.trail
        g = e == val
        eng.pc.append(g)
        eng.solver.add(g)
        return val
    raise Unsupported("integer ranges over more than %d values" % limit)
