"""Strings whose characters are partly symbolic: each character is a literal or an unknown of a known class."""
import re as _re

import z3

from . import core as c
from .core import E, Sym, Unsupported

# class -> representatives used to run the real regular expression engine
REPS = {"d": ("0", "9"), "a": ("a", "Z"), "l": ("a", "z"), "u": ("A", "Z")}


class SymStr:
    """chars: str (literal) or (class, z3 Int code point)"""

    def __init__(self, chars):
        self.ch = list(chars)

    # ---- structure
    def __len__(self):
        return len(self.ch)

    def __str__(self):
        raise Unsupported("symbolic string realised")

    def __repr__(self):
        return "SymStr(%s)" % "".join(x if isinstance(x, str) else "<%s>" % x[0] for x in self.ch)

    def __format__(self, spec):
        raise Unsupported("symbolic string formatted")

    def skeletons(self):
        out = []
        for k in range(2):
            out.append("".join(x if isinstance(x, str) else REPS[x[0]][k] for x in self.ch))
        # alternating, so that neighbouring characters of one class may differ
        out.append("".join(x if isinstance(x, str) else REPS[x[0]][i % 2] for i, x in enumerate(self.ch)))
        return out

    def __getitem__(self, k):
        r = self.ch[k]
        return simp(r if isinstance(k, slice) else [r])

    def __iter__(self):
        return (simp([x]) for x in self.ch)

    def __add__(self, o):
        return simp(self.ch + chars(o)) if isinstance(o, (str, SymStr)) else NotImplemented

    def __radd__(self, o):
        return simp(chars(o) + self.ch) if isinstance(o, (str, SymStr)) else NotImplemented

    def __hash__(self):
        return 11

    # ---- case
    def _map(self, f, lit):
        out = []
        for x in self.ch:
            if isinstance(x, str):
                out.extend(lit(x))
            else:
                out.append(f(x))
        return simp(out)

    def lower(self):
        return self._map(lambda x: ("l", z3.If(x[1] <= 90, x[1] + 32, x[1])) if x[0] in "au" else x, str.lower)

    casefold = lower

    def upper(self):
        return self._map(lambda x: ("u", z3.If(x[1] >= 97, x[1] - 32, x[1])) if x[0] in "al" else x, str.upper)

    def swapcase(self):
        raise Unsupported("swapcase")

    # ---- classes
    def _all(self, name):
        r = set(getattr(s, name)() for s in self.skeletons())
        if len(r) > 1:
            raise Unsupported(name + " depends on the characters")
        return r.pop()

    def isdigit(self): return self._all("isdigit")
    def isdecimal(self): return self._all("isdecimal")
    def isnumeric(self): return self._all("isnumeric")
    def isalpha(self): return self._all("isalpha")
    def isalnum(self): return self._all("isalnum")
    def isspace(self): return self._all("isspace")
    def isascii(self): return self._all("isascii")

    def startswith(self, p):
        return len(self) >= len(p) and bool(self[:len(p)] == p)

    def strip(self, *a):
        sk = self.skeletons()
        if any(s.strip(*a) != s for s in sk):
            raise Unsupported("strip of a symbolic string")
        return self

    def lstrip(self, cs=None):
        i = 0
        while i < len(self.ch):
            x = self.ch[i]
            if not any(bool(c.mkb(code(x) == ord(q))) for q in (cs if cs is not None else " \t\n\r")):
                break
            i += 1
        return simp(self.ch[i:])

    def zfill(self, n):
        return simp(["0"] * max(0, n - len(self.ch)) + self.ch)

    def rjust(self, n, fill=" "):
        return simp([fill] * max(0, n - len(self.ch)) + self.ch)

    def encode(self, *a):
        raise Unsupported("encode")

    # ---- comparison (code point order)
    def __eq__(self, o):
        if not isinstance(o, (str, SymStr)):
            return False
        b = chars(o)
        if len(b) != len(self.ch):
            return False
        return c.mkb(z3.And([z3.BoolVal(True)] + [code(x) == code(y) for x, y in zip(self.ch, b)]))

    def __ne__(self, o):
        return c.bnot(self == o)

    def _lt(self, a, b, eq):
        n = min(len(a), len(b))
        r = z3.BoolVal(len(a) < len(b) or (eq and len(a) == len(b)))
        for i in range(n - 1, -1, -1):
            x, y = code(a[i]), code(b[i])
            r = z3.Or(x < y, z3.And(x == y, r))
        return c.mkb(r)

    def __lt__(self, o):
        return self._lt(self.ch, chars(o), False) if isinstance(o, (str, SymStr)) else NotImplemented

    def __le__(self, o):
        return self._lt(self.ch, chars(o), True) if isinstance(o, (str, SymStr)) else NotImplemented

    def __gt__(self, o):
        return self._lt(chars(o), self.ch, False) if isinstance(o, (str, SymStr)) else NotImplemented

    def __ge__(self, o):
        return self._lt(chars(o), self.ch, True) if isinstance(o, (str, SymStr)) else NotImplemented

    def to_int(self):
        if not all((isinstance(x, str) and x in "0123456789") or (not isinstance(x, str) and x[0] == "d") for x in self.ch) or not self.ch:
            for s in self.skeletons():
                try:
                    int(s)
                except ValueError:
                    raise ValueError("invalid literal for int() with base 10: %r" % self)
            raise Unsupported("int of %r" % self)
        v = z3.IntVal(0)
        for x in self.ch:
            v = v * 10 + (code(x) - 48)
        return c.mks(v, "i")


def digits(x):
    """str(int)"""
    if x.kind != "i":
        raise Unsupported("str of a symbolic float")
    eng = E()
    v, sign = x.e, []
    if eng.decide(v < 0):
        v, sign = -v, ["-"]
    n = 1
    while n < 6 and eng.decide(v >= 10 ** n):
        n += 1
    if n == 6:
        raise Unsupported("str of a large symbolic int")
    ds = []
    for i in range(n):
        d = eng.fresh("digit", "i")
        eng.add(z3.And(d >= 0, d <= 9))
        ds.append(d)
    eng.add(z3.Sum([d * 10 ** (n - 1 - i) for i, d in enumerate(ds)]) == v)
    return SymStr(sign + [("d", d + 48) for d in ds])


def code(x):
    return z3.IntVal(ord(x)) if isinstance(x, str) else x[1]


def chars(o):
    return list(o) if isinstance(o, str) else o.ch


def simp(ch):
    if all(isinstance(x, str) for x in ch):
        return "".join(ch)
    return SymStr(ch)


# ---------------------------------------------------------------- re
class _M:
    def __init__(self, s, m):
        self.s, self.m = s, m
        self.re, self.pos, self.lastindex = m.re, m.pos, m.lastindex

    def span(self, *a): return self.m.span(*a)
    def start(self, *a): return self.m.start(*a)
    def end(self, *a): return self.m.end(*a)

    def _g(self, i):
        a, b = self.m.span(i)
        return None if a < 0 else self.s[a:b]

    def group(self, *ix):
        ix = ix or (0,)
        r = tuple(self._g(i) for i in ix)
        return r[0] if len(r) == 1 else r

    def __getitem__(self, i):
        return self._g(i)

    def groups(self, default=None):
        return tuple(default if self._g(i + 1) is None else self._g(i + 1) for i in range(self.m.re.groups))


def _spans(m):
    return None if m is None else tuple(m.span(i) for i in range(m.re.groups + 1))


def _same(rs):
    if any(r != rs[0] for r in rs):
        raise Unsupported("the regular expression depends on more than the character classes")
    return rs[0]


class Pattern:
    def __init__(self, p, flags=0):
        self.p = _re.compile(p, flags)
        self.pattern = self.p.pattern
        self.groups = self.p.groups

    def _one(self, name, s):
        if not isinstance(s, SymStr):
            return getattr(self.p, name)(s)
        ms = [getattr(self.p, name)(k) for k in s.skeletons()]
        _same([_spans(m) for m in ms])
        return None if ms[0] is None else _M(s, ms[0])

    def match(self, s): return self._one("match", s)
    def fullmatch(self, s): return self._one("fullmatch", s)
    def search(self, s): return self._one("search", s)

    def finditer(self, s):
        if not isinstance(s, SymStr):
            return self.p.finditer(s)
        ms = [list(self.p.finditer(k)) for k in s.skeletons()]
        _same([[_spans(m) for m in x] for x in ms])
        return iter([_M(s, m) for m in ms[0]])

    def findall(self, s):
        if not isinstance(s, SymStr):
            return self.p.findall(s)
        out = []
        for m in self.finditer(s):
            g = m.groups("")
            out.append(m.group() if not g else g[0] if len(g) == 1 else g)
        return out

    def split(self, s, maxsplit=0):
        if not isinstance(s, SymStr):
            return self.p.split(s, maxsplit)
        out, last = [], 0
        for k, m in enumerate(self.finditer(s)):
            if maxsplit and k >= maxsplit:
                break
            if m.end() == m.start():
                raise Unsupported("split on empty matches")
            out.append(s[last:m.start()])
            out.extend(m.groups())
            last = m.end()
        out.append(s[last:])
        return out

    def sub(self, repl, s, count=0):
        if not isinstance(s, SymStr):
            return self.p.sub(repl, s, count)
        out, last = "", 0
        for k, m in enumerate(self.finditer(s)):
            if count and k >= count:
                break
            if not callable(repl) and "\\" in repl:
                raise Unsupported("template substitution")
            out = out + s[last:m.start()] + (repl(m) if callable(repl) else repl)
            last = m.end()
        return out + s[last:]


class Re:
    """stand-in for the re module"""

    def __getattr__(self, n):
        return getattr(_re, n)

    @staticmethod
    def _p(p, flags=0):
        return p if isinstance(p, Pattern) else Pattern(p, flags)

    def compile(self, p, flags=0): return Pattern(p, flags)
    def match(self, p, s, flags=0): return self._p(p, flags).match(s)
    def fullmatch(self, p, s, flags=0): return self._p(p, flags).fullmatch(s)
    def search(self, p, s, flags=0): return self._p(p, flags).search(s)
    def findall(self, p, s, flags=0): return self._p(p, flags).findall(s)
    def finditer(self, p, s, flags=0): return self._p(p, flags).finditer(s)
    def split(self, p, s, maxsplit=0, flags=0): return self._p(p, flags).split(s, maxsplit)
    def sub(self, p, r, s, count=0, flags=0): return self._p(p, flags).sub(r, s, count)


RE = Re()


class _StrM(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (str, SymStr))

    def __eq__(cls, o):
        return o is cls or o is str

    def __hash__(cls):
        return hash(str)

    def __call__(cls, x="", *a):
        x = c.unwrap0(x)
        if isinstance(x, Sym):
            return digits(x)
        return x if isinstance(x, SymStr) else str(x, *a)


class str_(str, metaclass=_StrM):
    lower = staticmethod(lambda s: s.lower())
    upper = staticmethod(lambda s: s.upper())
    casefold = staticmethod(lambda s: s.casefold())
    isdigit = staticmethod(lambda s: s.isdigit())
