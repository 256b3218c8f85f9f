"""
Symbolic strings of the two coordinate alphabets.

SNumStr(n)   a decimal literal whose value is n (any spelling int() accepts
             that is not one of the symbols ^ _ .)
SColStr      n >= 1 letters of any case; letter i has alphabet index d(i)
"""
import string

import z3

from .core import Unsupported, cur
from .vals import *
from . import loops

_V = {}


class SNumStr(Sym):
    __class__ = property(lambda self: str)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "<decimal>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<decimal>"

    def to_int(self):
        cur().eng.stats.trust("int(decimal literal) is its value; str(int) is such a literal")
        return mkint(self.t)

    def to_str(self):
        return self

    def upper(self):
        return self

    lower = strip = upper

    def __bool__(self):
        return True

    def __eq__(self, o):
        if o is self:
            return True
        if isinstance(o, SNumStr):
            raise Unsupported("comparison of decimal spellings")
        if isinstance(o, SColStr):
            return False
        if isinstance(o, str) and type(o) is str:
            try:
                int(o)
            except ValueError:
                return False
            raise Unsupported("comparison of a decimal spelling")
        return False

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = Sym.__hash__

    def str_in(self, s):
        raise Unsupported("substring test of a decimal spelling")

    def same_as(self, o):
        if isinstance(o, SNumStr):
            return self.t == o.t
        if type(o) is str:
            try:
                return self.t == int(o)
            except ValueError:
                pass
        return z3.BoolVal(False)

    def concretize(self, m):
        return str(m.eval(self.t, model_completion=True).as_long())


class SLetter(Sym):
    __class__ = property(lambda self: str)

    def __init__(self, d, up):
        self.d, self.up = d, up       # alphabet index, is-upper-case (z3 terms)

    def upper(self):
        return SLetter(self.d, z3.BoolVal(True))

    def lower(self):
        return SLetter(self.d, z3.BoolVal(False))

    def __repr__(self):
        return "<letter>"

    __str__ = __repr__

    def __format__(self, s):
        return "<letter>"

    def find_in(self, alphabet, missing):
        """index of the letter in A-Z or a-z"""
        if alphabet == string.ascii_uppercase:
            want = self.up
        elif alphabet == string.ascii_lowercase:
            want = z3.Not(self.up)
        elif alphabet == string.ascii_letters:
            if cur().branch(self.up):
                return mkint(self.d + 26)
            return mkint(self.d)
        else:
            raise Unsupported("letter lookup in %r" % alphabet)
        if cur().branch(want):
            return mkint(self.d)
        if missing is ValueError:
            raise ValueError("substring not found")
        return missing

    def ord(self):
        return mkint(self.d + z3.If(self.up, z3.IntVal(65), z3.IntVal(97)))

    def to_int(self):
        raise ValueError("invalid literal for int()")

    def as_col(self):
        s = SColStr(cur().fresh("letter"), 1, lambda i: self.d, lambda i: self.up)
        s.V = lambda i: z3.If(i <= 0, z3.IntVal(0), self.d + 1)
        return s

    def __radd__(self, o):
        if type(o) is str and o == "":
            return self.as_col()
        raise Unsupported("concatenation of a letter")

    def __add__(self, o):
        return self.as_col() + o

    def to_str(self):
        return self

    def _cmp_str(self, o, fn):
        if type(o) is str and len(o) == 1:
            return mkbool(fn(tint(self.ord()), ord(o)))
        raise Unsupported("letter comparison")

    def __eq__(self, o):
        if isinstance(o, SLetter):
            return mkbool(z3.And(self.d == o.d, self.up == o.up))
        if type(o) is str:
            if len(o) != 1:
                return False
            return self._cmp_str(o, lambda a, b: a == b)
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    __hash__ = Sym.__hash__

    def str_in(self, s):
        if type(s) is str:
            return mkbool(z3.Or(*[tbool(self == c) for c in s]) if s else z3.BoolVal(False))
        raise Unsupported("letter in %s" % type(s).__name__)


class SColStr(Sym):
    __class__ = property(lambda self: str)

    def __init__(self, name, n, d=None, up=None):
        self.name = name
        self.n = n
        f = z3.Function(name + ".letter", z3.IntSort(), z3.IntSort())
        u = z3.Function(name + ".upper", z3.IntSort(), z3.BoolSort())
        self.d = d or (lambda i: f(i))
        self.up = up or (lambda i: u(i))
        self.V = z3.Function(name + ".value", z3.IntSort(), z3.IntSort())

    @classmethod
    def arbitrary(cls, g, name):
        n = g.int(name + ".len", 1)
        s = cls(name, n)
        i = z3.Int(name + "!i")
        g.ctx.assume(z3.ForAll([i], z3.And(0 <= s.d(i), s.d(i) < 26)))
        return s

    @classmethod
    def of_value(cls, val):
        """the upper-case column name whose value is val >= 0"""
        name = cur().fresh("colname")
        n = cur().int(name + ".len")
        s = cls(name, SInt(n), up=lambda i: z3.BoolVal(True))
        i = z3.Int(name + "!i")
        c = cur()
        c.assume(z3.And(n >= 1, z3.ForAll([i], z3.And(0 <= s.d(i), s.d(i) < 26))))
        c.assume(s.prefix(n) - 1 == tint(val))
        return s

    def prefix(self, k):
        """value of the first k letters in bijective base 26; the recurrence
        is the definition of the value, instantiated where it is used"""
        c = cur()
        c.assume(self.V(z3.IntVal(0)) == 0)
        k = tint(k)
        c.assume(z3.Implies(k >= 0, self.V(k + 1) == self.V(k) * 26 + self.d(k) + 1))
        c.assume(z3.Implies(k >= 1, self.V(k) == self.V(k - 1) * 26 + self.d(k - 1) + 1))
        return self.V(k)

    def value(self):
        """zero-based column number"""
        return mkint(self.prefix(tint(self.n)) - 1)

    def symiter(self):
        return loops.SymSeq(self.n, lambda i: SLetter(self.d(i), self.up(i)))

    def slen(self):
        return self.n

    def __getitem__(self, k):
        return self.symiter()[k]

    def __iter__(self):
        return iter(self.symiter())

    def __bool__(self):
        return True

    def upper(self):
        s = SColStr(self.name, self.n, self.d, lambda i: z3.BoolVal(True))
        s.V = self.V
        return s

    def to_int(self):
        raise ValueError("invalid literal for int() with base 10")

    def to_str(self):
        return self

    def __repr__(self):
        return "<letters>"

    __str__ = __repr__

    def __format__(self, s):
        return "<letters>"

    def __add__(self, o):
        if not isinstance(o, SLetter):
            raise Unsupported("concatenation to a column name")
        n, d, up, V = tint(self.n), self.d, self.up, self.V
        s = SColStr(self.name + "+", mkint(n + 1), lambda i: z3.If(i == n, o.d, d(i)),
                    lambda i: z3.If(i == n, o.up, up(i)))
        s.V = lambda i: z3.If(i <= n, V(i), V(n) * 26 + o.d + 1)
        return s

    def __radd__(self, o):
        if type(o) is str and o == "":
            return self
        raise Unsupported("concatenation to a column name")

    def __eq__(self, o):
        if o is self:
            return True
        if type(o) is str and not all(ch in string.ascii_letters for ch in o):
            return False
        if isinstance(o, SNumStr):
            return False
        raise Unsupported("comparison of column names")

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = Sym.__hash__

    def str_in(self, s):
        raise Unsupported("substring test")

    def same_as(self, o):
        if isinstance(o, SColStr):
            i = z3.Int(cur().fresh("q"))
            return z3.And(tint(self.n) == tint(o.n), z3.ForAll([i], z3.Implies(
                z3.And(0 <= i, i < tint(self.n)),
                z3.And(self.d(i) == o.d(i), self.up(i) == o.up(i)))))
        if type(o) is str:
            if not all(ch in string.ascii_letters for ch in o):
                return z3.BoolVal(False)
            return z3.And(tint(self.n) == len(o), *[
                z3.And(self.d(z3.IntVal(i)) == ord(ch.upper()) - 65,
                       self.up(z3.IntVal(i)) == ch.isupper()) for i, ch in enumerate(o)])
        return z3.BoolVal(False)

    def concretize(self, m):
        n = m.eval(tint(self.n), model_completion=True).as_long()
        if n > 200:
            raise Unsupported("model too large")
        out = ""
        for i in range(n):
            ch = chr(65 + m.eval(self.d(z3.IntVal(i)), model_completion=True).as_long() % 26)
            out += ch if z3.is_true(m.eval(self.up(z3.IntVal(i)), model_completion=True)) \
                else ch.lower()
        return out


def _find(missing):
    def m(s, x, *rest):
        if rest:
            raise Unsupported("bounded search")
        if isinstance(x, SLetter):
            return x.find_in(s, missing)
        raise Unsupported("str search of %s" % type(x).__name__)
    return m


def install(rt):
    rt.METHODS[(str, "index")] = rt.METHODS[(str, "rindex")] = _find(ValueError)
    rt.METHODS[(str, "find")] = rt.METHODS[(str, "rfind")] = _find(-1)

    def _ord(x):
        if isinstance(x, SLetter):
            return x.ord()
        return ord(x)
    rt.MODELS[ord] = _ord
