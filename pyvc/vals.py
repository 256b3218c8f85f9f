"""Symbolic values with Python semantics (ints are mathematical, as in Python)."""
import z3

from .core import Unsupported, PathDone, cur, in_ctx


class Sym:
    __slots__ = ()

    def __deepcopy__(self, memo):
        c = self.copy() if getattr(type(self), "mutable", False) else self
        return c

    def __copy__(self):
        return self

    def __hash__(self):
        raise Unsupported("hash of a symbolic %s" % type(self).__name__)


def is_sym(x):
    return isinstance(x, Sym)


def tint(x):
    """z3 Int term of a native or symbolic int"""
    if isinstance(x, SInt):
        return x.t
    if isinstance(x, z3.ArithRef):
        return x
    if isinstance(x, SBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    import numpy as np
    if isinstance(x, np.integer):
        return z3.IntVal(int(x))
    raise Unsupported("not an int: %s" % type(x).__name__)


def isintlike(x):
    import numpy as np
    return isinstance(x, (SInt, int, np.integer)) or isinstance(x, SBool)


def tbool(x):
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, SInt):
        return x.t != 0
    if isinstance(x, SStr):
        return z3.Length(x.t) > 0
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, Sym) and hasattr(x, "truth"):
        return x.truth()
    return z3.BoolVal(bool(x))


class SBool(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return cur().branch(self.t)

    def __repr__(self):
        return "<SBool %s>" % self.t

    def __and__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(z3.And(self.t, tbool(o)))
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(z3.Or(self.t, tbool(o)))
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(z3.Xor(self.t, tbool(o)))
        return NotImplemented

    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.t))

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(self.t == tbool(o))
        if isinstance(o, (int, SInt)):
            return mkbool(tint(self) == tint(o))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    __hash__ = Sym.__hash__

    def __int__(self):
        return 1 if self else 0

    __index__ = __int__

    def __add__(self, o):
        return SInt(tint(self)) + o

    __radd__ = __add__


def mkbool(t):
    if isinstance(t, bool):
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def mkint(t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SInt(t)


def _cmp(op):
    def f(self, o):
        if not isintlike(o):
            return NotImplemented
        return mkbool(op(self.t, tint(o)))
    return f


class SInt(Sym):
    __slots__ = ("t",)
    __class__ = property(lambda self: int)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "<SInt %s>" % self.t

    def __format__(self, spec):
        return "<int>"

    def __str__(self):
        return "<int>"

    def _bin(op):
        def f(self, o):
            if not isintlike(o):
                return NotImplemented
            return mkint(op(self.t, tint(o)))
        return f

    def _rbin(op):
        def f(self, o):
            if not isintlike(o):
                return NotImplemented
            return mkint(op(tint(o), self.t))
        return f

    __add__ = _bin(lambda a, b: a + b)
    __radd__ = _rbin(lambda a, b: a + b)
    __sub__ = _bin(lambda a, b: a - b)
    __rsub__ = _rbin(lambda a, b: a - b)
    __mul__ = _bin(lambda a, b: a * b)
    __rmul__ = _rbin(lambda a, b: a * b)

    def _divmod(self, o):
        if not isintlike(o):
            return None
        d = tint(o)
        if not z3.is_int_value(d) or d.as_long() <= 0:
            raise Unsupported("division by a symbolic or negative number")
        return d

    def __floordiv__(self, o):
        d = self._divmod(o)
        return NotImplemented if d is None else mkint(self.t / d)

    def __mod__(self, o):
        d = self._divmod(o)
        return NotImplemented if d is None else mkint(self.t % d)

    def __rmod__(self, o):
        raise Unsupported("% by a symbolic number")

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        raise Unsupported("float division")

    def __and__(self, o):
        """with a constant: its runs of set bits, as div and mod"""
        if not isintlike(o):
            return NotImplemented
        c = tint(o)
        if not z3.is_int_value(c) or c.as_long() < 0:
            raise Unsupported("& with a symbolic or negative number")
        c, lo, t = c.as_long(), 0, z3.IntVal(0)
        while c >> lo:
            if not (c >> lo) & 1:
                lo += 1
                continue
            hi = lo
            while (c >> hi) & 1:
                hi += 1
            t = t + (self.t / (1 << lo)) % (1 << (hi - lo)) * (1 << lo)
            lo = hi
        return mkint(z3.simplify(t))

    __rand__ = __and__

    def __or__(self, o):
        r = self.__and__(o)
        return r if r is NotImplemented else self + o - r

    def __xor__(self, o):
        r = self.__and__(o)
        return r if r is NotImplemented else self + o - r - r

    __ror__, __rxor__ = __or__, __xor__

    def __invert__(self):
        return mkint(-self.t - 1)

    def __lshift__(self, o):
        return self * (1 << o)

    def __rshift__(self, o):
        return self // (1 << o)

    def __neg__(self):
        return mkint(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.t >= 0, self.t, -self.t))

    __lt__ = _cmp(lambda a, b: a < b)
    __le__ = _cmp(lambda a, b: a <= b)
    __gt__ = _cmp(lambda a, b: a > b)
    __ge__ = _cmp(lambda a, b: a >= b)

    def __eq__(self, o):
        if not isintlike(o):
            return NotImplemented if hasattr(type(o), "is_number") else False
        return mkbool(self.t == tint(o))

    def __ne__(self, o):
        if not isintlike(o):
            return NotImplemented if hasattr(type(o), "is_number") else True
        return mkbool(self.t != tint(o))

    __hash__ = Sym.__hash__

    def __bool__(self):
        return cur().branch(self.t != 0)

    def __index__(self):
        # a native container or C function wants a machine value: only a
        # value fixed by the path condition may cross this boundary
        v = fixed_value(self.t)
        if v is None:
            raise Unsupported("native code needs the value of a symbolic int")
        return v

    def __int__(self):
        return self.__index__()

    def __float__(self):
        raise Unsupported("float of a symbolic int")

    def bit_length(self):
        return SBits(self.t)


class SBits(Sym):
    """bit length of an int, to be compared with a constant"""
    __slots__ = ("t",)
    __class__ = property(lambda self: int)

    def __init__(self, t):
        self.t = t

    def _le(self, k):
        if isinstance(k, bool) or type(k) is not int:
            raise Unsupported("bit length against a symbolic value")
        if k < 0:
            return False
        return mkbool(z3.And(self.t < 2 ** k, self.t > -2 ** k))

    def __le__(self, k):
        return self._le(k)

    def __lt__(self, k):
        return self._le(k - 1)

    def __gt__(self, k):
        r = self._le(k)
        return ~r if is_sym(r) else not r

    def __ge__(self, k):
        return self.__gt__(k - 1)

    def __eq__(self, k):
        return (self <= k) & (self >= k)

    def __ne__(self, k):
        return (self < k) | (self > k)

    __hash__ = Sym.__hash__

    def _none(self, *a):
        raise Unsupported("arithmetic on a bit length")

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __floordiv__ = __index__ = __bool__ = _none


def fixed_value(t):
    ctx = cur()
    s = z3.Solver()
    s.set("timeout", 2000)
    s.add(*[p for p in ctx.pc])
    if s.check() != z3.sat:
        return None
    v = s.model().eval(t, model_completion=True)
    if not z3.is_int_value(v):
        return None
    return v.as_long() if ctx.entails(t == v) else None


class SStr(Sym):
    """z3 sequence-of-characters value"""
    __slots__ = ("t",)
    __class__ = property(lambda self: str)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "<SStr>"

    def __str__(self):
        return "<str>"

    def __format__(self, spec):
        return "<str>"

    def __bool__(self):
        return cur().branch(z3.Length(self.t) > 0)

    def __eq__(self, o):
        if not isinstance(o, (str, SStr)):
            return False
        return mkbool(self.t == tstr(o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    __hash__ = Sym.__hash__

    def __add__(self, o):
        if not isinstance(o, (str, SStr)):
            return NotImplemented
        return mkstr(z3.Concat(self.t, tstr(o)))

    def __radd__(self, o):
        if not isinstance(o, (str, SStr)):
            return NotImplemented
        return mkstr(z3.Concat(tstr(o), self.t))

    def slen(self):
        return mkint(z3.Length(self.t))

    def __len__(self):
        return self.slen().__index__() if is_sym(self.slen()) else self.slen()

    def __contains__(self, o):
        return bool(mkbool(z3.Contains(self.t, tstr(o))))

    def __iter__(self):
        raise Unsupported("iteration over a symbolic string")

    def __getitem__(self, k):
        n = z3.Length(self.t)
        if isinstance(k, slice) and k.step in (None, 1) and all(x is None or type(x) is int for x in (k.start, k.stop)):
            if not k.start and k.stop is not None and k.stop < 0:
                return mkstr(z3.SubString(self.t, 0, n + k.stop))    # '' when too short
            at = lambda x: z3.IntVal(x) if x >= 0 else z3.If(n + x > 0, n + x, 0)
            a = at(k.start or 0)
            if k.stop is None:
                return mkstr(z3.SubString(self.t, a, n))
            return mkstr(z3.SubString(self.t, a, at(k.stop) - a))
        if type(k) is int:
            i = z3.IntVal(k) if k >= 0 else n + k
            if not cur().branch(z3.And(i >= 0, i < n)):
                raise IndexError("string index out of range")
            return mkstr(z3.SubString(self.t, i, 1))
        raise Unsupported("a part of a symbolic string")

    def startswith(self, p):
        if isinstance(p, tuple):
            return mkbool(z3.Or(*[z3.PrefixOf(tstr(x), self.t) for x in p]))
        return mkbool(z3.PrefixOf(tstr(p), self.t))

    def endswith(self, p):
        if isinstance(p, tuple):
            return mkbool(z3.Or(*[z3.SuffixOf(tstr(x), self.t) for x in p]))
        return mkbool(z3.SuffixOf(tstr(p), self.t))

    def upper(self):
        cur().eng.stats.trust("str.upper and str.lower are functions of the text")
        return SStr(UPPER(self.t))

    def lower(self):
        cur().eng.stats.trust("str.upper and str.lower are functions of the text")
        return SStr(LOWER(self.t))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("str.%s of a symbolic string" % name)


def tstr(x):
    if isinstance(x, SStr):
        return x.t
    if isinstance(x, str):
        return z3.StringVal(x)
    raise Unsupported("not a str: %s" % type(x).__name__)


def mkstr(t):
    t = z3.simplify(t)
    if z3.is_string_value(t):
        return t.as_string()
    return SStr(t)


UPPER = z3.Function("upper", z3.StringSort(), z3.StringSort())
LOWER = z3.Function("lower", z3.StringSort(), z3.StringSort())

Val = z3.DeclareSort("Val")


class SId(SStr):
    """any text usable as key of native dicts and sets
    (equal hashes, so that every lookup asks ==, which decides the path)"""
    __slots__ = ()

    def __hash__(self):
        return 4711

    def __eq__(self, o):
        if not isinstance(o, SId) or not in_ctx():
            return SStr.__eq__(self, o)
        # decided at once, and what follows from earlier decisions is reused
        c = cur()
        memo = c.__dict__.setdefault("id_classes", ({}, set()))
        up, apart = memo

        def rep(t):
            k = t.get_id()
            while k in up:
                k = up[k]
            return k
        a, b = rep(self.t), rep(o.t)
        if a == b:
            return True
        if (a, b) in apart:
            return False
        c.__dict__.setdefault("id_terms", []).extend((self.t, o.t))
        if c.branch(self.t == o.t):
            up[a] = b
            memo[1].update([(b if x == a else x, b if y == a else y) for x, y in apart])
            return True
        apart.update(((a, b), (b, a)))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r


class SAny(Sym):
    """An arbitrary user object: identity-free, only equality and truth are
    observable (uninterpreted), so any proof holds for whatever it is."""
    __slots__ = ("t", "label")

    def __init__(self, t, label=""):
        self.t, self.label = t, label

    def __repr__(self):
        return "<any %s>" % self.label

    __str__ = __repr__

    def __format__(self, spec):
        return "<any>"

    def __eq__(self, o):
        if o is self:
            return True
        if isinstance(o, SAny):
            return mkbool(self.t == o.t)
        if o is None:
            return False
        raise Unsupported("== between an opaque value and %s" % type(o).__name__)

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    __hash__ = Sym.__hash__

    def __bool__(self):
        return cur().branch(truth_of(self.t))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("attribute %s of an opaque value" % name)


truth_of = z3.Function("truth_of", Val, z3.BoolSort())


def same(a, b):
    """Strict structural equality of results, as a z3 Bool term (no forks)."""
    if a is b:
        return z3.BoolVal(True)
    if isinstance(a, Sym) or isinstance(b, Sym):
        if isinstance(a, SInt) or isinstance(b, SInt):
            if not (isintlike(a) and isintlike(b)):
                return z3.BoolVal(False)
            return tint(a) == tint(b)
        if isinstance(a, SBool) or isinstance(b, SBool):
            if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
                return tbool(a) == tbool(b)
            return z3.BoolVal(False)
        if isinstance(a, SStr) or isinstance(b, SStr):
            if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
                return tstr(a) == tstr(b)
            return z3.BoolVal(False)
        if isinstance(a, SAny) and isinstance(b, SAny):
            return a.t == b.t
        for x, y in ((a, b), (b, a)):
            f = getattr(type(x), "same_as", None)
            if f is not None:
                return f(x, y)
        return z3.BoolVal(False)
    import numpy as np
    if isinstance(a, np.generic):
        a = a.item()
    if isinstance(b, np.generic):
        b = b.item()
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape:
            return z3.BoolVal(False)
        return z3.And(*[same(x, y) for x, y in zip(a.ravel(), b.ravel())]) \
            if a.size else z3.BoolVal(True)
    if type(a) is not type(b):
        if not (isinstance(a, (int, bool)) and isinstance(b, (int, bool)) and
                isinstance(a, bool) == isinstance(b, bool)):
            return z3.BoolVal(False)
    if isinstance(a, (tuple, list)):
        if len(a) != len(b):
            return z3.BoolVal(False)
        return z3.And(*[same(x, y) for x, y in zip(a, b)]) if len(a) else z3.BoolVal(True)
    if isinstance(a, dict):
        if list(a.keys()) != list(b.keys()) and set(a) != set(b):
            return z3.BoolVal(False)
        return z3.And(*[same(a[k], b[k]) for k in a]) if a else z3.BoolVal(True)
    try:
        if a != a and b != b:
            return z3.BoolVal(True)
    except Exception:
        pass
    return z3.BoolVal(bool(a == b))
