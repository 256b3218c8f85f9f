"""
Symbolic documents: arbitrary trees of mappings, sequences and leaves, seen
only through indexing, attribute access and isinstance (uninterpreted
functions), so a proof holds for every document.
"""
import collections.abc as cabc

import z3

from .core import Unsupported, cur
from .vals import *
from .vals import Val
from . import loops

B, I, S = z3.BoolSort(), z3.IntSort(), z3.StringSort()
kind = z3.Function("kind", Val, I)        # 0 other, 1 mapping, 2 list-like, 3 str
has_k = z3.Function("has_key", Val, Val, B)
child_k = z3.Function("child_key", Val, Val, Val)
len_i = z3.Function("seq_len", Val, I)
child_i = z3.Function("child_idx", Val, I, Val)
has_a = z3.Function("has_attr", Val, Val, B)
child_a = z3.Function("child_attr", Val, Val, Val)
lit = z3.Function("key_literal", S, Val)
is_int = z3.Function("key_is_int", Val, B)
int_of = z3.Function("key_int", Val, I)
_isnone = z3.Function("is_none", Val, B)


class SKey(Sym):
    """a string key or path step"""
    __slots__ = ("t",)
    __class__ = property(lambda self: str)
    havocable = True

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "<key>"

    __str__ = __repr__

    def __format__(self, s):
        return "<key>"

    def __eq__(self, o):
        if isinstance(o, SKey):
            return mkbool(self.t == o.t)
        if type(o) is str:
            return mkbool(self.t == literal(o))
        return False

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r

    __hash__ = Sym.__hash__

    def __bool__(self):
        return cur().branch(self.t != literal(""))

    def truth(self):
        return self.t != literal("")

    def same_as(self, o):
        if isinstance(o, SKey):
            return self.t == o.t
        return self.t == literal(o) if type(o) is str else z3.BoolVal(False)

    def to_int(self):
        if cur().branch(is_int(self.t)):
            return SInt(int_of(self.t))
        raise ValueError("invalid literal for int()")

    def to_str(self):
        return self

    def getattr_sym(self, x, *d):
        if isinstance(x, SDoc):
            if cur().branch(has_a(x.t, self.t)):
                return SDoc(child_a(x.t, self.t))
            if d:
                return d[0]
            raise AttributeError("no attribute")
        raise Unsupported("getattr with an unknown name")

    def isinstance_sym(self, c):
        return c in (str, object, cabc.Sequence, cabc.Iterable, cabc.Sized, cabc.Container,
                     cabc.Hashable)


def literal(s):
    c = cur()
    t = lit(z3.StringVal(s))
    seen = c.__dict__.setdefault("key_lits", {})
    if s not in seen:
        for o, u in seen.items():
            c.assume(t != u)
        try:
            c.assume(z3.And(is_int(t), int_of(t) == int(s)))
        except ValueError:
            c.assume(z3.Not(is_int(t)))
        seen[s] = t
    return t


def key_term(k):
    if isinstance(k, SKey):
        return k.t
    if type(k) is str:
        return literal(k)
    return None


class SDoc(Sym):
    """any object of a document"""
    __slots__ = ("t",)
    havocable = True

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "<doc>"

    __str__ = __repr__

    def __format__(self, s):
        return "<doc>"

    __hash__ = Sym.__hash__

    def __eq__(self, o):
        if isinstance(o, SDoc):
            return mkbool(self.t == o.t)
        raise Unsupported("== of a document")

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r

    def truth(self):
        return truth_of(self.t)

    def __bool__(self):
        return cur().branch(truth_of(self.t))

    def is_sym_identity(self, o):
        if isinstance(o, SDoc):
            return mkbool(self.t == o.t)
        if o is None:
            c = cur()
            c.assume(z3.Implies(_isnone(self.t), z3.And(kind(self.t) == 0,
                                                        z3.Not(truth_of(self.t)))))
            return mkbool(_isnone(self.t))
        return False

    def same_as(self, o):
        return self.t == o.t if isinstance(o, SDoc) else z3.BoolVal(False)

    def isinstance_sym(self, c):
        k = kind(self.t)
        cur().assume(z3.And(0 <= k, k <= 3))
        if c is cabc.Sequence:
            return mkbool(z3.Or(k == 2, k == 3))
        if c is str:
            return mkbool(k == 3)
        if c is cabc.Mapping:
            return mkbool(k == 1)
        raise Unsupported("isinstance(document, %s)" % c)

    def slen(self):
        if cur().branch(kind(self.t) == 2):
            cur().assume(len_i(self.t) >= 0)
            return SInt(len_i(self.t))
        raise Unsupported("len of a document that is not a list")

    def __getitem__(self, k):
        c = cur()
        if c.writes:
            raise Unsupported("reading a document after writing to it")
        c.assume(z3.And(0 <= kind(self.t), kind(self.t) <= 3))
        if c.branch(kind(self.t) == 1):
            kt = key_term(k)
            if kt is None:
                raise Unsupported("mapping indexed by %s" % type(k).__name__)
            if c.branch(has_k(self.t, kt)):
                return SDoc(child_k(self.t, kt))
            raise KeyError(k)
        if c.branch(z3.Or(kind(self.t) == 2, kind(self.t) == 3)):
            if not isintlike(k):
                raise TypeError("indices must be integers")
            n = len_i(self.t)
            c.assume(n >= 0)
            i = tint(k)
            if not c.branch(z3.And(i < n, i >= -n)):
                raise IndexError("index out of range")
            return SDoc(child_i(self.t, z3.If(i < 0, i + n, i)))
        raise TypeError("not subscriptable")

    def __setitem__(self, k, v):
        c = cur()
        if c.branch(kind(self.t) == 1):
            c.writes.append(("key", self.t, key_term(k), v))
            return
        if c.branch(kind(self.t) == 2):
            if not isintlike(k):
                raise TypeError("indices must be integers")
            n, i = len_i(self.t), tint(k)
            c.assume(n >= 0)
            if not c.branch(z3.And(i < n, i >= -n)):
                raise IndexError("assignment index out of range")
            c.writes.append(("idx", self.t, z3.If(i < 0, i + n, i), v))
            return
        raise TypeError("item assignment")

    def append(self, v):
        c = cur()
        if c.branch(kind(self.t) == 2):
            c.assume(len_i(self.t) >= 0)
            c.writes.append(("idx", self.t, len_i(self.t), v))
            return
        raise AttributeError("append")


class SNew(Sym):
    """an object a factory made in this run"""

    def __init__(self):
        self.items = []

    def __setitem__(self, k, v):
        self.items.append((k, v))

    def snapshot(self):
        return list(self.items)

    def __repr__(self):
        return "<new>"

    def same_as(self, o):
        """o: nested (key, value) pair list, outermost first"""
        return z3.BoolVal(self is o)


class SPath(Sym):
    """the string  p_0 / p_1 / ... / p_n  of n+1 '/'-separated pieces"""
    __class__ = property(lambda self: str)

    def __init__(self, name, n):
        self.n = n                                   # number of pieces
        self.f = z3.Function(name + ".piece", I, Val)

    def __repr__(self):
        return "<path>"

    __str__ = __repr__

    def __format__(self, s):
        return "<path>"

    def piece(self, i):
        return SKey(self.f(tint(i)))

    def split(self, sep=None, *a):
        if sep != "/" or a:
            raise Unsupported("split of a path by %r" % (sep,))
        cur().eng.stats.trust("str.split('/') returns the '/'-separated pieces of a string")
        return loops.SList(self.n, lambda i: SKey(self.f(i)))

    def isinstance_sym(self, c):
        return c in (str, object)
