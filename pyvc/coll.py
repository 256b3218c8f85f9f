"""
Symbolic collections of opaque values: tuples of any length (STup) and
mappings with any keys (SMap).
"""
import z3

from .core import Unsupported, cur
from .vals import *
from .vals import Val
from . import loops, docs
from .docs import SKey, SDoc, len_i, child_i, key_term

I, B = z3.IntSort(), z3.BoolSort()


def elem_term(x):
    if isinstance(x, Sym) and hasattr(x, "t") and x.t.sort() == Val:
        return x.t
    if type(x) is str:
        return docs.literal(x)
    raise Unsupported("a %s inside a symbolic tuple" % type(x).__name__)


class STup(Sym):
    """a tuple of any length; elements wrapped by `wrap`"""
    __class__ = property(lambda self: tuple)
    havocable = True

    def __init__(self, t, wrap=SKey):
        """t: a Val constant standing for the tuple"""
        self.t, self.wrap = t, wrap
        cur().assume(len_i(t) >= 0)

    @classmethod
    def make(cls, n, get, wrap=SKey):
        """a tuple given by its length and element function (z3 terms)"""
        c = cur()
        t = z3.Const(c.fresh("tup"), Val)
        c.assume(len_i(t) == n)
        i = z3.Int(c.fresh("ti"))
        c.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), child_i(t, i) == get(i)),
                           patterns=[child_i(t, i)]))
        r = cls(t, wrap)
        r.get0 = get
        return r

    get0 = None

    def get(self, i):
        """element term"""
        return self.get0(i) if self.get0 is not None else child_i(self.t, i)

    @property
    def n(self):
        return len_i(self.t)

    def __repr__(self):
        return "<tuple>"

    __str__ = __repr__

    def __format__(self, s):
        return "<tuple>"

    def isinstance_sym(self, c):
        return c in (tuple, object)

    def slen(self):
        return mkint(self.n)

    def __bool__(self):
        return cur().branch(self.n > 0)

    def truth(self):
        return self.n > 0

    def symiter(self):
        return loops.SymSeq(mkint(self.n), lambda i: self.wrap(self.get(i)))

    def __getitem__(self, k):
        c = cur()
        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unsupported("tuple slice step")
            if (k.start, k.stop) == (-1, None):
                if c.branch(self.n > 0):
                    return (self.wrap(z3.simplify(self.get(self.n - 1))),)
                return ()
            if k.start in (None, 0) and k.stop == -1:
                if c.branch(self.n > 0):
                    return STup.make(self.n - 1, self.get, self.wrap)
                return ()
            if k.start in (None, 0) and k.stop is None:
                return self
            raise Unsupported("slice of a tuple of any length")
        n, i = self.n, tint(k)
        if not c.branch(z3.And(i < n, i >= -n)):
            raise IndexError("tuple index out of range")
        return self.wrap(self.get(z3.simplify(z3.If(i < 0, i + n, i))))

    def __add__(self, o):
        if isinstance(o, STup):
            raise Unsupported("joining two tuples of any length")
        if type(o) is not tuple:
            return NotImplemented
        n, g = self.n, self.get
        ts = [elem_term(x) for x in o]
        if not ts:
            return self

        def get(i):
            r = ts[-1]
            for j in range(len(ts) - 2, -1, -1):
                r = z3.If(i == n + j, ts[j], r)
            return z3.If(i < n, g(i), r)
        return STup.make(n + len(ts), get, self.wrap)

    def same_as(self, o):
        if isinstance(o, STup):
            i = z3.Int(cur().fresh("eq"))
            if self.t.eq(o.t):
                return z3.BoolVal(True)
            return z3.Or(self.t == o.t, z3.And(self.n == o.n, z3.ForAll([i], z3.Implies(
                z3.And(0 <= i, i < self.n), self.get(i) == o.get(i)))))
        if type(o) is tuple:
            return z3.And(self.n == len(o), *[self.get(z3.IntVal(i)) == elem_term(x)
                                              for i, x in enumerate(o)])
        return z3.BoolVal(False)

    def __eq__(self, o):
        return mkbool(self.same_as(o))

    def __ne__(self, o):
        return mkbool(z3.Not(self.same_as(o)))

    __hash__ = Sym.__hash__


MAP = z3.ArraySort(Val, Val)
absent = z3.Const("no_entry", Val)
size_m = z3.Function("map_size", MAP, I)
key_m = z3.Function("map_key", MAP, I, Val)
pos_m = z3.Function("map_pos", MAP, Val, I)


class SMap(Sym):
    """a dict with any entries; its content is the array `t` (absent: no
    entry).  Iteration order is arbitrary."""
    __class__ = property(lambda self: dict)
    havocable = True
    mutable = True
    wrap = SDoc
    kwrap = SKey

    def __init__(self, t):
        self.t = t

    def _axioms(self):
        """-> the content as a constant, with what its order means"""
        c, t = cur(), self.t
        seen = c.__dict__.setdefault("map_consts", {})
        ent = seen.get(t.get_id())
        if ent is not None:
            return ent[1]
        m = t
        x = z3.Const(c.fresh("mx"), Val)
        if not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            m = z3.Const(c.fresh("map"), MAP)
            c.assume(z3.ForAll([x], m[x] == t[x], patterns=[m[x]]))
        seen[t.get_id()] = (t, m)
        i = z3.Int(c.fresh("mi"))
        n = size_m(m)
        c.assume(n >= 0)
        c.assume(z3.ForAll([x], z3.Implies(m[x] != absent, z3.And(
            0 <= pos_m(m, x), pos_m(m, x) < n, key_m(m, pos_m(m, x)) == x)), patterns=[pos_m(m, x), m[x]]))
        c.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(
            m[key_m(m, i)] != absent, pos_m(m, key_m(m, i)) == i)), patterns=[key_m(m, i)]))
        c.assume(z3.Implies(n == 0, z3.ForAll([x], m[x] == absent, patterns=[m[x]])))
        return m

    def __repr__(self):
        return "<dict>"

    __str__ = __repr__

    def __format__(self, s):
        return "<dict>"

    def isinstance_sym(self, c):
        import collections.abc as cabc
        return c in (dict, object, cabc.Mapping, cabc.MutableMapping, cabc.Container,
                     cabc.Iterable, cabc.Sized)

    def snapshot(self):
        return self.t.get_id(), str(self.t)

    def slen(self):
        return mkint(size_m(self._axioms()))

    def __bool__(self):
        return cur().branch(size_m(self._axioms()) > 0)

    def is_sym_identity(self, o):
        return self is o

    def copy(self):
        return type(self)(self.t)

    __copy__ = copy

    def has(self, k):
        return self.t[elem_term(k)] != absent

    def contains_sym(self, k):
        return mkbool(self.has(k))

    __contains__ = contains_sym

    def get(self, k, d=None):
        if cur().branch(self.has(k)):
            return self.wrap(self.t[elem_term(k)])
        return d

    def __getitem__(self, k):
        if cur().branch(self.has(k)):
            return self.wrap(self.t[elem_term(k)])
        raise KeyError(k)

    def __setitem__(self, k, v):
        vt = elem_term(v)
        cur().assume(vt != absent)
        self.t = z3.Store(self.t, elem_term(k), vt)

    def pop(self, k, *d):
        kt = elem_term(k)
        if cur().branch(self.t[kt] != absent):
            v = self.wrap(self.t[kt])
            self.t = z3.Store(self.t, kt, absent)
            return v
        if d:
            return d[0]
        raise KeyError(k)

    def __delitem__(self, k):
        self.pop(k)

    def _iter(self, show):
        t, m = self.t, self._axioms()
        seq = loops.SymSeq(mkint(size_m(m)), lambda i: show(key_m(m, i), m), ("items", m))
        seq.live = (self, lambda i: show(key_m(m, i), self.t), t)
        return seq

    def items(self):
        return self._iter(lambda k, t: (self.kwrap(k), self.wrap(t[k])))

    def keys(self):
        return self._iter(lambda k, t: self.kwrap(k))

    symiter = keys

    def values(self):
        return self._iter(lambda k, t: self.wrap(t[k]))

    def update(self, o=(), **kw):
        m = o.as_map() if hasattr(type(o), "as_map") else o
        if isinstance(m, SMap):
            x = z3.Const("upd_x", Val)
            self.t = z3.Lambda([x], z3.If(m.t[x] != absent, m.t[x], self.t[x]))
        else:
            for k, v in dict(m, **kw).items():
                self[k] = v
            return
        for k, v in kw.items():
            self[k] = v

    def setdefault(self, k, d=None):
        if not cur().branch(self.has(k)):
            self[k] = d
        return self[k]

    def same_as(self, o):
        if isinstance(o, SMap):
            return self.t == o.t
        if type(o) is dict and not o:
            return self.t == z3.K(Val, absent)
        return z3.BoolVal(False)

    def __eq__(self, o):
        return mkbool(self.same_as(o))

    __hash__ = Sym.__hash__


class BMap(SMap):
    """a dict compared entry by entry"""

    def same_as(self, o):
        if isinstance(o, SMap):
            if self.t.eq(o.t):
                return z3.BoolVal(True)
            x = z3.Const(cur().fresh("ent"), Val)
            return z3.ForAll([x], self.t[x] == o.t[x])
        if type(o) is dict and not o:
            x = z3.Const(cur().fresh("ent"), Val)
            return z3.ForAll([x], self.t[x] == absent)
        return z3.BoolVal(False)

    def snapshot(self):
        return self.t.get_id(), self.t


class SJoin(Sym):
    """sep.join(tuple)"""
    __class__ = property(lambda self: str)

    def __init__(self, sep, tup):
        self.sep, self.tup = sep, tup

    def __repr__(self):
        return "<joined>"

    __str__ = __repr__

    def __format__(self, s):
        return "<joined>"

    def isinstance_sym(self, c):
        return c in (str, object)

    def same_as(self, o):
        if isinstance(o, SJoin) and o.sep == self.sep:
            return same(self.tup, o.tup)
        return z3.BoolVal(False)


def install(rt):
    import functools

    def join(sep, xs):
        if isinstance(xs, STup):
            return SJoin(sep, xs)
        return sep.join(xs)
    rt.METHODS[(str, "join")] = join

    def mkdict(*a, **kw):
        if len(a) == 1 and hasattr(type(a[0]), "as_map") and not kw:
            return a[0].as_map()
        if len(a) == 1 and isinstance(a[0], SMap):
            if kw:
                raise Unsupported("dict(any dict, extra keys)")
            return a[0].copy()
        return dict(*a, **kw)
    rt.MODELS[dict] = mkdict

    def reduce(f, xs, *init):
        seq = rt.symiter(xs)
        if seq is None:
            return functools.reduce(lambda a, b: rt.call(f, a, b), xs, *init)
        if not init:
            raise Unsupported("reduce of a sequence of any length without a start value")
        return rt.hooked(_reduce)(f, seq, as_stup(init[0]))
    rt.MODELS[functools.reduce] = reduce
    rt.EXTRA_FUNCS.add((__name__, "_reduce"))


def as_stup(x):
    if type(x) is not tuple:
        return x
    ts = [elem_term(e) for e in x]

    def get(i):
        r = docs.literal("")
        for j, t in enumerate(ts):
            r = z3.If(i == j, t, r)
        return r
    return STup.make(z3.IntVal(len(ts)), get)


def _reduce(f, seq, acc):
    for x in seq:
        acc = f(acc, x)
    return acc
