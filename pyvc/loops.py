"""
Loop rules.

A loop over a symbolic number of iterations is proved with an invariant

    I(k):  carried variables == vals(k)   and   facts(k)

where `vals`/`facts` come either from a handler attached to the contract
under verification (fold specification, bound to variables by role) or from
an automatic rule (unchanged / affine / appended-to variables plus "every
earlier iteration continued").  Inferred or supplied, the invariant is never
trusted: I(0) and I(k) ==> I(k+1) are obligations, and everything the body
changes that the invariant does not mention makes the run unsupported.
"""
import gc
import sys
import types

import numpy as np
import z3

from .core import Unsupported, PathDone, NeedSummary, cur, in_ctx, _tls, has_quant
from .vals import (Val, Sym, SInt, SBool, SStr, SAny, mkbool, mkint, tint, tbool, is_sym, isintlike,
                   same)


class Poison(Sym):
    """A variable whose value after the loop (or at iteration entry) is not known."""

    def __init__(self, name):
        object.__setattr__(self, "_n", name)

    def _bad(self, *a, **k):
        raise Unsupported("value of %r is not determined by the loop rule" %
                          object.__getattribute__(self, "_n"))

    def __getattr__(self, a):
        if a in ("same_as", "is_sym_identity", "slen", "symiter", "contains_sym", "to_int", "to_str",
                 "truth", "str_in"):
            raise AttributeError(a)
        self._bad()

    __bool__ = __len__ = __iter__ = __call__ = __getitem__ = __add__ = __radd__ = __sub__ = _bad
    __rsub__ = __mul__ = __lt__ = __le__ = __gt__ = __ge__ = __and__ = __or__ = __index__ = _bad
    __eq__ = __ne__ = __str__ = __format__ = __int__ = __contains__ = __setitem__ = _bad
    __iadd__ = __invert__ = __neg__ = _bad
    __hash__ = Sym.__hash__

    def __repr__(self):
        return "<undetermined %s>" % object.__getattribute__(self, "_n")


class SymSeq(Sym):
    """n elements (n None: infinite), element i (a z3 Int term) is get(i)."""

    def __init__(self, n, get, tag=None):
        self.n, self.get, self.tag = n, get, tag

    def symiter(self):
        return self

    def slen(self):
        if self.n is None:
            raise Unsupported("len of an infinite iterator")
        return mkint(tint(self.n))

    def __len__(self):
        n = self.slen()
        return n.__index__() if is_sym(n) else n

    def force(self):
        n = self.slen()
        if is_sym(n):
            raise Unsupported("native iteration over a sequence of unknown length")
        return [self.get(z3.IntVal(i)) for i in range(n)]

    def __iter__(self):
        return iter(self.force())

    def __bool__(self):
        return cur().branch(tint(self.n) > 0)

    def __getitem__(self, k):
        from .nparr import norm_index, norm_slice
        if isinstance(k, slice):
            off, st, ln = norm_slice(k, self.n)
            g = self.get
            return SymSeq(mkint(ln), lambda i: g(off + st * i))
        return self.get(norm_index(k, self.n))


class SList(SymSeq):
    """the list a comprehension or an appending loop builds"""
    __class__ = property(lambda self: list)

    def pop(self, i=-1):
        n = tint(self.n)
        if not cur().branch(n > 0):
            raise IndexError("pop from empty list")
        g = self.get
        self.n, self.tag = mkint(n - 1), None
        if i == 0:
            self.get = lambda j: g(j + 1)
            return g(z3.IntVal(0))
        if i == -1:
            return g(z3.simplify(n - 1))
        raise Unsupported("pop in the middle")

    def __add__(self, o):
        return joined(self, o)

    def __radd__(self, o):
        return joined(o, self)

    def snapshot(self):
        return (id(self.get), str(self.n))


def joined(a, b):
    """the list a + b, either of them of any length"""
    if not (isinstance(a, list) and isinstance(b, list)):
        return NotImplemented
    first = None if isinstance(a, SymSeq) else list(a)
    a, b = [SList(x.n, x.get) if isinstance(x, SymSeq) else seq_of_native(x) for x in (a, b)]
    n = tint(a.n)
    if z3.is_int_value(n) and n.as_long() == 0:
        return SList(b.n, b.get)
    if tint(b.n).eq(z3.IntVal(0)):
        return SList(a.n, a.get)
    if first and all(type(v) is SAny for v in first):
        return SList(mkint(n + tint(b.n)), lambda i: after(first, b.get, i))
    return SList(mkint(n + tint(b.n)), lambda i: a.get(i) if cur().branch(i < n) else b.get(z3.simplify(i - n)))


class BState:
    """content of a list under construction: n elements get(i), then a tail"""
    __slots__ = ("n", "get", "tail")

    def __init__(self, n, get, tail=()):
        self.n, self.get, self.tail = n, get, tuple(tail)

    def at(self, i):
        """element i (a term, inside the list)"""
        if not self.tail:
            return self.get(i)
        ctx = cur()
        n = tint(self.n)
        i = z3.simplify(i)
        if not (z3.is_int_value(n) and n.as_long() == 0) and ctx.branch(i < n):
            return self.get(i)
        for j, v in enumerate(self.tail[:-1]):
            if ctx.branch(i == n + j):
                return v
        return self.tail[-1]


def after(first, get, i):
    """element i of the list of `first` followed by those get gives"""
    v = get(i - len(first))
    if type(v) is not SAny:
        raise Unsupported("extending a list by any number of %r" % (v,))
    t = v.t
    for j, x in enumerate(first):
        t = z3.If(tint(i) == j, x.t, t)
    return SAny(t, v.label)


class SBuild(SList):
    """a list that a loop of any number of iterations appends to"""
    mutable = True
    tag = None

    def __init__(self, t=None):
        self.t = t if t is not None else BState(0, None)

    @property
    def n(self):
        return mkint(tint(self.t.n) + len(self.t.tail))

    @property
    def get(self):
        return self.t.at

    def append(self, v):
        t = self.t
        self.t = BState(t.n, t.get, t.tail + (v,))

    def extend(self, vs):
        seq = sys.modules["pyvc.rt"].symiter(vs)
        if seq is not None and is_sym(mkint(tint(seq.n))):
            seq = seq.snapshot_seq() if hasattr(seq, "snapshot_seq") else seq
            t = self.t
            if type(t.n) is int and t.n == 0 and not t.tail:
                self.t = BState(seq.n, seq.get)
            elif type(t.n) is int and t.n == 0 and all(type(v) is SAny for v in t.tail):
                self.t = BState(mkint(tint(seq.n) + len(t.tail)), lambda i: after(t.tail, seq.get, i))
            else:
                raise Unsupported("extending a list of any length by any number of elements")
            return
        for v in vs:
            self.append(v)

    def __iadd__(self, vs):
        self.extend(vs)
        return self

    def snapshot(self):
        return self.t

    def copy(self):
        return SBuild(self.t)

    def pop(self, i=-1):
        t = self.t
        if i != -1 or not t.tail:
            raise Unsupported("pop from a list of any length")
        self.t = BState(t.n, t.get, t.tail[:-1])
        return t.tail[-1]

    def __getattr__(self, name):
        if name.startswith("__") or name in ("to_int", "to_str", "truth", "contains_sym", "str_in", "symiter_",
                                             "concretize", "is_sym_identity"):
            raise AttributeError(name)
        raise Unsupported("list.%s of a list of any length" % name)


def newlist(site):
    """an empty list display"""
    if not in_ctx():
        return []
    ctx = cur()
    if site in ctx.eng.grow:
        return SBuild()
    l = []
    ctx.newlists[id(l)] = (l, site)
    return l


def newdict(site):
    """an empty dict display"""
    if not in_ctx():
        return {}
    ctx = cur()
    if site in ctx.eng.grow:
        return map_class()(z3.K(Val, absent_entry()))
    d = {}
    ctx.newlists[id(d)] = (d, site)
    return d


def dictx(site, pairs):
    """a dict display with ** in it; pairs: (True, mapping) or (False, (key, value))"""
    d = newdict(site)
    for star, x in pairs:
        if star:
            m = x.as_map() if hasattr(type(x), "as_map") else x
            if getattr(type(m), "mutable", False):
                if type(d) is dict and not d:
                    d = m.copy()
                elif type(d) is dict:
                    need_grow(d)
                else:
                    d.update(m)
            else:
                d.update(m)
        else:
            sys.modules["pyvc.rt"].setitem(d, *x)
    return d


def map_class():
    from .coll import SMap
    return getattr(cur().eng.contract, "map_class", SMap)


def absent_entry():
    from .coll import absent
    return absent


def list_extend(l, vs):
    """list.extend of a native list by any number of elements"""
    seq = sys.modules["pyvc.rt"].symiter(vs)
    if seq is not None and is_sym(mkint(tint(seq.n))):
        need_grow(l)
    l.extend(vs)


def need_grow(o):
    """the native list or dict `o`, made by a display, has to be symbolic"""
    ctx = cur()
    ent = ctx.newlists.get(id(o))
    if ent is None or ent[0] is not o:
        raise Unsupported("symbolic content of a native %s" % type(o).__name__)
    ctx.eng.growing.add(ent[1])
    raise Grow()


def dictcomp(site, f, seq):
    d = newdict(site)
    for x in seq:
        for k, v in f(x):
            d[k] = v
    return d


class Grow(BaseException):
    """a list display turned out to be filled by an unbounded loop"""


def prove_same(ctx, name, got, want):
    """got is the same as want, element by element for lists of any length"""
    if isinstance(got, list) and isinstance(want, list) and (isinstance(got, SList) or isinstance(want, SList)):
        got, want = [x if isinstance(x, SymSeq) else seq_of_native(x) for x in (got, want)]
    if isinstance(got, SList) or isinstance(want, SList):
        if not (isinstance(got, SymSeq) and isinstance(want, SymSeq)):
            ctx.prove(name, z3.BoolVal(False))
            return
        if isinstance(got, SBuild) and isinstance(want, SBuild) and got.t is want.t:
            return
        ctx.prove(name, tint(got.n) == tint(want.n))
        if ctx.choose(2) == 0:
            i = ctx.int("elem")
            ctx.assume(z3.And(0 <= i, i < tint(want.n)))
            prove_same(ctx, name, got.get(i), want.get(i))
            raise PathDone()
        return
    ctx.prove(name, same(got, want))


def seq_of_native(x):
    xs = list(x)

    def get(i):
        i = z3.simplify(i)
        if z3.is_int_value(i):
            return xs[i.as_long()]
        for j in range(len(xs)):
            if cur().branch(i == j):
                return xs[j]
        raise Unsupported("element outside a native sequence")
    return SymSeq(len(xs), get)


def to_list(seq):
    return SList(seq.n, seq.get, getattr(seq, "tag", None))


def sym_comp(kind, flat, seq, f):
    """comprehension over an unbounded sequence: element function composed.
    The generic element is evaluated once here so that an exception it may
    raise is not lost; filters are not supported."""
    if kind == "dict" and not flat:
        rt = sys.modules["pyvc.rt"]
        return rt.hooked(dictcomp)("comp:%s:%d" % (f.__code__.co_qualname, f.__code__.co_firstlineno), f, seq)
    if flat or kind in ("set", "dict"):
        raise Unsupported("%s comprehension over an unbounded sequence" % kind)
    ctx = cur()

    def get(i):
        c = cur()
        c.loop_stack.append(CompAt(seq, i))
        try:
            r = f(seq.get(i))
        finally:
            c.loop_stack.pop()
        if len(r) != 1:
            raise Unsupported("filtered comprehension over an unbounded sequence")
        return r[0]
    k = ctx.int("comp")
    # generic element: explored under 0 <= k < n in a path of its own
    if ctx.choose(2) == 0:
        ctx.assume(k >= 0)
        if seq.n is not None:
            ctx.assume(k < tint(seq.n))
        get(k)
        raise PathDone()
    return SList(seq.n, get)


class CompAt:
    """a comprehension, evaluating its element at k"""
    iter_ids = ()

    def __init__(self, seq, k):
        self.seq, self.k, self.ctx = seq, k, cur()


# ---------------------------------------------------------------------------

class NativeFor:
    sym = False

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return iter(self.it)

    def enter_iter(self):
        return False

    enter_exit = enter_iter

    def leaving(self):
        pass


class NativeWhile:
    sym = False

    def top(self):
        return False

    def leaving(self):
        pass


def _reach(frame, maxn=4000):
    """mutable native objects reachable from the frame's variables"""
    out = {}
    stack = [(v, 0) for v in frame.f_locals.values()]
    while stack:
        o, d = stack.pop()
        if isinstance(o, (Sym, type, types.ModuleType, str, bytes, int, float, bool)) or o is None:
            if isinstance(o, Sym) and not isinstance(o, Poison) and hasattr(o, "snapshot") and id(o) not in out:
                out[id(o)] = (o, o.snapshot())
                if isinstance(o, SBuild):
                    stack.extend((e, d + 1) for e in o.t.tail)
            continue
        if id(o) in out:
            continue
        if isinstance(o, types.FunctionType):
            if o.__closure__ and d < 6:
                out[id(o)] = (o, None)
                for c in o.__closure__:
                    try:
                        stack.append((c.cell_contents, d + 1))
                    except ValueError:
                        pass
            continue
        if len(out) > maxn or d > 8:
            continue
        if isinstance(o, np.ndarray):
            out[id(o)] = (o, o.copy())
        elif isinstance(o, (list, tuple)):
            out[id(o)] = (o, list(o) if isinstance(o, list) else None)
            stack.extend((e, d + 1) for e in o)
        elif isinstance(o, dict):
            out[id(o)] = (o, dict(o))
            stack.extend((e, d + 1) for e in o.values())
        elif isinstance(o, (set,)):
            out[id(o)] = (o, set(o))
        elif hasattr(o, "__dict__") and not isinstance(o, (Loop, NativeFor, NativeWhile)) \
                and type(o).__module__ not in ("pyvc.core", "pyvc.loops"):
            out[id(o)] = (o, dict(o.__dict__))
            stack.extend((e, d + 1) for e in o.__dict__.values())
    return out


def _changed(snap):
    out = []
    for o, c in snap.values():
        if c is None:
            continue
        if isinstance(o, Sym):
            x = o.snapshot()
            if x is not c and (isinstance(o, SBuild) or x != c):
                out.append((o, c))
        elif isinstance(o, np.ndarray):
            if o.shape != c.shape or any(x is not y and not (not is_sym(x) and not is_sym(y) and x == y)
                                         for x, y in zip(o.ravel(), c.ravel())):
                out.append((o, c))
        elif isinstance(o, list):
            if len(o) != len(c) or any(x is not y for x, y in zip(o, c)):
                out.append((o, c))
        elif isinstance(o, dict):
            if list(o) != list(c) or any(o[k] is not c[k] for k in c):
                out.append((o, c))
        elif isinstance(o, set):
            if o != c:
                out.append((o, c))
        elif hasattr(o, "__dict__"):
            d = o.__dict__
            if list(d) != list(c) or any(d[k] is not c[k] for k in c):
                out.append((o, c))
    return out


def cterm(x):
    return x.t if getattr(type(x), "havocable", False) else tint(x)


def fresh_like(ctx, x, nm):
    if getattr(type(x), "havocable", False):
        return type(x)(z3.Const(ctx.fresh("h_" + nm), x.t.sort()))
    return SInt(ctx.int("h_" + nm))


def wrap_like(x, t):
    if getattr(type(x), "havocable", False):
        return type(x)(t)
    return mkint(t)


def _no_elements(i):
    raise Unsupported("earlier elements of a list under construction")


def mutable_sym(v):
    """a symbolic object whose content `t` changes in place"""
    return getattr(type(v), "mutable", False)


def put_inplace(o, v):
    if mutable_sym(o):
        o.t = v.t
        return
    if o.dtype != object:
        raise Unsupported("in-place update of a native array in a symbolic loop")
    o[:] = v


def flatten(v):
    """scalar components of a havocable value, or None"""
    if getattr(type(v), "havocable", False):
        return [v]
    if isinstance(v, (SInt,)) or (isinstance(v, (int, np.integer)) and not isinstance(v, bool)):
        return [v]
    if isinstance(v, np.ndarray) and v.ndim == 1 and all(isintlike(x) for x in v):
        return list(v)
    if isinstance(v, tuple) and v and all(isintlike(x) for x in v):
        return list(v)
    return None


def rebuild(v, comps):
    if getattr(type(v), "havocable", False):
        return comps[0]
    if isinstance(v, np.ndarray):
        out = np.empty(len(comps), dtype=object)
        for i, c in enumerate(comps):
            out[i] = c
        from .nparr import OArr
        return out.view(OArr)
    if isinstance(v, tuple):
        return type(v)(*comps) if hasattr(v, "_fields") else tuple(comps)
    return comps[0]


class Fold:
    """
    Handler for a loop that computes a fold the specification defines by
    recursion.  `state(L, k)` gives the specification's state components after
    k iterations; the program's carried variables are bound to components by
    value at loop entry, not by name.  `applies(L)` selects loops (by the tag
    of the sequence iterated over); `facts(L, k)` are extra inductive facts.
    """

    def __init__(self, applies, state, facts=None, variant=None):
        self.applies, self.state, self.facts, self.variant = applies, state, facts, variant

    def __call__(self, key, plan, recs):
        if not recs or not self.applies(recs[0].loop):
            return None
        s = Summary()
        s.how = "fold"
        s.changed = list(plan["changed"])
        s.inplace = {nm: True for nm in plan["inplace"]}
        s.dynamic = self
        s.vals = self._vals
        s.facts = self.facts
        s.variant = self.variant
        s.covers = ()
        return s

    def _bind(self, L):
        objs = self.state(L, z3.IntVal(0))
        comps = [cterm(c) for c in objs]
        binding = {}
        for nm in L.summary.changed:
            e = L.all_entry.get(nm)
            fl = flatten(e) if e is not None else None
            if fl is None:
                continue
            idx = []
            for x in fl:
                xt = cterm(x)
                hit = [i for i, c in enumerate(comps) if c.sort() == xt.sort()
                       and (type(objs[i]) is type(x) or not is_sym(objs[i]) or not is_sym(x))
                       and L.ctx.entails(same(x, objs[i]) if hasattr(type(x), "same_as")
                                         else xt == c)]
                if not hit:
                    idx = None
                    break
                idx.append(hit)
            if idx is None:
                continue
            if len(fl) == len(comps) and all(i in h for i, h in enumerate(idx)):
                pick = list(range(len(fl)))
            else:
                pick = [h[0] for h in idx]
            binding[nm] = pick
        return binding

    def _vals(self, L, k):
        if L.binding is None:
            L.binding = self._bind(L)
        comps = self.state(L, k)
        return {nm: rebuild(L.all_entry[nm], [wrap_like(x, cterm(comps[i])) for i, x in
                                              zip(pick, flatten(L.all_entry[nm]))])
                for nm, pick in L.binding.items()}


class Build:
    """
    Handler for a loop that appends one element per iteration to a list:
    `elem(L, j)` is the specification's j-th element of it; `fresh`: none of
    them an object that was there before its iteration.
    """

    def __init__(self, applies, elem, fresh=False):
        self.applies, self.elem, self.fresh = applies, elem, fresh

    def __call__(self, key, plan, recs):
        if not recs or not self.applies(recs[0].loop) or any(
                not isinstance(recs[0].loop.all_entry.get(nm), SBuild) for nm in plan["inplace"]):
            return None
        s = Summary()
        s.how = "build"
        s.changed = list(plan["changed"])
        s.inplace = {nm: True for nm in plan["inplace"]}
        s.dynamic = self
        s.facts = None
        s.vals = self._vals
        s.covers = ()
        return s

    def _vals(self, L, k):
        out = {}
        for nm in L.summary.inplace:
            b = L.entry_built[nm]
            old = tint(b.n) + len(b.tail)

            def get(i, b=b, old=old):
                o = z3.simplify(old)
                if z3.is_int_value(o) and o.as_long() == 0:
                    return self.elem(L, i)
                if cur().branch(i < old):
                    return b.at(i)
                return self.elem(L, z3.simplify(i - old))
            out[nm] = SBuild(BState(SInt(z3.simplify(old + k)), get))
        return out


class Summary:
    dynamic = None

    def __init__(self):
        self.names = {}       # name -> treatment 'const' | 'poison' | 'vals'
        self.vals = None      # k term -> {name: value}
        self.facts = None     # k term -> z3 Bool
        self.inplace = {}     # name -> True when the ndarray object itself is mutated
        self.how = ""
        self.variant = None


class Loop:
    """state shared by symbolic for and while loops on one path"""
    sym = True

    def __init__(self, ctx, lid, names, frame, lineno):
        self.ctx, self.lid, self.names, self.frame, self.lineno = ctx, lid, names, frame, lineno
        self.key = (lid, tuple(ctx.dec))
        loc = frame.f_locals
        self.entry = {n: loc[n] for n in names if n in loc}
        self.cur_vals = {}
        self.k = None
        self.mode = None
        self.snap = None
        self.pc0 = None
        self.binding = None
        self.built = {}

    # emitted code asks for each name
    def has(self, name):
        return name in self.cur_vals

    def val(self, name):
        return self.cur_vals[name]

    # -- driving
    def start(self):
        ctx = self.ctx
        eng = ctx.eng
        self.all_entry = dict(self.frame.f_locals)
        if getattr(eng.contract, "tuples_grow", False):
            from .coll import as_stup
            for nm in self.names:
                if self.all_entry.get(nm) == ():
                    self.all_entry[nm] = as_stup(())
        self.iter_ids = {id(v): v for v in self.all_entry.values()
                         if not isinstance(v, Sym) and hasattr(v, "__next__")}
        ctx.loop_stack.append(self)
        self.entry_snap = _reach(self.frame)
        self.entry_built = {n: v.t for n, v in self.all_entry.items() if isinstance(v, SBuild)}
        self.entry_snap_t = {n: v.t for n, v in self.all_entry.items() if mutable_sym(v)}
        if self.key in ctx.dry:
            self.mode = "dry"
            self.plan = eng.dry_plan[self.key]
            return
        s = eng.summaries.get(self.key)
        if s is None:
            raise NeedSummary(self.key, list(ctx.dec))
        if isinstance(s, Exception):
            raise s
        self.summary = s
        self.mode = "real"
        self.free = bool(ctx.dry) and s.dynamic is not None
        if self.free:
            # only the shape of what changes matters while another loop is
            # being analysed
            return
        # I(0)
        if s.facts is not None:
            ctx.prove("loop %s: invariant holds on entry" % self.lid, s.facts(self, z3.IntVal(0)))
        if s.vals is not None:
            v0 = s.vals(self, z3.IntVal(0))
            if s.dynamic is not None:
                # which changed variables the invariant describes is known now
                s.names = {nm: "vals" if nm in v0 else "poison" for nm in s.changed}
                for nm in s.changed:
                    if nm in s.inplace and nm not in v0:
                        raise Unsupported("loop %s updates %s in place" % (self.lid, nm))
            for nm, v in v0.items():
                if not isinstance(v, SBuild):
                    ctx.prove("loop %s: %s on entry" % (self.lid, nm), same(self.all_entry[nm], v))

    def bound(self, strict):
        """0 <= k < n (or k <= n)"""
        t = self.k >= 0
        if self.seq is not None and self.seq.n is not None:
            n = tint(self.seq.n)
            t = z3.And(t, self.k < n if strict else self.k <= n)
        return t

    def havoc_dry(self):
        ctx = self.ctx
        self.k = ctx.int("k")
        ctx.assume(self.bound(True))
        self.pre_vals = {}
        self.fresh_syms = {}
        for nm in self.plan["changed"]:
            e = self.all_entry.get(nm)
            if isinstance(e, SBuild) and nm in self.plan["inplace"]:
                e.t = BState(SInt(ctx.int("len")), _no_elements)
                ctx.assume(tint(e.t.n) >= 0)
                self.cur_vals[nm] = e
                continue
            comps = flatten(e)
            if nm in self.plan["poison"] or comps is None:
                self.cur_vals[nm] = Poison(nm)
                continue
            fr = [fresh_like(ctx, c, nm) for c in comps]
            nv = rebuild(e, fr)
            if nm in self.plan["inplace"]:
                put_inplace(e, nv)
                self.cur_vals[nm] = e
            else:
                self.cur_vals[nm] = nv
            self.pre_vals[nm] = fr
            self.fresh_syms[nm] = fr
        self.npc = len(ctx.pc)
        self.snap = _reach_with(self.frame, self.cur_vals)

    def havoc_real(self, k, final):
        ctx = self.ctx
        s = self.summary
        self.k = k
        self.cur_vals = {}
        if self.free:
            for nm in s.changed:
                e = self.all_entry.get(nm)
                if isinstance(e, SBuild) and s.inplace.get(nm):
                    e.t = BState(SInt(ctx.int("len")), _no_elements)
                    ctx.assume(tint(e.t.n) >= 0)
                    self.cur_vals[nm] = e
                    continue
                comps = flatten(e) if e is not None else None
                if comps is None:
                    self.cur_vals[nm] = Poison(nm)
                    continue
                nv = rebuild(e, [fresh_like(ctx, c, nm) for c in comps])
                if s.inplace.get(nm):
                    put_inplace(e, nv)
                    nv = e
                self.cur_vals[nm] = nv
            self.snap = _reach_with(self.frame, self.cur_vals)
            return
        for nm, tr in s.names.items():
            if tr == "poison":
                self.cur_vals[nm] = Poison(nm)
        if s.vals is not None:
            for nm, v in s.vals(self, k).items():
                if s.inplace.get(nm):
                    o = self.all_entry[nm]
                    put_inplace(o, v)
                    if isinstance(v, SBuild):
                        self.built[nm] = v.t
                    self.cur_vals[nm] = o
                else:
                    self.cur_vals[nm] = v
        if s.facts is not None:
            ctx.assume(s.facts(self, k))
        self.snap = _reach_with(self.frame, self.cur_vals)

    def end_iteration(self):
        """control is back at the loop head"""
        ctx = self.ctx
        loc = dict(self.frame.f_locals)
        if self.mode == "dry":
            ctx.eng.dry_record[self.key].append(DryRec(self, loc))
            raise PathDone()
        s = self.summary
        if ctx.dry:
            raise PathDone()
        ctx.iteration_ended = self
        self._check_frame(loc)
        k1 = z3.simplify(self.k + 1)
        if s.vals is not None:
            for nm, v in s.vals(self, k1).items():
                what = "loop %s: %s preserved" % (self.lid, nm)
                if isinstance(v, SBuild):
                    t = loc[nm].t
                    if not isinstance(loc[nm], SBuild) or t.n is not self.built[nm].n or len(t.tail) != 1:
                        ctx.prove(what, z3.BoolVal(False))
                    if s.dynamic.fresh and id(t.tail[0]) in self.snap:
                        ctx.prove("loop %s: each element of %s is a new object" % (self.lid, nm), z3.BoolVal(False))
                    prove_same(ctx, what, t.tail[0], v.t.get(z3.simplify(tint(v.t.n) - 1)))
                else:
                    ctx.prove(what, same(loc[nm], v))
        if s.facts is not None:
            ctx.prove("loop %s: invariant preserved" % self.lid, s.facts(self, k1))
        if s.variant is not None:
            a, b = s.variant(self, self.k), s.variant(self, k1)
            ctx.prove("loop %s: variant decreases" % self.lid,
                      z3.And(tint(a) > tint(b), tint(a) > 0))
        raise PathDone()

    def _check_frame(self, loc):
        s = self.summary
        skip = set()
        for nm in s.names:
            for d in (self.all_entry, self.cur_vals, loc):
                v = d.get(nm)
                if isinstance(v, np.ndarray) or mutable_sym(v):
                    skip.add(id(v))
        for o, c in _changed(self.snap):
            if id(o) not in skip:
                raise Unsupported("loop %s changes a %s its invariant does not describe"
                                  % (self.lid, type(o).__name__))
        for nm, v in loc.items():
            if nm.startswith("__pyvc_"):
                continue
            if nm in s.names or nm not in self.all_entry:
                continue
            if nm in self.tnames:
                continue
            if v is not self.all_entry[nm]:
                raise Unsupported("loop %s changes %s, not covered by its invariant"
                                  % (self.lid, nm))

    def leaving(self):
        if self.mode == "dry":
            raise PathDone()


def _reach_with(frame, extra):
    snap = _reach(frame)
    for v in extra.values():
        if isinstance(v, np.ndarray) and id(v) not in snap:
            snap[id(v)] = (v, v.copy())
    return snap


class DryRec:
    def __init__(self, loop, loc):
        self.k = loop.k
        self.loop = loop
        self.fresh = dict(loop.fresh_syms)
        self.pc = list(loop.ctx.pc[loop.npc:])
        self.out = {}
        self.changed = set()
        base = dict(loop.all_entry)
        base.update(loop.cur_vals)
        for nm, v in loc.items():
            if nm.startswith("__pyvc_"):
                continue
            if nm in base and base[nm] is not v:
                self.changed.add(nm)
            c = flatten(v)
            if c is not None:
                self.out[nm] = c
        self.vals = {nm: loc[nm] for nm in loc if not nm.startswith("__pyvc_")}
        self.inplace = set()
        self.other = []
        byid = {id(v): nm for nm, v in base.items() if isinstance(v, np.ndarray) or mutable_sym(v)}
        dup = [id(v) for nm, v in base.items() if isinstance(v, np.ndarray) or mutable_sym(v)]
        for o, c in _changed(loop.snap):
            nm = byid.get(id(o))
            if nm is not None and isinstance(o, SBuild) and dup.count(id(o)) == 1:
                self.inplace.add(nm)
                self.changed.add(nm)
                continue
            if nm is not None and mutable_sym(o) and dup.count(id(o)) == 1:
                self.inplace.add(nm)
                self.changed.add(nm)
                self.out[nm] = [type(o)(o.t)]
                continue
            if id(o) in loop.ctx.newlists and loop.ctx.newlists[id(o)][0] is o:
                loop.ctx.eng.growing.add(loop.ctx.newlists[id(o)][1])
                self.other.append("list")
                continue
            if nm is not None and isinstance(o, np.ndarray) and dup.count(id(o)) == 1 and o.ndim == 1:
                self.inplace.add(nm)
                self.changed.add(nm)
                self.out[nm] = list(o)
            else:
                self.other.append(type(o).__name__)


class SymFor(Loop):
    def __init__(self, ctx, lid, seq, names, tnames, frame, lineno):
        super().__init__(ctx, lid, names, frame, lineno)
        self.seq, self.tnames = seq, tnames
        self.state = 0

    def __iter__(self):
        return self

    def __next__(self):
        ctx = self.ctx
        if self.state == 1:
            self.end_iteration()
        self.start()
        self.state = 1
        if self.mode == "dry":
            self.havoc_dry()
            return self.element(self.k)
        if ctx.choose(2) == 0:
            k = ctx.int("k")
            self.k = k
            ctx.assume(self.bound(True))
            self.havoc_real(k, False)
            return self.element(k)
        if self.seq.n is None:
            raise PathDone()      # an infinite iterator is never exhausted
        n = tint(self.seq.n)
        ctx.assume(n >= 0)
        self.havoc_real(n, True)
        for t in self.tnames:
            self.cur_vals[t] = Poison(t)
        if self in ctx.loop_stack:
            ctx.loop_stack.remove(self)
        raise StopIteration

    def element(self, k):
        live = getattr(self.seq, "live", None)
        if not live:
            return self.seq.get(k)
        # end_iteration proves that the keys stay
        from .coll import key_m
        self.ctx.assume(live[0].t[key_m(self.seq.tag[1], k)] != absent_entry())
        return live[1](k)

    def end_iteration(self):
        live = getattr(self.seq, "live", None)
        if live and self.mode == "real" and not live[0].t.eq(live[2]):
            x = z3.Const(self.ctx.fresh("lk"), Val)
            a = absent_entry()
            self.ctx.prove("loop %s: a map keeps its keys while it is iterated" % self.lid, z3.ForAll(
                [x], (live[0].t[x] != a) == (live[2][x] != a)))
        super().end_iteration()

    def enter_iter(self):
        return True

    def enter_exit(self):
        return True


def make_while(ctx, lid, names, frame, lineno):
    return SymWhile(ctx, lid, names, frame, lineno)


class SymWhile(Loop):
    UNROLL = 40

    def __init__(self, ctx, lid, names, frame, lineno):
        super().__init__(ctx, lid, names, frame, lineno)
        self.seq = None
        self.tnames = ()
        self.state = 0
        self.symbolic = self.key in ctx.eng.symloops
        self.count = 0
        self.ndec = len(ctx.dec)

    def top(self):
        ctx = self.ctx
        if not self.symbolic:
            if self.count and len(ctx.dec) > self.ndec:
                # the condition (or body) depends on symbolic data
                ctx.eng.symloops.add(self.key)
                raise Restart(list(self.key[1]))
            self.count += 1
            if self.count > self.UNROLL:
                raise Unsupported("while loop unrolled %d times" % self.count)
            return False
        if self.state == 1:
            self.end_iteration()
        self.start()
        self.state = 1
        if self.mode == "dry":
            self.havoc_dry()
        else:
            k = ctx.int("k")
            self.k = k
            ctx.assume(self.bound(True))
            self.havoc_real(k, False)
        return True

    def leaving(self):
        if self.symbolic and self.mode == "dry":
            raise PathDone()


class Restart(BaseException):
    def __init__(self, dec):
        self.dec = dec


# ---------------------------------------------------------------------------

def summarise(eng, run, key, prefix, dry):
    """Analyse a generic iteration and fix an invariant for the loop `key`."""
    plan = {"changed": [], "poison": set(), "inplace": set()}
    eng.dry_plan[key] = plan
    recs = []
    for _round in range(12):
        eng.dry_record[key] = []
        eng.explore(run, prefix, dry | {key})
        recs = eng.dry_record[key]
        new = False
        if eng.growing - eng.grow:
            raise Grow()
        for r in recs:
            if r.other:
                eng.summaries[key] = Unsupported(
                    "loop %s mutates %s" % (key[0], ", ".join(sorted(set(r.other)))))
                return
            for nm in r.changed:
                if nm not in plan["changed"]:
                    plan["changed"].append(nm)
                    new = True
                if nm in r.inplace and nm not in plan["inplace"]:
                    plan["inplace"].add(nm)
                    new = True
        if not new:
            break
    # -- handlers attached to the contract
    for h in eng.loop_handlers:
        s = h(key, plan, recs)
        if s is not None:
            if s.dynamic is None:
                for nm in plan["changed"]:
                    s.names.setdefault(nm, "vals" if nm in s.covers else "poison")
                s.inplace = {nm: True for nm in plan["inplace"] if nm in s.covers}
            eng.summaries[key] = s
            return
    eng.summaries[key] = auto(key, plan, recs)


def auto(key, plan, recs):
    s = Summary()
    s.how = "auto"
    deltas = {}
    fills = {}
    for nm in plan["changed"]:
        ds = None
        ok = bool(recs)
        for r in recs:
            fr, out = r.fresh.get(nm), r.out.get(nm)
            if fr is None or out is None or len(fr) != len(out):
                ok = False
                break
            d = []
            for a, b in zip(out, fr):
                if type(a) is not type(b) and (getattr(type(a), "havocable", False) or
                                               getattr(type(b), "havocable", False)):
                    ok = False
                    break
                if getattr(type(b), "havocable", False):
                    if not a.t.eq(b.t):
                        ok = False
                        break
                    d.append(None)
                    continue
                t = z3.simplify(tint(a) - tint(b))
                if not z3.is_int_value(t):
                    ok = False
                    break
                d.append(t.as_long())
            if not ok or (ds is not None and ds != d):
                ok = False
                break
            ds = d
        if ok:
            deltas[nm] = ds
            s.names[nm] = "vals"
        else:
            f = fill_rule(nm, plan, recs)
            if f is not None:
                fills[nm] = f
                s.names[nm] = "vals"
            else:
                s.names[nm] = "poison"
    s.inplace = {nm: True for nm in plan["inplace"] if nm in deltas or nm in fills}
    if any(nm not in deltas and nm not in fills for nm in plan["inplace"]):
        return Unsupported("loop %s: no invariant for %s" % (key[0], sorted(plan["inplace"])))

    def vals(L, k):
        out = {}
        for nm, d in deltas.items():
            e = L.all_entry[nm]
            if s.inplace.get(nm):
                e = L.entry_snap[id(e)][1]
            base = flatten(e)
            out[nm] = rebuild(e, [b if x is None else mkint(tint(b) + x * k)
                                  for b, x in zip(base, d)])
        for nm, f in fills.items():
            out[nm] = f(L, k)
        return out
    s.vals = vals
    cache = {}

    def facts(L, k):
        if not recs:
            # no iteration ever completes: the loop head is reached only once
            return k == 0
        j = z3.Int("j!%s" % abs(hash(key[0])))
        ents = {}
        pivot = None
        for nm, ds in deltas.items():
            e = L.all_entry[nm]
            if s.inplace.get(nm):
                e = L.entry_snap[id(e)][1]
            ents[nm] = [cterm(b) for b in flatten(e)]
            for b, d in zip(ents[nm], ds):
                if d is not None and abs(d) == 1 and pivot is None:
                    pivot = (b, d)
        # quantify over the value of a variable that moves by +-1, so that
        # array terms keep a bare bound variable as their index
        idx = j if pivot is None else pivot[1] * (j - pivot[0])
        dis = []
        for r in recs:
            sub = [(r.k, idx)]
            okvars = {r.k.decl().name()}
            for nm, fr in r.fresh.items():
                if nm in deltas:
                    for f, b, d in zip(fr, ents[nm], deltas[nm]):
                        if d is None:
                            val = b
                        elif pivot is not None and b.eq(pivot[0]) and d == pivot[1]:
                            val = j
                        else:
                            val = z3.simplify(b + d * idx)
                        sub.append((f.t, val))
                        okvars.add(f.t.decl().name())
            ck = (id(r),) + tuple((a.get_id(), b.get_id()) for a, b in sub)
            if ck not in cache:
                cache[ck] = sub, [z3.simplify(z3.substitute(p, *sub)) for p in r.pc if not _iter_local(p, okvars, r.k)]
            con = list(cache[ck][1])
            for nm, f in fills.items():
                con.extend(f.facts(L, r, j) if pivot is None else [])
            dis.append(z3.And(*con) if con else z3.BoolVal(True))
        body = z3.Or(*dis)
        return z3.And(k >= 0, z3.ForAll([j], z3.Implies(z3.And(0 <= idx, idx < k), body)))
    s.facts = facts
    return s


def fill_rule(nm, plan, recs):
    """
    A loop over the entries of a map that assigns in each iteration at most
    the entry of the current key of another one (or of the same).  The value
    after k iterations is then known entry by entry.
    """
    from . import coll
    if nm not in plan["inplace"] or not recs:
        return None
    r0 = recs[0].loop
    tag = getattr(r0.seq, "tag", None)
    if not (type(tag) is tuple and tag[0] == "items"):
        return None
    M = tag[1]
    base = next(iter(recs))
    cls = type(base.loop.all_entry.get(nm))
    if not issubclass(cls, coll.SMap):
        return None
    x = z3.Const("fill_x", Val)
    j = coll.pos_m(M, x)
    cases = []
    pcs = {}
    for r in recs:
        fr, out = r.fresh.get(nm), r.out.get(nm)
        if not fr:
            return None
        h, key = fr[0].t, coll.key_m(M, r.k)
        if out is None or out[0].t.eq(h):
            v = None
        else:
            t = out[0].t
            if not (z3.is_store(t) and t.arg(0).eq(h) and z3.simplify(t.arg(1)).eq(z3.simplify(key))):
                return None
            v = t.arg(2)
        okvars = {r.k.decl().name(), h.decl().name()}
        con = [p for p in r.pc if not z3.is_quantifier(p)]
        if any(_iter_local(p, okvars, r.k) for p in con + ([v] if v is not None else [])):
            return None
        cases.append((con, v, r.k, h, key))
        pcs[id(r)] = [p for p in con if _mentions(p, h)]

    # the entry at x, after all iterations before k, over the entry state E0:
    # made once, and instantiated wherever the loop is used
    E0, k0 = z3.Const("fill_E", h_sort(recs, nm)), z3.Int("fill_k")
    body, bad = E0[x], False
    for con, v, rk, h, key in reversed(cases):
        def at(t):
            for a, b in ((h[key], E0[x]), (key, x), (rk, j)):
                t = z3.substitute(t, (a, b))
            return t
        c = z3.And(*[at(p) for p in con]) if con else z3.BoolVal(True)
        w = at(v) if v is not None else E0[x]
        bad = bad or _mentions(c, h) or _mentions(w, h)
        body = z3.If(c, w, body)
    whole = z3.Lambda([x], z3.If(z3.And(M[x] != coll.absent, j < k0), body, E0[x]))
    seen = {}
    for r in recs:
        h, key = r.fresh[nm][0].t, coll.key_m(M, r.k)
        ts = [z3.substitute(p, (h[key], E0[key])) for p in pcs[id(r)]]
        seen[id(r)] = [t for t in ts if not _mentions(t, h)]

    def content(L, k):
        if bad:
            raise Unsupported("loop %s reads other entries of %s" % (L.lid, nm))
        k = k.t if isinstance(k, Sym) else z3.IntVal(k) if isinstance(k, int) else k
        return type(L.all_entry[nm])(z3.substitute(whole, (E0, L.entry_snap_t[nm]), (k0, k)))

    def facts(L, r, i):
        """what iteration i is known to have seen of the map it fills"""
        i = i.t if isinstance(i, Sym) else z3.IntVal(i) if isinstance(i, int) else i
        return [z3.substitute(t, (E0, L.entry_snap_t[nm]), (r.k, i)) for t in seen[id(r)]]
    content.facts = facts
    return content


def h_sort(recs, nm):
    return recs[0].fresh[nm][0].t.sort()


def _mentions(t, c):
    stack, seen = [t], set()
    while stack:
        y = stack.pop()
        if y.get_id() in seen:
            continue
        seen.add(y.get_id())
        if y.eq(c):
            return True
        if z3.is_quantifier(y):
            stack.append(y.body())
        stack.extend(y.children())
    return False


def _num(name):
    try:
        return int(name.rsplit("!", 1)[1])
    except Exception:
        return -1


def _iter_local(p, okvars, k):
    """does p mention a symbol created during the iteration (other than the
    havocked ones)?  Such conjuncts are dropped, which only weakens."""
    base = _num(k.decl().name())
    stack, seen = [p], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            nm = x.decl().name()
            if nm not in okvars and _num(nm) > base:
                return True
        stack.extend(x.children())
    return False
