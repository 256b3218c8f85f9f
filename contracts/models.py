"""Contracts for building models out of submodels (pandalone/pandata.py, Pandel)."""
import collections.abc as cabc
import collections
import itertools
import types

import numpy as np
import pandas as pd
import z3
from jsonschema import ValidationError
from pandas.core.generic import NDFrame

from pyvc import coll, loops, rt
from pyvc.coll import BMap, absent
from pyvc.contract import Contract, Ok, Err
from pyvc.core import Unsupported, cur, in_ctx
from pyvc.docs import SKey, len_i, child_i
from pyvc.loops import SList, SymSeq, prove_same
from pyvc.vals import *
from pyvc.vals import Val

from pandalone import pandata

PD = "pandalone.pandata:"
I, B = z3.IntSort(), z3.BoolSort()

# -- any branch of a model ------------------------------------------------------

NONE, MAPPING, SEQUENCE, STR, BYTES, OTHER, FRAME, SERIES, ARRAY = range(9)
bkind = z3.Function("branch_kind", Val, I)
dict_of = z3.Function("branch_entries", Val, coll.MAP)
CLONE = z3.Function("clone", Val, Val)
MERGE = z3.Function("merged", Val, Val, Val)
BAD = z3.Function("nulls_meet", Val, Val, B)
COPY = z3.Function("pandas_copy", Val, Val)

KINDS = {
    cabc.Mapping: (MAPPING, FRAME, SERIES), cabc.MutableMapping: None,
    cabc.Sequence: (SEQUENCE, STR, BYTES, SERIES),
    str: (STR,), bytes: (BYTES,), pd.DataFrame: (FRAME,), pd.Series: (SERIES,), NDFrame: (FRAME, SERIES),
    np.ndarray: (ARRAY,), type(None): (NONE,), object: tuple(range(9)),
}


class SBranch(Sym):
    """any value of a model"""
    havocable = True

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "<branch>"

    __str__ = __repr__

    def __format__(self, s):
        return "<branch>"

    __hash__ = Sym.__hash__

    def kind(self):
        k = bkind(self.t)
        cur().assume(z3.And(0 <= k, k <= 8))
        return k

    def isinstance_sym(self, c):
        ks = KINDS.get(c)
        if ks is None:
            raise Unsupported("isinstance(branch, %s)" % c)
        k = self.kind()
        return mkbool(z3.Or(*[k == i for i in ks]))

    def is_sym_identity(self, o):
        if o is None:
            return mkbool(self.kind() == NONE)
        return mkbool(self.t == o.t) if isinstance(o, SBranch) else False

    def same_as(self, o):
        if o is None:
            return bkind(self.t) == NONE
        return self.t == o.t if isinstance(o, SBranch) else z3.BoolVal(False)

    def is_a(self, *ks):
        return cur().branch(z3.Or(*[self.kind() == k for k in ks]))

    def copy(self):
        if self.is_a(FRAME, SERIES, ARRAY):
            cur().eng.stats.trust("copy() of a DataFrame, Series or array is equal to it and independent")
            return SBranch(COPY(self.t))
        if self.is_a(MAPPING):
            return self.as_map()
        raise Unsupported("copy() of a branch")

    __copy__ = copy

    def as_map(self):
        """a new dict with the entries of this mapping"""
        if not self.is_a(MAPPING):
            raise Unsupported("** of a branch that may be no mapping")
        return Entries(dict_of(self.t))

    # reading only: none of the branches given may be modified
    def items(self):
        return self.as_map().items()

    def keys(self):
        return self.as_map().keys()

    def values(self):
        return self.as_map().values()

    def get(self, k, d=None):
        return self.as_map().get(k, d)

    def __getitem__(self, k):
        if self.is_a(MAPPING):
            return self.as_map()[k]
        if self.is_a(SEQUENCE):
            return self.symiter()[k]
        raise Unsupported("indexing a branch")

    def contains_sym(self, k):
        return self.as_map().contains_sym(k)

    __contains__ = contains_sym

    def slen(self):
        if self.is_a(MAPPING):
            return self.as_map().slen()
        return mkint(tint(self.symiter().n))

    def symiter(self):
        if self.is_a(MAPPING):
            return self.as_map().symiter()
        if self.is_a(SEQUENCE):
            t = self.t
            cur().assume(len_i(t) >= 0)
            return SymSeq(mkint(len_i(t)), lambda i: SBranch(child_i(t, i)))
        raise Unsupported("iterating over a branch")

    def _modified(self, *a, **k):
        cur().prove("the branches given are not modified", z3.BoolVal(False))
        raise Unsupported("modification of a branch given")

    __setitem__ = __delitem__ = append = update = pop = setdefault = extend = insert = clear = _modified
    sort = reverse = remove = popitem = __iadd__ = __ior__ = _modified

    def __bool__(self):
        raise Unsupported("truth of a branch")

    truth = __bool__

    def __eq__(self, o):
        if o is None:
            return mkbool(self.kind() == NONE)
        raise Unsupported("== of a branch")

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r


class Entries(BMap):
    wrap = SBranch


def theory():
    """what the specification's functions are"""
    c = cur()
    u, v = z3.Consts("th_u th_v", Val)
    c.assume(z3.ForAll([u], CLONE(u) != absent, patterns=[CLONE(u)]))
    c.assume(z3.ForAll([u, v], MERGE(u, v) != absent, patterns=[MERGE(u, v)]))
    # scalars are their own clones
    c.assume(z3.ForAll([u], z3.Implies(z3.Or(*[bkind(u) == k for k in (NONE, STR, BYTES, OTHER)]),
                                       CLONE(u) == u), patterns=[CLONE(u)]))
    c.assume(z3.ForAll([u], z3.Implies(z3.Or(*[bkind(u) == k for k in (FRAME, SERIES, ARRAY)]),
                                       CLONE(u) == COPY(u)), patterns=[CLONE(u)]))
    c.assume(z3.ForAll([u, v], z3.Implies(z3.And(bkind(u) == NONE, bkind(v) != NONE), z3.And(
        MERGE(u, v) == CLONE(v), z3.Not(BAD(u, v)))), patterns=[MERGE(u, v)]))
    c.assume(z3.ForAll([u, v], z3.Implies(z3.And(bkind(u) != NONE, bkind(v) == NONE), z3.And(
        MERGE(u, v) == CLONE(u), z3.Not(BAD(u, v)))), patterns=[MERGE(u, v)]))


def branch(x):
    if isinstance(x, SBranch):
        return x
    if x is None:
        b = SBranch(z3.Const(cur().fresh("none"), Val))
        cur().assume(bkind(b.t) == NONE)
        return b
    raise Unsupported("a %s given as a branch" % type(x).__name__)


def is_clone(ctx, what, got, b):
    """obligations: got is the clone of the branch b"""
    if b.is_a(MAPPING):
        x = z3.Const("cl_x", Val)
        D = dict_of(b.t)
        ctx.prove("%s: a new dict with the clone of each entry" % what, Entries(
            z3.Lambda([x], z3.If(D[x] == absent, absent, CLONE(D[x])))).same_as(got) if isinstance(
                got, (coll.SMap, dict)) else z3.BoolVal(got is b and False))
    elif b.is_a(SEQUENCE):
        if isinstance(got, SBranch):
            ctx.prove("%s: a new list" % what, z3.BoolVal(False))
        prove_same(ctx, "%s: a list with the clone of each item" % what, got,
                   SList(mkint(len_i(b.t)), lambda i: SBranch(CLONE(child_i(b.t, i)))))
    elif b.is_a(FRAME, SERIES, ARRAY):
        ctx.prove("%s: a copy" % what, same(got, SBranch(COPY(b.t))))
    else:
        ctx.prove("%s: the same scalar" % what, same(got, b))


class Clone(Contract):
    """
    _clone_submodel(b): mappings as new dicts, sequences as new lists (texts
    and bytes are none), pandas and numpy objects as copies, all their
    contents cloned; anything else as it is.
    """
    prop = "C19"
    target = PD + "Pandel._clone_submodel"
    recursive = True
    map_class = Entries

    def inputs(self, g):
        theory()
        return (object.__new__(pandata.Pandel), SBranch(z3.Const("b", Val))), {}

    def check(self, args, kw, out):
        if not in_ctx():
            return cloned(out.value, args[1]) if out.exc is None else False
        if out.exc is not None:
            return False
        is_clone(cur(), "clone", out.value, args[1])
        return True

    def apply(self, ctx, args, kw):
        if kw or len(args) != 2:
            raise Unsupported("_clone_submodel called another way")
        return SBranch(CLONE(branch(args[1]).t))

    def cases(self, rng, tier):
        me = pandata.Pandel()
        for x in SAMPLES():
            yield (me, x), {}
        for _ in range(40 if tier == "quick" else 400):
            yield (me, tree(rng, 3)), {}

    def lift(self, args, kw):
        yield Build(), ([args[1]],), {}


class Merge(Contract):
    """
    _clone_and_merge_submodels(a, b): two mappings merge entry by entry
    (entries of one only are cloned); otherwise the clone of b, or of a when b
    is None; refused if two Nones meet.
    """
    prop = "C19"
    target = PD + "Pandel._clone_and_merge_submodels"
    recursive = True
    map_class = Entries
    assumes = ("DataFrame.update/combine_first merge pandas objects (checked by concrete runs only)",)

    def inputs(self, g):
        theory()
        a, b = SBranch(z3.Const("a", Val)), SBranch(z3.Const("b", Val))
        c = cur()
        for x in (a, b):
            # a pandas object meeting a non-None branch is merged by pandas
            y = b if x is a else a
            c.assume(z3.Implies(z3.Or(bkind(x.t) == FRAME, bkind(x.t) == SERIES), bkind(y.t) == NONE))
        return (object.__new__(pandata.Pandel), a, b), {}

    def check(self, args, kw, out):
        if not in_ctx():
            return merged_ok(args[1], args[2], out)
        c = cur()
        a, b = args[1], args[2]
        if a.is_a(NONE) and b.is_a(NONE):
            return isinstance(out.exc, ValidationError)
        if a.is_a(MAPPING) and b.is_a(MAPPING):
            A, B_ = dict_of(a.t), dict_of(b.t)
            x = z3.Const("mg_x", Val)
            both = z3.And(A[x] != absent, B_[x] != absent)
            if out.exc is not None:
                c.prove("refused only when Nones meet below", z3.Exists([x], z3.And(both, BAD(A[x], B_[x]))))
                return isinstance(out.exc, ValidationError)
            want = z3.If(both, MERGE(A[x], B_[x]), z3.If(
                A[x] != absent, CLONE(A[x]), z3.If(B_[x] != absent, CLONE(B_[x]), absent)))
            r = out.value
            c.prove("a new dict", z3.BoolVal(isinstance(r, (coll.SMap, dict))))
            c.prove("no Nones met below", z3.ForAll([x], z3.Implies(both, z3.Not(BAD(A[x], B_[x])))))
            return mkbool(Entries(z3.Lambda([x], want)).same_as(r))
        if out.exc is not None:
            return False
        w = a if b.is_a(NONE) else b
        if isinstance(out.value, SBranch):
            return mkbool(out.value.t == CLONE(w.t))
        is_clone(c, "the winner", out.value, w)
        return True

    def apply(self, ctx, args, kw):
        a, b = branch(args[1]), branch(args[2])
        if ctx.branch(BAD(a.t, b.t)):
            raise ValidationError("Cannot merge Nones")
        return SBranch(MERGE(a.t, b.t))

    def cases(self, rng, tier):
        me = pandata.Pandel()
        for a in SAMPLES():
            for b in SAMPLES():
                yield (me, a, b), {}
        for _ in range(60 if tier == "quick" else 600):
            a = tree(rng, 3)
            yield (me, a, tree(rng, 3)), {}
            yield (me, a, mutate(rng, a)), {}

    def lift(self, args, kw):
        if args[1] is not None:
            yield Build(), ([args[1], args[2]],), {}


# -- concrete trees ---------------------------------------------------------------

def is_pd(x):
    return isinstance(x, (pd.DataFrame, pd.Series))


def is_seq(x):
    return isinstance(x, cabc.Sequence) and not isinstance(x, (str, bytes)) and not is_pd(x)


def is_map(x):
    return isinstance(x, cabc.Mapping) and not is_pd(x)


def deep(x):
    """an independent image of a tree, for comparing"""
    if is_pd(x):
        return x.copy()
    if isinstance(x, np.ndarray):
        return x.copy()
    if is_map(x):
        return {k: deep(v) for k, v in x.items()}
    if is_seq(x):
        return [deep(v) for v in x]
    return x


def equal(x, y):
    """same trees; x may use any mapping and sequence types"""
    if isinstance(y, pd.DataFrame):
        if not isinstance(x, pd.DataFrame) or list(x.columns) != list(y.columns) or list(x.index) != list(y.index):
            return False
        return all(cells_equal(x[c], y[c]) for c in y.columns)
    if isinstance(y, pd.Series):
        return isinstance(x, pd.Series) and sorted(map(str, x.index)) == sorted(map(str, y.index)) and all(
            cells_equal([x[i]], [y[i]]) for i in y.index)
    if isinstance(y, np.ndarray):
        return isinstance(x, np.ndarray) and x.shape == y.shape and equal(x.tolist(), y.tolist())
    if is_map(y):
        return is_map(x) and len(x) == len(y) and all(k in x for k in y) and all(equal(x[k], y[k]) for k in y)
    if is_seq(y):
        return is_seq(x) and len(x) == len(y) and all(equal(p, q) for p, q in zip(x, y))
    if isinstance(y, (float, np.floating)) and y != y:
        return isinstance(x, (float, np.floating)) and x != x
    if isinstance(y, (bool, np.bool_)) != isinstance(x, (bool, np.bool_)):
        return False
    return x is y or (isinstance(x, type(y)) and x == y) or (
        isinstance(y, (int, float, np.number)) and isinstance(x, (int, float, np.number)) and x == y)


def cells_equal(xs, ys):
    """the cells of pandas objects; None and NaN both mean missing there"""
    xs, ys = list(xs), list(ys)
    return len(xs) == len(ys) and all(
        gone(x) and gone(y) or equal(x, y) or all(isinstance(z, (bool, np.bool_, int, float, np.number)) for z in (x, y))
        and x == y for x, y in zip(xs, ys))     # pandas turns the booleans of a column of numbers into numbers


def parts(x, out=None):
    """the objects of a tree that can be modified"""
    out = [] if out is None else out
    if is_pd(x) or isinstance(x, np.ndarray):
        out.append(x)
    elif is_map(x) or is_seq(x):
        out.append(x)
        for v in (x.values() if is_map(x) else x):
            parts(v, out)
    return out


def buffers(x):
    if isinstance(x, pd.DataFrame):
        return [x.iloc[:, i].values for i in range(x.shape[1])]
    if isinstance(x, pd.Series):
        return [x.values]
    return [x] if isinstance(x, np.ndarray) else []


def shared(r, *ins):
    """do two trees share an object, or the data of a pandas one?"""
    mine = parts(r)
    theirs = [p for x in ins for p in parts(x)]
    ids = {id(p) for p in theirs}
    if any(id(p) in ids for p in mine):
        return True
    bufs = [b for p in theirs for b in buffers(p) if isinstance(b, np.ndarray)]
    return any(isinstance(b, np.ndarray) and np.shares_memory(b, c) for p in mine for b in buffers(p) for c in bufs)


def plain(x):
    """mappings as dicts and sequences as lists, all through"""
    if is_map(x):
        return type(x) is dict and all(plain(v) for v in x.values())
    if is_seq(x):
        return type(x) is list and all(plain(v) for v in x)
    return True


def cloned(r, b):
    return equal(r, deep(b)) and plain(r) and not shared(r, b)


class NonesMeet(Exception):
    pass


class Unspecified(Exception):
    pass


def scalar(x):
    return not (is_pd(x) or is_map(x) or is_seq(x) or isinstance(x, np.ndarray))


def flat(x, part=None):
    if isinstance(x, pd.DataFrame):
        return all(scalar(v) for c in range(x.shape[1]) for v in x.iloc[:, c])
    if isinstance(x, pd.Series) or is_seq(x):
        return all(scalar(v) for v in x)
    return is_map(x) and all(map(part, x.values()))


def gone(v):
    return v is None or isinstance(v, (float, np.floating)) and v != v


def ref_merge(a, b):
    if a is None and b is None:
        raise NonesMeet()
    if a is None or b is None:
        return deep(b if a is None else a)
    if isinstance(a, pd.DataFrame) or isinstance(b, pd.DataFrame):
        # specified: frames (and dicts of lists) of scalars
        if not all(flat(x, lambda c: is_seq(c) and flat(c)) for x in (a, b)):
            raise Unspecified()
        try:
            a, b = pd.DataFrame(a), pd.DataFrame(b)
        except Exception:
            raise Unspecified()
        if not (a.index.is_unique and b.index.is_unique and a.columns.is_unique and b.columns.is_unique):
            raise Unspecified()
        if len(a.columns) and not len(a.index):     # no rows to update: up to pandas
            raise Unspecified()
        r = {}
        for c in a.columns:
            r[c] = [b.at[i, c] if c in b.columns and i in b.index and not gone(b.at[i, c]) else a.at[i, c]
                    for i in a.index]
        rows = list(a.index) if len(a.columns) or len(a.index) else list(b.index)
        for c in b.columns:
            if c not in a.columns:
                r[c] = [b.at[i, c] if i in b.index else float("nan") for i in rows]
        return pd.DataFrame({c: pd.Series(v, index=rows, dtype=object) for c, v in r.items()}, index=rows,
                            columns=list(r), dtype=object)
    if isinstance(a, pd.Series) or isinstance(b, pd.Series):
        # specified: series (and dicts) of scalars
        if not all((isinstance(x, pd.Series) or is_map(x)) and flat(x, scalar) for x in (a, b)):
            raise Unspecified()
        a, b = pd.Series(a, dtype=object), pd.Series(b, dtype=object)
        if not (a.index.is_unique and b.index.is_unique):
            raise Unspecified()
        ks = list(a.index) + [k for k in b.index if k not in a.index]
        vs = [b[k] if k in b.index and not gone(b[k]) else (a[k] if k in a.index else b[k]) for k in ks]
        return pd.Series(vs, index=ks, dtype=object)
    if is_map(a) and is_map(b):
        r = {k: ref_merge(v, b[k]) if k in b else deep(v) for k, v in a.items()}
        for k, v in b.items():
            if k not in a:
                r[k] = deep(v)
        return r
    return deep(b)


def merged_ok(a, b, out):
    try:
        want = ref_merge(a, b)
    except NonesMeet:
        return isinstance(out.exc, ValidationError)
    except Unspecified:
        return True
    except TypeError:       # keys that cannot be sorted with each other and the like
        return True
    return out.exc is None and equal(out.value, want) and plain(out.value) and not shared(out.value, a, b)


def SAMPLES():
    return [
        None, 1, 0, True, "abc", "", b"ab", 2.5, float("nan"), np.float64(3), [], {}, [1, [2], {"x": None}], (1, 2),
        [None, 1], {"a": 1}, {"a": {"b": [1]}}, {"a": None, "b": 2}, {"a": {"b": 3, "c": "x"}, "d": [1]},
        collections.OrderedDict([("z", 1), ("a", {"q": 1})]), types.MappingProxyType({"a": [1]}), range(3),
        collections.deque([1]), {1, 2}, np.array([1, 2]), {"a": np.array([[1.]])}, {"a": b"xy"},
        pd.DataFrame({"a": [1, 2], "b": ["x", None]}), pd.DataFrame({"b": [5., np.nan], "q": [1, 2], "c": [3, 4]}),
        pd.DataFrame({"a": [7]}, index=[1]), pd.Series({"a": 1, "b": 2}), pd.Series({"b": np.nan, "c": 3}),
        {"a": pd.DataFrame({"x": [1, 2]}), "s": pd.Series({"k": 1})}, [pd.Series([1, 2])], {"a": [10, 20], "n": [1, 2]},
    ]


def tree(rng, depth):
    k = rng.random()
    if depth and k < .55:
        return {n: tree(rng, depth - 1) for n in rng.sample(["a", "b", "c", "d", "e", 1, ""], rng.randint(0, 4))}
    if depth and k < .7:
        return [tree(rng, depth - 1) for _ in range(rng.randint(0, 3))]
    if k < .76:
        return pd.Series({n: rng.choice([1, 2.5, np.nan]) for n in rng.sample("abcd", rng.randint(1, 3))})
    if k < .82:
        n = rng.randint(1, 3)
        return pd.DataFrame({c: [rng.choice([1, 2.5, np.nan]) for _ in range(n)] for c in rng.sample("xyz", rng.randint(1, 3))})
    if k < .86:
        return np.array([rng.randint(0, 3) for _ in range(2)])
    return rng.choice([None, 1, 0, 7, 2.5, "s", "", True, False, b"b", (1, 2)])


def mutate(rng, x):
    """a tree much like x"""
    if is_map(x):
        r = {k: mutate(rng, v) for k, v in x.items() if rng.random() < .8}
        if rng.random() < .4:
            r[rng.choice("abcz")] = tree(rng, 1)
        return r
    return x if rng.random() < .5 else tree(rng, 1)


# -- whole builds -----------------------------------------------------------------

class Scripted(pandata.Pandel):
    def __init__(self, schema, *a, **k):
        super().__init__(*a, **k)
        self.schema = schema

    def _get_json_schema(self, is_prevalidation):
        return self.schema


def defaults(schema, r):
    """apply the defaults of a schema to a merged tree"""
    for k, sub in schema.get("properties", {}).items():
        if is_map(r):
            if "default" in sub and k not in r:
                r[k] = deep(sub["default"])
            if k in r:
                defaults(sub, r[k])
    return r


class Build(Contract):
    """
    build() of submodels s1..sn is their merge, in order, with the schema's
    defaults filled in where no submodel gave a value; the submodels are left
    as given and share nothing with the model.
    """
    prop = "C19"
    target = PD + "Pandel.build"
    bounded = "random stacks of submodels, built with the real jsonschema"
    call_site = False
    signature_matters = False

    def invoke(self, func, args, kw):
        subs, schema = args[0], args[1] if len(args) > 1 else {}
        me = Scripted(schema)
        for s in subs:
            me.add_submodel(s)
        r = func(me)
        if r is not me.model:
            raise AssertionError("not the model")
        return r

    def before(self, args, kw):
        return [deep(s) for s in args[0]]

    def check(self, args, kw, out):
        subs, schema = args[0], args[1] if len(args) > 1 else {}
        if not all(equal(s, t) for s, t in zip(subs, self.snap)):
            return False
        try:
            want = None
            for s in self.snap:
                want = ref_merge(want, s)
        except NonesMeet:
            return isinstance(out.exc, ValidationError)
        except (Unspecified, TypeError):
            return True
        if out.exc is not None:
            return False
        want = defaults(schema, want)
        return equal(out.value, want) and plain(out.value) and not shared(out.value, *subs)

    def cases(self, rng, tier):
        S = {"properties": {"a": {"default": 7}, "d": {"default": "dflt"}}}
        N = {"properties": {"a": {"properties": {"b": {"default": 1}}}, "b": {"default": None}}}
        for _ in range(250 if tier == "quick" else 2500):
            subs = [tree(rng, 3) for _ in range(rng.randint(1, 3))]
            if rng.random() < .6:
                subs = [{k: v for k, v in zip("abc", subs)}] + subs
            while rng.random() < .5 and len(subs) < 4:
                subs.append(mutate(rng, subs[-1]))
            if rng.random() < .1:
                subs.append(subs[0])
            yield (subs, {}), {}
            sub2 = [nopandas(s) for s in subs]
            yield (sub2, rng.choice([S, N])), {}


def nopandas(x):
    if is_pd(x) or isinstance(x, np.ndarray):
        return 1
    if is_map(x):
        return {k: nopandas(v) for k, v in x.items() if isinstance(k, str)}
    if is_seq(x):
        return [nopandas(v) for v in x]
    return x


# -- the order of the steps ----------------------------------------------------------

class Boom(Exception):
    def __str__(self):
        return self.args[0]


BOOMS = {b.__name__: type("Boom" + b.__name__, (Boom, b), {}) for b in (
    ArithmeticError, ZeroDivisionError, KeyError, IndexError, TypeError, ValueError, AttributeError, OSError,
    RuntimeError, RecursionError, NotImplementedError, AssertionError, MemoryError, NameError, ImportError, Warning)}


FINE, ONE, TWO, RAISES, THEN = "fine", "1 error", "2 errors", "raises a validation error", "1 error, then raises"
BREAKS = "raises another error"
TWIN = "2 errors that look the same"
COUNT = {ONE: 1, TWO: 2, THEN: 1, TWIN: 2}


class Maker(pandata.Pandel):
    """a model-maker whose validations, merges and curations do what a script says"""

    def __init__(self, script):
        self.log = []
        self.load(script)
        super().__init__(self.curators())
        for i in range(len(script["pre"])):
            self.add_submodel({"s": i})

    def load(self, script):
        self.script = script
        self.errs = {}

    def err(self, *key):
        return self.errs.setdefault(key, ValidationError(repr(key[:-1])))

    def play(self, what, *key):
        """-> the errors reported; may raise"""
        self.log.append(key)
        errs = [self.err(*key, i) for i in range(COUNT.get(what, 0))]
        for e in errs:
            yield e
        if what == RAISES:
            raise self.err(*key, "raised")
        if what in (BREAKS, THEN):
            boom = BOOMS.get(self.script.get("error"), Boom)
            if what == BREAKS:
                raise boom(repr(key)) from KeyError("why it broke")
            raise boom(repr(key))

    def curators(self):
        n = len(self.script["curate"])
        return [self.curator(None)] * n if self.script.get("one curator") else [self.curator(i) for i in range(n)]

    def curator(self, i):
        """the i-th, or one used again and again"""
        def curate(me):
            if me is not self:
                raise AssertionError("curate-function given something else")
            j = sum(k[0] == "curate" for k in self.log) if i is None else i
            list(self.play(self.script["curate"][j], "curate", j, self.model))
        return curate

    def _get_json_schema(self, is_prevalidation):
        return {"pre": bool(is_prevalidation)}

    def _get_model_validator(self, schema):
        return types.SimpleNamespace(iter_errors=lambda mdl: self.iter_errors(schema, mdl))

    def iter_errors(self, schema, mdl):
        if schema["pre"]:
            i = mdl["s"]
            return self.play(self.script["pre"][i], "pre", i)
        return self.play(self.script["validate"], "validate", mdl)

    def _clone_and_merge_submodels(self, a, b, path=""):
        list(self.play(self.script["merge"][b["s"]], "merge", b["s"]))
        return (a or ()) + (b["s"],)


def expected(mm, script):
    """-> (what is reported, the steps run, the model or None for unspecified)"""
    out, log = [], []

    def step(no, name, todo):
        """todo: pairs of script entry and key"""
        bad = False
        for what, key in todo:
            log.append(key)
            errs = [mm.err(*key, i) for i in range(COUNT.get(what, 0))]
            out.extend(errs)
            bad = bad or bool(errs)
            if what == RAISES:
                out.append(mm.err(*key, "raised"))
                bad = True
                break
            if what in (BREAKS, THEN):
                out.append(("failed", no, name, repr(key)))
                bad = True
                break
        if bad:
            out.append(("gave up", no, name))
        return not bad
    n = len(script["pre"])
    model = tuple(range(n)) or None
    ok = step(1, "prevalidate", [(script["pre"][i], ("pre", i)) for i in range(n)]) \
        and step(2, "merge", [(script["merge"][i], ("merge", i)) for i in range(n)]) \
        and step(3, "validate", [(script["validate"], ("validate", model))]) \
        and step(4, "curate", [(w, ("curate", i, model)) for i, w in enumerate(script["curate"])])
    return out, log, ok, model


def agrees(e, want):
    if not isinstance(e, ValidationError):
        return False
    if isinstance(want, ValidationError):
        return e is want
    if want[0] == "gave up":
        return str(want[1]) in e.message and want[2] in e.message and "up" in e.message
    return str(want[1]) in e.message and want[2] in e.message and isinstance(e.cause, Boom) \
        and str(e.cause) == want[3]


class Gate(Contract):
    """
    build_iter() runs prevalidation of each submodel, merging, validation and
    curation in this order, reports every error of a step as a
    ValidationError and stops after the first step with errors; build() raises
    the first error or returns the model.  A later build starts over.
    """
    prop = "C20"
    target = PD + "Pandel.build_iter"
    internal = False
    call_site = False
    signature_matters = False
    inline = ("Pandel._clone_submodel", "Pandel._clone_and_merge_submodels")
    proof_bound = "up to 2 submodels and 2 curate-functions, up to 2 errors of each; one build after another"
    max_paths = 200000

    def inputs(self, g):
        n = g.choice(0, 1, 2)
        return (self.one(g, n),), {}

    def one(self, g, n):
        script = {"pre": [], "merge": [], "validate": FINE, "curate": []}
        bad = False
        for i in range(n):
            script["pre"].append(g.choice(FINE, ONE, TWO, RAISES, THEN, BREAKS))
            bad = bad or script["pre"][-1] != FINE
        for i in range(n):
            script["merge"].append(FINE if bad else g.choice(FINE, RAISES, BREAKS))
            bad = bad or script["merge"][-1] != FINE
        if not bad:
            script["validate"] = g.choice(FINE, ONE, TWO, RAISES, THEN, BREAKS)
            bad = script["validate"] != FINE
        for i in range(g.choice(0, 1, 2)):
            script["curate"].append(FINE if bad else g.choice(FINE, RAISES, BREAKS))
            bad = bad or script["curate"][-1] != FINE
        return script

    def invoke(self, func, args, kw):
        """-> what two builds in a row did"""
        run = rt.call if in_ctx() else lambda f, *a: f(*a)
        out = []
        mm = None
        for script in args:
            if mm is None:
                mm = Maker(script)
            else:
                mm.load(script)
                mm._submodel_tuples, mm._curate_funcs = [], mm.curators()
                for i in range(len(script["pre"])):
                    mm.add_submodel({"s": i})
            for how in ("iter", "build"):
                want, log, ok, model = expected(mm, script)
                mm.log = []
                if how == "iter":
                    got = list(run(mm.build_iter))
                    if len(got) != len(want) or not all(agrees(e, w) for e, w in zip(got, want)):
                        raise AssertionError("reported %r instead of %r" % (got, want))
                    if mm.log != log:
                        raise AssertionError("ran %r instead of %r" % (mm.log, log))
                    if bool(mm._errored) == bool(ok):
                        raise AssertionError("_errored is %r" % mm._errored)
                else:
                    try:
                        r = run(mm.build)
                    except ValidationError as ex:
                        if ok or not agrees(ex, want[0]):
                            raise AssertionError("build() raised %r" % ex)
                    else:
                        if not ok or r != model or mm.model != model:
                            raise AssertionError("build() returned %r" % (r,))
                    if mm.log != log[:len(mm.log)]:
                        raise AssertionError("build() ran %r" % mm.log)
                out.append((how, len(want), mm.model if ok else None))
        return out

    def check(self, args, kw, out):
        return out.exc is None

    def cases(self, rng, tier):
        class G:
            choice = staticmethod(lambda *a: a[0] if rng.random() < .6 else rng.choice(a))
        for _ in range(1500 if tier == "quick" else 20000):
            s = tuple(self.one(G, rng.randint(0, 4)) for _ in range(rng.randint(1, 3)))
            for x in s:
                x["one curator"] = rng.random() < .2
                x["error"] = rng.choice(sorted(BOOMS) + [""])
                for k in ("pre", "curate"):
                    x[k] = [TWIN if w == TWO and rng.random() < .5 else w for w in x[k]]
                if x["validate"] == TWO and rng.random() < .5:
                    x["validate"] = TWIN
            yield s, {}


class Get(Contract):
    """get(path) is the value at the path of the model built; the keywords are
    those of resolve_jsonpointer()."""
    prop = "C20"
    target = PD + "Pandel.get"
    call_site = False
    assumes = ("resolve_jsonpointer by its contract (C07, C08)",)

    def inputs(self, g):
        me = object.__new__(pandata.Pandel)
        me.model = SBranch(z3.Const("model", Val))
        return (me, SKey(z3.Const("path", Val))), g.choice({}, {"default": SBranch(z3.Const("dflt", Val))})

    def check(self, args, kw, out):
        if in_ctx():
            if out.exc is not None:
                return isinstance(out.exc, Found) and kw == {}
            r = out.value
            return isinstance(r, FoundVal) and mkbool(z3.And(
                same(r.args[0], args[0].model), same(r.args[1], args[1]), z3.BoolVal(set(r.kw) == set(kw)),
                *[same(r.kw[k], kw[k]) for k in kw if k in r.kw]))
        want = None
        try:
            want = Ok(pandata.resolve_jsonpointer(args[0].model, args[1], **kw))
        except Exception as ex:
            want = Err(ex)
        return type(out.exc) is type(want.exc) and (out.exc is not None or out.value is want.value)

    def cases(self, rng, tier):
        me = pandata.Pandel()
        me.model = {"a": {"b": [1, None, {"c": 0}]}, "": 5}
        for p in ("/a", "/a/b", "/a/b/1", "/a/b/2/c", "/", "", "/x", "/a/b/9", "/a/x"):
            for kw in ({}, {"default": None}, {"default": "d"}):
                yield (me, p), kw


class Found(Exception):
    pass


class FoundVal:
    """the value resolve_jsonpointer gives for some arguments"""

    def __init__(self, args, kw):
        self.args, self.kw = args, kw


class Resolve(Contract):
    """what get() is given by resolve_jsonpointer"""
    prop = ()
    target = PD + "resolve_jsonpointer"

    def apply(self, ctx, args, kw):
        import inspect
        ba = inspect.signature(pandata.resolve_jsonpointer).bind(*args, **kw)
        a = ba.arguments
        if a.get("root") is not None:
            raise Unsupported("get() resolving from a root")
        d = {k: v for k, v in a.items() if k == "default" and v is not pandata._scream}
        if not d and ctx.choose(2):
            raise Found()
        return FoundVal((a["doc"], a["jsonpointer"]), d)


CONTRACTS = [Clone, Merge, Build, Gate, Get, Resolve]
