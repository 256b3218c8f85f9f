"""Contracts for validating trees of pandas and numpy objects (pandalone/pandata.py, PandelVisitor)."""
import collections
import collections.abc as cabc
import enum
import itertools
import numbers
import re
import types

import jsonschema
import numpy as np
import pandas as pd
import z3
from jsonschema import ValidationError
from pandas.core.generic import NDFrame

from pyvc import coll, loops, rt
from pyvc.coll import BMap, absent
from pyvc.contract import Contract, Ok, Err
from pyvc.core import Unsupported, cur, in_ctx
from pyvc.docs import SKey
from pyvc.loops import SymSeq
from pyvc.vals import *
from pyvc.vals import Val

from pandalone import pandata

PD = "pandalone.pandata:"
I, B = z3.IntSort(), z3.BoolSort()

# -- any value at all ---------------------------------------------------------------

KIND_NAMES = ("none", "bool", "np.bool_", "int", "np.integer", "float", "np.float64", "np.float32", "str", "bytes",
              "sequence", "mapping", "DataFrame", "Series", "ndarray", "other")
(NONE, BOOL, NPBOOL, INT, NPINT, FLOAT, NPF64, NPF32, STR, BYTES, SEQ, MAPPING, FRAME, SERIES, ARRAY,
 OTHER) = range(16)
kind_of = z3.Function("kind_of", Val, I)
is_nan = z3.Function("is_nan", Val, B)
all_nan = z3.Function("all_nan", Val, B)
numeric = z3.Function("of_numbers", Val, B)
size_of = z3.Function("size_of", Val, I)
CLASSES = {
    str: (STR,), bytes: (BYTES,), cabc.Sequence: (STR, BYTES, SEQ, SERIES), cabc.Mapping: (MAPPING, FRAME, SERIES),
    np.ndarray: (ARRAY,), bool: (BOOL,), np.bool_: (NPBOOL,), int: (BOOL, INT), np.integer: (NPINT,),
    float: (FLOAT, NPF64), np.floating: (NPF64, NPF32), np.generic: (NPBOOL, NPINT, NPF64, NPF32),
    np.float64: (NPF64,), np.number: (NPINT, NPF64, NPF32),
    numbers.Number: (BOOL, INT, NPINT, FLOAT, NPF64, NPF32), numbers.Real: (BOOL, INT, NPINT, FLOAT, NPF64, NPF32),
    numbers.Integral: (BOOL, INT, NPINT), type(None): (NONE,), pd.DataFrame: (FRAME,), pd.Series: (SERIES,),
    NDFrame: (FRAME, SERIES), object: tuple(range(16)),
}


class SValue(Sym):
    """any Python value"""

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "<value>"

    __str__ = __repr__

    def __format__(self, s):
        return "<value>"

    __hash__ = Sym.__hash__

    def kind(self):
        k = kind_of(self.t)
        cur().assume(z3.And(0 <= k, k <= OTHER))
        return k

    def among(self, ks):
        k = self.kind()
        return z3.Or(*[k == i for i in ks])

    def is_a(self, *ks):
        return cur().branch(self.among(ks))

    def isinstance_sym(self, c):
        ks = CLASSES.get(c)
        if ks is None:
            raise Unsupported("isinstance(value, %s)" % (c,))
        return mkbool(self.among(ks))

    def is_sym_identity(self, o):
        if o is None:
            return mkbool(self.kind() == NONE)
        if isinstance(o, SValue):
            return mkbool(self.t == o.t)
        raise Unsupported("value is %r" % (o,))

    def same_as(self, o):
        if isinstance(o, SValue):
            return self.t == o.t
        return self.kind() == NONE if o is None else z3.BoolVal(False)

    def __ne__(self, o):
        if o is not self:
            raise Unsupported("!= of any value")
        if self.is_a(ARRAY, FRAME, SERIES):
            return SMask(self)
        if self.is_a(SEQ, MAPPING, OTHER):
            return SBool(z3.Bool(cur().fresh("ne")))
        return mkbool(z3.And(self.among((FLOAT, NPF64, NPF32)), is_nan(self.t)))

    def __eq__(self, o):
        r = self != o
        return SMask(self, True) if isinstance(r, SMask) else (not r) if isinstance(r, bool) else ~r

    @property
    def size(self):
        if self.is_a(FRAME, SERIES, ARRAY):
            cur().assume(size_of(self.t) >= 0)
            return mkint(size_of(self.t))
        if self.is_a(NPBOOL, NPINT, NPF64, NPF32):
            return 1
        raise AttributeError("size")

    def as_array(self, dtype=None):
        if dtype is not None or self.is_a(NONE, BOOL, INT, FLOAT, STR, BYTES, SEQ, MAPPING, OTHER):
            raise Unsupported("asarray of any value")
        return self

    def __bool__(self):
        raise Unsupported("truth of any value")

    truth = __bool__


class SMask(Sym):
    """isnan() of an array, or x != x of one"""

    def __init__(self, of, neg=False):
        self.of, self.neg = of, neg

    def all(self, *a, **k):
        if self.neg or a or k:
            raise Unsupported("all() of another mask")
        return mkbool(all_nan(self.of.t))

    def __bool__(self):
        if not cur().branch(size_of(self.of.t) == 1):
            raise ValueError("The truth value of an array is ambiguous")
        return cur().branch(all_nan(self.of.t) if not self.neg else z3.Not(all_nan(self.of.t)))

    def truth(self):
        return bool(self)

    __hash__ = Sym.__hash__


def _isnan(x):
    if x.is_a(FRAME, SERIES, ARRAY):
        if not cur().branch(numeric(x.t)):
            raise TypeError("ufunc 'isnan' not supported for the input types")
        return SMask(x)
    if x.is_a(NONE, STR, BYTES, MAPPING, OTHER):
        raise TypeError("ufunc 'isnan' not supported for the input types")
    if x.is_a(SEQ):
        raise Unsupported("isnan of a sequence")
    return SNpBool(z3.And(x.among((FLOAT, NPF64, NPF32)), is_nan(x.t)))


class SNpBool(SBool):
    """a boolean of numpy"""

    def all(self, *a, **k):
        return self

    any = item = all


rt.MODELS[np.isnan] = _isnan


def is_null_t(t):
    k = kind_of(t)
    return z3.Or(k == NONE, z3.And(z3.Or(k == FLOAT, k == NPF64, k == NPF32), is_nan(t)),
                 z3.And(z3.Or(k == FRAME, k == SERIES, k == ARRAY), size_of(t) == 1, numeric(t), all_nan(t)))


def among(*ks):
    return lambda t: z3.Or(*[kind_of(t) == k for k in ks])


def null_value(x):
    """what null means for concrete values"""
    if x is None:
        return True
    if isinstance(x, (float, np.floating)) or isinstance(x, (np.datetime64, np.timedelta64, np.complexfloating)):
        return bool(x != x)
    if isinstance(x, (pd.DataFrame, pd.Series, np.ndarray)):
        if x.size != 1:
            return False
        v = np.asarray(x).ravel()
        return v.dtype.kind in "fc" and bool(np.isnan(v[0]))
    return False


NAN = float("nan")


class Odd:
    """a value that resembles nothing"""


class Level(enum.IntEnum):
    LOW = 1


class Text(str):
    pass


class Items(list):
    pass


class Named(dict):
    pass


class Real(float):
    pass


class Fussy:
    """a value that cannot be compared"""
    def __eq__(self, o):
        raise ValueError("no comparing")
    __ne__ = __eq__
    __hash__ = object.__hash__


def VALUES():
    return [
        None, True, False, np.True_, np.False_, 0, 1, -3, 2 ** 70, np.int64(3), np.uint8(1), np.int16(-1), 0.0, 1.0, 2.5,
        NAN, float("NaN"), -NAN, float("inf"), np.float64(2), np.float64("nan"), np.nan, np.float32(1), np.float32("nan"),
        np.float16("nan"), "", "abc", "nan", np.str_("x"), b"", b"ab", bytearray(b"x"), [], [1], [None], [NAN], (), (NAN,),
        (1, 2), range(3), collections.deque(), collections.deque([1]), {}, {"a": NAN}, collections.OrderedDict(a=1),
        types.MappingProxyType({"a": 1}), collections.ChainMap({"a": 1}), set(), {1}, frozenset(), iter([]), Odd(), Fussy(),
        object, len, 1j, complex("nan"), np.array(1), np.array(NAN), np.array([]), np.array([1, 2]), np.array([NAN]),
        np.array([[NAN]]), np.array([NAN, NAN]), np.array([[1., NAN]]), np.array(["a"]), np.array([None]), np.array([True]),
        np.array([None, NAN], dtype=object), pd.Series([], dtype=float), pd.Series([1]), pd.Series([NAN]), pd.Series([NAN, 1]),
        pd.Series({"a": NAN}), pd.Series(["x"]), pd.Series([None]), pd.DataFrame(), pd.DataFrame({"a": [NAN]}),
        pd.DataFrame({"a": [1]}), pd.DataFrame({"a": [1, NAN]}), pd.DataFrame({"a": ["x"]}), pd.NaT, pd.Timestamp(0),
        pd.Index([1]), np.datetime64("NaT"), np.datetime64(0, "s"), np.matrix([[1]]), Odd, type(None), Ellipsis,
        Level.LOW, Text("x"), Items([1]), Named(a=1), Real(1), Real("nan"), np.uint64(2 ** 63),
        np.array([[[NAN]]]), np.full((1, 1, 1, 1), NAN), np.full((2, 2, 2), NAN), pd.Series([NAN], index=["x"], name="n"),
    ]


class Kind(Contract):
    """one of the types of JSON: which values are of it"""
    prop = "C21"
    internal = True
    call_site = False
    means = None        # of a term
    holds = None        # of a value

    def inputs(self, g):
        return (None, SValue(z3.Const("x", Val))), {}

    def check(self, args, kw, out):
        if out.exc is not None:
            return False
        if in_ctx():
            return mkbool(rtruth(out.value) == type(self).means(args[1].t))
        return bool(out.value) == bool(type(self).holds(args[1]))

    def cases(self, rng, tier):
        for x in VALUES():
            yield (None, x), {}

    def lift(self, args, kw):
        yield Verdict(), ({"type": self.json}, args[1]), {}


def rtruth(v):
    return tbool(v) if isinstance(v, (bool, SBool)) else z3.BoolVal(bool(v))


class IsArray(Kind):
    """lists and other sequences (not texts), Series and ndarrays are arrays"""
    target, json = PD + "_is_array", "array"
    means = among(BYTES, SEQ, SERIES, ARRAY)
    holds = lambda x: isinstance(x, (list, tuple, range, bytes, bytearray, collections.deque, pd.Series, np.ndarray))


class IsObject(Kind):
    """mappings, DataFrames and Series are objects"""
    target, json = PD + "_is_object", "object"
    means = among(MAPPING, FRAME, SERIES)
    holds = lambda x: isinstance(x, (dict, types.MappingProxyType, collections.ChainMap, pd.DataFrame, pd.Series))


class IsBool(Kind):
    """booleans of Python and numpy are booleans"""
    target, json = PD + "_is_bool", "boolean"
    means = among(BOOL, NPBOOL)
    holds = lambda x: isinstance(x, (bool, np.bool_))


class IsInteger(Kind):
    """ints of Python and numpy are integers, booleans are not"""
    target, json = PD + "_is_integer", "integer"
    means = among(INT, NPINT)
    holds = lambda x: isinstance(x, (int, np.integer)) and not isinstance(x, bool)


class IsNull(Kind):
    """None, any NaN, and an array or pandas object of a single NaN are nulls"""
    target, json = PD + "_is_null", "null"
    means = is_null_t
    holds = null_value
    assumes = ("pandas' and numpy's isnan/size mean what they say (also run concretely)",)


# -- the defaults and nulls of properties ---------------------------------------------

s_object = z3.Function("schema_is_object", Val, B)
s_hasdef = z3.Function("schema_has_default", Val, B)
s_default = z3.Function("schema_default", Val, Val)
s_type = z3.Function("schema_type", Val, Val)
t_nulls = z3.Function("type_admits_null", Val, B)
TRI = {k: (z3.Function("has_" + k, Val, B), z3.Function("is_" + k, Val, B))
       for k in ("autoDefault", "autoDefaultNull", "autoRemoveNull")}


class SSchema(Sym):
    """any subschema"""
    havocable = True

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "<schema>"

    __str__ = __repr__

    def __format__(self, s):
        return "<schema>"

    __hash__ = Sym.__hash__

    def isinstance_sym(self, c):
        if c in (dict, cabc.Mapping, cabc.MutableMapping):
            return mkbool(s_object(self.t))
        if c is bool:
            return mkbool(z3.Not(s_object(self.t)))
        if c in (str, bytes, list, tuple, cabc.Sequence):
            return False
        raise Unsupported("isinstance(schema, %s)" % c)

    def is_sym_identity(self, o):
        if isinstance(o, SSchema):
            return mkbool(self.t == o.t)
        if o in (True, False):
            return mkbool(z3.And(z3.Not(s_object(self.t)), z3.Bool("schema_true_%s" % self.t) == o))
        return False

    def _object(self, what):
        if not cur().branch(s_object(self.t)):
            raise TypeError("argument of type 'bool' is not iterable" if what == "in" else "a bool")

    def contains_sym(self, k):
        self._object("in")
        return self.has(k)

    __contains__ = contains_sym

    def has(self, k):
        if k == "default":
            return mkbool(s_hasdef(self.t))
        if k in TRI:
            return mkbool(z3.Bool("given_%s_%s" % (k, self.t)))
        raise Unsupported("%r in a schema" % (k,))

    def get(self, k, d=None):
        if not cur().branch(s_object(self.t)):
            raise AttributeError("get of a bool")
        if k in TRI:
            has, is_ = TRI[k]
            return STri(has(self.t), is_(self.t))
        if k == "type":
            return STypes(s_type(self.t))
        if k == "default":
            return SValue(s_default(self.t)) if cur().branch(s_hasdef(self.t)) else d
        raise Unsupported("get(%r) of a schema" % (k,))

    def __getitem__(self, k):
        self._object("[]")
        if k == "default":
            if not cur().branch(s_hasdef(self.t)):
                raise KeyError(k)
            cur().assume(s_default(self.t) != absent)
            return SValue(s_default(self.t))
        raise Unsupported("schema[%r]" % (k,))


class STri(Sym):
    """None, True or False"""

    def __init__(self, has, on):
        self.has, self.on = has, on

    def is_sym_identity(self, o):
        if o is None:
            return mkbool(z3.Not(self.has))
        if o in (True, False):
            return mkbool(z3.And(self.has, self.on == o))
        raise Unsupported("tri-state is %r" % (o,))

    def truth(self):
        return z3.And(self.has, self.on)

    def __bool__(self):
        return cur().branch(self.truth())

    def isinstance_sym(self, c):
        return mkbool(self.has) if c is bool else c is object

    __hash__ = Sym.__hash__

    def __eq__(self, o):
        return self.is_sym_identity(o)

    def __ne__(self, o):
        return ~self.is_sym_identity(o)

    def same_as(self, o):
        if isinstance(o, STri):
            return z3.And(self.has == o.has, z3.Implies(self.has, self.on == o.on))
        return tbool(self.is_sym_identity(o))


def tri(x):
    """-> (is it there, is it on)"""
    if isinstance(x, STri):
        return x.has, x.on
    if x is None:
        return z3.BoolVal(False), z3.BoolVal(False)
    return z3.BoolVal(True), tbool(x)


class FirstDefined(Contract):
    """the first that is not None, or the default"""
    prop = "C21"
    target = PD + "first_defined"
    internal = True
    proof_bound = "up to 3 values"

    def inputs(self, g):
        def one(n):
            return STri(z3.Bool("has" + n), z3.Bool("on" + n))
        return tuple(one(str(i)) for i in range(g.choice(2, 0, 1, 3))), g.choice({}, {"default": one("d")})

    def spec(self, *var, default=None):
        has, on = tri(default)
        for v in reversed(var):
            h, o = tri(v)
            has, on = z3.Or(h, has), z3.If(h, o, on)
        return STri(has, on)

    def check(self, args, kw, out):
        if out.exc is not None:
            return False
        if not in_ctx():
            want = kw.get("default")
            for v in reversed(args):
                want = v if v is not None else want
            return out.value is want
        return mkbool(self.spec(*args, **kw).same_as(out.value))

    def apply(self, ctx, args, kw):
        return self.spec(*args, **kw)

    def cases(self, rng, tier):
        for n in range(4):
            for a in itertools.product((None, True, False, 0, ""), repeat=n):
                yield a, {}
                yield a, {"default": "d"}

    def lift(self, args, kw):
        return ()


class STypes(Sym):
    """the `type` of a schema, if any"""

    def __init__(self, t):
        self.t = t


class Props(BMap):
    wrap = SSchema


class Instance(BMap):
    wrap = SValue


class NullInType(Contract):
    """does the `type` of a schema (none, a name, or some) admit nulls?"""
    prop = "C21"
    target = PD + "_is_null_in_type"
    internal = True
    proof_bound = "up to 3 types, of any names"

    def inputs(self, g):
        how = g.choice("none", "one", "list", "tuple")
        names = [g.str("t%d" % i) for i in range(g.choice(0, 1, 2, 3) if how in ("list", "tuple") else 1)]
        return ({"none": None, "one": names and names[0], "list": names, "tuple": tuple(names)}[how],), {}

    def spec(self, typ):
        if typ is None:
            return False
        names = typ if isinstance(typ, (list, tuple)) else [typ]
        for n in names:
            if n == "null":
                return True
        return False

    def check(self, args, kw, out):
        want = self.spec(*args)
        return out.exc is None and mkbool(rtruth(out.value) == rtruth(want)) if in_ctx() else \
            out.exc is None and bool(out.value) == bool(want)

    def apply(self, ctx, args, kw):
        if isinstance(args[0], STypes):
            return mkbool(t_nulls(args[0].t))
        f = rt.hooked(pandata._is_null_in_type)
        return f(*args, **kw)

    def cases(self, rng, tier):
        for t in (None, "", "null", "number", "nullable", [], ["null"], ["number", "null"], ("string",), ["nul", "l"]):
            yield (t,), {}

    def lift(self, args, kw):
        for x in (None, NAN):
            yield Verdict(), ({"properties": {"p": {"type": args[0], "default": 1}} if args[0] is not None else
                               {"p": {"default": 1}}}, {"p": x}, {"auto_default_nulls": True}), {}


class NullHere(Contract):
    """_is_null, for the values of an instance"""
    prop = ()
    target = PD + "_is_null"

    def apply(self, ctx, args, kw):
        if isinstance(args[1], SValue):
            return mkbool(is_null_t(args[1].t))
        return rt.hooked(pandata._is_null)(*args, **kw)


class SProps(Sym):
    """a validator or anything else that is only handed over"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<%s>" % self.name


class AutoDefaults(Contract):
    """
    For each property of the schema: a missing one is set to its default when
    autoDefault is on, a null one that may not be null when autoDefaultNull
    is; otherwise a null that may not be is removed when autoRemoveNull is on.
    The settings of a property's schema win over the general ones.  Nothing
    else changes; then the properties are validated as usual.
    """
    prop = "C21"
    target = PD + "_rule_auto_defaults_properties"
    internal = True
    call_site = False
    map_class = Props
    z3_ms = 60000
    assumes = ("setting and deleting entries of a Series or DataFrame does what it says (concrete runs only)",)

    def inputs(self, g):
        inst = Instance(z3.Const("instance", coll.MAP)) if g.choice(1, 0) else SValue(z3.Const("leaf", Val))
        if isinstance(inst, SValue):
            g.ctx.assume(z3.Not(among(MAPPING, FRAME, SERIES)(inst.t)))
        props = Props(z3.Const("props", coll.MAP))
        calls = []
        n = g.choice(1, 0, 2)
        errs = [SProps("error %d" % i) for i in range(n)]
        v, schema = SProps("validator"), SProps("schema")

        def rule(*a, **k):
            calls.append((a, k, inst.t))
            return iter(errs)
        kw = {k: STri(z3.Bool("has_" + k), z3.Bool("on_" + k)) for k in ("auto_default", "auto_default_nulls", "auto_remove_nulls")}
        self.st = (calls, errs)
        return (v, props, inst, schema), dict(kw, original_props_rule=rule)

    def invoke(self, func, args, kw):
        if in_ctx():
            return list(rt.hooked(func)(*args, **kw))
        calls, errs = [], [object(), object()]

        def rule(*a, **k):
            calls.append((a, k, dict(a[2].items()) if isinstance(a[2], cabc.Mapping) else None))
            return iter(errs)
        self.st = (calls, errs)
        return list(func(*args, **dict(kw, original_props_rule=rule)))

    def before(self, args, kw):
        if in_ctx():
            return args[2].t
        return dict(args[2].items()) if isinstance(args[2], cabc.Mapping) else args[2]

    def check(self, args, kw, out):
        calls, errs = self.st
        if out.exc is not None:
            return False
        v, props, inst, schema = args
        if not in_ctx():
            return self.concretely(props, inst, kw, out, calls, errs, args)
        if isinstance(inst, SValue):
            return not calls and out.value == []
        x = z3.Const("ad_x", Val)
        P, before = props.t, self.snap
        s = P[x]

        def on(k, name):
            has, is_ = TRI[k]
            return z3.If(has(s), is_(s), kw[name].truth())
        given, nullable = before[x] != absent, t_nulls(s_type(s))
        bad = z3.And(given, z3.Not(nullable), is_null_t(before[x]))
        want = z3.If(
            z3.Or(s == absent, z3.Not(s_object(s))), before[x], z3.If(
                z3.And(s_hasdef(s), z3.Or(z3.And(on("autoDefault", "auto_default"), z3.Not(given)),
                                          z3.And(on("autoDefaultNull", "auto_default_nulls"), bad))), s_default(s),
                z3.If(z3.And(on("autoRemoveNull", "auto_remove_nulls"), bad), absent, before[x])))
        c = cur()
        c.prove("defaults and nulls", z3.ForAll([x], inst.t[x] == want))
        c.prove("validated once, and its errors reported", z3.BoolVal(
            len(calls) == 1 and len(out.value) == len(errs) and all(a is b for a, b in zip(out.value, errs))))
        (a, k, t), = calls
        return len(a) == 4 and not k and all(p is q for p, q in zip(a, (v, props, inst, schema))) and mkbool(
            z3.ForAll([x], t[x] == want))

    def concretely(self, props, inst, kw, out, calls, errs, args):
        if not isinstance(inst, cabc.Mapping):
            return out.value == [] and not calls
        want = filled(props, self.snap, kw)
        got, column = dict(inst.items()), isinstance(inst, pd.Series)
        return out.value == errs and len(calls) == 1 and all(p is q for p, q in zip(calls[0][0], args)) \
            and not calls[0][1] and same_values(got, want, column) and same_values(calls[0][2], want, column)

    def cases(self, rng, tier):
        for _ in range(1500 if tier == "quick" else 20000):
            props = {k: a_schema(rng) for k in rng.sample("abcdef", rng.randint(0, 4))}
            inst = {k: rng.choice([None, NAN, 1, "x", [1], np.float32("nan"), {}, 0, ""]) for k in rng.sample(
                "abcdefgh", rng.randint(0, 5))}
            how = rng.random()
            if how < .15:
                inst = pd.Series(inst, dtype=object)
            elif how < .2:
                inst = rng.choice([None, 1, "abc", [1, 2]])
            yield (None, props, inst, {"properties": props}), {
                k: rng.choice([None, True, False]) for k in ("auto_default", "auto_default_nulls", "auto_remove_nulls")
            } | {"original_props_rule": None}

    def lift(self, args, kw):
        yield Verdict(), ({"properties": args[1]}, args[2], {k: kw[k] for k in kw if k != "original_props_rule"}), {}


def same_values(x, y, column=False):
    """a column of pandas picks its type anew when it grows"""
    return set(x) == set(y) and all(x[k] is y[k] or column and null_value(x[k]) and null_value(y[k]) or (
        column or type(x[k]) is type(y[k])) and (x[k] != x[k] and y[k] != y[k] or bool(x[k] == y[k])) for k in y)


def filled(props, given, kw):
    """the entries a mapping has after defaulting and removing nulls"""
    r = dict(given)
    for k, s in props.items():
        if not isinstance(s, dict):
            continue

        def on(a, b):
            v = s.get(a)
            return bool(kw.get(b) if v is None else v)
        t = s.get("type")
        nullable = "null" in ([t] if isinstance(t, str) else t or [])
        bad = k in given and not nullable and null_value(given[k])
        if "default" in s and (on("autoDefault", "auto_default") and k not in given
                               or on("autoDefaultNull", "auto_default_nulls") and bad):
            r[k] = s["default"]
        elif on("autoRemoveNull", "auto_remove_nulls") and bad:
            del r[k]
    return r


def a_schema(rng):
    if rng.random() < .1:
        return rng.choice([True, False])
    s = {}
    if rng.random() < .6:
        s["default"] = rng.choice([None, 1, "d", 2.5])
    if rng.random() < .6:
        s["type"] = rng.choice(["null", "number", "string", ["null", "number"], ["number", "string"], ["string"]])
    for k in TRI:
        if rng.random() < .35:
            s[k] = rng.choice([None, True, False])
    return s


# -- the other rules --------------------------------------------------------------------

class Pattern(Sym):
    """any pattern of property names"""

    def __init__(self, i):
        self.i = i

    def __repr__(self):
        return "<pattern %d>" % self.i

    def __lt__(self, o):
        return self.i < o.i

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return hash(self.i)

    def matches(self, name):
        return mkbool(z3.Bool("pattern%d_matches_%s" % (self.i, name)))


def _search(p, text, *flags):
    if isinstance(p, Pattern):
        if flags or type(text) is not str:
            raise Unsupported("another search of a pattern")
        return re.search("", "") if cur().branch(p.matches(text).t) else None
    return _search0(p, text, *flags) if _search0 else re.search(p, text, *flags)


_search0 = rt.MODELS.get(re.search)
rt.MODELS[re.search] = _search


class Names(Sym):
    """a mapping with any of the names"""

    def contains_sym(self, k):
        return mkbool(z3.Bool("property_%s" % k))

    __contains__ = contains_sym


class Descended:
    """the errors of a value against a schema"""

    def __init__(self, *a, **k):
        self.a, self.k = a, k

    def __repr__(self):
        return "errors of %r, %r" % (self.a, self.k)


class Checker:
    """what the rules may ask of a validator"""

    def __init__(self, types):
        self.types = types

    def is_type(self, x, t):
        for y, name, r in self.types:
            if y is x and name == t:
                return r
        raise Unsupported("is %r of type %s?" % (x, t))

    def descend(self, instance, schema, path=None, schema_path=None):
        yield Descended(instance, schema, path, schema_path)


class Additional(Contract):
    """
    The entries that neither properties name nor a pattern matches are
    validated by additionalProperties when a schema, or refused when False.
    """
    prop = "C21"
    target = PD + "_rule_additionalProperties"
    internal = True
    call_site = False
    proof_bound = "up to 3 entries of any values, up to 2 patterns; any names and matches"
    max_paths = 20000

    def inputs(self, g):
        names = ["k0", "k1", "k2"][:g.choice(0, 1, 2, 3)]
        inst = {n: SProps("value of " + n) for n in names}
        schema = {}
        if g.choice(1, 0):
            schema["properties"] = Names()
        pats = g.choice(None, 0, 1, 2)
        if pats is not None:
            schema["patternProperties"] = {Pattern(i): SProps("subschema") for i in range(pats)}
        how = g.choice("object", True, False)
        aP = SProps("schema") if how == "object" else how
        obj = g.choice(True, False)
        v = Checker([(inst, "object", obj), (aP, "object", how == "object")])
        self.st = obj, how
        return (v, aP, inst, schema), {}

    def invoke(self, func, args, kw):
        if in_ctx():
            return list(rt.hooked(func)(*args, **kw))
        return list(func(*args, **kw))

    def check(self, args, kw, out):
        if out.exc is not None:
            return False
        v, aP, inst, schema = args
        if not in_ctx():
            return True
        obj, how = self.st
        if not obj:
            return out.value == []
        extras = []
        for k in inst:
            t = [z3.Bool("property_%s" % k)] if "properties" in schema else []
            t += [p.matches(k).t for p in schema.get("patternProperties", {})]
            if not cur().branch(z3.Or(*t) if t else z3.BoolVal(False)):
                extras.append(k)
        if how == "object":
            return sorted((d.a[2], d.a[0].name) for d in out.value) == [(k, "value of " + k) for k in extras] \
                and all(d.a[1] is aP and d.a[3] is None for d in out.value)
        if how is True or not extras:
            return out.value == []
        e, = out.value
        return isinstance(e, ValidationError) and all(repr(k) in e.message for k in extras) \
            and not any(repr(k) in e.message for k in inst if k not in extras)


class NameRule(Contract):
    """propertyNames validates the name of every entry"""
    prop = "C21"
    target = PD + "_rule_propertyNames"
    internal = True
    call_site = False
    proof_bound = "up to 3 entries"

    def inputs(self, g):
        inst = {n: SProps(n) for n in ["k0", "k1", "k2"][:g.choice(0, 1, 2, 3)]}
        self.obj = g.choice(True, False)
        pn = SProps("schema")
        return (Checker([(inst, "object", self.obj)]), pn, inst, SProps("all")), {}

    invoke = Additional.invoke

    def check(self, args, kw, out):
        if out.exc is not None:
            return False
        return [(d.a[0], d.a[1] is args[1]) for d in out.value] == [(k, True) for k in args[2] if self.obj]


same_json = z3.Function("same_json", Val, Val, B)


class Same(Contract):
    """equality of values, used by the rules below"""
    prop = ()
    target = PD + "_json_equal"

    def apply(self, ctx, args, kw):
        a, b = args
        return mkbool(same_json(a.t, b.t))


class JsonEqual(Contract):
    """
    Two values are equal when they are of the same JSON kind and equal by
    value: objects by their entries, arrays by their items; booleans are no
    numbers.
    """
    prop = "C21"
    target = PD + "_json_equal"
    internal = True
    call_site = False
    bounded = "pairs of assorted values and random trees"

    def check(self, args, kw, out):
        try:
            want = json_same(*args)
        except Exception:
            return True
        return out.exc is None and bool(out.value) == want

    def cases(self, rng, tier):
        vs = [v for v in VALUES() if not isinstance(v, (Fussy, pd.Index, np.matrix)) and not (
            isinstance(v, np.ndarray) and v.ndim == 0)]
        for a in vs:
            for b in vs:
                yield (a, b), {}
        for _ in range(500 if tier == "quick" else 5000):
            a = instance(rng, 3)
            yield (a, plainly(a)), {}
            yield (plainly(a), a), {}
            yield (a, instance(rng, 2)), {}
        for n in (5, 12, 17, 33, 65, 300):
            a = {"k%d" % i: rng.choice([1, 1.0, "x", None, [1]]) for i in range(n)}
            l = [rng.choice([1, 1.0, "x", None, [1]]) for i in range(n)]
            for i in (0, n // 2, n - 1):
                for v in (True, 2, "y", [1, 2]):
                    for x, y in ((a, "k%d" % i), (l, i)):
                        z = x.copy()
                        yield (x, z), {}
                        z[y] = v
                        yield (x, z), {}
                        yield (z, x), {}
                z = dict(a)
                z["other"] = z.pop("k%d" % i)
                yield (a, z), {}
                yield (dict(reversed(list(a.items()))), a), {}

    def lift(self, args, kw):
        yield Verdict(), ({"enum": [args[1]]}, args[0], {}), {}


py_equal = z3.Function("py_equal", Val, Val, B)


class SScalar(SValue):
    """any value that is neither an object nor an array of JSON"""

    def __init__(self, t):
        SValue.__init__(self, t)
        cur().assume(z3.Not(self.among((BYTES, SEQ, SERIES, ARRAY, MAPPING, FRAME))))

    def is_sym_identity(self, o):
        return False if isinstance(o, (dict, list)) else SValue.is_sym_identity(self, o)

    def __eq__(self, o):
        if isinstance(o, (dict, list)):
            raise Unsupported("== of a scalar and a container")
        if o is self or not isinstance(o, SScalar):
            return SValue.__eq__(self, o)
        return mkbool(py_equal(self.t, o.t))

    def __ne__(self, o):
        if o is self or not isinstance(o, SScalar):
            return SValue.__ne__(self, o)
        return mkbool(z3.Not(py_equal(self.t, o.t)))

    __hash__ = Sym.__hash__


class JsonEqualAny(Contract):
    """
    One level of equality, whatever the equality below: two objects are equal
    by their entries, two arrays by their items, scalars as in Python but for
    booleans, which equal only booleans; kinds do not mix.
    """
    prop = "C21"
    target = PD + "_json_equal"
    internal = True
    call_site = False
    proof_bound = "dicts and lists of up to 3 entries of any values, and any scalars; the level below by its contract"
    stand_in = "JsonEqual"
    assumes = ("== of Python's scalars (uninterpreted; also run concretely)",)

    def inputs(self, g):
        def one(n):
            def val(i):
                return SValue(z3.Const("%s_%s" % (n, i), Val))
            k = g.choice("scalar", "dict", "list")
            if k == "scalar":
                return SScalar(z3.Const(n, Val))
            if k == "list":
                return [val(i) for i in range(g.choice(0, 1, 2, 3))]
            return {x: val(x) for x in g.choice("", "a", "b", "ab", "ba", "bc", "abc", "cab")}
        return (one("x"), one("y")), {}

    def check(self, args, kw, out):
        if out.exc is not None:
            return False
        a, b = args
        same = lambda xs: z3.And(True, *[same_json(x.t, y.t) for x, y in xs])
        if isinstance(a, dict) and isinstance(b, dict):
            want = same((a[k], b[k]) for k in a) if set(a) == set(b) else z3.BoolVal(False)
        elif isinstance(a, list) and isinstance(b, list):
            want = same(zip(a, b)) if len(a) == len(b) else z3.BoolVal(False)
        elif isinstance(a, SScalar) and isinstance(b, SScalar):
            bools = [z3.Or(kind_of(x.t) == BOOL, kind_of(x.t) == NPBOOL) for x in args]
            want = z3.Or(a.t == b.t, z3.And(bools[0] == bools[1], py_equal(a.t, b.t)))
        else:
            want = z3.BoolVal(False)
        return mkbool(rtruth(out.value) == want)


class EnumRule(Contract):
    """an instance not equal to any of the enum is an error, its only one"""
    prop = "C21"
    target = PD + "rule_enum"
    internal = True
    call_site = False

    def inputs(self, g):
        f = z3.Function("enum_item", I, Val)
        n = g.int("n", 0)
        return (SProps("validator"), Enums(n, lambda i: SValue(f(i))), SValue(z3.Const("x", Val)), SProps("schema")), {}

    invoke = Additional.invoke

    def check(self, args, kw, out):
        if out.exc is not None:
            return False
        enums, x = args[1], args[2]
        i = z3.Int("en_i")
        found = z3.Exists([i], z3.And(0 <= i, i < tint(enums.n), same_json(x.t, enums.get(i).t)))
        return mkbool(found == (len(out.value) == 0)) if len(out.value) < 2 and all(
            isinstance(e, ValidationError) for e in out.value) else False


class Enums(SymSeq):
    def __repr__(self):
        return "<enums>"

    def contains_sym(self, x):
        raise Unsupported("membership by Python's equality")


class ConstRule(Contract):
    """an instance not equal to the constant is an error"""
    prop = "C21"
    target = PD + "rule_const"
    internal = True
    call_site = False

    def inputs(self, g):
        return (SProps("validator"), SValue(z3.Const("c", Val)), SValue(z3.Const("x", Val)), SProps("schema")), {}

    invoke = Additional.invoke

    def check(self, args, kw, out):
        return out.exc is None and len(out.value) < 2 and mkbool(
            same_json(args[2].t, args[1].t) == (len(out.value) == 0))


# -- whole validations ------------------------------------------------------------------

def is_obj(x):
    return isinstance(x, (dict, types.MappingProxyType, collections.ChainMap, pd.DataFrame, pd.Series))


def is_arr(x):
    return isinstance(x, (list, tuple, range, bytes, bytearray, collections.deque, pd.Series, np.ndarray))


def plainly(x):
    """the JSON tree that pandas and numpy objects stand for"""
    if isinstance(x, (dict, pd.DataFrame, pd.Series)):
        return {k: plainly(x[k]) for k in x.keys()}
    if is_arr(x):
        return [plainly(v) for v in x]
    return x.item() if isinstance(x, np.generic) else x


def json_same(a, b):
    if a is b:
        return True
    if is_obj(a) and is_obj(b) and set(a.keys()) == set(b.keys()) and all(json_same(a[k], b[k]) for k in a.keys()):
        return True
    if is_obj(a) and is_obj(b):
        return False
    if is_arr(a) and is_arr(b):
        return len(a) == len(b) and all(json_same(p, q) for p, q in zip(a, b))
    if is_obj(a) or is_obj(b) or is_arr(a) or is_arr(b):
        return False
    return isinstance(a, (bool, np.bool_)) == isinstance(b, (bool, np.bool_)) and bool(a == b)


def of_type(x, t):
    if t == "number":
        return isinstance(x, numbers.Number) and not isinstance(x, bool)
    if t == "string":
        return isinstance(x, str)
    k = {"array": IsArray, "object": IsObject, "boolean": IsBool, "integer": IsInteger, "null": IsNull}[t]
    return bool(k.holds(x))


def ref_errors(schema, x, kw, path=()):
    """-> pairs of path and keyword, for every error; x becomes as after validation"""
    if schema is True:
        return []
    if schema is False:
        return [(path, None)]
    out = []
    for word, v in schema.items():
        if word == "type":
            if not any(of_type(x, t) for t in ([v] if isinstance(v, str) else v)):
                out.append((path, word))
        elif word == "properties" and is_obj(x):
            fill(v, x, kw)
            for k, sub in v.items():
                if k in x:
                    out += ref_errors(sub, x[k], kw, path + (k,))
        elif word == "required" and is_obj(x):
            out += [(path, word) for k in v if k not in x]
        elif word == "patternProperties" and is_obj(x):
            for p, sub in v.items():
                for k in x.keys():
                    if re.search(p, k):
                        out += ref_errors(sub, x[k], kw, path + (k,))
        elif word == "additionalProperties" and is_obj(x):
            extras = [k for k in x.keys() if k not in schema.get("properties", {}) and not any(
                re.search(p, k) for p in schema.get("patternProperties", {}))]
            if isinstance(v, dict):
                for k in extras:
                    out += ref_errors(v, x[k], kw, path + (k,))
            elif not v and extras:
                out.append((path, word))
        elif word == "propertyNames" and is_obj(x):
            for k in x.keys():
                out += ref_errors(v, k, kw, path)
        elif word == "enum":
            if not any(json_same(x, e) for e in v):
                out.append((path, word))
        elif word == "const":
            if not json_same(x, v):
                out.append((path, word))
        elif word == "items" and is_arr(x):
            for i, e in enumerate(x):
                out += ref_errors(v, e, kw, path + (i,))
        elif word == "minItems" and is_arr(x) and len(x) < v or word == "maxItems" and is_arr(x) and len(x) > v:
            out.append((path, word))
        elif word == "minimum" and of_type(x, "number") and x < v or word == "maximum" and of_type(x, "number") and x > v:
            out.append((path, word))
        elif word == "pattern" and isinstance(x, str) and not re.search(v, x):
            out.append((path, word))
    return out


def fill(props, x, kw):
    given = dict(x.items())
    want = filled(props, given, kw)
    for k in given:
        if k not in want:
            del x[k]
    for k in want:
        if k not in given or want[k] is not given[k]:
            x[k] = want[k]


def copied(x):
    if isinstance(x, dict):
        return type(x)((k, copied(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return type(x)([copied(v) for v in x])
    return x.copy() if isinstance(x, (pd.DataFrame, pd.Series, np.ndarray)) else x


def alike(x, y):
    """same values, of the same types, at the same places"""
    if type(x) is not type(y):
        return False
    if isinstance(x, dict):
        return list(x) == list(y) and all(alike(x[k], y[k]) for k in x)
    if isinstance(x, (list, tuple)):
        return len(x) == len(y) and all(map(alike, x, y))
    if isinstance(x, pd.DataFrame):
        return list(x) == list(y) and all(alike(x[k], y[k]) for k in x)
    if isinstance(x, pd.Series):
        return list(x.index) == list(y.index) and len(x) == len(y) and all(alike(x.iloc[i], y.iloc[i]) for i in range(len(x)))
    if isinstance(x, np.ndarray):
        return x.shape == y.shape and alike(x.tolist(), y.tolist())
    return x is y or x == y or x != x and y != y


class Verdict(Contract):
    """
    Validating a tree of pandas and numpy objects reports the errors of the
    JSON tree these stand for, where they are, and fills in defaults and
    removes nulls as the schema says.
    """
    prop = "C21"
    target = PD + "PandelVisitor"
    call_site = False
    signature_matters = False
    bounded = "random schemas of the common keywords over random trees"

    def before(self, args, kw):
        return copied(args[1])

    def invoke(self, func, args, kw):
        v = func(args[0], **args[2] if len(args) > 2 else {})
        errs = [(tuple(e.absolute_path), e.validator) for e in v.iter_errors(args[1])]
        return errs, args[1]

    def check(self, args, kw, out):
        params = dict({"auto_default": True}, **(args[2] if len(args) > 2 else {}))
        try:
            want = ref_errors(args[0], self.snap, params)
        except Exception as ex:     # pandas refuses the change
            return out.exc is not None
        return out.exc is None and sorted(map(repr, out.value[0])) == sorted(map(repr, want)) \
            and alike(out.value[1], self.snap)

    def cases(self, rng, tier):
        for _ in range(4000 if tier == "quick" else 40000):
            draft = rng.choice([None, 4, 6, 7])
            schema = random_schema(rng, 3, draft)
            if draft and isinstance(schema, dict):
                schema["$schema"] = "http://json-schema.org/draft-0%d/schema#" % draft
            yield (schema, instance(rng, 3), {k: rng.choice([None, True, False]) for k in (
                "auto_default", "auto_default_nulls", "auto_remove_nulls") if rng.random() < .6}), {}
            if rng.random() < .3:
                names = lambda: rng.sample(["a", "b", "ab", "ba", "bb", "A", "c", "xd", ""], rng.randint(0, 5))
                s = {"additionalProperties": rng.choice([False, False, True, {"type": "string"}])}
                if rng.random() < .6:
                    s["patternProperties"] = {p: {} for p in rng.sample(PATTERNS, rng.randint(0, 2))}
                if rng.random() < .6:
                    s["properties"] = {n: {} for n in names()}
                if rng.random() < .3:
                    s["propertyNames"] = {"pattern": rng.choice(PATTERNS)}
                yield (s, rng.choice([dict, pd.Series])({n: rng.choice([1, "x"]) for n in names()}), {}), {}
        for x in VALUES():
            if not isinstance(x, Fussy):
                for t in ("array", "object", "boolean", "integer", "null"):
                    yield ({"type": t}, x), {}


TYPES = ("array", "object", "boolean", "integer", "null", "number", "string")
PATTERNS = ("^a", "b", "^[a-c]$", "c|d", "(.)\\1", "(?i)A", "^(a)|(b)", "^$")
LEAVES = (None, NAN, True, False, np.True_, 0, 1, 2, 7, np.int8(1), np.int64(0), 1.0, 2.5, np.float32(2.5), np.float32("nan"),
          np.float64("nan"), "", "a", "bb", "abc", "null")


def random_schema(rng, depth, draft):
    if draft != 4 and rng.random() < .1 and depth < 3:
        return rng.choice([True, False])
    s = {}

    def sub():
        return random_schema(rng, depth - 1, draft)
    words = rng.sample(["type", "properties", "required", "patternProperties", "additionalProperties", "propertyNames", "enum",
                        "const", "items", "minItems", "maxItems", "minimum", "maximum", "pattern"], rng.randint(0, 4))
    if depth == 3 and rng.random() < .8 and "properties" not in words:
        words.append("properties")
    for w in words:
        if w == "type":
            s[w] = rng.choice(TYPES) if rng.random() < .6 else rng.sample(TYPES, rng.randint(1, 3))
        elif w in ("properties", "patternProperties") and depth:
            ks = rng.sample("abcdef", rng.randint(0, 3)) if w == "properties" else rng.sample(PATTERNS, rng.randint(0, 2))
            s[w] = {k: sub() for k in ks}
        elif w == "required":
            s[w] = rng.sample("abcdef", rng.randint(1, 2))
        elif w == "additionalProperties":
            s[w] = rng.choice([True, False, False]) if not depth or rng.random() < .6 else dict(type=rng.choice(TYPES))
        elif w == "propertyNames" and draft != 4:
            s[w] = rng.choice([{"pattern": rng.choice(PATTERNS)}, {"enum": ["a", "b", "c"]}])
        elif w == "enum":
            s[w] = [plainly(instance(rng, rng.choice([0, 0, 1]))) for _ in range(rng.randint(1, 4))]
        elif w == "const" and draft != 4:
            s[w] = plainly(instance(rng, rng.choice([0, 1])))
        elif w == "items" and depth:
            it = sub()
            s[w] = it
        elif w in ("minItems", "maxItems"):
            s[w] = rng.randint(0, 3)
        elif w in ("minimum", "maximum"):
            s[w] = rng.choice([0, 1, 2])
        elif w == "pattern":
            s[w] = rng.choice(PATTERNS)
    if depth < 3:
        if rng.random() < .5:
            s["default"] = rng.choice([0, None, "dflt", 3.5])
        for k in TRI:
            if rng.random() < .2:
                s[k] = rng.choice([None, True, False])
    return s


def instance(rng, depth):
    k = rng.random()
    names = rng.sample(["a", "b", "c", "d", "aa", "A", ""], rng.randint(0, 4))
    if depth and k < .4:
        return {n: instance(rng, depth - 1) for n in names}
    if depth and k < .5:
        return [instance(rng, depth - 1) for _ in range(rng.randint(0, 3))]
    if depth and k < .62:
        kind = rng.random()
        if kind < .4:
            return pd.Series({n: rng.choice([1, 2, NAN, 0]) for n in names}, dtype=float)
        if kind < .7:
            return pd.Series({n: rng.choice(LEAVES) for n in names}, dtype=object)
        return pd.Series({n: rng.randint(0, 3) for n in names}, dtype=int)
    if depth and k < .72:
        n = rng.randint(0, 3)
        return pd.DataFrame({c: [rng.choice([1, 2.5, NAN]) for _ in range(n)] for c in names})
    if depth and k < .8:
        return np.array(rng.choice([[], [1, 2], [NAN], [1., NAN, 2], ["a", "b"], [True, False], [[1, 2], [3, 4]]]))
    return rng.choice(LEAVES)


CONTRACTS = [IsArray, IsObject, IsBool, IsInteger, IsNull, FirstDefined, NullInType, NullHere, AutoDefaults, Additional,
             NameRule, Same, JsonEqual, JsonEqualAny, EnumRule, ConstRule, Verdict]
