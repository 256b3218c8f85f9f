"""Run-time hooks called by instrumented code."""
import builtins
import functools
import inspect
import itertools
import types

import numpy as np
import z3

from .core import Unsupported, PathDone, cur, in_ctx
from .vals import (Sym, SInt, SBool, SStr, SAny, mkbool, mkint, mkstr, tint, tbool, tstr,
                   is_sym, isintlike, same)
from . import instrument as ins
from . import nparr
from . import loops

AZ = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
ROOTS = ("pandalone",)          # code whose body is analysed
EXTRA_FUNCS = set()             # (module, qualname) of dependency code analysed too
CONTRACTS = {}                  # (module, qualname) -> Contract, used at call sites
MODELS = {}                     # callable -> model(*args, **kw), when an arg is symbolic
METHODS = {}                    # (type, name) -> model(self, *args, **kw)


def deep_sym(x, d=3):
    if isinstance(x, Sym):
        return True
    if getattr(type(x), "__pyvc_proxy__", False):
        return True
    if d:
        if type(x) in (tuple, list, set, frozenset):
            return any(deep_sym(e, d - 1) for e in x)
        if isinstance(x, tuple):
            return any(deep_sym(e, d - 1) for e in x)
        if type(x) is dict:
            return any(deep_sym(e, d - 1) for e in x.values())
        if isinstance(x, np.ndarray) and x.dtype == object:
            return any(deep_sym(e, d - 1) for e in x.ravel())
    return False


def fkey(f):
    f = getattr(f, "__pyvc_orig__", f)
    return (f.__module__, f.__qualname__)


def analysed(f):
    m = getattr(f, "__module__", None) or ""
    return m.split(".")[0] in ROOTS or (m, f.__qualname__) in EXTRA_FUNCS


def hooked(f):
    """instrumented twin of a Python function, or None if it is not ours"""
    if f.__code__ in ins.HOOKED:
        return f
    if not analysed(f):
        return None
    try:
        g = ins.instrument(f, RT)
    except ins.NoSource as ex:
        raise Unsupported(str(ex))
    st = cur().eng.stats
    st.functions.setdefault("%s:%s" % fkey(f), "inlined")
    return g


def call(f, *args, **kw):
    if not in_ctx():
        return f(*args, **kw)
    ctx = cur()
    if ctx.dead:
        raise PathDone()
    if "**" in kw and not hasattr(type(f), "star_call"):
        raise Unsupported("**kwds with any keys")
    try:
        al = ALWAYS.get(f)
    except TypeError:
        al = None
    if al is not None:
        return al(*args, **kw)
    if isinstance(f, functools.partial):
        return call(f.func, *(f.args + args), **dict(f.keywords, **kw))
    if isinstance(f, types.FunctionType):
        return _call_py(f, args, kw)
    if isinstance(f, types.MethodType):
        if isinstance(f.__func__, types.FunctionType):
            return _call_py(f.__func__, (f.__self__,) + args, kw)
        return f(*args, **kw)
    if isinstance(f, type):
        m = MODELS.get(f)
        if m is not None and (deep_sym(args) or deep_sym(list(kw.values()))):
            return m(*args, **kw)
        return _instantiate(f, args, kw)
    if isinstance(f, (types.BuiltinFunctionType, types.MethodWrapperType)) or hasattr(f, "__call__"):
        try:
            m = MODELS.get(f)
        except TypeError:
            m = None
        if m is not None and (deep_sym(args) or deep_sym(list(kw.values()))):
            return m(*args, **kw)
        slf = getattr(f, "__self__", None)
        nm = getattr(f, "__name__", None)
        if slf is not None and nm is not None and not isinstance(slf, types.ModuleType):
            if nm == "join" and len(args) == 1 and type(args[0]) in (types.GeneratorType, map, filter):
                args = (list(args[0]),)
            if deep_sym(args) or deep_sym(list(kw.values())) or deep_sym(slf):
                mm = METHODS.get((type(slf), nm))
                if mm is not None:
                    return mm(slf, *args, **kw)
        cl = getattr(type(f), "__call__", None)
        if isinstance(cl, types.FunctionType) and analysed(cl):
            return _call_py(cl, (f,) + args, kw)
    return f(*args, **kw)


def kwstar(x):
    if in_ctx() and isinstance(x, _coll.SMap):
        return {"**": x}
    return x


def callx(f, pairs, **kw):
    """a call with starred arguments"""
    args = []
    for i, (star, x) in enumerate(pairs):
        if not star:
            args.append(x)
        elif in_ctx() and isinstance(x, _coll.STup):
            if i != len(pairs) - 1:
                raise Unsupported("starred argument in the middle")
            return call_star(f, x, args, kw)
        else:
            args.extend(x)
    return call(f, *args, **kw)


def call_star(f, tup, args=(), kw={}):
    """f(*args, *tup) for a tuple of any length"""
    if hasattr(type(f), "star_call"):
        return f.star_call(args, tup, kw)
    c = CONTRACTS.get(fkey(f))
    if c is not None and cur().eng.use_contract(c, cur()):
        return c.apply_star(cur(), args, tup, kw)
    if isinstance(f, types.MethodType):
        f, args = f.__func__, (f.__self__,) + tuple(args)
    if not isinstance(f, types.FunctionType) or not analysed(f) or \
            len(args) != f.__code__.co_argcount:
        raise Unsupported("*args of any length")
    try:
        g = ins.instrument(f, RT, True)
    except ins.NoSource as ex:
        raise Unsupported(str(ex))
    return g(*args, tup, **kw)


def _call_py(f, args, kw):
    ctx = cur()
    key = fkey(f)
    c = CONTRACTS.get(key)
    if c is not None and ctx.eng.use_contract(c, ctx):
        return c.apply(ctx, args, kw)
    m = MODELS.get(f)
    if m is not None:
        return m(*args, **kw)
    g = hooked(f)
    if g is None:
        return f(*args, **kw)
    ctx.depth += 1
    if ctx.depth > 40:
        raise Unsupported("recursion without a contract: %s" % f.__qualname__)
    try:
        return g(*args, **kw)
    finally:
        ctx.depth -= 1


def _instantiate(cls, args, kw):
    if cls.__module__.split(".")[0] not in ROOTS or issubclass(cls, BaseException):
        return cls(*args, **kw)
    new = cls.__new__
    init = cls.__init__
    if isinstance(new, types.FunctionType) and analysed(new):
        obj = _call_py(new, (cls,) + args, kw)
    elif isinstance(init, types.FunctionType) and new is object.__new__:
        obj = new(cls)
    else:
        try:
            obj = new(cls, *args, **kw)
        except TypeError:
            return cls(*args, **kw)
    if isinstance(obj, cls) and isinstance(init, types.FunctionType):
        _call_py(init, (obj,) + args, kw)
    elif isinstance(obj, cls) and init is not object.__init__ and not isinstance(obj, tuple):
        init(obj, *args, **kw)
    return obj


def contains(x, coll):
    if not in_ctx():
        return x in coll
    if isinstance(coll, Sym) or getattr(type(coll), "__pyvc_proxy__", False):
        f = getattr(coll, "contains_sym", None)
        if f is not None:
            return f(x)
        return x in coll
    if is_sym(x):
        if isinstance(x, (nparr.SArr,)):
            raise Unsupported("array in collection")
        if isinstance(coll, str):
            if isinstance(x, SStr) or hasattr(x, "str_in"):
                if hasattr(x, "str_in"):
                    return x.str_in(coll)
                return mkbool(z3.Contains(z3.StringVal(coll), x.t))
            raise TypeError("'in <string>' requires string as left operand")
        if isinstance(coll, (set, frozenset, list, tuple, dict, type({}.keys()))) or \
                hasattr(coll, "__iter__"):
            for e in list(coll):
                if e is x:
                    return True
                r = (x == e)
                if r is True or (r is not False and r is not NotImplemented and bool(r)):
                    return True
            return False
    elif isinstance(coll, (set, frozenset, dict)) and type(coll) in (set, frozenset, dict):
        if type(x) is tuple and deep_sym(x):
            return any(same_tuple(x, e) for e in coll)
        return x in coll
    elif isinstance(coll, (list, tuple)) and deep_sym(coll, 1):
        for e in coll:
            if e is x or bool(e == x):
                return True
        return False
    if isinstance(coll, (str,)) and not is_sym(coll):
        return x in coll
    cf = getattr(type(coll), "__contains__", None)
    if isinstance(cf, types.FunctionType) and analysed(cf):
        return bool(_call_py(cf, (coll, x), {}))
    return x in coll


def not_contains(x, coll):
    r = contains(x, coll)
    return not r


def is_(a, b):
    h = getattr(type(a), "is_sym_identity", None) if is_sym(a) else None
    if h is not None:
        return h(a, b)
    h = getattr(type(b), "is_sym_identity", None) if is_sym(b) else None
    if h is not None:
        return h(b, a)
    if isinstance(a, SBool) and isinstance(b, bool):
        return a == b
    return a is b


def is_not(a, b):
    r = is_(a, b)
    return (not r) if isinstance(r, bool) else ~r


def same_tuple(x, e):
    return type(e) is tuple and len(e) == len(x) and all(bool(a == b) for a, b in zip(x, e))


def dict_get(d, k, *default):
    """dict.get/pop of a native dict with a symbolic key"""
    if is_sym(k) or type(k) is tuple and deep_sym(k):
        try:
            return getitem(d, k)
        except KeyError:
            return default[0] if default else None
    return d.get(k, *default)


def getitem(a, k):
    if not in_ctx():
        return a[k]
    if isinstance(a, (Sym,)) or getattr(type(a), "__pyvc_proxy__", False):
        return a[k]
    if is_sym(k):
        if isinstance(a, dict):
            for e in list(a):
                if e is k or bool(k == e):
                    return a[e]
            raise KeyError(k)
        if isinstance(k, SInt) and type(a) is str and len(a) == 26 and a.upper() == AZ:
            if bool(mkbool(z3.And(k.t >= 0, k.t < 26))):
                return _strs.SLetter(k.t, z3.BoolVal(a == AZ))
        if isinstance(a, (list, tuple, str)) and isinstance(k, SInt):
            n = len(a)
            for i in range(n):
                if bool(k == i):
                    return a[i]
            for i in range(1, n + 1):
                if bool(k == -i):
                    return a[-i]
            raise IndexError("index out of range")
        if isinstance(k, SBool):
            return a[1 if k else 0]
    elif type(k) is tuple and type(a) is dict and deep_sym(k):
        for e in list(a):
            if same_tuple(k, e):
                return a[e]
        raise KeyError(k)
    gi = getattr(type(a), "__getitem__", None)
    if isinstance(gi, types.FunctionType) and analysed(gi):
        return _call_py(gi, (a, k), {})
    return a[k]


def mod(a, b):
    if in_ctx() and type(a) is str and deep_sym(b):
        return textval("%", (a, b))
    return a % b


def textval(kind, parts):
    """a text built from symbolic values, known only by how it was made"""
    def show(x):
        if type(x) in (tuple, list) or isinstance(x, tuple) and not is_sym(x):
            return "(%s)" % ", ".join(map(show, x))
        if isinstance(x, (SInt, SBool, SStr)):
            return "<%s>" % x.t
        return x if type(x) is str else repr(x)
    return SText("%s:%s" % (kind, show(parts)))


class SText(Sym):
    """an unmodelled text (error messages); anything else done with it is refused"""
    __class__ = property(lambda self: str)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return self.s

    __str__ = __repr__

    def __format__(self, spec):
        return self.s

    def __add__(self, o):
        return textval("+", (self, o))

    def __radd__(self, o):
        return textval("+", (o, self))

    def _no(self, *a, **kw):
        raise Unsupported("use of a text built from symbolic values")

    __eq__ = __ne__ = __bool__ = __len__ = __iter__ = __getitem__ = __contains__ = _no
    __hash__ = Sym.__hash__

    def truth(self):
        self._no()

    def isinstance_sym(self, c):
        return c in (str, object)


def setitem(a, k, v):
    if in_ctx() and is_sym(k) and type(a) is dict:
        for e in list(a):
            if bool(k == e):
                a[e] = v
                return
        if type(k).__hash__ is Sym.__hash__:
            if id(a) in ctx_lists():
                loops.need_grow(a)
            raise Unsupported("new symbolic key in a native dict")
        a[k] = v
        return
    si = getattr(type(a), "__setitem__", None)
    if in_ctx() and isinstance(si, types.FunctionType) and analysed(si):
        return _call_py(si, (a, k, v), {})
    a[k] = v


def ctx_lists():
    return cur().newlists


def delitem(a, k):
    if in_ctx() and is_sym(k) and type(a) is dict:
        for e in list(a):
            if bool(k == e):
                del a[e]
                return
        raise KeyError(k)
    del a[k]


# -- loops -----------------------------------------------------------------

def symiter(it):
    """symbolic sequence behind an iterable, or None when it is native"""
    if isinstance(it, loops.SymSeq):
        return it
    f = getattr(it, "symiter", None) if (is_sym(it) or getattr(type(it), "__pyvc_proxy__", False)) \
        else None
    if f is not None:
        return f()
    if isinstance(it, itertools.repeat):
        r = it.__reduce__()[1]
        if len(r) == 1:
            return loops.SymSeq(None, lambda i: r[0])
    if isinstance(it, itertools.count):
        r = it.__reduce__()[1]
        st = r[0]
        sp = r[1] if len(r) > 1 else 1
        return loops.SymSeq(None, lambda i: mkint(tint(st) + tint(sp) * i))
    return None


def for_loop(lid, it, names, tnames, lineno):
    import sys
    if not in_ctx():
        return loops.NativeFor(it)
    ctx = cur()
    if isinstance(it, (itertools.count, itertools.repeat)) and sys._getframe(1).f_code.co_flags & inspect.CO_GENERATOR:
        return loops.NativeFor(it)      # a generator's items are drawn one by one
    seq = symiter(it)
    if seq is None:
        return loops.NativeFor(it)
    if seq.n is not None:
        n = mkint(tint(seq.n))
        if not is_sym(n):
            if n <= 64:
                return loops.NativeFor([seq.get(z3.IntVal(i)) for i in range(n)])
    return loops.SymFor(ctx, lid, seq, names, tnames, sys._getframe(1), lineno)


newlist = loops.newlist
newdict = loops.newdict
dictx = loops.dictx
EXTRA_FUNCS.add(("pyvc.loops", "dictcomp"))


def while_loop(lid, names, lineno):
    import sys
    if not in_ctx():
        return loops.NativeWhile()
    return loops.make_while(cur(), lid, names, sys._getframe(1), lineno)


def leaving(*ls):
    for l in ls:
        l.leaving()


def comp(kind, flat, it, f):
    if not in_ctx():
        seq = None
    else:
        seq = symiter(it)
    if seq is not None:
        if seq.n is not None:
            n = mkint(tint(seq.n))
            if not is_sym(n) and n <= 64:
                seq = None
                it = [symiter(it).get(z3.IntVal(i)) for i in range(n)]
        if seq is not None:
            return loops.sym_comp(kind, flat, seq, f)

    def gen():
        for e in it:
            for r in f(e):
                if flat:
                    for y in r:
                        yield y
                else:
                    yield r
    if kind == "gen":
        return gen()
    if kind == "list":
        return list(gen())
    if kind == "set":
        return set(gen())
    return dict(gen())


# -- builtins --------------------------------------------------------------

def model(*fs):
    def deco(m):
        for f in fs:
            MODELS[f] = m
        return m
    return deco


@model(len)
def _len(x):
    if hasattr(x, "slen"):
        return x.slen()
    return len(x)


@model(int)
def _int(x=0, *a):
    if isinstance(x, (SInt, SBool)):
        return mkint(tint(x))
    if hasattr(x, "to_int"):
        return x.to_int()
    if is_sym(x):
        raise Unsupported("int() of %s" % type(x).__name__)
    return int(x, *a)


@model(bool)
def _bool(x=False):
    if isinstance(x, SBool):
        return x
    return True if x else False


@model(str)
def _str(x="", *a):
    if isinstance(x, SStr):
        return x
    if hasattr(x, "to_str"):
        return x.to_str()
    if isinstance(x, SInt):
        from .strs import SNumStr
        return SNumStr(x.t)
    return str(x, *a)


@model(bytes)
def _bytes(x=b"", *a):
    if is_sym(x) and a and hasattr(x, "encode"):
        return x.encode(*a)
    return bytes(x, *a)


@model(range)
def _range(*a):
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    else:
        lo, hi = a[0], a[1]
        st = a[2] if len(a) > 2 else 1
    if is_sym(st) or st not in (1, -1):
        raise Unsupported("range step")
    lo_, hi_ = tint(lo), tint(hi)
    d = hi_ - lo_ if st == 1 else lo_ - hi_
    n = z3.simplify(z3.If(d > 0, d, z3.IntVal(0)))
    return loops.SymSeq(mkint(n), lambda i: mkint(lo_ + i * st))


@model(enumerate)
def _enumerate(x, start=0):
    seq = symiter(x)
    if seq is None:
        return enumerate(x, start)
    return loops.SymSeq(seq.n, lambda i: (mkint(i + tint(start)), seq.get(i)))


@model(zip)
def _zip(*xs):
    seqs = [symiter(x) for x in xs]
    if all(s is None for s in seqs):
        return zip(*xs)
    seqs = [s if s is not None else loops.seq_of_native(x) for s, x in zip(seqs, xs)]
    n = None
    for s in seqs:
        if s.n is not None:
            n = s.n if n is None else mkint(z3.If(tint(s.n) < tint(n), tint(s.n), tint(n)))
    return loops.SymSeq(n, lambda i: tuple(s.get(i) for s in seqs))


@model(reversed)
def _reversed(x):
    seq = symiter(x)
    if seq is None:
        return reversed(x)
    return loops.SymSeq(seq.n, lambda i: seq.get(tint(seq.n) - 1 - i))


@model(list)
def _list(x=()):
    seq = symiter(x)
    if seq is not None:
        return loops.to_list(seq)
    return list(x)


@model(tuple)
def _tuple(x=()):
    seq = symiter(x)
    if seq is not None:
        return loops.to_list(seq)
    return tuple(x)


@model(any)
def _any(x):
    seq = symiter(x)
    if seq is not None:
        return mkbool(nparr.qexists(0, seq.n, lambda i: tbool(seq.get(i))))
    return any(x)


@model(all)
def _all(x):
    seq = symiter(x)
    if seq is not None:
        return mkbool(nparr.qforall(0, seq.n, lambda i: tbool(seq.get(i))))
    return all(x)


def _map(f, *xs):
    seqs = [symiter(x) for x in xs] if in_ctx() else []
    if all(q is None for q in seqs):
        return (call(f, *es) for es in zip(*xs)) if xs else map(f)
    return comp("gen", False, _zip(*xs), lambda es: [call(f, *es)])


def _filter(f, xs):
    seq = symiter(xs) if in_ctx() else None
    if seq is not None:
        raise Unsupported("filter() over an unbounded sequence")
    return filter(f, xs) if f is None else (x for x in xs if call(f, x))


def _minmax(native, lt):
    def m(*a, **kw):
        if len(a) == 1 and not kw:
            seq = symiter(a[0])
            if seq is not None:
                raise Unsupported("min/max of a symbolic sequence")
        if len(a) > 1 and not kw and all(isintlike(x) for x in a):
            r = tint(a[0])
            for x in a[1:]:
                x = tint(x)
                r = z3.If(lt(x, r), x, r)
            return mkint(r)
        return native(*a, **kw)
    return m


MODELS[min] = _minmax(min, lambda a, b: a < b)
MODELS[max] = _minmax(max, lambda a, b: a > b)


@model(isinstance)
def _isinstance(x, cls):
    h = getattr(type(x), "isinstance_sym", None)
    if h is not None:
        cs = cls if isinstance(cls, tuple) else (cls,)
        r = False
        for c in cs:
            q = h(x, c)
            if q is True:
                return True
            r = q if r is False else (r if q is False else r | q)
        return r
    return isinstance(x, cls)


@model(getattr)
def _getattr(x, name, *d):
    if hasattr(type(name), "getattr_sym"):
        return name.getattr_sym(x, *d)
    if hasattr(type(x), "getattr_on"):
        return x.getattr_on(name, *d)
    return getattr(x, name, *d)


@model(hasattr)
def _hasattr(x, name):
    try:
        _getattr(x, name)
    except AttributeError:
        return False
    return True


@model(slice)
def _slice(*a):
    return slice(*a)


@model(np.asarray)
def _np_asarray(x, dtype=None, **kw):
    if hasattr(type(x), "as_array"):
        return x.as_array(dtype)
    return nparr.np_asarray(x, dtype, **kw)


@model(np.array)
def _np_array(x, dtype=None, **kw):
    if hasattr(type(x), "as_array"):
        return x.as_array(dtype)
    return nparr.np_array(x, dtype, **kw)


@model(np.fromiter)
def _np_fromiter(x, dtype=None, count=-1):
    xs = list(x)
    if any(is_sym(e) for e in xs):
        return np.array([bool(e) for e in xs], dtype=bool) if dtype is bool \
            else nparr.np_array(xs, dtype)
    return np.array(xs, dtype=dtype)


def _next(it, *d):
    if in_ctx():
        for l in cur().loop_stack:
            if id(it) in l.iter_ids:
                raise Unsupported("an iterator made before loop %s is advanced inside it" % l.lid)
    return next(it, *d)


ALWAYS = {next: _next, map: _map, filter: _filter}


def _type1(*a):
    if len(a) != 1:
        return type(*a)
    x = a[0]
    if isinstance(x, SInt):
        return int
    if isinstance(x, SStr) or hasattr(x, "to_str"):
        return str
    if isinstance(x, SBool):
        return bool
    if isinstance(x, loops.SList):
        return list
    if hasattr(type(x), "isinstance_sym"):
        return STyp(x)
    return type(x)


# classes nothing derives from: being of the type is being an instance
FINAL = (bool, type(None), np.bool_, range, slice)


class STyp(Sym):
    """the type of a symbolic value"""

    def __init__(self, x):
        self.x = x

    def is_sym_identity(self, o):
        if isinstance(o, STyp):
            if o.x is self.x:
                return True
            raise Unsupported("same type of two values")
        if not isinstance(o, type):
            return False
        r = _isinstance(self.x, o)
        if r is False or o in FINAL:
            return r
        t = getattr(self.x, "t", None)
        exact = z3.Function("type_is_" + o.__name__, t.sort(), z3.BoolSort())(t) if isinstance(t, z3.ExprRef) \
            else z3.Bool(cur().fresh("type_is_" + o.__name__))
        return mkbool(z3.And(exact, z3.BoolVal(True) if r is True else r.t))

    def __eq__(self, o):
        return self.is_sym_identity(o)

    def __ne__(self, o):
        r = self.is_sym_identity(o)
        return (not r) if isinstance(r, bool) else ~r

    __hash__ = Sym.__hash__

    def __call__(self, *a, **k):
        return call(type(self.x), *a, **k)

    def __getattr__(self, a):
        if a in ("__name__", "__qualname__"):
            return "<type>"
        raise AttributeError(a)

    def __repr__(self):
        return "<type>"


@model(issubclass)
def _issubclass(c, cls):
    if isinstance(c, STyp):
        return _isinstance(c.x, cls)
    return issubclass(c, cls)


MODELS[type] = _type1
METHODS[(dict, "get")] = dict_get
METHODS[(list, "extend")] = loops.list_extend


class _RT:
    pass


RT = _RT()
RT.Unsupported = Unsupported
for _n in ("call", "callx", "kwstar", "contains", "not_contains", "is_", "is_not", "getitem", "mod", "setitem", "delitem",
           "for_loop", "while_loop", "leaving", "comp", "newlist", "newdict", "dictx"):
    setattr(RT, _n, globals()[_n])

from . import strs as _strs
_strs.install(__import__('sys').modules[__name__])
from . import coll as _coll
_coll.install(__import__('sys').modules[__name__])
