"""Contracts for filter calls, reshaping and element-wise filters
(pandalone/xleash/_lasso.py, _filter.py)."""
import collections
import copy
import datetime
import itertools
import logging
import sys

import numpy as np
import z3

from pyvc.contract import Contract, Ok, Err
from pyvc.core import cur, in_ctx, Unsupported
from pyvc.spec import *
from pyvc.vals import *
from pyvc.vals import Val
from pyvc import loops, coll, docs
from pyvc.docs import SKey, child_i, len_i
from pyvc.coll import STup, SMap
from contracts.parsing import CallSpecs as _CallSpecs, call_spec_spec

from pandalone import xleash
from pandalone.xleash import Lasso, Coords, _filter, _lasso, _parse
from pandalone.xleash._capture import EmptyCaptureException

logging.disable(logging.CRITICAL)
try:
    import asteval.asteval
    asteval.asteval.stderr = open("/dev/null", "w")
except Exception:
    pass
LA = "pandalone.xleash._lasso:"
FI = "pandalone.xleash._filter:"


def lasso_same(a, b, but=()):
    """field by field"""
    if not (isinstance(a, Lasso) and isinstance(b, Lasso)):
        return z3.BoolVal(False)
    return z3.And(*[same(x, y) for n, x, y in zip(Lasso._fields, a, b) if n not in but])


class AnyMap(SMap):
    """keyword arguments of any names"""
    wrap = staticmethod(lambda t: SAny(t))


# -- one call -----------------------------------------------------------------

class Stub:
    """a filter that notes how it was called and then does `what`"""
    __doc__ = "a filter"

    def __init__(self, what, value):
        self.what, self.value, self.calls = what, value, []

    def __call__(self, ranger, lasso, *args, **kw):
        return self.ran(ranger, lasso, args, kw)

    def star_call(self, args, tup, kw):
        return self.ran(args[0], args[1], tup if len(args) == 2 else tuple(args[2:]) + (tup,), kw)

    def ran(self, ranger, lasso, args, kw):
        if set(kw) == {"**"}:
            kw = kw["**"]
        self.calls.append((ranger, lasso, args, kw))
        if self.what == "lasso":
            return lasso._replace(values=self.value)
        if self.what == "bare":
            return Lasso(values=self.value)
        if isinstance(self.what, type) and issubclass(self.what, BaseException):
            raise self.what("filter failed")
        return self.value

    def __deepcopy__(self, memo):
        return Stub(self.what, self.value)

    def __repr__(self):
        return "Stub(%s, %r)" % (getattr(self.what, "__name__", self.what), self.value)


class MakeCall(Contract):
    """A call runs the named filter once, with the call-spec's arguments (but
    `lax`), and gives its lasso.  When the filter is not there, raises, or
    gives no lasso: ValueError, or under `lax` (the call's, else the option)
    the lasso as it was.  The call-spec is left as it was."""
    prop = "C13"
    target = LA + "Ranger.make_call"
    internal = False
    call_site = False
    mutates = True
    shards = 6
    weight = 2

    def inputs(self, g):
        c = g.ctx
        what = g.choice("lasso", "bare", "value", "none", ValueError, KeyError, EmptyCaptureException, AssertionError)
        self.stub = Stub(what, SAny(z3.Const("result", Val)) if what != "none" else None)
        rec = g.choice({"func": self.stub}, {"func": self.stub, "desc": "what it does"}, {"desc": "no func"})
        ranger = _lasso.Ranger(object(), available_filters={"f": rec, "other": {"func": Stub("lasso", None)}})
        opts = g.choice([{}], [{"lax": g.bool("lax1")}], [{}, {"lax": g.bool("lax0")}],
                        [{"lax": g.bool("lax1")}, {"lax": g.bool("lax0")}])
        v = g.choice(None, False, True)
        if v is not None:
            opts[-1]["verbose"] = v
        lasso = Lasso(values=SAny(z3.Const("values", Val)), st=SAny(z3.Const("st", Val)), sheet=SAny(z3.Const("sh", Val)),
                      xl_ref="#ref", opts=collections.ChainMap(*opts))
        return (ranger, lasso, SKey(z3.Const("func_name", Val)), STup(z3.Const("args", Val)),
                AnyMap(z3.Const("kwds", coll.MAP))), {}

    def before(self, args, kw):
        ranger, lasso, name, a, k = args
        if in_ctx():
            return k.t
        return copy.deepcopy((a, k))

    def check(self, args, kw, out):
        ranger, lasso, name, a, k = args
        sym = in_ctx()
        if sym:
            k0 = AnyMap(self.snap)
            lax_in = z3.simplify(k0.t[docs.literal("lax")] != coll.absent)
            rest = AnyMap(z3.Store(k0.t, docs.literal("lax"), coll.absent))
            lax = k0.get("lax") if cur().branch(lax_in) else lasso.opts.get("lax", False)
            cur().prove("call-spec as it was", k.t == self.snap)
        else:
            k0 = self.snap[1]
            if (a, k) != self.snap:
                return False
            rest = {n: v for n, v in k0.items() if n != "lax"}
            lax = k0["lax"] if "lax" in k0 else lasso.opts.get("lax", False)
        stubs = ranger.available_filters
        hit = next((n for n in stubs if bool(name == n)), None)
        rec = stubs.get(hit)
        runs = rec is not None and "func" in rec
        calls = {n: r["func"].calls for n, r in stubs.items() if "func" in r}
        if sum(map(len, calls.values())) != (1 if runs else 0):
            return False
        good = False
        if runs:
            if len(calls[hit]) != 1:
                return False
            rg, la, ar, kws = calls[hit][0]
            ok = both(rg is ranger, mkbool(lasso_same(la, lasso)), mkbool(same(ar, a if sym else tuple(a))),
                      mkbool(same(kws, rest)) if sym else kws == rest)
            if sym:
                cur().prove("filter called with the call-spec's arguments", tbool(ok))
            elif not ok:
                return False
            good = rec["func"].what in ("lasso", "bare")
        if ranger.intermediate_lasso is None:
            return False
        if good:
            want = (Lasso() if rec["func"].what == "bare" else lasso)._replace(values=rec["func"].value)
            return out.exc is None and mkbool(lasso_same(out.value, want))
        if lax:
            return out.exc is None and mkbool(lasso_same(out.value, lasso))
        return isinstance(out.exc, ValueError)

    def concretize(self, args, kw, m):
        from pyvc.contract import conc
        ranger, lasso, name, a, k = args
        st = {n: dict(r) for n, r in ranger.available_filters.items()}
        for r in st.values():
            if "func" in r:
                r["func"] = Stub(r["func"].what, "result" if r["func"].value is not None else None)
        ev = lambda t: m.eval(t, model_completion=True)
        known = z3.is_true(ev(name.t == docs.literal("f")))
        kk = {"x": 1}
        lx = self.snap[docs.literal("lax")]
        if z3.is_true(ev(lx != coll.absent)):
            kk["lax"] = z3.is_true(ev(truth_of(lx)))
        opts = collections.ChainMap(*[{o: (conc(v, m) if is_sym(v) else v) for o, v in d.items()}
                                      for d in lasso.opts.maps])
        return (_lasso.Ranger(object(), available_filters=st), Lasso(values="v", opts=opts), "f" if known else "zz",
                [1, 2], kk), {}

    def cases(self, rng, tier):
        vals = [None, 0, "", [], [1], "v", {"a": 1}]
        for what in ["lasso", "bare", "value", ValueError, KeyError, TypeError, EmptyCaptureException, AssertionError, SyntaxError,
                     AttributeError, ZeroDivisionError]:
            for name in ("f", "g", "none", "", "F"):
                for lax in (None, True, False, 0, 1):
                    for o in ([{}], [{"lax": True}], [{"lax": False}, {"lax": True}], [{}, {"lax": True}],
                              [{"lax": True}, {"lax": False}, {"lax": False}]):
                        verbose = rng.choice([None, True, False])
                        o = copy.deepcopy(o)
                        if verbose is not None:
                            o[-1]["verbose"] = verbose
                        k = {n: rng.choice(vals) for n in rng.sample(["x", "y", "Lax", "func", "opts"], rng.randint(0, 3))}
                        if lax is not None:
                            k["lax"] = lax
                        a = [rng.choice(vals) for _ in range(rng.randint(0, 3))]
                        desc = rng.choice([{}, {"desc": "text\n  more"}, {"desc": None}, {"desc": ""}])
                        fl = {"f": dict(desc, func=Stub(what, rng.choice(vals))), "g": {"func": Stub("lasso", 5)}}
                        if rng.random() < .1:
                            fl["F"] = {"desc": "lost"}
                        r = _lasso.Ranger(object(), available_filters=fl)
                        la = Lasso(values=rng.choice(vals), st=Coords(1, 2), opts=collections.ChainMap(*o))
                        yield (r, la, name, a, k), {}


# -- pipes ---------------------------------------------------------------------

class CallSpecs(_CallSpecs):
    """call-specs at the call sites below (its obligations are C12's)"""
    prop = ()

    def apply(self, ctx, args, kw):
        v = args[0]
        if isinstance(v, SFilt):
            if not ctx.branch(GOODSPEC(v.t)):
                raise Marked("bad call-spec")
            return _parse.CallSpec(SAny(SPECF(v.t)), SAny(SPECA(v.t)), SAny(SPECK(v.t)))
        return _CallSpecs.apply(self, ctx, args, kw)


class Marked(ValueError):
    pass


class SFilt(SAny):
    pass


GOODSPEC = z3.Function("good_spec", Val, z3.BoolSort())
SPECF = z3.Function("spec_func", Val, Val)
SPECA = z3.Function("spec_args", Val, Val)
SPECK = z3.Function("spec_kwds", Val, Val)
CALLED = z3.Function("called", Val, Val, Val, Val, Val)
CALLOK = z3.Function("call_ok", Val, Val, Val, Val, z3.BoolSort())
PIPED = z3.Function("piped_so_far", Val, z3.IntSort(), Val)


class SLas(Sym):
    """any lasso"""
    havocable = True

    def __init__(self, t):
        self.t = t

    def same_as(self, o):
        return self.t == o.t if isinstance(o, SLas) else z3.BoolVal(False)

    def __repr__(self):
        return "<lasso>"

    __hash__ = Sym.__hash__


class RangerProxy:
    """make_call known by its contract"""

    def make_call(self, lasso, func_name, args, kwds):
        ts = (lasso.t, func_name.t, args.t, kwds.t)
        if not cur().branch(CALLOK(*ts)):
            raise Marked("call failed")
        return SLas(CALLED(*ts))


class PipeFilter(Contract):
    """The filters run one after another, each on the lasso of the previous
    one; the first that fails ends the pipe."""
    prop = "C13"
    target = FI + "pipe_filter"
    internal = False
    call_site = False
    mutates = True

    def inputs(self, g):
        self.fs = STup(z3.Const("filters", Val), SFilt)
        return (RangerProxy(), SLas(z3.Const("lasso", Val)), self.fs), {}

    def invoke(self, func, args, kw):
        from pyvc import rt
        if not in_ctx():
            r, la, fs = args
            r = make_ranger(self.snap)
            return func(r, la, *fs)
        return rt.call_star(func, args[2], args[:2])

    def state(self, L, k):
        c = cur()
        T = self.fs.t
        a = lambda j: PIPED(T, j)
        c.assume(a(z3.IntVal(0)) == z3.Const("lasso", Val))
        for j in (z3.simplify(k), z3.simplify(k - 1)):
            f = child_i(T, j)
            c.assume(z3.Implies(j >= 0, a(j + 1) == CALLED(a(j), SPECF(f), SPECA(f), SPECK(f))))
        return [SLas(a(z3.simplify(k)))]

    @property
    def loops(self):
        return [loops.Fold(lambda L: True, self.state, lambda L, k: k >= 0)]

    def before(self, args, kw):
        return [] if not in_ctx() else None

    def check(self, args, kw, out):
        if in_ctx():
            if out.exc is not None:
                return isinstance(out.exc, Marked)
            return mkbool(same(out.value, self.state(None, tint(self.fs.slen()))[0]))
        log = []
        try:
            want = Ok(run_pipe(args[1], args[2], log))
        except Exception as ex:
            want = Err(ex)
        if log != self.snap:
            return False
        if want.exc is not None:
            return isinstance(out.exc, ValueError)
        return out.exc is None and out.value == want.value

    def concretize(self, args, kw, m):
        raise Unsupported("opaque filters")

    def cases(self, rng, tier):
        def spec(d):
            p = rng.random()
            n = rng.choice(["add", "mul", "bad", "none", "nolasso"]) if p < .25 else rng.choice(["add", "mul", "dup", "dup", "blank", "count", "empty"])
            if d and p > .8:
                return ["pipe", [spec(d - 1) for _ in range(rng.randint(0, 3))]] + rng.choice([[], [{"lax": True}]])
            k = {}
            if rng.random() < .4:
                k["lax"] = rng.choice([True, False])
            a = [rng.randint(1, 9)] if n in ("add", "mul") and rng.random() < .9 else []
            if p < .3:
                return {"func": n, "args": a, "kwds": k}
            if not a and not k:
                return rng.choice([n, [n]])
            return [n] + rng.choice([[a, k], [k, a]])
        for i in range(1500):
            fs = [spec(2) for _ in range(rng.randint(0, 6))]
            if rng.random() < .05:
                fs.insert(rng.randint(0, len(fs)), rng.choice([1, None, {}, [], ["add", 3], {"x": 1}]))
            la = Lasso(values=[rng.randint(0, 5)], opts=collections.ChainMap({"lax": rng.random() < .3}))
            yield (None, la, fs), {}


def make_ranger(log):
    def note(n, f):
        def run(ranger, lasso, *a, **k):
            log.append((n, tuple(a), tuple(sorted(k.items())), copy.deepcopy(lasso.values)))
            return f(lasso, *a, **k)
        return {"func": run, "desc": n}
    fl = {n: note(n, f) for n, f in PIPES.items()}
    fl["pipe"] = {"func": _filter.pipe_filter}
    return _lasso.Ranger(object(), available_filters=fl)


def _bad(lasso, *a):
    raise KeyError("bad")


PIPES = {
    "add": lambda lasso, x: lasso._replace(values=lasso.values + [x]),
    "mul": lambda lasso, x: lasso._replace(values=[v * x for v in lasso.values]),
    "dup": lambda lasso: lasso._replace(values=lasso.values * 2),
    "blank": lambda lasso: lasso._replace(values=None),
    "count": lambda lasso: lasso._replace(values=[len(lasso.values or [])]),
    "empty": lambda lasso: lasso._replace(values=[], st=None),
    "nolasso": lambda lasso, *a: [1],
    "bad": _bad,
}


def run_call(lasso, spec, log):
    f, a, k = call_spec_spec(spec)
    k = dict(k)
    lax = k.pop("lax", lasso.opts.get("lax", False))
    try:
        if f == "pipe":
            return run_pipe(lasso, a, log)
        log_f = PIPES[f]
        log.append((f, tuple(a), tuple(sorted(k.items())), copy.deepcopy(lasso.values)))
        r = log_f(lasso, *a, **k)
        if not isinstance(r, Lasso):
            raise ValueError("no lasso")
        return r
    except Exception as ex:
        if lax:
            return lasso
        raise ValueError(str(ex))


def run_pipe(lasso, fs, log):
    for f in fs:
        lasso = run_call(lasso, f, log)
    return lasso


# -- reshaping -----------------------------------------------------------------

class Classify(Contract):
    """no second edge, one cell, one row, one column, a table"""
    prop = "C14"
    target = FI + "_classify_rect_shape"

    def inputs(self, g):
        c = lambda n: Coords(g.int(n + ".row", 0), g.int(n + ".col", 0))
        st, nd = g.choice((None, None), (c("st"), None), (c("st"), c("nd")))
        g.assume(self.pre(st, nd))
        return (st, nd), {}

    def pre(self, st, nd):
        if nd is None:
            return True
        return st is not None and both(st[0] <= nd[0], st[1] <= nd[1])

    def lift(self, args, kw):
        st, nd = args
        la = Lasso(values=[[1, 2], [3, 4]], st=st, nd=nd, xl_ref="#A1", opts={})
        for i in range(5):
            yield RedimFilter(), (None, la) + (None,) * i + (1,), {}

    def spec(self, st, nd):
        if nd is None:
            return 0
        if bool(st[0] == nd[0]):
            return 1 if bool(st[1] == nd[1]) else 2
        return 3 if bool(st[1] == nd[1]) else 4

    def cases(self, rng, tier):
        for a, b, c, d in itertools.product(range(4), repeat=4):
            if a <= c and b <= d:
                yield (Coords(a, b), Coords(c, d)), {}
                yield ((a, b), (c, d)), {}
        yield (Coords(1, 2), None), {}
        yield (None, None), {}

    def check(self, args, kw, out):
        if args[0] is None and args[1] is not None:
            return True
        return Contract.check(self, args, kw, out)


class NdVal(Sym):
    """values of a number of dimensions, of any sizes, known by position"""
    __class__ = property(lambda self: list)

    def __init__(self, groups, dims):
        self.groups, self.dims = groups, dims

    def as_array(self, dtype):
        if dtype is not object:
            raise Unsupported("array that may convert its elements")
        return NdArr(self.groups, self.dims)

    def isinstance_sym(self, c):
        return c in (list, object) if self.groups else c is object

    def __repr__(self):
        return "<values by axes %s>" % (self.groups,)

    def canon(self):
        return [[a for a in g if not cur().entails(self.dims[a] == 1)] for g in self.groups]

    def same_as(self, o):
        if not isinstance(o, NdVal) or len(o.groups) != len(self.groups):
            return z3.BoolVal(False)
        # a single axis against another: positions agree only when all others are trivial
        return z3.BoolVal(self.canon() == o.canon())

    __hash__ = Sym.__hash__


class NdArr(Sym):
    """an object array: each axis is a group of the axes of the values, in
    row-major order"""

    def __init__(self, groups, dims):
        self.groups, self.dims = [list(g) for g in groups], dims

    def _new(self, groups):
        return NdArr(groups, self.dims)

    def _dim(self, g):
        t = z3.IntVal(1)
        for a in g:
            t = t * self.dims[a]
        return z3.simplify(t)

    @property
    def ndim(self):
        return len(self.groups)

    @property
    def shape(self):
        return tuple(mkint(self._dim(g)) for g in self.groups)

    @property
    def size(self):
        return mkint(self._dim([a for g in self.groups for a in g]))

    @property
    def T(self):
        return self._new(self.groups[::-1])

    def transpose(self, *ax):
        if ax and ax[0] is not None:
            ax = ax[0] if isinstance(ax[0], (tuple, list)) else ax
            return self._new([self.groups[i] for i in ax])
        return self.T

    def flatten(self, *a):
        if a and a[0] != "C":
            raise Unsupported("flatten order")
        return self._new([[a for g in self.groups for a in g]])

    ravel = flatten

    def copy(self):
        return self

    def squeeze(self, axis=None):
        n = self.ndim
        if axis is None:
            return self._new([g for g in self.groups if not cur().branch(self._dim(g) == 1)])
        ax = axis if isinstance(axis, tuple) else (axis,)
        ax = [int(i) for i in ax]
        for i in ax:
            if not -n <= i < n:
                raise np.exceptions.AxisError(i, n) if hasattr(np, "exceptions") else ValueError("axis")
            if not cur().branch(self._dim(self.groups[i]) == 1):
                raise ValueError("cannot select an axis to squeeze out which has size not equal to one")
        ax = {i % n for i in ax}
        return self._new([g for i, g in enumerate(self.groups) if i not in ax])

    def reshape(self, *shape, order="C"):
        if order != "C":
            raise Unsupported("reshape order")
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        src, out = list(self.groups), []
        for i, d in enumerate(shape):
            t = tint(d)
            if type(d) is int and d == -1:
                if i != len(shape) - 1:
                    raise Unsupported("reshape -1 before the last axis")
                out.append([a for g in src for a in g])
                src = []
            elif src and z3.simplify(t - self._dim(src[0])).eq(z3.IntVal(0)):
                out.append(src.pop(0))
            elif cur().entails(t == 1):
                out.append([])
            else:
                raise Unsupported("reshape that regroups the elements")
        if any(not cur().entails(self._dim(g) == 1) for g in src):
            raise Unsupported("reshape that regroups the elements")
        return self._new(out)

    def __getitem__(self, k):
        ks = k if isinstance(k, tuple) else (k,)
        out, src = [], list(self.groups)
        for x in ks:
            if x is None:
                out.append([])
            elif isinstance(x, slice) and x == slice(None):
                out.append(src.pop(0))
            elif x is Ellipsis and k == (Ellipsis,) or x is Ellipsis and ks[-1] is x:
                break
            else:
                raise Unsupported("indexing of a symbolic array")
        return self._new(out + src)

    def tolist(self):
        return NdVal(self.groups, self.dims)

    def __repr__(self):
        return "<array by axes %s>" % (self.groups,)

    __hash__ = Sym.__hash__


def shape_of(v):
    return np.asarray(v, dtype=object).shape


def redim_want(v, target):
    """the documented reshaping of nested lists, written on positions"""
    if target is None:
        return v
    k, tr = target, False
    if isinstance(target, (list, tuple)) and len(target) == 2:
        k, tr = target
    sym = isinstance(v, NdVal)
    if sym:
        axes = [list(g) for g in v.groups]
        one = lambda g: all(cur().branch(v.dims[a] == 1) for a in g)
    else:
        dims = shape_of(v)
        axes = [[i] for i in range(len(dims))]
        one = lambda g: all(dims[a] == 1 for a in g)
    if tr:
        axes = axes[::-1]
    if k is not None:
        n = len(axes)
        if n < k:
            axes = [[]] * (k - n) + axes
        elif n > k:
            triv = [i for i, g in enumerate(axes) if one(g)]
            off = n - k
            if off > len(triv):
                axes = [[]] * (max(k, 1) - 1) + [[a for g in axes for a in g]]
            else:
                drop = set(triv[:off])
                axes = [g for i, g in enumerate(axes) if i not in drop]
    if sym:
        return NdVal(axes, v.dims)
    return regroup(v, dims, axes)


def regroup(v, dims, axes):
    def at(idx):
        x = v
        for i in range(len(dims)):
            x = x[idx[i]]
        return x

    def build(gs, idx):
        if not gs:
            return at(idx)
        g = gs[0]
        if not g:
            return [build(gs[1:], idx)]
        out = []
        for p in itertools.product(*[range(dims[a]) for a in g]):
            out.append(build(gs[1:], {**idx, **dict(zip(g, p))}))
        return out
    idx0 = {i: 0 for i in range(len(dims))}
    return build(list(axes), idx0)


def typed(x):
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [typed(e) for e in x])
    return (type(x).__name__, repr(x))


class Redim(Contract):
    """Every element keeps its place in row-major order and its type, under
    the requested number of dimensions (transposed first, if asked)."""
    prop = "C14"
    target = FI + "_redim"
    proof_bound = "values of up to 4 dimensions of any sizes, up to 5 requested"
    shards = 6
    call_site = False
    mutates = True

    def inputs(self, g):
        n = g.choice(0, 1, 2, 3, 4)
        dims = [tint(g.int("dim%d" % i, 0)) for i in range(n)]
        v = NdVal([[i] for i in range(n)], dims)
        k = g.choice(None, 0, 1, 2, 3, 4, 5)
        t = g.choice("plain", "list", "tuple")
        if t == "list":
            k = [k, g.choice(True, False, None, 0, 1)]
        elif t == "tuple":
            k = (k, g.choice(True, False))
        return (v, k), {}

    def lift(self, args, kw):
        v, k = args
        la = Lasso(values=v, st=Coords(0, 0), nd=Coords(3, 3), xl_ref="#A1:D4", opts={})
        yield RedimFilter(), (None, la, None, None, None, None, k), {}

    def spec(self, values, new_ndim):
        return redim_want(values, new_ndim)

    def check(self, args, kw, out):
        if in_ctx():
            return Contract.check(self, args, kw, out)
        return out.exc is None and typed(out.value) == typed(self.snap)

    def before(self, args, kw):
        return None if in_ctx() else redim_want(*copy.deepcopy(args))

    def concretize(self, args, kw, m):
        v, k = args
        dims = [min(3, m.eval(d, model_completion=True).as_long()) for d in v.dims]
        return (fill(dims), k), {}

    def cases(self, rng, tier):
        dt = datetime.datetime(2020, 1, 2)
        ks = [None, 0, 1, 2, 3, 4, 5]
        for n in range(5):
            for dims in itertools.product((1, 2, 3) if n < 4 else (1, 2), repeat=n):
                for k in ks:
                    yield (fill(dims, rng), k), {}
                    yield (fill(dims, rng), [k, True]), {}
                    yield (fill(dims, rng), (k, False)), {}
        for n in range(1, 4):
            for dims in itertools.product((1, 2, 3), repeat=n):
                for pool in ([1, 2.5, 2], [1, 2], [1.0, 2.5], [True, 1], ["a", "1"], [None, 1.0], [2 ** 70, 1], [dt, dt], [1j, 1]):
                    def mk(ds):
                        return [mk(ds[1:]) for _ in range(ds[0])] if ds else rng.choice(pool)
                    yield (mk(list(dims)), rng.choice(ks)), {}
        for k in ks:
            yield (fill((2, 1, 1, 2, 1), rng), k), {}
            yield (fill((1, 1, 1, 1, 2), rng), k), {}
            yield (fill((1, 2, 1, 1, 1, 2), rng), k), {}
            for v in ([], [[]], [[], []], None, "", "abc", 0, [None], [["a", 1, 2.5, None, True]], [1, 2.0, "x"]):
                yield (v, k), {}
                yield (v, [k, 1]), {}


def fill(dims, rng=None):
    n = itertools.count()
    pool = [1, 2.5, "t", None, True, "", -0.0, 10 ** 20]

    def mk(ds):
        if not ds:
            i = next(n)
            return "%d" % i if rng is None or i % 3 else pool[(i // 3) % len(pool)]
        return [mk(ds[1:]) for _ in range(ds[0])]
    return mk(list(dims))


REDIM = z3.Function("redimmed", Val, Val, Val)


class RedimCall(Contract):
    """_redim as seen by redim_filter"""
    prop = ()
    target = FI + "_redim"

    def apply(self, ctx, args, kw):
        v, k = args
        return SAny(REDIM(v.t, k.t))


class RedimFilter(Contract):
    """The dimensions given for the captured shape (or none) are applied to
    the values; nothing else of the lasso changes."""
    prop = "C14"
    target = FI + "redim_filter"
    internal = False
    call_site = False
    mutates = True
    NAMES = ("scalar", "cell", "row", "col", "table")

    def inputs(self, g):
        c = lambda n: Coords(g.int(n + ".row"), g.int(n + ".col"))
        a = c("st")
        st, nd = g.choice((None, None), (a, None), (a, Coords(a.row + g.int("height", 0), a.col + g.int("width", 0))))
        la = Lasso(values=SAny(z3.Const("values", Val)), st=st, nd=nd, xl_ref=SAny(z3.Const("ref", Val)),
                   opts=SAny(z3.Const("opts", Val)))
        ks = [g.choice(None, SAny(z3.Const(n, Val))) for n in self.NAMES]
        if g.choice(True, False):
            return (None, la) + tuple(ks), {}
        return (None, la), dict((n, k) for n, k in zip(self.NAMES, ks) if k is not None)

    def check(self, args, kw, out):
        if out.exc is not None:
            return False
        la = args[1]
        ks = list(args[2:]) + [None] * (7 - len(args))
        for n, v in kw.items():
            ks[self.NAMES.index(n)] = v
        k = ks[Classify.spec(None, la.st, la.nd)]
        if in_ctx():
            want = la.values if k is None else SAny(REDIM(la.values.t, k.t))
            return mkbool(lasso_same(out.value, la._replace(values=want)))
        vals = self.snap
        return isinstance(out.value, Lasso) and out.value._replace(values=0) == la._replace(values=0) and \
            typed(out.value.values) == typed(redim_want(vals, k))

    def before(self, args, kw):
        return None if in_ctx() else copy.deepcopy(args[1].values)

    def concretize(self, args, kw, m):
        from pyvc.contract import conc
        la = args[1]._replace(values=[[1, "a"], [2, None]], xl_ref="r", opts=None)
        la = la._replace(st=conc(la.st, m), nd=conc(la.nd, m))
        k = iter([0, 1, 2, 3, 1])
        return (None, la) + tuple(None if x is None else next(k) for x in args[2:]), {n: next(k) for n in kw}

    def cases(self, rng, tier):
        ks = [None, 0, 1, 2, 3, 4, [1, True], [2, True], [3, True], [4, True], [5, True], [None, True], [0, False]]
        for _ in range(2000):
            p = rng.randint(0, 5)
            a, b = rng.randint(0, 3), rng.randint(0, 3)
            st = Coords(a, b)
            if p == 0:
                nd, v = None, rng.choice([1, None, "x"])
                if rng.random() < .3:
                    st, v = None, []
            else:
                r = 1 if p in (1, 2) else rng.randint(2, 3)
                c = 1 if p in (1, 3) else rng.randint(2, 3)
                nd, v = Coords(a + r - 1, b + c - 1), fill((r, c), rng)
                if rng.random() < .3:  # what an earlier filter made of it
                    v = fill([rng.randint(1, 3) for _ in range(rng.randint(1, 4))], rng)
            la = Lasso(values=v, st=st, nd=nd, xl_ref="#A1", opts={})
            n = rng.randint(0, 5)
            kv = [rng.choice(ks) for _ in range(5)]
            if rng.random() < .5:
                yield (None, la) + tuple(kv[:n]), {}
            else:
                yield (None, la), {k: x for k, x in zip(self.NAMES, kv) if rng.random() < .7}


# -- element-wise filters -------------------------------------------------------

class SLeaf(SAny):
    """an element that is neither a list nor indexed"""

    def __getattr__(self, name):
        raise AttributeError(name)

    def __deepcopy__(self, memo):
        return self

    def isinstance_sym(self, c):
        return c is object


class EwRanger:
    def make_call(self, lasso, func_name, args, kwds):
        return lasso._replace(values=SAny(CALLED(lasso.values.t, func_name.t, args.t, kwds.t)))


def included(key, include, exclude):
    inc = [include] if isinstance(include, str) else include
    exc = [exclude] if isinstance(exclude, str) else exclude
    if inc and not any(bool(key == e) for e in inc):
        return False
    return not (exc and any(bool(key == e) for e in exc))


def ew_spec(v, depth, include, exclude, st, elem, frames=()):
    """what the runner gives and, through elem, the elements it visits"""
    def dive(v, d, bc):
        if bool(depth == d):
            return v
        if hasattr(v, "items") and not is_sym(v):
            isdict = isinstance(v, dict)
            out = type(v)() if isdict else dict()
            for i, (k, x) in enumerate(v.items()):
                if (d == 0 or isdict) and not included(k, include, exclude):
                    out[k] = x
                    continue
                if isdict or bc is None:
                    nb = None
                elif type(v).__name__ == "DataFrame":
                    nb = (bc[0], bc[1] + i)
                else:
                    nb = (bc[0] + i, bc[1])
                out[k] = dive(x, d + 1, nb)
            return out
        done, r = elem(v, bc)
        if done:
            return r
        if isinstance(v, list) and not isinstance(v, SLeaf):
            return [dive(x, d + 1, shift(bc, d, i)) for i, x in enumerate(v)]
        return v

    def shift(bc, d, i):
        if bc is None:
            return None
        return (bc[0] + i, bc[1]) if d == 0 else (bc[0], bc[1] + i) if d == 1 else bc
    return dive(v, 0, None if st is None else tuple(st))


def plain(v):
    """indexed values as dicts, for comparison"""
    if type(v).__name__ == "DataFrame":
        return ("df", [(k, plain(v[k])) for k in v])
    if type(v).__name__ == "Series":
        return ("sr", [(k, plain(x)) for k, x in v.items()])
    if isinstance(v, dict):
        return ("map", [(k, plain(x)) for k, x in v.items()])
    if isinstance(v, list):
        return [plain(x) for x in v]
    if isinstance(v, np.generic):
        v = v.item()
    return ("leaf", type(v).__name__, repr(v))


def plain_like(v, orig):
    """a specified result in the shape of the original's kinds"""
    if isinstance(v, dict) and hasattr(orig, "items"):
        k = type(orig).__name__
        k = {"DataFrame": "df", "Series": "sr"}.get(k, "map")
        return (k, [(n, plain_like(x, orig[n])) for n, x in v.items()])
    if isinstance(v, list) and isinstance(orig, list) and len(v) == len(orig):
        return [plain_like(x, o) for x, o in zip(v, orig)]
    return plain(v)


TEMPLATES = ("L", [], ["L"], ["L", "L"], [["L", "L"], ["L"]], ["L", ["L"]], {"a": "L"}, {"a": "L", "b": "L"},
             {"a": ["L", "L"]}, [{"a": "L", "b": "L"}], {"a": {"b": "L"}}, [[["L", "L"]]], [[{"a": "L"}, "L"]],
             {"a": [["L"], "L"]}, [[], {}], collections.OrderedDict([("b", "L"), ("a", ["L"])]), [collections.OrderedDict(a="L")])


class ElementWise(Contract):
    """Elements are visited in order under the include/exclude/depth rules,
    each with the coordinates where it lies; a processed one is replaced by
    its (filtered) value, the others dived into; the rest stays."""
    prop = "C15"
    target = FI + "run_filter_elementwise"
    internal = False
    call_site = False
    mutates = True
    proof_bound = "values of up to 3 levels and 2 elements per level, any positions, depths, keys and outcomes"
    shards = 24
    weight = 3
    max_paths = 100000

    def inputs(self, g):
        self.n = itertools.count()
        tpl = g.choice(*TEMPLATES)
        deep = tpl not in ("L", [], ["L"])

        def build(t):
            if t == "L":
                return SLeaf(z3.Const("leaf%d" % next(self.n), Val))
            if isinstance(t, list):
                return [build(x) for x in t]
            return type(t)((k, build(x)) for k, x in t.items())
        v = build(tpl)
        self.labels = {}

        def label(x, path):
            self.labels[id(x)] = path
            if type(x) is list:
                for i, e in enumerate(x):
                    label(e, path + "/%d" % i)
            elif isinstance(x, dict):
                for i, e in x.items():
                    label(e, path + "/%s" % i)
        label(v, "")
        haskeys = "{" in str(tpl)
        key = lambda n: SKey(z3.Const(n, Val))
        inc = g.choice(None, [key("inc0")], [key("inc0"), key("inc1")]) if haskeys else None
        exc = g.choice(None, [key("exc0")]) if haskeys else None
        st = g.choice(None, Coords(g.int("st.row", 0), g.int("st.col", 0)))
        sheet = SAny(z3.Const("sheet", Val))
        la = Lasso(values=v, st=st, nd=SAny(z3.Const("nd", Val)), sheet=sheet, xl_ref="#r",
                   opts=SAny(z3.Const("opts", Val)), base_coords=SAny(z3.Const("old_base", Val)))
        fs = [SFilt(z3.Const("filt%d" % i, Val)) for i in range(g.choice(0, 2) if not haskeys else g.choice(0, 1))]
        self.kind = g.choice("value", "lasso") if fs == [] else "value"
        self.log = []
        self.dead_at = None
        return (EwRanger(), la, self.elem, fs, inc, exc, g.int("depth"), "extra"), {"kw": 1}

    def outcome(self, lab):
        """(raises, processed, result)"""
        return z3.Bool("fails" + lab), z3.Bool("done" + lab), SAny(z3.Const("res" + lab, Val))

    def elem(self, ranger, lasso, context, elval, *args, **kw):
        lab = self.labels[id(elval)]
        c = cur()
        c.prove("context of an element", z3.And(*[same(getattr(context, n), getattr(lasso, n))
                                                  for n in ("sheet", "st", "nd")]))
        self.log.append((lab, context.base_coords, args, tuple(kw.items())))
        f, d, r = self.outcome(lab)
        if lab == "/1" and c.branch(f):
            raise KeyError("element")
        d = mkbool(d)
        return d, (lasso._replace(values=r) if self.kind == "lasso" else r)

    def before(self, args, kw):
        if in_ctx():
            return self.copy_tree(args[1].values)
        return copy.deepcopy(args[1].values)

    def copy_tree(self, v):
        if type(v) is list:
            r = [self.copy_tree(x) for x in v]
        elif isinstance(v, dict):
            r = type(v)((k, self.copy_tree(x)) for k, x in v.items())
        else:
            return v
        self.labels[id(r)] = self.labels[id(v)]
        self.keep = getattr(self, "keep", []) + [r]
        return r

    def check(self, args, kw, out):
        if not in_ctx():
            return self.check_concrete(args, kw, out)
        ranger, la, elem, fs, inc, exc, depth, extra = args
        want_log = []
        for f in fs:
            if not cur().branch(GOODSPEC(f.t)):
                return isinstance(out.exc, Marked) and not self.log

        def el(v, bc):
            lab = self.labels[id(v)]
            want_log.append((lab, bc, (extra,), (("kw", 1),)))
            f, d, r = self.outcome(lab)
            if lab == "/1" and cur().branch(f):
                raise ValueError("element")
            if not cur().branch(d):
                return False, None
            t = r.t
            for x in fs:
                t = CALLED(t, SPECF(x.t), SPECA(x.t), SPECK(x.t))
            return True, SAny(t)
        try:
            want = Ok(ew_spec(self.snap, depth, inc, exc, la.st, el))
        except ValueError as ex:
            want = Err(ex)
        if len(want_log) != len(self.log):
            return False
        for (l, b, a, k), (wl, wb, wa, wk) in zip(self.log, want_log):
            if l != wl or a != wa or k != wk or (b is None) != (wb is None):
                return False
            if b is not None:
                cur().prove("coordinates of an element", z3.And(same(b[0], wb[0]), same(b[1], wb[1])))
        if want.exc is not None:
            return isinstance(out.exc, ValueError)
        if out.exc is not None:
            return False
        return mkbool(lasso_same(out.value, la._replace(values=want.value)))

    def check_concrete(self, args, kw, out):
        ranger, la, elem, fs = args[:4]
        inc, exc, depth = args[4:7] if len(args) > 4 else (kw.get("include"), kw.get("exclude"), -1)
        log = []

        def el(v, bc):
            log.append((plain(v), None if bc is None else tuple(bc), la.sheet, la.st, la.nd))
            done, r = Elem.act(v)
            if not done:
                return False, None
            for f in fs:
                r = run_call(la._replace(values=r), f, []).values
            return True, r
        try:
            want = Ok(ew_spec(self.snap, depth, inc, exc, la.st, el))
        except Exception as ex:
            want = Err(ex)
        if want.exc is not None:
            return isinstance(out.exc, ValueError)
        if out.exc is not None or elem.log != log:
            return False
        return out.value._replace(values=0) == la._replace(values=0) and \
            plain(out.value.values) == plain_like(want.value, self.snap)

    def concretize(self, args, kw, m):
        from pyvc.contract import conc
        ranger, la, elem, fs, inc, exc, depth = args[:7]

        def go(x):
            if type(x) is list:
                return [go(e) for e in x]
            if isinstance(x, dict):
                return type(x)((k, go(e)) for k, e in x.items())
            return 7 if z3.is_true(m.eval(self.outcome(self.labels[id(x)])[1], model_completion=True)) else "x"
        keys = {docs.literal(k): k for k in ("a", "b")}
        def nm(k):
            if k is None:
                return None
            return [next((s for t, s in keys.items() if z3.is_true(m.eval(e.t == t, model_completion=True))), "other")
                    for e in k]
        return (make_ranger([]), Lasso(values=go(self.snap), st=conc(la.st, m), opts={}), Elem(), [], nm(inc), nm(exc),
                conc(depth, m)), {}

    def cases(self, rng, tier):
        import pandas as pd
        keys = ["a", "b", "c", 0, 1]

        def leaf():
            return rng.choice([1, 2, 30, "x", "y", None, 1.5, True, "", (1, 2), -5])

        def val(d):
            p = rng.random()
            if d == 0 or p < .3:
                return leaf()
            if p < .7:
                return [val(d - 1) for _ in range(rng.randint(0, 3))]
            if p < .9:
                return rng.choice([dict, dict, collections.OrderedDict])(
                    (k, val(d - 1)) for k in rng.sample(keys, rng.randint(0, 3)))
            if p < .95:
                return pd.Series([leaf() for _ in range(3)], index=["a", "b", "c"], dtype=object)
            return pd.DataFrame([[leaf() for _ in range(3)] for _ in range(2)], columns=["a", "b", "c"], dtype=object)
        for _ in range(3000 if tier == "quick" else 30000):
            st = rng.choice([None, Coords(0, 0), Coords(rng.randint(0, 5), rng.randint(0, 5))])
            la = Lasso(values=val(rng.randint(0, 4)), st=st, nd=rng.choice([None, Coords(9, 9)]), sheet="sheet",
                       opts=collections.ChainMap({"lax": rng.random() < .2}))
            fs = [rng.choice(["dup", ["add", [3]], ["mul", [2]], "bad"]) for _ in range(rng.choice([0, 0, 0, 1, 2]))]
            pick = lambda: rng.choice([None, None, [], "a", ["a"], ["a", "b"], ("b", 0), [1], "zz"])
            depth = rng.choice([-1, -1, -1, 0, 1, 2, 3, -2])
            if rng.random() < .05:
                v, n = la.values, rng.randint(5, 40)
                for _ in range(n):
                    v = [v] if rng.random() < .7 else rng.choice([[1, v], {"a": v, "b": 3}, {0: v}])
                la = la._replace(values=v)
                depth = rng.choice([-1, -1, n - 1, n, n + 1, 9, 10])
            elif rng.random() < .03:
                la = la._replace(values=[[leaf() for _ in range(rng.randint(20, 60))] for _ in range(2)])
            if rng.random() < .15:
                yield (make_ranger([]), la, Elem(), fs), dict(rng.choice([{}, {"include": pick()}, {"exclude": pick()}]))
            else:
                yield (make_ranger([]), la, Elem(), fs, pick(), pick(), depth), {}


class Elem:
    """doubles ints, replaces one-element lists, fails on -5"""

    def __init__(self):
        self.log = []

    @staticmethod
    def act(v):
        if type(v) is int:
            if v == -5:
                raise KeyError("minus five")
            return True, [v * 2]
        if isinstance(v, list) and len(v) == 1 and v[0] == "x":
            return True, ["one"]
        return False, "unused"

    def __call__(self, ranger, lasso, context, elval):
        self.log.append((plain(elval), None if context.base_coords is None else tuple(context.base_coords),
                         context.sheet, context.st, context.nd))
        return self.act(elval)

    def __deepcopy__(self, memo):
        return Elem()


class RecurseElement(Contract):
    """A text is lassoed in the context it lies in; what is no xl-ref (or no
    text) stays; other failures are ValueErrors."""
    prop = "C15"
    target = FI + "_recurse_element_func"

    def inputs(self, g):
        la = Lasso(values=SAny(z3.Const("values", Val)), xl_ref="#r", opts=SAny(z3.Const("opts", Val)))
        a = lambda n: SAny(z3.Const(n, Val))
        ctxt = _filter.XLocation(a("sheet"), a("st"), a("nd"), a("base"))
        el = g.choice(g.str("text"), SLeaf(z3.Const("leaf", Val)), None, g.int("num"))
        self.calls = []
        self.res = Lasso(values=a("lassoed"))
        self.how = g.choice("ok", SyntaxError, ValueError, KeyError, EmptyCaptureException)
        me = self

        class R:
            def do_lasso(self, xlref, **context_kwds):
                me.calls.append((xlref, context_kwds))
                if me.how != "ok":
                    raise me.how("failed")
                return me.res
        return (R(), la, ctxt, el), {}

    def check(self, args, kw, out):
        if not in_ctx():
            return True
        r, la, ctxt, el = args
        if not isinstance(el, str):
            return out.exc is None and not self.calls and out.value[0] is False and mkbool(lasso_same(out.value[1], la))
        if len(self.calls) != 1:
            return False
        x, k = self.calls[0]
        if set(k) != {"sheet", "st", "nd", "base_coords"}:
            return False
        cur().prove("lassoed in its context", z3.And(same(x, el), *[same(v, getattr(ctxt, n)) for n, v in k.items()]))
        if self.how == "ok":
            return out.exc is None and out.value[0] is True and mkbool(lasso_same(out.value[1], self.res))
        if self.how is SyntaxError:
            return out.exc is None and out.value[0] is False
        return isinstance(out.exc, ValueError)


class Recursion(Contract):
    """xl-refs inside captured cells are replaced by what they capture, seen
    from the cell they are in."""
    prop = "C15"
    target = FI + "recursive_filter"
    bounded = "sheets up to 5x5 whose cells hold generated references (absolute, relative, rects, failing, nested)"
    internal = False
    call_site = False
    signature_matters = False

    def invoke(self, func, args, kw):
        table, rect, opts, filt = args
        sheet = xleash.ArraySheet(np.array(table, dtype=object))
        sf = xleash.SheetsFactory()
        sf.add_sheet(sheet, "wb", ["s", None])
        fl = {}
        _filter.install_default_filters(fl)
        r = _lasso.Ranger(sf, base_opts=opts, available_filters=fl)
        (a, b), (c, d) = rect
        ref = "wb#s!R%dC%d:R%dC%d" % (a + 1, b + 1, c + 1, d + 1)
        return r.do_lasso(ref + ":" + filt).values

    def check(self, args, kw, out):
        table, rect, opts, filt = args
        import json
        depth = json.loads(filt)
        depth = depth[-1].get("depth", -1) if isinstance(depth, list) and len(depth) > 1 else -1

        def read(st, nd):
            n, m = len(table), len(table[0])
            if nd is None:
                return table[st[0]][st[1]] if st[0] < n and st[1] < m else None
            return [[table[i][j] for j in range(st[1], min(m, nd[1] + 1))] for i in range(st[0], min(n, nd[0] + 1))]

        def elem(v, bc):
            if isinstance(v, str) and v in REFS:
                kind, f = REFS[v]
                if kind == "bad":
                    raise ValueError(v)
                return True, f(read, bc, again)
            return False, None

        def again(v, st):
            return ew_spec(v, -1, None, None, st, elem)
        (a, b), (c, d) = rect
        try:
            want = Ok(ew_spec(read((a, b), (c, d)), depth, None, None, (a, b), elem))
        except ValueError as ex:
            want = Err(ex)
        if want.exc is not None:
            return isinstance(out.exc, ValueError)
        return out.exc is None and out.value == want.value

    def cases(self, rng, tier):
        for _ in range(600):
            n, m = rng.randint(3, 5), rng.randint(3, 5)
            t = [[rng.choice(["x", "text", 5, 2.5, "a b", "", None, "A1", "#", "#A0", "A1:B2"]) for _ in range(m)] for _ in range(n)]
            refs = [r for r in REFS if REFS[r][0] != "bad"]
            for _ in range(rng.randint(1, 4)):
                i, j = rng.randint(0, n - 1), rng.randint(0, m - 1)
                t[i][j] = rng.choice(refs) if rng.random() < .9 else rng.choice([r for r in REFS if REFS[r][0] == "bad"])
            # targets of references hold no reference, so recursion ends
            for i in range(2):
                for j in range(2):
                    if isinstance(t[i][j], str):
                        t[i][j] = "t%d%d" % (i, j)
            t[0][0] = 1
            t[n - 1][m - 1] = 9
            a, b = rng.randint(0, n - 1), rng.randint(0, m - 1)
            c, d = rng.randint(a, n - 1), rng.randint(b, m - 1)
            yield (t, ((a, b), (c, d)), rng.choice([{}, {"lax": False}]), rng.choice(
                ['"recurse"', '["recurse"]', '["recurse", {"depth": 1}]', '["recurse", {"depth": 2}]', '["recurse", {"depth": 0}]',
                 '["recurse", {"depth": 3}]'])), {}


REFS = {
    "#A1": ("abs", lambda read, bc, again: read((0, 0), None)),
    "#B2": ("abs", lambda read, bc, again: read((1, 1), None)),
    "#s!B1": ("abs", lambda read, bc, again: read((0, 1), None)),
    "#A1:B2": ("rect", lambda read, bc, again: read((0, 0), (1, 1))),
    "#A1:A2:\"recurse\"": ("rect", lambda read, bc, again: again(read((0, 0), (1, 0)), (0, 0))),
    "#R.C1": ("row", lambda read, bc, again: read((bc[0], 0), None)),
    "#R1C.": ("col", lambda read, bc, again: read((0, bc[1]), None)),
    "#R2C.": ("col", lambda read, bc, again: read((1, bc[1]), None)),
    "#R.C.": ("self", lambda read, bc, again: read(bc, None)),
    "#nosheet!A1": ("bad", None),
    "#R-50C1": ("bad", None),
    "#A1:\"nofilter\"": ("bad", None),
}


class PyFilters(Contract):
    """Texts are evaluated as python expressions on the lasso; a lasso they
    give replaces it (with the options kept when it has none); failing ones
    are ValueErrors (py, or pyeval with eval_all) or stay as they were."""
    prop = "C15"
    target = FI + "pyeval_filter"
    bounded = "texts and tables of known expressions"
    internal = False
    call_site = False
    signature_matters = False
    EXPRS = {"1+2": 3, "[1,2]*2": [1, 2, 1, 2], "lasso.xl_ref": "#ref", "lasso._replace(values=5)": 5,
             "xleash.Lasso(values=8)": 8, "'a'+'b'": "ab", "None": None, "4 if lasso.st else 0": 4, "x=3\nx*2": 6, "True": True}

    def invoke(self, func, args, kw):
        vals, eval_all, expr = args
        import contextlib
        import io
        with contextlib.redirect_stderr(io.StringIO()):
            return self.run(func, vals, eval_all, expr)

    def run(self, func, vals, eval_all, expr):
        la = Lasso(values=copy.deepcopy(vals), st=Coords(0, 0), xl_ref="#ref", opts={"o": 1})
        if expr is not None:
            return _filter.py_filter(None, la, expr)
        return func(None, la, eval_all=eval_all)

    def check(self, args, kw, out):
        vals, eval_all, expr = args
        if expr is not None:
            if expr not in self.EXPRS:
                return isinstance(out.exc, ValueError)
            return out.exc is None and typed(out.value.values) == typed(self.EXPRS[expr]) and out.value.opts == {"o": 1}

        def el(v, bc):
            if isinstance(v, str):
                if v in self.EXPRS:
                    return True, self.EXPRS[v]
                if eval_all:
                    raise ValueError(v)
            return False, None
        try:
            want = Ok(ew_spec(vals, -1, None, None, (0, 0), el))
        except ValueError as ex:
            want = Err(ex)
        if want.exc is not None:
            return isinstance(out.exc, ValueError)
        return out.exc is None and plain(out.value.values) == plain(want.value) and out.value.opts == {"o": 1}

    def cases(self, rng, tier):
        bad = ["1/0", "nosuchname", "1 +", "a b", "lasso.nothing", "[][1]"]
        for e in list(self.EXPRS) + bad:
            yield (None, False, e), {}
        for _ in range(30):
            cell = lambda: rng.choice(list(self.EXPRS) + bad[:2] * (rng.random() < .3) + [5, None, 2.5])
            yield (rng.choice([cell, lambda: [[cell() for _ in range(2)] for _ in range(2)], lambda: {"a": cell(), "b": [cell()]}])(),
                   rng.random() < .3, None), {}


class Interp:
    """stand-in of asteval's interpreter: what an expression gives is anything"""

    def __init__(self, what):
        self.what, self.evals = what, []

    def __call__(self, symtable=None, usersyms=None, *a, **kw):
        self.symtable = dict(symtable or {}, **(usersyms or {}))
        self.error = []
        return self

    def eval(self, expr, *a, **kw):
        self.evals.append((expr, dict(self.symtable)))
        self.error = [self] * self.what["errors"]
        return None if self.error else self.what["res"]

    def get_error(self):
        return "NameError", "x is not defined"


class PyElement(Contract):
    """
    A text is evaluated once, with what is documented in sight; what it gives
    becomes the values (or the lasso, with its options kept if without them).
    A failing one stays, or is a ValueError when all have to evaluate.
    """
    prop = "C15"
    target = FI + "_pyeval_element_func"
    assumes = ("asteval by a stand-in giving anything or errors (concrete runs use the real one)",)
    stand_in = "PyFilters"
    bulk = False

    def inputs(self, g):
        a = lambda n: SAny(z3.Const(n, Val))
        self.la = Lasso(values=a("values"), xl_ref=g.str("ref"), opts=a("opts"), st=a("st"))
        res = g.choice(a("res"), None, Lasso(values=a("res"), opts=None), Lasso(values=a("res"), opts=a("opts2"), nd=a("nd")))
        self.interp = Interp({"errors": g.choice(0, 1, 2), "res": res})
        self.el = g.str("text") if self.bulk else g.choice(g.str("text"), a("leaf"), None, g.int("num"))
        return self.call(a, g)

    def call(self, a, g):
        self.eval_all = g.choice(False, True, None, 1)
        return (a("ranger"), self.la, _filter.XLocation(a("sheet"), a("xst"), a("xnd"), a("base")), self.el, self.eval_all), {}

    def invoke(self, func, args, kw):
        import asteval
        rt = sys.modules["pyvc.rt"]
        rt.ALWAYS[asteval.Interpreter] = self.interp
        try:
            return rt.hooked(func)(*args, **kw)
        finally:
            del rt.ALWAYS[asteval.Interpreter]

    def check(self, args, kw, out):
        ranger, la, el, w = args[0], self.la, self.el, self.interp.what
        if not isinstance(el, str):
            return not self.interp.evals and self.same_lasso(out, la, False)
        if len(self.interp.evals) != 1:
            return False
        (expr, seen), = self.interp.evals
        if seen.get("ranger") is not ranger or seen.get("lasso") is not la or seen.get("xleash") is not xleash:
            return False
        cur().prove("evaluated as it is", same(expr, el))
        if w["errors"]:
            if self.bulk or self.eval_all:
                return isinstance(out.exc, ValueError)
            return self.same_lasso(out, la, False)
        res = w["res"]
        if not isinstance(res, Lasso):
            res = la._replace(values=res)
        elif res.opts is None:
            res = res._replace(opts=la.opts)
        return self.same_lasso(out, res, True)

    def same_lasso(self, out, la, proced):
        if out.exc is not None or len(out.value) != 2 or out.value[0] is not proced:
            return False
        return mkbool(lasso_same(out.value[1], la))


class PyBulk(PyElement):
    """
    The expression is evaluated once, with what is documented in sight; what
    it gives becomes the values (or the lasso, with the options kept if
    without them); failing ones are ValueErrors.
    """
    target = FI + "py_filter"
    bulk = True

    def call(self, a, g):
        return (a("ranger"), self.la, self.el), {}

    def same_lasso(self, out, la, proced):
        return out.exc is None and mkbool(lasso_same(out.value, la))


CONTRACTS = [MakeCall, CallSpecs, PipeFilter, Classify, RedimCall, Redim, RedimFilter, ElementWise, RecurseElement, Recursion,
             PyFilters, PyElement, PyBulk]
