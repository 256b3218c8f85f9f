"""
Contracts: preconditions (the input builder), postconditions (spec), and what
a caller may assume.  `check` is executable on concrete values too, so every
contract is also run against the real function.
"""
import importlib
import random
import time
import traceback

import numpy as np
import z3

from .core import (Ctx, Engine, Failure, PathDone, Unsupported, NeedSummary, _tls, cur, in_ctx)
from .vals import *
from .vals import Val
from . import rt, loops, nparr


def resolve(target):
    mod, qual = target.split(":")
    o = importlib.import_module(mod)
    owner = None
    for p in qual.split("."):
        owner = o
        o = o.__dict__[p] if isinstance(o, type) and p in o.__dict__ else getattr(o, p)
    if isinstance(o, (staticmethod, classmethod)):
        o = o.__func__
    if hasattr(o, "__wrapped__"):
        o = o.__wrapped__
    return o


def format_exc():
    """the traceback, also of exceptions that hold symbolic texts"""
    try:
        return traceback.format_exc()
    except BaseException as ex:
        import sys
        return "%s\n%s" % (type(sys.exc_info()[1]).__name__, "".join(
            traceback.format_tb(sys.exc_info()[2])))


def names_symbol(ex):
    """is this the complaint of Python about a symbolic class?"""
    import re

    def subs(c):
        for d in c.__subclasses__():
            yield d.__name__
            yield from subs(d)
    try:
        said = set(re.findall(r"'(\w+)'", str(ex)))
    except Exception:
        return False
    return bool(said & set(subs(Sym)))


def safe_repr(x):
    try:
        return repr(x)
    except Exception as ex:
        return "<%s whose repr raises %s>" % (type(x).__name__, type(ex).__name__)


class Ok:
    def __init__(self, value):
        self.value = value
        self.exc = None

    def __repr__(self):
        return "returned %s" % safe_repr(self.value)


class Err:
    def __init__(self, exc):
        self.exc = exc
        self.value = None

    def __repr__(self):
        return "raised %s(%s)" % (type(self.exc).__name__, str(self.exc)[:200])


class Inputs:
    """Builds symbolic arguments; remembers symbols so models can be replayed."""

    def __init__(self, ctx):
        self.ctx = ctx

    def int(self, name, lo=None, hi=None):
        t = z3.Int(name)
        if lo is not None:
            self.ctx.assume(t >= tint(lo))
        if hi is not None:
            self.ctx.assume(t <= tint(hi))
        return SInt(t)

    def bool(self, name):
        return SBool(z3.Bool(name))

    def str(self, name):
        return SStr(z3.String(name))

    def any(self, name):
        return SAny(z3.Const(name, Val), name)

    def choice(self, *alts):
        return alts[self.ctx.choose(len(alts))]

    def mat(self, name, nr=None, nc=None, minr=1, minc=1):
        """an nr x nc boolean matrix of any size"""
        nr = self.int(name + ".rows", minr) if nr is None else nr
        nc = self.int(name + ".cols", minc) if nc is None else nc
        f = z3.Function(name, z3.IntSort(), z3.IntSort(), z3.BoolSort())
        m = nparr.SMat(nr, nc, lambda i, j: f(i, j))
        m.name = name
        return m

    def vec(self, name, n=None):
        n = self.int(name + ".n", 0) if n is None else n
        f = z3.Function(name, z3.IntSort(), z3.BoolSort())
        v = nparr.SVec(n, lambda i: f(i))
        v.name = name
        return v

    def assume(self, t):
        self.ctx.assume(tbool(t))


class Contract:
    """
    target     "module:qualname" of the real function
    inputs(g)  -> (args, kwargs): symbolic arguments; g.assume(...) states the
               precondition
    spec(*args, **kwargs) -> value, or raises: the mathematical function the
               code must agree with (runs on symbolic and on concrete values)
    check(args, kwargs, out) -> SBool/bool: postcondition, default: out equals
               what spec does
    pre(*args, **kwargs) -> SBool/bool: precondition, proved at call sites
    result(ctx, args, kw): what a caller gets (default: the spec's value)
    loops      list of handlers(key, plan, recs) -> loops.Summary or None
    cases(rng, tier) -> iterator of concrete (args, kwargs)
    """
    target = None
    spec = None
    loops = ()
    call_site = True
    bounded = None          # text: no proof, concrete executions only
    proof_bound = None      # text: obligations hold only within this bound
    stand_in = None         # bounded contract that decides if this one is out of reach
    mutates = False         # copy concrete inputs before running
    shards = 1
    weight = 0
    assumes = ()
    signature_matters = True
    internal = None         # None: by the underscore in the function's name
    snap = None
    z3_ms = 20000
    cvc5_ms = 20000
    max_paths = 4000
    max_branches = 400
    exc_types = (Exception,)

    def __init__(self):
        self.name = self.target.split(":")[1]

    def inputs(self, g):
        raise NotImplementedError

    def pre(self, *a, **k):
        return True

    def cases(self, rng, tier):
        return iter(())

    def lift(self, args, kw):
        """public calls (contract, args, kw) that meet a helper's arguments"""
        return ()

    def is_internal(self):
        if self.internal is not None:
            return self.internal
        return any(p.startswith("_") and not p.startswith("__")
                   for p in self.target.split(":")[1].split("."))

    def props(self):
        return (self.prop,) if isinstance(self.prop, str) else tuple(self.prop)

    def describe(self, args, kw):
        return "%s(%s)" % (self.name, ", ".join(
            [short(a) for a in args] + ["%s=%s" % (k, short(v)) for k, v in kw.items()]))

    def func(self):
        return resolve(self.target)

    # -- spec evaluation
    def spec_outcome(self, args, kw):
        ctx = cur() if in_ctx() else None
        if ctx:
            ctx.spec_mode += 1
        try:
            return Ok(self.spec(*args, **kw))
        except (Unsupported, AssertionSpec):
            raise
        except Exception as ex:
            return Err(ex)
        finally:
            if ctx:
                ctx.spec_mode -= 1

    def check(self, args, kw, out):
        want = self.spec_outcome(args, kw)
        return self.agree(want, out)

    def agree(self, want, out):
        if want.exc is not None or out.exc is not None:
            if want.exc is None or out.exc is None:
                return False
            return issubclass(type(out.exc), type(want.exc))
        t = same(out.value, want.value)
        return mkbool(t)

    # -- modular use
    def apply(self, ctx, args, kw):
        import inspect
        f = self.func()
        ba = inspect.signature(f).bind(*args, **kw)
        ba.apply_defaults()
        a, k = ba.args, ba.kwargs
        p = self.pre(*a, **k)
        if p is not True:
            ctx.prove("precondition of %s at call" % self.name, tbool(p))
            ctx.assume(tbool(p))
        st = ctx.eng.stats
        st.functions.setdefault(self.target, "called by contract")
        return self.result(ctx, a, k)

    def result(self, ctx, args, kw):
        o = self.spec_outcome(args, kw)
        if o.exc is not None:
            raise o.exc
        return o.value

    # -- replaying models
    def concretize(self, args, kw, model):
        return conc(args, model), conc(kw, model)


class Lemma:
    """mixin: a fact about a contract's specification (what callers may
    assume), not about one more run of the code"""
    call_site = False

    def invoke(self, func, args, kw):
        o = self.spec_outcome(args, kw)
        if o.exc is not None:
            raise o.exc
        return o.value


class AssertionSpec(Exception):
    pass


def short(x):
    if isinstance(x, np.ndarray):
        return "np.array(%s)" % x.tolist() if x.size < 400 else "array%s" % (x.shape,)
    r = safe_repr(x)
    return r if len(r) < 600 else r[:600] + "..."


def conc(x, m):
    """value of a symbolic argument in a model"""
    if isinstance(x, SBool):
        return z3.is_true(m.eval(x.t, model_completion=True))
    if isinstance(x, SInt):
        return m.eval(x.t, model_completion=True).as_long()
    if isinstance(x, SStr):
        return m.eval(x.t, model_completion=True).as_string()
    if isinstance(x, nparr.SMat):
        nr, nc = conc(SInt(tint(x.nr)), m), conc(SInt(tint(x.nc)), m)
        if nr * nc > 20000:
            raise Unsupported("model too large to replay")
        return np.array([[z3.is_true(m.eval(x.at(z3.IntVal(i), z3.IntVal(j)), model_completion=True))
                          for j in range(nc)] for i in range(nr)], dtype=bool).reshape(nr, nc)
    if isinstance(x, nparr.SVec):
        n = conc(SInt(tint(x.n)), m)
        return np.array([z3.is_true(m.eval(x.at(z3.IntVal(i)), model_completion=True))
                         for i in range(n)], dtype=bool)
    if hasattr(x, "concretize"):
        return x.concretize(m)
    if isinstance(x, Sym):
        raise Unsupported("cannot replay a %s" % type(x).__name__)
    if isinstance(x, tuple):
        vs = [conc(e, m) for e in x]
        return type(x)(*vs) if hasattr(x, "_fields") else tuple(vs)
    if isinstance(x, list):
        return [conc(e, m) for e in x]
    if isinstance(x, dict):
        return {k: conc(v, m) for k, v in x.items()}
    return x


def shards(contract, n):
    """decision prefixes of the input builder's own choices, dealt to n shards"""
    from .core import Stats
    eng = Engine(contract.name, Stats())
    seen = []

    def run(ctx):
        contract.inputs(Inputs(ctx))
        seen.append(list(ctx.dec))
    try:
        eng.explore(run)
    finally:
        _tls.ctx = None
    return [seen[i::n] for i in range(n) if seen[i::n]]


def verify(contract, stats, contracts, tier="quick", deadline=None, prefixes=None):
    """All obligations of one function; -> list of Failure."""
    import copy
    grow = set()
    before = copy.deepcopy(stats.__dict__)
    while True:
        r = _verify(contract, stats, contracts, tier, deadline, prefixes, grow)
        if not isinstance(r, set):
            return r
        # some list displays have to be lists of any length: start over
        grow |= r
        stats.__dict__.update(copy.deepcopy(before))


def _verify(contract, stats, contracts, tier, deadline, prefixes, grow):
    fname = contract.name
    stats.functions[contract.target] = "under contract"
    try:
        func = contract.func()
    except Exception as ex:
        return [Failure("resolve", "unsupported", fname, "cannot find %s: %s" % (contract.target, ex))]
    eng = Engine(fname, stats, contract.z3_ms, contract.cvc5_ms, contract.max_paths,
                 contract.max_branches, deadline)
    eng.loop_handlers = list(contract.loops)
    eng.grow = set(grow)
    eng.contract = contract
    rt.CONTRACTS.clear()
    for c in contracts:
        if c.call_site and c is not contract and c.target.split(":")[1] not in getattr(
                contract, "inline", ()):
            rt.CONTRACTS[tuple(c.target.split(":"))] = c
    if getattr(contract, "recursive", False):
        rt.CONTRACTS[tuple(contract.target.split(":"))] = contract
    eng.use_contract = lambda c, ctx: True
    st = {"exits": 0}

    def run(ctx):
        g = Inputs(ctx)
        args, kw = contract.inputs(g)
        ctx.inputs = (args, kw)
        contract.snap = contract.before(args, kw) if hasattr(contract, "before") else None
        try:
            out = Ok(contract.invoke(func, args, kw))
        except (Unsupported, PathDone, NeedSummary):
            raise
        except contract.exc_types as ex:
            if ctx.dead:
                raise PathDone()
            out = Err(ex)
            out.tb = format_exc()
            if isinstance(ex, (TypeError, AttributeError)) and names_symbol(ex):
                raise Unsupported("an operation of a symbolic value: %s" % ex)
        if ctx.dead or ctx.dry:
            raise PathDone()
        st["exits"] += 1
        goal = contract.check(args, kw, out)
        ctx.prove("postcondition", tbool(goal))
        return out

    try:
        for p in prefixes or [[]]:
            eng.explore(run, p)
            if len(eng.failures) >= 8:
                break
    except loops.Grow:
        return eng.growing
    except Unsupported as ex:
        tb = format_exc()
        eng.failures.append(Failure("subset", "unsupported", fname, "%s\n%s" % (ex, tb[-3000:])))
    except RecursionError as ex:
        eng.failures.append(Failure("subset", "unsupported", fname, "recursion: %s" % ex))
    except Exception as ex:
        tb = format_exc()
        eng.failures.append(Failure("engine", "unsupported", fname, "%s: %s\n%s" % (
            type(ex).__name__, ex, tb[-3000:])))
    finally:
        rt.CONTRACTS.clear()
        _tls.ctx = None
    if not eng.failures and (eng.n_oblig == 0 or st["exits"] == 0):
        eng.failures.append(Failure("vacuity", "unsupported", fname,
                                    "no obligation reached the end of the function"))
    for f in eng.failures:
        f.contract = contract
    return eng.failures


def _default_invoke(self, func, args, kw):
    return rt.hooked(func)(*args, **kw) if in_ctx() else func(*args, **kw)


Contract.invoke = _default_invoke
