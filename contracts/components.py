"""Contracts for components and assemblies (pandalone/components.py)."""
import itertools
import random

import z3

from pyvc import loops, rt
from pyvc.contract import Contract
from pyvc.core import Unsupported, cur, in_ctx
from pyvc.loops import SList, SymSeq
from pyvc.vals import *
from pyvc.vals import Val

from pandalone import components, mappings
from pandalone.components import Assembly, FuncComponent

from .mappings import model_history, tree_oracle, JoinPaths, descend_oracle

CM = "pandalone.components:"
I = z3.IntSort()

# a step is known by its name, its mappings and how often one was made before
paths_n = z3.Function("paths_of.n", Val, I)
paths_at = z3.Function("paths_of", Val, I, Val)


class Step:
    """a pstep, whatever its text: it may be an empty one"""

    def __init__(self, name, maps):
        self.name, self.maps = name, maps
        self.t = z3.Const(cur().fresh("pstep"), Val)

    def _paths(self, *a, **k):
        if a or k:
            raise Unsupported("paths with a tag")
        n = paths_n(self.t)
        cur().assume(n >= 0)
        return SymSeq(mkint(n), lambda i: SAny(paths_at(self.t, tint(i)), "path"))

    def __bool__(self):
        return cur().branch(z3.Bool(cur().fresh("pstep_has_text")))


def _pstep(*a, **k):
    names = ("pname", "maps", "alias")
    v = dict(zip(names, a), **k)
    if set(v) - {"pname", "maps"}:
        raise Unsupported("pstep with an alias")
    s = Step(v.get("pname", ""), v.get("maps"))
    MADE.append(s)
    return s


MADE = []


class FuncBuild(Contract):
    """
    Building runs the cfunc once, with the component and a tree, and lists the
    paths of the steps it was given for inputs and for outputs, none of those
    not asked for, after any paths the cfunc listed itself: whatever was built
    before, with the mappings given.
    """
    prop = "C24"
    target = CM + "FuncComponent._build"
    internal = True
    call_site = False
    stand_in = "Components"
    assumes = ("psteps and their paths by C11: here only what is listed, any number of any paths",)
    proof_bound = "for cfuncs asking for steps up to 3 times; any paths, mappings and state before"

    def inputs(self, g):
        del MADE[:]
        calls = []
        script = [g.choice(None, "pinp", "pout"), g.choice(None, "pinp", "pout"), g.choice(None, "pinp", "pout")]

        own = g.choice(None, "_inp", "_out")        # a fixed path the cfunc lists itself

        def cfunc(comp, tree, *a, **k):
            calls.append((comp, a, k))
            if own:
                rt.call(getattr(getattr(comp, own), "append"), SAny(z3.Const("own", Val), "path"))
            for s in script:
                if s:
                    got = rt.call(getattr(comp, s))
                    calls[-1] += ((s, got),)
        comp = object.__new__(FuncComponent)
        comp._cfunc, comp._name = cfunc, SAny(z3.Const("name", Val), "name")
        if g.choice(True, False):       # built before
            comp._inp, comp._out, comp._pmod = [object()], [object()], object()
            comp._pinp, comp._pout = Step("old", None), Step("old", None)
        else:
            comp._inp = comp._out = None
        self.st = calls, own
        return (comp, g.choice(None, object())), {}

    def invoke(self, func, args, kw):
        old = rt.MODELS.get(mappings.Pstep)
        rt.ALWAYS[mappings.Pstep] = _pstep
        try:
            return rt.hooked(func)(*args, **kw)
        finally:
            del rt.ALWAYS[mappings.Pstep]

    def check(self, args, kw, out):
        calls, own = self.st
        comp, pmod = args
        if out.exc is not None or len(calls) != 1:
            return False
        who, a, k, *asked = calls[0]
        if who is not comp or a or k or comp._pmod is not pmod:
            return False
        c = cur()
        for what, attr in (("pinp", "_inp"), ("pout", "_out")):
            steps = [s for w, s in asked if w == what]
            got = getattr(comp, attr)
            mine = [SAny(z3.Const("own", Val), "path")] if own == attr else []
            if not steps:
                if not isinstance(got, (list, SList)):
                    return False
                c.prove("no paths of %s" % what, listed_all(got, mine, 0, None))
                continue
            s = steps[0]
            if any(x is not s for x in steps) or not isinstance(s, Step) or s.name is not comp._name or s.maps is not pmod:
                return False
            paths = s._paths()
            c.prove("paths of %s" % what, listed_all(got, mine, tint(paths.slen()), paths.get))
        ins, outs = ([s for w, s in asked if w == x] for x in ("pinp", "pout"))
        return not (ins and outs and ins[0] is outs[0])


def listed_all(got, mine, n, get):
    """got lists `mine`, then the n paths `get` gives"""
    if type(got) is list:
        m, at = len(got), None
    else:
        m, at = tint(got.slen()), got.get
    if at is None:
        if m < len(mine) or m > len(mine) and get is None:
            return z3.BoolVal(False)
        return z3.And(n == m - len(mine), *(same(x, mine[i] if i < len(mine) else get(z3.IntVal(i - len(mine))))
                                            for i, x in enumerate(got)))
    i = z3.Int("pl_i")
    return z3.And(m == n + len(mine), *(same(at(z3.IntVal(j)), x) for j, x in enumerate(mine)),
                  *([z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), same(at(i + len(mine)), get(i))))] if get else []))


class Passing(Contract):
    """Calling a component calls its cfunc with it, and what it was called with."""
    prop = "C24"
    target = CM + "FuncComponent.__call__"
    call_site = False
    stand_in = "Components"

    def inputs(self, g):
        calls = []
        comp = object.__new__(FuncComponent)
        comp._cfunc = lambda *a, **k: calls.append((a, k))
        self.calls = calls
        return (comp, g.any("tree"), g.any("extra")), {"more": g.any("more")}

    def check(self, args, kw, out):
        if out.exc is not None or len(self.calls) != 1:
            return False
        (a, k), = self.calls
        return len(a) == len(args) and all(x is y for x, y in zip(a, args)) and list(k) == list(kw) and k["more"] is kw["more"]


class Components(Contract):
    """
    After building, the inputs and outputs are the mapped paths of the steps
    the cfunc accessed on them and those it listed itself, whatever was built
    before and whatever it accessed then; those of an
    assembly are the distinct ones of all its components, sorted.
    """
    prop = "C24"
    target = CM + "Assembly"
    call_site = False
    signature_matters = False
    bounded = "assemblies of up to 4 components accessing up to 5 paths, built up to 3 times with random mappings"

    def invoke(self, func, args, kw):
        cfuncs, builds, explicit = args
        log = []

        turn = [0]

        def make(i, name, ins, outs, own, ats, swaps):
            def f(comp, tree, *a, **k):
                if a or k:
                    log.append(("called", comp is comps[i], tree, a, k))
                    return
                for l, paths in zip((comp._inp, comp._out), own):
                    l.extend(paths)
                p, q = (outs, ins) if swaps and turn[0] % 2 else (ins, outs)
                for how, paths, at in ((comp.pinp, p, ats[0]), (comp.pout, q, ats[1])):
                    for p in paths:
                        s = how(at) if at else how()
                        for step in p:
                            s = getattr(s, step)
            f.__name__ = name
            return f
        comps = []
        for i, (name, *rest) in enumerate(cfuncs):
            f = make(i, name, *rest)
            comps.append(FuncComponent(f, name=name[6:] if name.startswith("cfunc_") else name) if explicit else FuncComponent(f))
        ass = func(iter(comps))
        pms = []
        for k, rules in enumerate(builds):
            turn[0] = k
            j = builds.index(rules)     # the same mappings again are the same object
            pms.append(pms[j] if j < k else mappings.pmods_from_tuples(rules) if rules is not None else None)
            pm = pms[k]
            ass._build(pm)
            log.append([(c._name, sorted(c._inp), sorted(c._out)) for c in comps])
            log.append((ass._inp, ass._out))
            if list(ass._iter_validations()):
                log.append("invalid")
        for c in comps:
            c("tree", 1, k=2)
        return log

    def spec(self, cfuncs, builds, explicit):
        log = []
        for k, rules in enumerate(builds):
            r = []
            for name, ins, outs, own, ats, swaps in cfuncs:
                if swaps and k % 2:
                    ins, outs = outs, ins
                n = name[6:] if name.startswith("cfunc_") else name
                r.append((n, sorted(own[0] + listed(rules, ats[0] or n, ins)), sorted(own[1] + listed(rules, ats[1] or n, outs))))
            log.append(r)
            log.append((sorted({p for x in r for p in x[1]}), sorted({p for x in r for p in x[2]})))
        return log + [("called", True, "tree", (1,), {"k": 2}) for _ in cfuncs]

    def cases(self, rng, tier):
        frm = ["f", "f/a", "~.*", "g", "~(f)/b", "g/c", "~f|g/~.*", "f/~a|b", "", "f/a/b"]
        to = ["X", "/A/B", "../W", r"\g<0>1", "a", "b", ".", "q~1r", "/"]
        for _ in range(1500 if tier == "quick" else 30000):
            explicit = rng.random() < .3
            cfuncs = [(rng.choice(["cfunc_f", "f", "cfunc_g", "cfunc_cfunc_h", "xcfunc_f", "cfunc_"] + ([""] if explicit else ["g_cfunc_"])),
                       *[[tuple(rng.choice("abc") for _ in range(rng.randint(0, 3))) for _ in range(rng.randint(0, 3))]
                         for _ in range(2)], [rng.choice([[], [], ["/own"], ["b/b", "q"]]) for _ in range(2)],
                        [rng.choice(["", "", "f", "p"]) for _ in range(2)], rng.random() < .3) for _ in range(rng.randint(0, 4))]
            builds = [rng.choice([None, [(rng.choice(frm), rng.choice(to)) for _ in range(rng.randint(1, 4))]])
                      for _ in range(rng.randint(1, 3))]
            if rng.random() < .4:
                builds.append(rng.choice(builds))
            yield (cfuncs, builds, explicit), {}


def listed(rules, name, paths):
    if not paths:
        return []
    return model_history(rules if rules is not None else [], name, [("get", p, "", 0) for p in paths if p])[-3][0]


CONTRACTS = [FuncBuild, Passing, Components]
