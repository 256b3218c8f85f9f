"""Contracts for path steps, path mappings and psteps (pandalone/mappings.py)."""
import itertools

import z3

from pyvc.contract import Contract, Lemma, Ok, Err
from pyvc.core import cur, in_ctx, Unsupported
from pyvc.spec import *
from pyvc.vals import *
from pyvc.vals import Val
from pyvc import loops, coll, tokens
from pyvc.docs import *
from pyvc.docs import literal
from pyvc.coll import STup, SJoin

from pandalone import mappings

MP = "pandalone.mappings:"


def isstep(t, s):
    return t == literal(s)


def normal_at(t, i):
    """element i of a normalised tuple of steps"""
    e = child_i(t, i)
    return z3.And(e != literal("."),
                  z3.Implies(e == literal(""), i == 0),
                  z3.Implies(e == literal(".."), z3.Or(i == 0, child_i(t, i - 1) == literal(".."))))


def normal(tup):
    """no '.', '' only as the first step, '..' only after '..'s"""
    if isinstance(tup, STup):
        i = z3.Int(cur().fresh("nf"))
        return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < tup.n), normal_at(tup.t, i)))
    tup = coll.as_stup(tup)
    return normal(tup)


def is_normal(t):
    return all(s != "." and (s != "" or i == 0) and (s != ".." or i == 0 or t[i - 1] == "..")
               for i, s in enumerate(t))


def step_spec(steps, step):
    if step == "":
        return ("",)
    if step == ".":
        return steps
    last = steps[-1:]
    if step == "..":
        if not last or last[0] == "..":
            return steps + ("..",)
        if last[0] == "":
            return steps
        return steps[:-1]
    return steps + (step,)


APP = z3.Function("append_step", Val, Val, Val)


class AppendStep(Contract):
    """One step joined to normalised steps: '' is the root, '.' nothing, '..'
    the parent (kept when there is none to drop, lost at the root)."""
    prop = "C09"
    target = MP + "_append_step"

    def inputs(self, g):
        t = STup(z3.Const("steps", Val))
        g.ctx.assume(normal(t))
        return (t, SKey(z3.Const("step", Val))), {}

    def pre(self, steps, step):
        if isinstance(steps, STup):
            return mkbool(normal(steps))
        return is_normal(steps)

    spec = staticmethod(step_spec)

    def check(self, args, kw, out):
        ok = Contract.check(self, args, kw, out)
        if ok and in_ctx():
            cur().prove("result is normalised", normal(out.value))
        return ok

    def result(self, ctx, args, kw):
        steps, step = coll.as_stup(args[0]), args[1]
        r = STup(APP(steps.t, coll.elem_term(step)))
        ctx.assume(same(r, step_spec(steps, step)))
        ctx.assume(normal(r))
        return r

    def cases(self, rng, tier):
        al = ["", ".", "..", "a", "b.", "...", "~"]
        for n in range(4):
            for t in itertools.product(al, repeat=n):
                if is_normal(t):
                    for s in al:
                        yield (t, s), {}


ACC = z3.Function("joined_so_far", Val, I, Val)


class JoinPaths(Contract):
    """The join is the left-to-right fold of the step rule, whatever the
    number of steps: normalised, '.' when nothing is left."""
    prop = "C09"
    target = MP + "_join_paths"
    internal = False
    call_site = False
    inline = ("_join_paths",)
    tuples_grow = True

    def inputs(self, g):
        self.steps = STup(z3.Const("steps", Val))
        return (self.steps,), {}

    def invoke(self, func, args, kw):
        from pyvc import rt
        if not in_ctx():
            return func(*args[0])
        # *steps is bound to a tuple of any length
        return rt.call_star(func, args[0])

    def state(self, L, k):
        c = cur()
        T = self.steps.t
        a = lambda j: ACC(T, j)
        c.assume(z3.And(len_i(a(z3.IntVal(0))) == 0, normal(STup(a(z3.IntVal(0))))))
        for j in (z3.simplify(k), z3.simplify(k - 1)):
            c.assume(z3.Implies(j >= 0, a(j + 1) == APP(a(j), child_i(T, j))))
        return [STup(a(z3.simplify(k)))]

    @property
    def loops(self):
        return [loops.Fold(lambda L: True, self.state,
                           lambda L, k: z3.And(k >= 0, normal(self.state(L, k)[0])))]

    def check(self, args, kw, out):
        if not in_ctx():
            return Contract.check(self, args, kw, out)
        c = cur()
        if out.exc is not None:
            return False
        n = tint(self.steps.slen())
        acc = self.state(None, n)[0]
        c.prove("result is normalised", normal(acc))
        if acc.slen() == 0:
            return out.value == "."
        return mkbool(same(out.value, SJoin("/", acc)))

    def spec(self, steps):
        acc = ()
        for s in steps:
            acc = step_spec(acc, s)
        return "/".join(acc) if acc else "."

    def cases(self, rng, tier):
        al = ["", ".", "..", "a", "b"]
        for n in range(7 if tier == "quick" else 9):
            for t in itertools.product(al, repeat=n):
                yield (t,), {}
        odd = tokens.texts("pandalone.mappings", extra=["...", "c d", "~1", ". ", " ..", "é"])
        for s in odd:
            for pre in (("a",), ("", "b"), ("..",), ()):
                for post in ((), ("c",), ("..",), ("..", "..")):
                    yield (pre + (s,) + post,), {}
        for _ in range(3000):
            yield (tuple(rng.choice(al + odd) if rng.random() < .3 else rng.choice(al)
                         for _ in range(rng.randint(1, 40))),), {}
        for n in (50, 65, 129, 300, 1100):
            for _ in range(6):
                yield (tuple(rng.choice(["a", "b", "c", "é"] * rng.choice((1, 9)) + al) for _ in range(n)),), {}
            yield (tuple("n%d" % i for i in range(n)),), {}
            yield (tuple("n%d" % i for i in range(n)) + ("..",) * (n - 3),), {}
            yield (("",) + ("..",) * n + ("a",) * n,), {}
            yield (("..",) * n,), {}

    signature_matters = False


# -- the pmod hierarchy --------------------------------------------------------

MERGE = z3.Function("merged", Val, Val, Val)
alias_of = z3.Function("alias_of", Val, Val)
no_alias = z3.Function("no_alias", Val, z3.BoolSort())


class SPm(Sym):
    """any pmod"""
    havocable = True

    def __init__(self, t):
        self.t = t

    @property
    def _alias(self):
        if cur().branch(no_alias(self.t)):
            return None
        return SKey(alias_of(self.t))

    def _merge(self, o):
        return SPm(MERGE(self.t, o.t))

    def __bool__(self):
        return True

    def truth(self):
        return z3.BoolVal(True)

    def same_as(self, o):
        return self.t == o.t if isinstance(o, SPm) else z3.BoolVal(False)

    def __repr__(self):
        return "<pmod>"

    __hash__ = Sym.__hash__


class PmMap(coll.SMap):
    wrap = SPm


def merged_map(s, o, k=None):
    """entry-wise merge of two maps (of the first k entries of o)"""
    x = z3.Const("mm", Val)
    done = o[x] != coll.absent
    if k is not None:
        done = z3.And(done, coll.pos_m(o, x) < k)
    return z3.Lambda([x], z3.If(done, z3.If(s[x] != coll.absent, MERGE(s[x], o[x]), o[x]), s[x]))


def pmod(alias, steps, regxs):
    p = mappings.Pmod()
    p._alias, p._steps, p._regxs = alias, steps, regxs
    return p


def no_absent_merges(g):
    x, y = z3.Const("px", Val), z3.Const("py", Val)
    g.ctx.assume(z3.ForAll([x, y], MERGE(x, y) != coll.absent))


class OverrideSteps(Contract):
    """Every child name of either side is kept; a name on both sides maps to
    the merge of both children, with the other's overriding; the dictionaries
    given are not modified."""
    prop = "C10"
    target = MP + "Pmod._override_steps"
    call_site = False

    def inputs(self, g):
        s = PmMap(z3.Const("self_steps", coll.MAP))
        o = PmMap(z3.Const("other_steps", coll.MAP))
        self.s, self.o, self.s0, self.o0 = s, o, s.t, o.t
        no_absent_merges(g)
        me = pmod(None, g.choice(s, {}), {})
        other = pmod(None, g.choice(o, {}), {})
        return (me, other), {}

    def state(self, L, k):
        return [PmMap(merged_map(self.s0, self.o0, k))]

    @property
    def loops(self):
        return [loops.Fold(lambda L: getattr(L.seq, "tag", ("",))[0] == "items", self.state,
                           lambda L, k: k >= 0)]

    def check(self, args, kw, out):
        me, other = args
        if not in_ctx():
            want = self.snap
            return out.exc is None and typed_pm(me) == want[0] and typed_pm(other) == want[1]
        if out.exc is not None:
            return False
        c = cur()
        got = me._steps
        s0 = self.s0 if self.snap[0] else z3.K(Val, coll.absent)
        o0 = self.o0 if self.snap[1] else z3.K(Val, coll.absent)
        c.prove("inputs unchanged", z3.And(self.s.t == self.s0, self.o.t == self.o0))
        if isinstance(got, coll.SMap):
            gt = got.t
        elif got == {}:
            gt = z3.K(Val, coll.absent)
        else:
            return False
        x = z3.Const("any_name", Val)
        return mkbool(gt[x] == z3.simplify(merged_map(s0, o0)[x]))

    def before(self, args, kw):
        if in_ctx():
            return (isinstance(args[0]._steps, coll.SMap), isinstance(args[1]._steps, coll.SMap))
        return (merge_oracle(typed_pm(args[0]), typed_pm(args[1]), "steps"), typed_pm(args[1]))

    def cases(self, rng, tier):
        for _ in range(500):
            yield (rand_pmod(rng, 3), rand_pmod(rng, 3)), {}


def regx_map(names, who):
    import re
    return {re.compile(n): SPm(z3.Const("%s_%s" % (who, n), Val)) for n in names}


def merged_regxs(a, b):
    """self's patterns that other lacks, then other's in other's order"""
    both_ = lambda n, v: SPm(MERGE(a[n].t, v.t)) if n in a else v
    return [(n, v) for n, v in a.items() if n not in b] + [(n, both_(n, v)) for n, v in b.items()]


def same_items(got, want):
    return type(got) is dict and len(got) == len(want) and all(
        g is w for g, (w, _) in zip(got, want)) and both(
        *[mkbool(same(v, w)) for v, (_, w) in zip(got.values(), want)])


class OverrideRegxs(Contract):
    prop = "C10"
    target = MP + "Pmod._override_regxs"
    call_site = False
    proof_bound = "for up to 3 patterns on each side, any child pmods"
    maxn = 3

    def sides(self, g):
        a = ["p%d" % i for i in range(g.choice(*range(self.maxn + 1)))]
        pool, b = ["p0", "p1", "p2", "q0"], []
        for i in range(g.choice(*range(self.maxn + 1))):
            b.append(g.choice(*[n for n in pool if n not in b]))
        return regx_map(a, "self"), regx_map(b, "other")

    def inputs(self, g):
        a, b = self.sides(g)
        return (pmod(None, {}, a), pmod(None, {}, b)), {}

    def before(self, args, kw):
        if in_ctx():
            a, b = args[0]._regxs, args[1]._regxs
            return a, dict(a), b, dict(b)
        return (merge_oracle(typed_pm(args[0]), typed_pm(args[1]), "regxs"), typed_pm(args[1]))

    def check(self, args, kw, out):
        if not in_ctx():
            return out.exc is None and typed_pm(args[0]) == self.snap[0] and \
                typed_pm(args[1]) == self.snap[1]
        a, a0, b, b0 = self.snap
        if out.exc is not None or list(a) != list(a0) or list(b) != list(b0):
            return False
        ok = same_items(args[0]._regxs, merged_regxs(a0, b0))
        return both(ok, same_items(a, list(a0.items())), same_items(b, list(b0.items())))

    cases = OverrideSteps.cases


class Merge(Contract):
    """The merge is a new pmod: the other's alias if it has one, else mine;
    children merged name by name and pattern by pattern; neither changes."""
    prop = "C10"
    target = MP + "Pmod._merge"
    proof_bound = None

    def inputs(self, g):
        no_absent_merges(g)
        alias = lambda n: g.choice(None, SKey(z3.Const(n, Val)))
        s = PmMap(z3.Const("self_steps", coll.MAP))
        o = PmMap(z3.Const("other_steps", coll.MAP))
        self.s0, self.o0 = s.t, o.t
        me = pmod(alias("self_alias"), s, regx_map(g.choice([], ["p0"]), "self"))
        other = pmod(alias("other_alias"), o, regx_map(g.choice([], ["p0"], ["q0"]), "other"))
        return (me, other), {}

    assumes = ("the recursive _merge of two children is the function of the two it is here "
               "proved to be (induction on the depth of the hierarchy)",)
    state = OverrideSteps.state
    loops = OverrideSteps.loops

    def before(self, args, kw):
        if in_ctx():
            return [(p._alias, p._steps, p._regxs, dict(p._regxs)) for p in args]
        return [typed_pm(p) for p in args]

    def check(self, args, kw, out):
        if out.exc is not None or type(out.value) is not mappings.Pmod or out.value is args[0] \
                or out.value is args[1]:
            return False
        if not in_ctx():
            return typed_pm(out.value) == merge_oracle(*self.snap) and \
                [typed_pm(p) for p in args] == self.snap
        c = cur()
        (a1, s1, r1, d1), (a2, s2, r2, d2) = self.snap
        for p, (a, st, r, d) in zip(args, self.snap):
            if p._alias is not a or p._steps is not st or p._regxs is not r or \
                    not same_items(r, list(d.items())):
                return False
        c.prove("inputs unchanged", z3.And(s1.t == self.s0, s2.t == self.o0))
        got = out.value
        want = a2 if a2 is not None else a1
        c.prove("alias", same(got._alias, want))
        x = z3.Const("any_name", Val)
        if not isinstance(got._steps, coll.SMap):
            return False
        c.prove("children by name", got._steps.t[x] ==
                z3.simplify(merged_map(self.s0, self.o0)[x]))
        return same_items(got._regxs, merged_regxs(d1, d2))

    def result(self, ctx, args, kw):
        if all(isinstance(p, SPm) for p in args):
            return SPm(MERGE(args[0].t, args[1].t))
        raise Unsupported("_merge of concrete pmods by contract")

    cases = OverrideSteps.cases


EXPAND = z3.Function("expand", Val, Val, Val)
MATCH = z3.Function("match_object", Val, Val, Val)
matches = z3.Function("full_match", Val, Val, z3.BoolSort())


class SMatch(Sym):
    def __init__(self, t):
        self.t = t

    def expand(self, template):
        return SKey(EXPAND(self.t, coll.elem_term(template)))

    def __bool__(self):
        return True

    def truth(self):
        return z3.BoolVal(True)

    def same_as(self, o):
        return self.t == o.t if isinstance(o, SMatch) else z3.BoolVal(False)

    __hash__ = Sym.__hash__


def fullmatch(rx, s):
    rt_ = literal("regex:" + rx.pattern)
    st = coll.elem_term(s)
    if cur().branch(matches(rt_, st)):
        return SMatch(MATCH(rt_, st))
    return None


def install_re():
    import re
    from pyvc import rt

    def fm(rx, s, *a):
        if a or not isinstance(rx, re.Pattern):
            raise Unsupported("fullmatch")
        return fullmatch(rx, s)
    rt.MODELS[re.fullmatch] = fm
    rt.METHODS[(re.Pattern, "fullmatch")] = fm
    for nm in ("match", "search", "findall", "finditer", "split", "sub"):
        def no_model(*a, nm=nm, **k):
            raise Unsupported("re.%s of a symbolic string" % nm)
        rt.MODELS.setdefault(getattr(re, nm), no_model)
        rt.METHODS.setdefault((re.Pattern, nm), no_model)


install_re()


def matched_now():
    """the patterns matching the step of the call being proved"""
    m = getattr(cur().eng.contract, "matched", None)
    if m is None:
        raise Unsupported("matching patterns of another pmod")
    return list(m)


class MatchRegxs(Contract):
    """the children whose whole pattern matches the step, in declared order"""
    prop = "C10"
    target = MP + "Pmod._match_regxs"
    proof_bound = "for up to 4 patterns"

    def inputs(self, g):
        n = g.choice(0, 1, 2, 3, 4)
        p = pmod(None, {}, regx_map(["p%d" % i for i in range(n)], "child"))
        return (p, SKey(z3.Const("step", Val))), {}

    def spec(self, p, step):
        if in_ctx():
            r = [(c, fullmatch(rx, step)) for rx, c in p._regxs.items()]
        else:
            import re
            r = [(c, re.compile("(?:%s)\\Z" % rx.pattern.replace("(?i)", ""), rx.flags).match(step)) for rx, c in p._regxs.items()]
        return [x for x in r if x[1] is not None]

    def agree(self, want, out):
        if not in_ctx() and want.exc is None and out.exc is None:
            return len(want.value) == len(out.value) and all(
                w[0] is o[0] and w[1].group() == o[1].group() and w[1].groups() == o[1].groups()
                for w, o in zip(want.value, out.value))
        return Contract.agree(self, want, out)

    def result(self, ctx, args, kw):
        return matched_now()

    def cases(self, rng, tier):
        for _ in range(500):
            yield (rand_pmod(rng, 1), rng.choice(STEPS)), {}

    def lift(self, args, kw):
        p, step = args
        marked = mappings.Pmod(None, dict(p._steps), [])
        marked._regxs = {}
        for i, (rx, c) in enumerate(p._regxs.items()):
            marked._regxs[rx] = m = mappings.Pmod("X%d" % i, c._steps)
            m._regxs = c._regxs
        return [(Descend(), (p, step), {}), (Descend(), (marked, step), {})]


class Descend(Contract):
    """The child for a step merges all matching patterns' children in order,
    then the exact one; its alias is the exact child's, else the last
    matching pattern's alias expanded with its match."""
    prop = "C10"
    target = MP + "Pmod.descend"
    proof_bound = "for up to 3 matching patterns, any exact children"

    def inputs(self, g):
        no_absent_merges(g)
        n = g.choice(0, 1, 2, 3)
        self.matched = [(SPm(z3.Const("pm%d" % i, Val)), SMatch(z3.Const("match%d" % i, Val)))
                        for i in range(n)]
        steps = PmMap(z3.Const("steps", coll.MAP))
        p = pmod(g.choice(None, SKey(z3.Const("my_alias", Val))), steps, {})
        return (p, SKey(z3.Const("step", Val))), {}

    def parts(self, p, step):
        exact = p._steps.get(step)
        alias = exact._alias if exact is not None else None
        if alias is None:
            for c, m in reversed(matched_now()):
                a = c._alias
                if a is not None:
                    alias = m.expand(a)
                    break
        nodes = [c for c, _ in matched_now()] + ([exact] if exact is not None else [])
        return nodes, alias

    def spec(self, p, step):
        if not in_ctx():
            node, alias = descend_oracle(typed_pm(p), step)
            return node, alias
        nodes, alias = self.parts(p, step)
        if not nodes:
            return None, None
        r = nodes[0]
        for x in nodes[1:]:
            r = SPm(MERGE(r.t, x.t))
        return r, alias

    def agree(self, want, out):
        if not in_ctx() and want.exc is None and out.exc is None:
            p, a = out.value
            return (p if p is None else typed_pm(p), a) == want.value
        return Contract.agree(self, want, out)

    def cases(self, rng, tier):
        for _ in range(1000 if tier == "quick" else 20000):
            yield (rand_pmod(rng, 3), rng.choice(STEPS)), {}


class Alias(Descend):
    target = MP + "Pmod.alias"

    def spec(self, p, step):
        if not in_ctx():
            return descend_oracle(typed_pm(p), step)[1]
        return self.parts(p, step)[1]

    def agree(self, want, out):
        return Contract.agree(self, want, out)


def descend_oracle(node, step):
    import re
    ms = [(n, re.fullmatch(pat, step)) for pat, n in node[2]]
    ms = [(n, m) for n, m in ms if m]
    exact = node[1].get(step)
    nodes = [n for n, _ in ms] + ([exact] if exact is not None else [])
    alias = None
    for n, m in ms:
        if n[0] is not None:
            alias = m.expand(n[0])
    if exact is not None and exact[0] is not None:
        alias = exact[0]
    if not nodes:
        return None, None
    r = nodes[0]
    for n in nodes[1:]:
        r = merge_oracle(r, n)
    return r, alias


class MapPath(Contract):
    """Each step of the path is replaced by its alias (an alias starting with
    '.' is relative to the step itself), descending the hierarchy with every
    matching rule; the steps are joined left to right."""
    prop = "C10"
    target = MP + "Pmod.map_path"
    bounded = "random rule sets of up to 6 rules on paths of up to 5 steps"

    def func(self):
        return lambda rules, path: mappings.pmods_from_tuples(rules).map_path(path)

    def spec(self, rules, path):
        tree = tree_oracle(rules)
        if len(path) > 1 and path.endswith("/"):
            path = path[:-1]
        out = []
        put = lambda s: out.extend((s[:-1] if len(s) > 1 and s.endswith("/") else s).split("/"))
        unesc = lambda s: s.replace("~1", "/").replace("~0", "~")
        steps = [unesc(s) for s in path.split("/")]
        if tree[0] is not None:
            out += [unesc(s) for s in tree[0].split("/")]
        node = tree
        for s in steps:
            node, alias = descend_oracle(node, s) if node is not None else (None, None)
            if alias is not None:
                if alias.startswith("."):
                    out.append(s)
                s = alias
            if len(s) > 1 and s.endswith("/"):
                s = s[:-1]
            out += [unesc(x) for x in s.split("/")]
        return JoinPaths().spec(out)

    def cases(self, rng, tier):
        frm = ["", "/", "/a", "/b", "/a/b", "/~a.*", "/~(a)(.*)", "/~.*/b", "/a/~b?", "/~[ab]1?/c",
               "/a/~.*/c", "a", "/~a.*/~.*", "//a", "/~a|ab", "/~(?i)A", "/~A", "/~B.?", "/~a$", "/a/~b|bc?"]
        to = ["X", "/R", "X/Y", "../Z", "./Q", r"\g<0>_", ".", "..", "Y/", "~1t", "/", ""]
        paths = ["", "/", "/a", "/b/", "/a/b", "/a1/b", "/a/b/c", "/a1/c", "/ab/x/c", "/b/b", "a/b",
                 "//a", "/a/b/c/d", "/a//b", "/~01/a", "/a/../b", "/ab", "/a\n", "/A/b", "/a/bc",
                 "/a/b/c/d/a/b/a1/c/ab/x/b/a"]
        for _ in range(20000 if tier == "quick" else 200000):
            rules = [(rng.choice(frm), rng.choice(to)) for _ in range(rng.randint(0, 6))]
            rules = [r for r in rules if r != ("", "")]
            yield (rules, rng.choice(paths)), {}
        names = ["a", "b", "ab", "A", "x1", "é", "", "a b", "0", "..", "."]
        pats = ["~a", "~.*", "~(.)(.*)", "~[ab]+", "~x\\d", "~b$", "~(?P<n>a)b?", "~.", "~a|b"]
        subs = ["X", "X/Y", "/R/S", ".", "..", "../Z", "./Q/", r"\g<0>_", r"p\g<0>/q", "a", "b", "~0", "..a", ".a", "a b/"]
        for _ in range(8000 if tier == "quick" else 80000):
            seg = lambda: rng.choice(names[:6] if rng.random() < .8 else names + pats)
            rules = [("/" + "/".join(rng.choice(pats) if rng.random() < .4 else seg() for _ in range(rng.randint(1, 3))),
                      rng.choice(subs)) for _ in range(rng.randint(1, 14))]
            path = "/" + "/".join(seg() for _ in range(rng.randint(1, 7)))
            yield (rules, path.replace("~", "") + rng.choice(["", "", "", "/"])), {}

    signature_matters = False


class Parts(Sym):
    """the parts that a text splits into"""

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "<parts>"

    __hash__ = Sym.__hash__


class PartsUse(Contract):
    """used at call sites; proved in C07"""
    prop = ()
    target = "pandalone.pandata:iter_jsonpointer_parts_relaxed"

    def apply(self, ctx, args, kw):
        x, = args
        return [Parts(x.t)] if type(x) is Alias_ else list(mappings.iter_jsonpointer_parts_relaxed(x))


class Joined(Sym):
    """the join of steps and parts"""

    def __init__(self, steps):
        self.steps = steps

    def __repr__(self):
        return "<joined path>"

    __hash__ = Sym.__hash__


class JoinUse(Contract):
    """used at call sites; proved in C09"""
    prop = ()
    target = MP + "_join_paths"

    def apply(self, ctx, args, kw):
        return Joined(args)


BOOL_ = z3.BoolSort()
walk_has = z3.Function("walk_has_child", Val, Val, BOOL_)
walk_child = z3.Function("walk_child", Val, Val, Val)
walk_aliased = z3.Function("walk_has_alias", Val, Val, BOOL_)
walk_alias = z3.Function("walk_alias", Val, Val, Val)
text_starts = z3.Function("text_starts_with", Val, z3.StringSort(), BOOL_)
text_ends = z3.Function("text_ends_with", Val, z3.StringSort(), BOOL_)
text_len = z3.Function("text_length", Val, z3.IntSort())
text_chopped = z3.Function("text_chopped", Val, Val)


class Alias_(Sym):
    """any text, by what is asked of it"""
    __class__ = property(lambda self: str)

    def __init__(self, t):
        self.t = t

    def slen(self):
        cur().assume(text_len(self.t) >= 0)
        return mkint(text_len(self.t))

    def __bool__(self):
        return bool(self.slen() > 0)

    def startswith(self, p):
        return mkbool(text_starts(self.t, z3.StringVal(p)))

    def endswith(self, p):
        return mkbool(text_ends(self.t, z3.StringVal(p)))

    def __getitem__(self, k):
        if k == slice(None, -1):
            return Alias_(text_chopped(self.t))
        if k == slice(None, 1) or k == 0 and bool(self):
            return Begin(self, False)
        if k == slice(-1, None) or k == -1 and bool(self):
            return Begin(self, True)
        raise Unsupported("another part of a text")

    def __iter__(self):
        raise Unsupported("the characters of a text")

    def __eq__(self, o):
        raise Unsupported("comparing a text")

    def __repr__(self):
        return "<text>"

    __hash__ = Sym.__hash__


class Begin(Sym):
    """the first (or last) character of a text"""

    def __init__(self, of, last):
        self.of, self.last = of, last

    def __eq__(self, o):
        if not isinstance(o, str) or len(o) != 1:
            raise Unsupported("comparing a character")
        return mkbool((text_ends if self.last else text_starts)(self.of.t, z3.StringVal(o)))

    def __ne__(self, o):
        return ~(self == o)

    def __repr__(self):
        return "<character>"

    __hash__ = Sym.__hash__


class SNode(Sym):
    """any pmod, by what descend() and alias() give there"""

    def __init__(self, t, top=None):
        self.t, self.top = t, top

    @property
    def _alias(self):
        return self.top

    def alias(self, step):
        s = literal(step)
        return Alias_(walk_alias(self.t, s)) if cur().branch(walk_aliased(self.t, s)) else None

    def descend(self, step):
        s = literal(step)
        cur().assume(z3.Implies(walk_aliased(self.t, s), walk_has(self.t, s)))
        if not cur().branch(walk_has(self.t, s)):
            return None, None
        return SNode(walk_child(self.t, s)), self.alias(step)

    def __bool__(self):
        return True

    def truth(self):
        return z3.BoolVal(True)

    def __repr__(self):
        return "<pmod>"

    __hash__ = Sym.__hash__


class Walk(Contract):
    """The steps joined: the parts of the root's alias, then, for each step in
    turn, those of its alias where the rules so far lead (after the step
    itself when it starts with '.'), else the step's own; any one ending
    slash of a step dropped."""
    prop = "C10"
    target = MP + "Pmod.map_path"
    internal = True
    call_site = False
    proof_bound = "paths of up to 3 steps, any hierarchy of pmods, any aliases"
    stand_in = "MapPath"
    max_paths = 20000

    def inputs(self, g):
        path, top = g.choice(("", 0), ("/", 0), ("a", 1), ("/a/", 0), ("a~1/~01", 0), ("~1", 0), ("a~1", 1), ("a/../.", 0), ("/a/", 1))
        top = Alias_(z3.Const("root_alias", Val)) if top else None
        return (SNode(z3.Const("pm", Val), top), path), {}

    def check(self, args, kw, out):
        if out.exc is not None:
            return False
        if not isinstance(out.value, Joined):
            raise Unsupported("a path joined otherwise")
        node, path = args
        unesc = lambda s: s.replace("~1", "/").replace("~0", "~")
        want = []
        if node.top is not None:
            want.append(node.top.t)
        if len(path) > 1 and path.endswith("/"):
            path = path[:-1]
        c = cur()
        for s in [unesc(s) for s in path.split("/")]:
            node, alias = node.descend(s) if node is not None else (None, None)
            if alias is None:
                if len(s) > 1 and s.endswith("/"):
                    s = s[:-1]
                want += [unesc(x) for x in s.split("/")]
                continue
            if c.branch(alias.startswith(".").t):
                want.append(s)
            if c.branch(z3.And(text_len(alias.t) > 1, alias.endswith("/").t)):
                alias = alias[:-1]
            want.append(alias.t)
        got = out.value.steps
        if len(got) != len(want):
            return False
        goal = []
        for x, y in zip(got, want):
            if isinstance(y, str):
                goal.append(z3.BoolVal(type(x) is str and x == y))
            else:
                goal.append(x.t == y if isinstance(x, Parts) else z3.BoolVal(False))
        return mkbool(z3.And(True, *goal))


def tree_oracle(rules):
    root = [None, {}, []]
    for f, t in rules:
        n = root
        for s in [p.replace("~1", "/").replace("~0", "~") for p in f.split("/")]:
            if s.startswith("~"):
                hit = [v for k, v in n[2] if k == s[1:]]
                new = hit[0] if hit else [None, {}, []]
                n[2][:] = [(k, v) for k, v in n[2] if k != s[1:]] + [(s[1:], new)]
            else:
                new = n[1].setdefault(s, [None, {}, []])
            n = new
        n[0] = t

    def fr(n):
        return (n[0], {k: fr(v) for k, v in n[1].items()}, [(k, fr(v)) for k, v in n[2]])
    return fr(root)


class FromTuples(Contract):
    """One child per step of each rule, created once; a step starting with
    '~' is a pattern, the latest declared last; the alias is set at the end."""
    prop = "C10"
    target = MP + "pmods_from_tuples"
    bounded = "random rule sets of up to 7 rules"

    def spec(self, rules):
        return tree_oracle([r for r in rules if tuple(r) != ("", "") and None not in r])

    def agree(self, want, out):
        return want.exc is None and out.exc is None and typed_pm(out.value) == want.value and \
            repr(typed_pm(out.value)) == repr(want.value) or False

    def cases(self, rng, tier):
        for (rules, _), kw in itertools.islice(MapPath.cases(self, rng, tier), 0, None, 8):
            if rng.random() < 0.2:
                rules = rules + rng.choice([[("", "")], [(None, "x")], [("a", None)]])
            yield (rules,), {}


def typed_pm(p):
    """(alias, {name: node}, [(pattern, node)...])"""
    return (p._alias, {k: typed_pm(v) for k, v in p._steps.items()},
            [(k.pattern, typed_pm(v)) for k, v in p._regxs.items()])


def merge_oracle(a, b, what="all"):
    alias, steps, regxs = a
    if what == "all":
        alias = b[0] if b[0] is not None else alias
    if what in ("all", "steps"):
        names = list(steps) + [n for n in b[1] if n not in steps]
        steps = {n: b[1][n] if n not in steps else steps[n] if n not in b[1] else
                 merge_oracle(steps[n], b[1][n]) for n in names}
    if what in ("all", "regxs"):
        da, db = dict(regxs), dict(b[2])
        regxs = [(n, v) for n, v in regxs if n not in db] + \
            [(n, merge_oracle(da[n], v) if n in da else v) for n, v in b[2]]
    return (alias, steps, regxs)


NAMES = ["a", "b", "a1", "ab", ""]
# (fullmatch backtracks: alternatives and lazy repeats may match more than their first choice)
PATS = ["a", "a.*", "(a)(.*)", "b?", ".*", "[ab]1?", "a|ab", "a(b|b1)?", "a.*?", "(?i)A", "A", "B+", "a$", "(a|a1)(b?)"]
STEPS = ["a", "b", "ab", "a1", "a1b", "", "zz", "a\n", "A", "c\n", "ab1"]


def rand_pmod(rng, d):
    import re
    p = mappings.Pmod(rng.choice([None, None, "X", "Y/Z", "../W", "."]))
    if d and rng.random() < 0.7:
        p._steps = {n: rand_pmod(rng, d - 1) for n in rng.sample(NAMES, rng.randint(0, 3))}
    if d and rng.random() < 0.7:
        p._regxs = {re.compile(n): rand_pmod(rng, d - 1)
                    for n in rng.sample(PATS, rng.randint(0, 3))}
    return p



# -- psteps --------------------------------------------------------------------

PS = mappings.Pstep
_LOCKED = PS.__dict__["_locked"]


class SPstep(Sym):
    """a pstep with any text; its attributes live in its own __dict__"""
    __slots__ = ("t", "__dict__")
    __class__ = property(lambda self: PS)

    def __init__(self, t, **attrs):
        self.t = t
        self.__dict__.update(attrs)

    @property
    def _locked(self):
        return rt.call(_LOCKED.fget, self)

    @_locked.setter
    def _locked(self, v):
        rt.call(_LOCKED.fset, self, v)

    def __eq__(self, o):
        if isinstance(o, SPstep):
            return mkbool(self.t == o.t)
        return mkbool(self.t == tstr(o)) if isinstance(o, (str, SStr)) else False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def contains_sym(self, x):
        return mkbool(z3.Contains(self.t, tstr(x)))

    def __bool__(self):
        return cur().branch(z3.Length(self.t) > 0)

    def truth(self):
        return z3.Length(self.t) > 0

    def same_as(self, o):
        return self.t == o.t if isinstance(o, SPstep) else z3.BoolVal(False)

    def isinstance_sym(self, c):
        return c in (PS, str, object)

    def __format__(self, spec):
        return "<pstep>"

    __str__ = __repr__ = lambda self: "<pstep>"
    __hash__ = Sym.__hash__

    def concretize(self, m):
        from pyvc.contract import conc
        p = str.__new__(PS, m.eval(self.t, model_completion=True).as_string())
        p.__dict__.update({k: conc(v, m) for k, v in vars(self).items()})
        return p


def new_text(cls, x=""):
    if cls is not PS or not isinstance(x, SStr):
        raise Unsupported("str.__new__ of %r" % (x,))
    return SPstep(x.t)


from pyvc import rt
rt.MODELS[str.__new__] = new_text


def breaks_lock(text, orig, lock):
    """the step has another name and the lock forbids it"""
    renamed = text != orig
    slash = text.contains_sym("/") if isinstance(text, SPstep) and is_sym(text) else \
        mkbool(z3.Contains(text.t, z3.StringVal("/"))) if is_sym(text) else "/" in text
    return both(renamed, either(lock < 1, both(lock < 3, slash)))


class LockSet(Contract):
    """A lock is refused iff the step is already renamed (or, for the
    rename-only lock, relocated); a refused lock changes nothing."""
    prop = "C11"
    target = MP + "Pstep._locked"
    call_site = False
    internal = False

    def func(self):
        return _LOCKED.fset

    def inputs(self, g):
        s = SPstep(z3.String("text"), _orig=SStr(z3.String("orig")), _locked=g.int("old_lock"))
        return (s, g.int("lock")), {}

    def before(self, args, kw):
        return dict(vars(args[0]))

    def check(self, args, kw, out):
        s, lock = args
        bad = breaks_lock(s, self.snap["_orig"], lock)
        now = vars(s)
        if list(now) != list(self.snap):
            return False
        if out.exc is not None:
            return both(isinstance(out.exc, ValueError), bad,
                        *[mkbool(same(now[k], v)) for k, v in self.snap.items()])
        return both(no(bad), mkbool(same(now["_locked"], lock)),
                    mkbool(same(now["_orig"], self.snap["_orig"])))

    def cases(self, rng, tier):
        for orig in ("", "a", "b"):
            for text in ("", "a", "a/b", "/a", "..", "."):
                for lock in (-1, 0, 1, 2, 3, 4):
                    p = str.__new__(PS, text)
                    p.__dict__.update(_orig=orig, _locked=3, _tags=(), _csteps=None, _pmod=None)
                    yield (p, lock), {}
    mutates = True


UNESC = z3.Function("unescaped", z3.StringSort(), z3.StringSort())


class UnescapeUse(Contract):
    """used at call sites; proved in C07"""
    prop = ()
    target = "pandalone.pandata:unescape_jsonpointer_part"

    def result(self, ctx, args, kw):
        return SStr(UNESC(tstr(args[0])))


class SMapping(SPm):
    """any pmod, as seen by a pstep"""

    def __init__(self, t, found=None, alias=None):
        SPm.__init__(self, t)
        self.found, self.alias = found, alias

    def descend(self, name):
        return self.found, self.alias

    def _merge(self, o):
        return SMapping(z3.Const(cur().fresh("merged_pmod"), Val))

    def isinstance_sym(self, c):
        return c in (mappings.Pmod, object)


def own_attrs(p):
    return {k: v for k, v in vars(p).items()}


class NewStep(Contract):
    """A step's text is the name it is given, else its mapped (unescaped)
    name, else its own name; it relays to its children the mappings found for
    it and starts unlocked."""
    prop = "C11"
    target = MP + "Pstep.__new__"
    call_site = False
    internal = False
    assumes = ("unescape_jsonpointer_part and Pmod.descend behave by their contracts (C07, C10)",)

    def inputs(self, g):
        pname = g.choice(None, SStr(z3.String("pname")))
        self.m_alias = g.choice(None, SStr(z3.String("mapped")))
        self.found = g.choice(None, SPm(z3.Const("found", Val)))
        maps = g.choice(None, SMapping(z3.Const("maps", Val), self.found, self.m_alias))
        alias = g.choice(None, SStr(z3.String("alias")))
        tags = g.choice((), ("t1", "t2"))
        return (PS, pname, maps, alias) + tags, {}

    def check(self, args, kw, out):
        cls, pname, maps, alias = args[:4]
        if out.exc is not None:
            return False
        got = out.value
        pname = "" if pname is None else pname
        pmod = None
        if in_ctx():
            if maps is not None:
                pmod = self.found
                if alias is None and self.m_alias is not None and self.m_alias != "":
                    alias = SStr(UNESC(self.m_alias.t))
        elif maps is not None:
            pmod, m = maps.descend(pname)
            if alias is None and m:
                alias = m.replace("~1", "/").replace("~0", "~")
        if alias is None:
            alias = pname
        v = own_attrs(got)
        tags = args[4:]
        if set(v) != {"_orig", "_pmod", "_csteps", "_locked", "_tags"} or v["_locked"] != 3 or \
                v["_csteps"] is not None or set(v["_tags"]) != set(tags):
            return False
        if in_ctx():
            if v["_pmod"] is not pmod:
                return False
        elif (v["_pmod"] is None) != (pmod is None) or \
                pmod is not None and typed_pm(pmod) != typed_pm(v["_pmod"]):
            return False
        text = SStr(got.t) if isinstance(got, SPstep) else str(got)
        return both(mkbool(same(text, alias)), mkbool(same(v["_orig"], pname)))

    def cases(self, rng, tier):
        for _ in range(500):
            maps = rand_pmod(rng, 2) if rng.random() < .8 else None
            yield (PS, rng.choice([None, "", "a", "ab"]), maps, rng.choice([None, None, "", "X", "a/b"])) + \
                rng.choice([(), ("t",)]), {}


class MakeChild(Contract):
    """Naming a child through its parent keeps the child's lock, tags, mappings
    and own children, and is refused - with nothing changed - where its lock
    forbids that name; the mappings the parent came from are not modified."""
    prop = "C11"
    target = MP + "Pstep._Pstep__make_cstep"
    call_site = False
    inline = ("Pmod._merge", "Pmod._override_steps", "Pmod._override_regxs", "Pmod.descend")

    def inputs(self, g):
        child = SPstep(z3.String("child_text"), _orig="a", _locked=g.int("lock"),
                       _tags=g.choice((), {"t1"}), _pmod=g.choice(None, SPm(z3.Const("child_pmod", Val))),
                       _csteps=g.choice(None, {"z": SPstep(z3.String("grandchild_text"))}))
        # what the lock setter guarantees
        g.assume(no(breaks_lock(child, "a", child.__dict__["_locked"])))
        me = PS("me")
        vars(me)["_csteps"] = {"b": SPstep(z3.String("b_text")), "a": child}
        vars(me)["_pmod"] = g.choice(None, SMapping(z3.Const("my_pmod", Val)),
                                     pmod("me", {"a": pmod("mapped", {}, {})}, {}))
        return (me, "a"), {"alias": g.choice(None, SStr(z3.String("alias")))}

    def before(self, args, kw):
        me = args[0]
        c = vars(me)["_csteps"]
        p = vars(me)["_pmod"]
        return dict(c or {}), {k: dict(vars(v)) for k, v in (c or {}).items()}, p, \
            repr(p), list(vars(me))

    def check(self, args, kw, out):
        me, key = args
        alias = kw["alias"]
        kids, was, pm, pmr, names = self.snap
        now = vars(me)["_csteps"]
        if repr(pm) != pmr or list(vars(me)) != names:
            return False
        if list(now) != list(kids) + ([] if key in kids else [key]):
            return False
        old = kids[key]
        for k, v in kids.items():
            if k != key and now[k] is not v or not same_attrs(vars(v), was[k]):
                return False
        lock = was[key]["_locked"]
        text = alias if alias is not None else key
        bad = breaks_lock(text, was[key]["_orig"], lock) if alias is not None else False
        if out.exc is not None:
            return both(isinstance(out.exc, ValueError), bad, now[key] is old, vars(me)["_pmod"] is pm)
        got = now[key]
        if out.value is not got or got is old or not same_attrs(vars(got), was[key]) or \
                vars(got)["_tags"] and vars(got)["_tags"] is was[key]["_tags"] or \
                vars(got)["_csteps"] and vars(got)["_csteps"] is was[key]["_csteps"]:
            return False
        t = SStr(got.t) if isinstance(got, SPstep) else str(got)
        return both(no(bad), mkbool(same(t, text)))


def same_attrs(a, b):
    """equal attributes (same children, mappings and lock)"""
    def eq(x, y):
        if isinstance(x, dict) and isinstance(y, dict):
            return list(x) == list(y) and all(p is q for p, q in zip(x.values(), y.values()))
        return x is y or not is_sym(x) and not is_sym(y) and x == y
    return list(a) == list(b) and all(eq(a[k], b[k]) for k in a)


class StepHistory(Contract):
    """Any history of references, names, locks and tags on a pstep hierarchy:
    the texts, locks, tags and listed paths are those of the plain model."""
    prop = "C11"
    target = MP + "Pstep"
    bounded = "random histories of up to 12 operations over 3 names and depth 4"
    internal = False
    signature_matters = False

    def func(self):
        return run_history

    def spec(self, rules, root, ops):
        return model_history(rules, root, ops)

    def cases(self, rng, tier):
        frm = ["/a", "/a/b", "/~.*", "/b", "/~(a)/b", "/b/c", "", "/a/~b|c"]
        to = ["X", "Y/Z", "../W", r"\g<0>1", "a", "b", ".", "q~1r"]
        for _ in range(4000 if tier == "quick" else 60000):
            rules = [(rng.choice(frm), rng.choice(to)) for _ in range(rng.randint(0, 4))]
            ops = []
            names = "abc" if rng.random() < .8 else rng.choice([("a", "ab", "abc"), ("a", "A", "a_"), ("series", "values", "a"), ("x1", "a", "é")])
            for _ in range(rng.randint(1, 12)):
                path = tuple(rng.choice(names) for _ in range(rng.randint(1, 4)))
                ops.append((rng.choice(["get", "peek", "name", "name", "graft", "_lock", "_fix", "lock", "tag", "untag"]), path,
                            rng.choice(["", "a", "b", "X", "u/v", "..", "."]), rng.choice([0, 1, 2, 3])))
            yield (rules, rng.choice(["", "", "r"]), ops), {}


def run_history(rules, root, ops):
    maps = mappings.pmods_from_tuples(rules)
    before = typed_pm(maps)
    p = PS(root, maps) if rules else PS(root)
    log = []
    for op, path, text, lock in ops:
        try:
            n = p
            for k in path[:-1]:
                n = getattr(n, k)
            if op == "name":
                setattr(n, path[-1], text)
                n = getattr(n, path[-1])
            elif op == "graft":
                q = PS("q")
                q.b._tag("T")
                q._tag("Q")
                setattr(n, path[-1], q)
                n = getattr(n, path[-1])
                n._tag("X")
                n.c._fix
                if q._tags != {"Q"} or q._paths() != ["q/b"]:
                    log.append("graft changed its origin")
            else:
                n = getattr(n, path[-1])
                if op in ("_lock", "_fix"):
                    if getattr(n, op) is not n:
                        log.append("not chained")
                elif op == "lock":
                    n._locked = lock
                elif op == "peek" and any(hasattr(n, x) for x in ("_private", "__len", "__array__", "_" + text)):
                    log.append("has private names")
                elif op == "tag":
                    n._tag(text, "T")
                elif op == "untag":
                    n._tag_remove(text)
            log.append((str(n), n._locked, sorted(n._tags)))
        except ValueError:
            log.append("refused")
    log.append([p._paths(), p._paths(tag="T"), p._paths(tag="X")])
    log.append(sorted(p._derrive_map_tuples()))
    log.append(typed_pm(maps) == before)
    return log


def model_history(rules, root, ops):
    tree = tree_oracle(rules)
    un = lambda s: s.replace("~1", "/").replace("~0", "~")

    def make(key, pm, alias=None):
        node, m = descend_oracle(pm, key) if pm is not None else (None, None)
        if alias is None and m:
            alias = un(m)
        return {"o": key, "t": key if alias is None else alias, "l": 3, "g": set(), "c": {}, "p": node}

    def forbids(n, lock):
        return n["t"] != n["o"] and (lock < 1 or lock < 3 and "/" in n["t"])

    def child(n, k):
        if k not in n["c"]:
            n["c"][k] = make(k, n["p"])
        return n["c"][k]

    r = make(root, tree if rules else None)
    log = []
    for op, path, text, lock in ops:
        n = r
        for k in path[:-1]:
            n = child(n, k)
        k = path[-1]
        if op == "name":
            if k in n["c"]:
                c = n["c"][k]
                if forbids(dict(c, t=text), c["l"]):
                    log.append("refused")
                    continue
                c["t"] = text
            else:
                n["c"][k] = make(k, n["p"], text)
            n = n["c"][k]
        elif op == "graft":
            # a copy of another step under this name
            b = make("b", None)
            b["g"] = {"T"}
            n["c"][k] = dict(make("q", None), t=k, c={"b": b}, g={"Q", "X"})
            n = n["c"][k]
            child(n, "c")["l"] = 1
        else:
            n = child(n, k)
            lk = {"_lock": 0, "_fix": 1, "lock": lock}.get(op)
            if lk is not None:
                if forbids(n, lk):
                    log.append("refused")
                    continue
                n["l"] = lk
            elif op == "tag":
                n["g"] |= {text, "T"}
            elif op == "untag":
                n["g"].discard(text)
        log.append((n["t"], n["l"], sorted(n["g"])))

    def walk(n, pre, opre):
        pre, opre = pre + [n["t"]], opre + [n["o"]]
        yield n, pre, opre
        for c in n["c"].values():
            yield from walk(c, pre, opre)

    join = JoinPaths().spec
    alln = list(walk(r, [], []))
    log.append([sorted({join(p) for n, p, _ in alln if not n["c"]}),
                sorted({join(p) for n, p, _ in alln if "T" in n["g"]}),
                sorted({join(p) for n, p, _ in alln if "X" in n["g"]})])
    log.append(sorted((join(o), n["t"]) for n, _, o in alln))
    log.append(True)
    return log


CONTRACTS = [AppendStep, JoinPaths, OverrideSteps, OverrideRegxs, Merge, MatchRegxs, Descend, Alias,
             FromTuples, MapPath, Walk, PartsUse, JoinUse, LockSet, UnescapeUse, NewStep, MakeChild, StepHistory]
