"""Contracts for JSON pointers and paths in pandalone/pandata.py."""
import copy
import itertools

import z3
from jsonschema.exceptions import RefResolutionError

from pyvc.contract import Contract, Lemma, Ok, Err
from pyvc.core import cur, in_ctx, Unsupported, PathDone
from pyvc.spec import *
from pyvc.vals import *
from pyvc import loops, xduce
from pyvc.docs import *
from pyvc import docs as D
from pyvc.xduce import SRep, Hom, Decode

from pandalone import pandata

PD = "pandalone.pandata:"

unesc = z3.Function("unescape", Val, Val)


def esc1(s):
    return "".join({"~": "~0", "/": "~1"}.get(c, c) for c in s)


def unesc1(s):
    out, i = "", 0
    while i < len(s):
        if s[i] == "~" and s[i + 1:i + 2] in ("0", "1"):
            out += "~/"[int(s[i + 1])]
            i += 2
        else:
            out += s[i]
            i += 1
    return out


def short_strings(n, al="~/01a"):
    for k in range(n + 1):
        for t in itertools.product(al, repeat=k):
            yield "".join(t)


class Escape(Contract):
    prop = "C07"
    target = PD + "escape_jsonpointer_part"

    def inputs(self, g):
        return (SRep(),), {}

    def spec(self, part):
        if isinstance(part, SRep):
            return SRep(part.ops + (Hom({"~": "~0", "/": "~1"}),))
        return esc1(part)

    def check(self, args, kw, out):
        ok = Contract.check(self, args, kw, out)
        if ok and out.exc is None and isinstance(out.value, SRep):
            return xduce.never_emits(out.value.ops, "/")[0]
        return ok

    def cases(self, rng, tier):
        for s in short_strings(6 if tier == "quick" else 8):
            yield (s,), {}
        for s in ("~", "/", "~1", "~0", "~01", "a/", "~~1/"):
            for n in (9, 40, 300, 5000):
                yield (s * n,), {}
        for _ in range(200):
            yield ("".join(rng.choice("~/01é \n\0%日") for _ in range(rng.randint(5, 40))),), {}


class Unescape(Escape):
    target = PD + "unescape_jsonpointer_part"

    def spec(self, part):
        if isinstance(part, SRep):
            return SRep(part.ops + (Decode("~", {"0": "~", "1": "/"}),))
        return unesc1(part)

    def check(self, args, kw, out):
        return Contract.check(self, args, kw, out)

    def result(self, ctx, args, kw):
        if isinstance(args[0], SKey):
            return SKey(unesc(args[0].t))
        return Contract.result(self, ctx, args, kw)


class EscapeRoundTrip(Contract):
    """unescaping what was escaped gives any string back"""
    prop = "C07"
    target = PD + "unescape_jsonpointer_part"
    call_site = False

    def inputs(self, g):
        return (SRep(),), {}

    def invoke(self, func, args, kw):
        from pyvc import rt
        e, u = Escape().func(), func
        if in_ctx():
            e, u = rt.hooked(e), rt.hooked(u)
        return u(e(*args))

    def spec(self, part):
        return part

    cases = Escape.cases


ODD_PARTS = ["a", "A", "ab", "AB", "Ab", "\u00df", "ss", "SS", "\u0130", "i", "I", "1", "01", "1.0", " 1", "a ", " a", "\uff41",
             "e\u0301", "\u00e9", "..", ".", "-", "~0", "~1", "~01", "~", "#", "%41", "a%20b", "None", "\n", "\0", "*"]


class GenParts(Contract):
    """the generic element of the generator, by induction over its loop"""

    def invoke(self, func, args, kw):
        from pyvc import rt
        if not in_ctx():
            return list(func(*args, **kw))
        ctx = cur()
        got = []
        try:
            for v in rt.hooked(func)(*args, **kw):
                L = ctx.loop_stack[-1] if ctx.loop_stack else None
                got.append((L.k if L is not None else None, v, L))
        except PathDone:
            L = ctx.iteration_ended
            if L is not None and not ctx.dry:
                mine = [x for x in got if x[2] is L]
                ok = len(mine) == 1 and len(got) == 1 and L.seq is not None
                n = self.count(*args, **kw)
                ctx.prove("one element per iteration", z3.BoolVal(ok))
                ctx.prove("element", same(mine[0][1], self.element(mine[0][0], *args, **kw)))
                ctx.prove("number of elements", tint(L.seq.n) == tint(n))
            raise
        if got:
            raise Unsupported("elements outside the loop")
        return loops.SList(0, None)

    def cases(self, rng, tier):
        for s in short_strings(6 if tier == "quick" else 8, "~/0a"):
            yield (s,), {}
        for s in short_strings(5 if tier == "quick" else 7, "/aAé1"):
            yield ("/" + s,), {}
        for _ in range(1500):
            yield ("/" + "/".join(rng.choice(ODD_PARTS) for _ in range(rng.randint(1, 9))),), {}
        for _ in range(300):
            yield ("/" + "".join(rng.choice("~/01éb") for _ in range(rng.randint(0, 40))),), {}
        for s in ("/", "/a", "/~1", "//b", "/~01/"):
            for n in (9, 40, 150, 1500):
                yield (s * n,), {}


class IterParts(GenParts):
    """'' has no steps; '/a/b' has the unescaped pieces after the first '/';
    anything else that does not start with '/' is refused"""
    prop = "C07"
    target = PD + "iter_jsonpointer_parts"

    def inputs(self, g):
        return (SPath("path", g.int("pieces", 1)),), {}

    def count(self, path):
        return path.n - 1

    def element(self, k, path):
        return SKey(unesc(path.piece(k + 1).t))

    def spec(self, path):
        ps = path.split("/")
        if ps[0] != "":
            raise RefResolutionError("")
        return [unesc1(p) for p in ps[1:]]

    def check(self, args, kw, out):
        if not isinstance(args[0], SPath):
            return Contract.check(self, args, kw, out)
        ok = args[0].piece(0) == ""
        if out.exc is not None:
            return both(isinstance(out.exc, RefResolutionError), no(ok))
        return ok

    def result(self, ctx, args, kw):
        p = args[0]
        if not isinstance(p, SPath):
            return Contract.result(self, ctx, args, kw)
        if not (p.piece(0) == ""):
            raise RefResolutionError("")
        return loops.SymSeq(p.n - 1, lambda i: self.element(i, p), ("parts",))


class IterRelaxed(GenParts):
    prop = "C07"
    target = PD + "iter_jsonpointer_parts_relaxed"

    inputs = IterParts.inputs

    def count(self, path):
        return path.n

    def element(self, k, path):
        return SKey(unesc(path.piece(k).t))

    def spec(self, path):
        return [unesc1(p) for p in path.split("/")]

    def check(self, args, kw, out):
        if not isinstance(args[0], SPath):
            return Contract.check(self, args, kw, out)
        return out.exc is None

    def result(self, ctx, args, kw):
        p = args[0]
        return loops.SymSeq(p.n, lambda i: self.element(i, p), ("parts",))


# -- walking documents --------------------------------------------------------

NODE = z3.Function("node", I, Val)


def step_ok(t, k):
    """can the pointer step k be taken in t?"""
    n = len_i(t)
    return z3.Or(z3.And(kind(t) == 1, has_k(t, k)),
                 z3.And(kind(t) >= 2, is_int(k), int_of(k) < n, int_of(k) >= -n))


def step_to(t, k):
    n = len_i(t)
    i = int_of(k)
    return z3.If(kind(t) == 1, child_k(t, k), child_i(t, z3.If(i < 0, i + n, i)))


class ResolvePointer(Contract):
    """Take the steps one after the other; the first that cannot be taken
    yields the default, or the resolution error."""
    prop = "C08"
    target = PD + "resolve_jsonpointer"

    step_ok, step_to = staticmethod(step_ok), staticmethod(step_to)
    iterator = IterParts

    def inputs(self, g):
        p = SPath("path", g.int("pieces", 1))
        doc = SDoc(z3.Const("doc", Val))
        kw = g.choice({}, {"default": SDoc(z3.Const("default", Val))})
        self.path, self.doc, self.root = p, doc, None
        return (doc, p), dict(kw)

    def key(self, k):
        return self.iterator().element(tint(k), self.path).t

    def node(self, k):
        c = cur()
        c.assume(NODE(z3.IntVal(0)) == self.doc.t)
        for j in (z3.simplify(k), z3.simplify(k - 1)):
            c.assume(z3.Implies(j >= 0, NODE(j + 1) == self.step_to(NODE(j), self.key(j))))
            c.assume(z3.And(0 <= kind(NODE(j)), kind(NODE(j)) <= 3, len_i(NODE(j)) >= 0))
        return NODE(z3.simplify(k))

    def okstep(self, j):
        return mkbool(self.step_ok(NODE(tint(j)), self.key(j)))

    @property
    def loops(self):
        return [loops.Fold(lambda L: getattr(L.seq, "tag", None) == ("parts",),
                           lambda L, k: [SDoc(self.node(k))],
                           lambda L, k: z3.And(k >= 0, tbool(forall(0, SInt(k), self.okstep))))]

    def count(self, path):
        return path.n - 1

    def pspec(self, doc, path, default):
        if not (path.piece(0) == ""):
            raise RefResolutionError("")
        n = self.count(path)
        if forall(0, n, self.okstep):
            return SDoc(self.node(tint(n)))
        if default is pandata._scream:
            raise RefResolutionError("")
        return default

    def spec(self, doc, path, default=pandata._scream):
        if isinstance(path, SPath):
            return self.pspec(doc, path, default)
        for p in IterParts().spec(path):
            try:
                if isinstance(doc, (list, tuple, str)):
                    doc = doc[int(p)]
                elif isinstance(doc, dict):
                    doc = doc[p]
                else:
                    raise KeyError
            except (ValueError, LookupError):
                if default is pandata._scream:
                    raise RefResolutionError("")
                return default
        return doc

    def cases(self, rng, tier):
        for _ in range(4000 if tier == "quick" else 100000):
            doc = rand_doc(rng, 4)
            p = rand_path(rng, doc)
            yield (doc, p), rng.choice([{}, {"default": rng.choice([None, 0, "d", [], {}])}])
        for n in (20, 70, 300):
            doc = 7
            for i in range(n):
                doc = {"k": doc} if i % 3 else [0, doc]
            p = "".join("/k" if i % 3 else "/1" for i in reversed(range(n)))
            yield (doc, p), {}
            yield (doc, p + "/x"), {"default": None}


KEYS = ["a", "b", "", "0", "1", "~", "/", "~1", "a/b", "-", "e f", "A", "aB", "01"]


def rand_doc(rng, d):
    k = rng.random()
    if d == 0 or k < 0.25:
        return rng.choice([None, 0, 1.5, "", "str", "0", False, True])
    if k < 0.65:
        return {rng.choice(KEYS): rand_doc(rng, d - 1) for _ in range(rng.randint(0, 4))}
    return [rand_doc(rng, d - 1) for _ in range(rng.randint(0, 3))]


def rand_path(rng, doc, neg=True):
    out = ""
    for _ in range(rng.randint(0, 5)):
        if isinstance(doc, dict) and doc and rng.random() < 0.8:
            k = rng.choice(list(doc))
            doc = doc[k]
        elif isinstance(doc, list) and rng.random() < 0.85:
            i = rng.randint(-len(doc) if neg else 0, len(doc))
            k = str(i)
            doc = doc[i] if -len(doc) <= i < len(doc) else None
        else:
            k = rng.choice(KEYS)
            doc = None
        out += "/" + esc1(k)
    if neg and rng.random() < 0.03:
        out = out[1:] or "x"
    return out


class ResolvePath(ResolvePointer):
    """Each step: an index of a sequence, else a key, else an attribute, else
    (an empty step) the root."""
    target = PD + "resolve_path"
    iterator = IterRelaxed

    def inputs(self, g):
        (doc, p), kw = ResolvePointer.inputs(self, g)
        if g.choice(0, 1):
            r = SDoc(z3.Const("root", Val))
            g.ctx.assume(z3.Not(tbool(r.is_sym_identity(None))))
            kw["root"] = r
            self.root = r
        return (doc, p), kw

    def _c(self, t, k):
        n = len_i(t)
        i = int_of(k)
        seqok = z3.And(kind(t) >= 2, is_int(k), i < n, i >= -n)
        return [(seqok, child_i(t, z3.If(i < 0, i + n, i))),
                (z3.And(kind(t) == 1, has_k(t, k)), child_k(t, k)),
                (has_a(t, k), child_a(t, k)),
                (k == D.literal(""), self.root.t if self.root is not None else t)]

    def step_ok(self, t, k):
        return z3.Or(*[c for c, _ in self._c(t, k)])

    def step_to(self, t, k):
        r = t
        for c, v in reversed(self._c(t, k)):
            r = z3.If(c, v, r)
        return r

    def count(self, path):
        return path.n

    def pspec(self, doc, path, default, root=None):
        n = self.count(path)
        if forall(0, n, self.okstep):
            return SDoc(self.node(tint(n)))
        if default is pandata._scream:
            raise RefResolutionError("")
        return default

    def spec(self, doc, path, default=pandata._scream, root=None):
        if isinstance(path, SPath):
            return self.pspec(doc, path, default)
        for p in IterRelaxed().spec(path):
            tries = [lambda: doc[p], lambda: getattr(doc, p)]
            if isinstance(doc, (list, tuple, str)):
                tries[:0] = [lambda: doc[int(p)]]
            for t in tries:
                try:
                    doc = t()
                    break
                except (ValueError, TypeError, LookupError, AttributeError):
                    pass
            else:
                if p == "":
                    doc = doc if root is None else root
                elif default is pandata._scream:
                    raise RefResolutionError("")
                else:
                    return default
        return doc

    def agree(self, want, out):
        if not in_ctx() and want.exc is None and out.exc is None:
            return want.value is out.value or want.value == out.value or \
                repr(want.value) == repr(out.value)
        return Contract.agree(self, want, out)

    def cases(self, rng, tier):
        for (doc, p), kw in ResolvePointer.cases(self, rng, tier):
            if rng.random() < 0.5:
                p = p[1:]
            if rng.random() < 0.2:
                p += rng.choice(["/real", "/imag", "/nope", "//a", "/"])
            if rng.random() < 0.4:
                kw = dict(kw, root=rng.choice([{}, [], {"a": {"b": 3}}, 0, {"": 5}]))
            yield (doc, p), kw


class SetPointer(Contract):
    """Setting a value changes exactly one slot: the pointed one, created with
    the branch leading to it if missing; a leaf in the way is replaced."""
    prop = "C08"
    target = PD + "set_jsonpointer"
    mutates = True
    shards = 4
    weight = 3

    def inputs(self, g):
        n = g.choice(1, 2, 3, 4)
        p = SPath("path", n)
        doc = SDoc(z3.Const("doc", Val))
        val = SDoc(z3.Const("value", Val))
        for i in range(n - 1):
            k = self.key(p, i)
            g.assume(mkbool(z3.Implies(is_int(k), int_of(k) >= 0)))
        return (doc, p, val), {"object_factory": SNew}

    proof_bound = "for pointers of up to 3 steps, over documents of any shape"
    assumes = ("pointer steps into lists are not negative numbers",)

    def key(self, p, i):
        return IterParts().element(z3.IntVal(i), p).t

    def before(self, args, kw):
        if in_ctx():
            return None
        return copy.deepcopy(args[0])

    def check(self, args, kw, out):
        if isinstance(args[0], SDoc):
            return self.symcheck(out, *args)
        doc, path, value = args[:3]
        try:
            want = set_oracle(copy.deepcopy(self.snap), IterParts().spec(path), value)
        except RefResolutionError as ex:
            return isinstance(out.exc, RefResolutionError) and doc == self.snap
        return out.exc is None and typed(doc) == typed(want)

    def symcheck(self, out, doc, path, value):
        c = cur()
        c.spec_mode += 1
        writes, c.writes = c.writes, []
        try:
            want = self.expected(doc, path, value)
        finally:
            c.spec_mode -= 1
            c.writes = writes
        if want is None:
            return both(isinstance(out.exc, RefResolutionError), not writes)
        if out.exc is not None or len(writes) != 1:
            return False
        op, node, key, val = writes[0]
        wop, wnode, wkey, wval = want
        if op != wop:
            return False
        return both(mkbool(node == wnode), mkbool(key == wkey), self.nested(val, wval))

    def nested(self, got, want):
        if isinstance(want, tuple):
            if not isinstance(got, SNew) or len(got.items) != 1:
                return False
            k, v = got.items[0]
            kt = key_term(k)
            if kt is None:
                return False
            return both(mkbool(kt == want[0]), self.nested(v, want[1]))
        return mkbool(same(got, want))

    def expected(self, doc, path, value):
        c = cur()
        n = path.n - 1
        if n == 0 or not (path.piece(0) == ""):
            return None
        keys = [self.key(path, i) for i in range(n)]

        def branch_of(i):
            v = value
            for k in reversed(keys[i:]):
                v = (k, v)
            return v
        t = doc.t
        slot = None
        for i, k in enumerate(keys):
            c.assume(z3.And(0 <= kind(t), kind(t) <= 3, len_i(t) >= 0))
            last_ = i == n - 1
            if c.branch(kind(t) == 2):
                if SKey(k) == "-":
                    return ("idx", t, len_i(t), branch_of(i + 1))
                if not c.branch(is_int(k)) or not c.branch(int_of(k) <= len_i(t)):
                    return None
                slot = ("idx", t, int_of(k))
                if last_ or not c.branch(int_of(k) < len_i(t)):
                    return slot + (branch_of(i + 1),)
                t = child_i(t, int_of(k))
            elif c.branch(kind(t) == 1):
                slot = ("key", t, k)
                if last_ or not c.branch(has_k(t, k)):
                    return slot + (branch_of(i + 1),)
                t = child_k(t, k)
            else:
                if slot is None:
                    return None
                return slot + (branch_of(i),)

    def cases(self, rng, tier):
        for _ in range(5000 if tier == "quick" else 100000):
            doc = rand_doc(rng, 4)
            p = rand_path(rng, doc, neg=False)
            if rng.random() < 0.2 and p:
                p = p.rsplit("/", 1)[0] + "/-"
            yield (doc, p, rng.choice([1, None, "v", {"n": 1}, [2]])), {}
        # through tuples (whose own slots cannot be set)
        for k, v in itertools.product(("x", "0", "a/b"), (1, None, [2])):
            yield ({"t": ({"x": {}}, [3, {}])}, "/t/0/" + esc1(k), v), {}
            yield ([({}, [3])], "/0/1/" + ("-" if k == "x" else "0"), v), {}
            yield ({"t": ({"x": "leaf"}, ([],))}, "/t/0/x/" + esc1(k), v), {}
            yield ({"t": ({}, ([],))}, "/t/1/0/-", v), {}


def typed(x):
    if isinstance(x, dict):
        return {k: typed(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)([typed(v) for v in x])
    return (type(x).__name__, x)


def set_oracle(doc, keys, value):
    """independent recursive formulation"""
    if not keys:
        raise RefResolutionError("")

    def put(d, ks, top):
        if not ks:
            return value
        k, rest = ks[0], ks[1:]
        if isinstance(d, tuple):
            put(d[int(k)], rest, False)
            return d
        if isinstance(d, list):
            if k == "-":
                i = len(d)
            else:
                try:
                    i = int(k)
                except ValueError:
                    raise RefResolutionError(k)
                if i > len(d):
                    raise RefResolutionError(k)
            if i == len(d):
                d.append(put({}, rest, False) if rest else value)
            else:
                d[i] = put(d[i], rest, False)
            return d
        if isinstance(d, dict):
            d[k] = put(d[k] if k in d else {}, rest, False)
            return d
        if top:
            raise RefResolutionError(k)
        return put({}, ks, False)
    return put(doc, keys, True)


CONTRACTS = [Escape, Unescape, EscapeRoundTrip, IterParts, IterRelaxed, ResolvePointer,
             ResolvePath, SetPointer]
