"""Contracts for the xl-ref syntax (pandalone/xleash/_parse.py)."""
import itertools
import json
import re
import urllib.parse

import z3

from pyvc.contract import Contract, Ok, Err
from pyvc.core import cur, in_ctx, Unsupported
from pyvc.vals import *
from pyvc.vals import Val
from pyvc import rt, rx, tokens

from pandalone.xleash import Lasso
from pandalone.xleash import _parse

PA = "pandalone.xleash._parse:"

# -- the documented grammar ---------------------------------------------------

LET = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
BL = "".join(chr(i) for i in range(128) if chr(i).isspace())
MOVES = "L U R D LU LD RU RD UL UR DL DR".split()
_c, _s, _a, _o, _st, _t = rx.chars, rx.seqn, rx.alt, rx.opt, rx.star, rx.tag
NUM = _s(_c("123456789"), _st(_c("0123456789")))


def g_edge(px, a1_marks):
    a1 = _s(_t(px + "col_a1", _a(rx.plus(rx.nocase(LET)), _c(a1_marks))),
            _t(px + "row_a1", _a(NUM, _c(a1_marks))))
    n = _a(_s(_o(_c("-")), NUM), _c("_^."))
    rc = _s(rx.word("R"), _t(px + "row_rc", n), rx.word("C"), _t(px + "col_rc", n))
    mv = _s(_c("("), _t(px + "mov", _a(*[rx.word(m) for m in MOVES])),
            _o(_t(px + "mod", _c("+?"))), _c(")"))
    return _s(_a(a1, rc), _o(mv))


REST = _s(_o(g_edge("st_", "_^")),
          _o(_s(_t("colon", _c(":")), _o(g_edge("nd_", "_^.")),
                _o(_s(_c(":"), _t("exp", rx.plus(_c("LURDlurd?0123456789"))))))),
          _o(_s(_c(":"), _st(_c(BL)), _t("js", _s(_c('{"['), _st(rx.anybut()))))))
GRAMMAR = _s(_st(_c(BL)), _a(_s(_o(_t("sh", rx.plus(rx.anybut("!")))), _c("!"), REST), REST))
PROG = rx.of_grammar(GRAMMAR)
FIELDS = [px + f for px in ("st_", "nd_") for f in ("col_a1", "row_a1", "row_rc", "col_rc", "mov", "mod")]
SAMPLES = ["", "A1", "a1(L)", "a1(ru+):b2", "R1C2:.._(D?)", "R-1C_(D):R2C.(UL?):L1?:{x", "s!:", "s!^^:..::[x",
           'A1:"x!y"', "!A1", ":B1", ":R1C1(L+)", "::L", ":^.", 's!R1C1:"', " s !R.C.:R1C2::{"]


def judged(s):
    """`$` before a final newline is not looked at, nor what other scripts'
    blanks, digits and case-folded letters do"""
    return not s.endswith("\n") and not any(
        ord(c) > 127 and (c.isspace() or c.isdigit() or c in "\u0130\u0131\u017f\u212a") for c in s)


_MEMO = {}


def pattern_fields(pat, how):
    """the pattern against the grammar, on all strings -> ({group: field}, None)
    or (None, witness)"""
    k = (pat.pattern, pat.flags, how)
    if k not in _MEMO:
        code = rx.of_pattern(pat)
        if how == "fullmatch":
            code.code.insert(len(code.code) - 1, ["eos"])
        w, m, n = rx.correspond(code, PROG, rx.ASCII + rx.OTHER, SAMPLES, judged)
        _MEMO[k] = (w, m, n, code)
    return _MEMO[k]


NONE = z3.Const("no_text", Val)
OPT = z3.Function("a_text", z3.StringSort(), Val)
EDGE = z3.Function("edge", Val, Val, Val, Val, Val)


class SMaybe(Sym):
    """None or a text"""

    def __init__(self, none, t):
        self.none, self.t = none, t

    def is_sym_identity(self, o):
        if o is None:
            return mkbool(self.none)
        return self is o

    def sure(self):
        cur().assume(z3.Not(self.none))
        return SStr(self.t)

    def known(self):
        """the value, once the path has decided whether there is one"""
        return None if cur().branch(self.none) else SStr(self.t)

    def truth(self):
        return z3.And(z3.Not(self.none), z3.Length(self.t) > 0)

    def __bool__(self):
        return cur().branch(self.truth())

    def isinstance_sym(self, c):
        return isinstance(self.known(), c)

    def same_as(self, o):
        if o is None:
            return self.none
        if isinstance(o, SMaybe):
            return z3.Or(z3.And(self.none, o.none), z3.And(z3.Not(self.none), z3.Not(o.none), self.t == o.t))
        if isinstance(o, (str, SStr)):
            return z3.And(z3.Not(self.none), self.t == tstr(o))
        return z3.BoolVal(False)

    def __eq__(self, o):
        return mkbool(self.same_as(o))

    def __ne__(self, o):
        return mkbool(z3.Not(self.same_as(o)))

    __hash__ = Sym.__hash__

    def upper(self):
        v = self.known()
        if v is None:
            raise AttributeError("'NoneType' object has no attribute 'upper'")
        return v.upper()

    def __repr__(self):
        return "<text?>"

    __str__ = __repr__

    def __format__(self, s):
        return "<text?>"


def opt_term(x):
    if x is None:
        return NONE
    if isinstance(x, SMaybe):
        return z3.If(x.none, NONE, OPT(x.t))
    return OPT(tstr(x))


def up_term(x):
    if x is None:
        return NONE
    if isinstance(x, SMaybe):
        return z3.If(x.none, NONE, OPT(UPPER(x.t)))
    return OPT(UPPER(x.t)) if isinstance(x, SStr) else OPT(tstr(x.upper()))


def edge_term(e):
    if isinstance(e, SEdge):
        return e.t
    if isinstance(e, Edge) and isinstance(e.land, Cell) and e.land.brow is None and e.land.bcol is None:
        return EDGE(opt_term(e.land.row), opt_term(e.land.col), opt_term(e.mov), opt_term(e.mod))
    return None


class SEdge(Sym):
    """an Edge given by its four texts"""

    def __init__(self, t):
        self.t = t

    def same_as(self, o):
        if isinstance(o, SAny):
            return z3.BoolVal(False)
        t = edge_term(o)
        return z3.BoolVal(False) if t is None else self.t == t

    def __eq__(self, o):
        return mkbool(self.same_as(o))

    def __ne__(self, o):
        return mkbool(z3.Not(self.same_as(o)))

    __hash__ = Sym.__hash__

    def __bool__(self):
        return True

    def truth(self):
        return z3.BoolVal(True)

    def is_sym_identity(self, o):
        return self is o

    def isinstance_sym(self, c):
        return c in (Edge, tuple, object)

    def __repr__(self):
        return "<edge>"

    __str__ = __repr__

    def __format__(self, s):
        return "<edge>"


class SMatch:
    """a match of a pattern proved equal to the grammar"""

    def __init__(self, frag, groups, pat):
        self.frag, self.pat = frag, pat
        self.vals = {}
        for g in pat.groupindex:
            f = groups.get(g)
            if f is not None:
                self.vals[g] = frag.field(f)
            else:
                self.vals[g] = None if cur().choose(2) else SStr(z3.String(cur().fresh("group")))

    def groupdict(self, default=None):
        return {g: default if v is None else v for g, v in self.vals.items()}

    def _one(self, g):
        if isinstance(g, int):
            raise Unsupported("numbered group")
        if g not in self.vals:
            raise IndexError("no such group")
        return self.vals[g]

    def group(self, *gs):
        r = tuple(self._one(g) for g in gs)
        return r[0] if len(r) == 1 else r

    __getitem__ = _one


class SFrag(Sym):
    """any fragment; known by its parts under the grammar"""
    __class__ = property(lambda self: str)

    def __init__(self, g):
        self.ok = g.choice(True, False)
        self.vals = {}
        self.memo = {}

    def opt(self, name, const=None):
        """the part is absent, or some non-empty text"""
        c = cur()
        if name not in self.vals:
            if const is not None:
                self.vals[name] = None if c.choose(2) else const
            else:
                v = z3.String("part." + name)
                c.assume(z3.Length(v) > 0)
                self.vals[name] = SMaybe(z3.Bool("part.%s.none" % name), v)
        return self.vals[name]

    def edge(self, px):
        """which form the edge has: None, 'a1' or 'rc'"""
        if px not in self.vals:
            if px == "nd_" and self.field("colon") is None:
                self.vals[px] = None
            else:
                self.vals[px] = [None, "a1", "rc"][cur().choose(3)]
        return self.vals[px]

    def field(self, f):
        if f in self.memo:
            return self.memo[f]
        if f == "colon":
            r = self.opt(f, ":")
        elif f == "sh":
            r = self.opt(f)
        elif f == "js":
            r = None if cur().choose(2) else self.opt(f).sure()
        elif f == "exp":
            r = self.opt(f) if self.field("colon") is not None else None
        else:
            px, nm = f[:3], f[3:]
            k = self.edge(px)
            if k is None:
                r = None
            elif nm == "mov":
                r = self.opt(f)
            elif nm == "mod":
                r = self.opt(f)
                cur().assume(z3.Implies(self.field(px + "mov").none, r.none))
            elif nm[-2:] != k:
                r = None
            else:
                v = z3.String("part." + f)
                cur().assume(z3.Length(v) > 0)
                r = SStr(v)
        self.memo[f] = r
        return r

    def matched(self, pat, how):
        c = cur()
        w, m, n, code = pattern_fields(pat, how)
        st = c.eng.stats
        st.by["product automaton (%d states)" % n] = st.by.get("product automaton (%d states)" % n, 0)
        st.trust("re matches as its parse tree says: ordered alternatives, greedy repeats (pyvc/rx.py)")
        st.trust("characters outside ASCII other than plain letters and signs are not told apart in "
                 "the grammar proof")
        if w is not None:
            c.counterexample = w
            self.witness = w
        c.prove("pattern accepts exactly the xl-ref grammar%s" % (
            "" if w is None else ", differs on %r" % w), z3.BoolVal(w is None))
        if not self.ok:
            return None
        return SMatch(self, m, pat)

    def __repr__(self):
        return "<fragment>"

    __str__ = __repr__

    def __format__(self, s):
        return "<fragment>"

    def isinstance_sym(self, c):
        return c in (str, object)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("str.%s of an arbitrary fragment" % n)

    witness = None
    json = None

    def concretize(self, m):
        if self.witness is not None:
            return self.witness
        if not self.ok:
            return "A1(DR)Z20(UL)"
        v = self.vals

        def has(n):
            x = v.get(n)
            return x is not None and not (isinstance(x, SMaybe) and z3.is_true(
                m.eval(x.none, model_completion=True)))

        def edge(px, a1, rc):
            k = v.get(px)
            if not k:
                return ""
            s = a1 if k == "a1" else rc
            if has(px + "mov"):
                s += "(lu%s)" % ("+" if has(px + "mod") else "")
            return s
        s = "sh!" if has("sh") else ""
        s += edge("st_", "b3", "r5c6")
        if v.get("colon") is not None:
            s += ":" + edge("nd_", "d9", "r8c_")
            if has("exp"):
                s += ":l1"
        if has("js"):
            j = getattr(self, "json", None)
            s += ":" + (j.sample(m) if j is not None else '"f"')
        return s


class SJson:
    """a parsed filter text: a string, a list, or an object with or without
    `opts`; everything else about it is opaque"""

    def __init__(self, frag):
        c = cur()
        k = ["bad", "str", "list", "obj"][c.choose(4)]
        self.kind = k
        self.t = z3.Const("json", Val)
        if k == "bad":
            self.value = None
        elif k == "str":
            self.value = SStr(z3.String("json.text"))
        elif k == "list":
            self.value = SOpaque(list, self.t, z3.Bool("json.list.nonempty"))
        else:
            self.opts = SObj.MISSING
            if c.choose(2):
                o = ["null", "obj", "list", "text"][c.choose(4)]
                self.opts = {"null": None, "obj": SOpaque(dict, z3.Const("json.opts", Val),
                                                          z3.Bool("json.opts.nonempty")),
                             "list": SOpaque(list, z3.Const("json.opts", Val), z3.Bool("json.opts.nonempty")),
                             "text": SStr(z3.String("json.opts.text"))}[o]
            self.value = SObj(self.t, z3.Bool("json.rest.nonempty"), self.opts)

    def sample(self, m):
        def on(t):
            return z3.is_true(m.eval(t, model_completion=True))
        if self.kind == "bad":
            return "{'bad'"
        if self.kind == "str":
            return '"f"' if m.eval(z3.Length(z3.String("json.text"))).as_long() else '""'
        if self.kind == "list":
            return '["f", [1]]' if on(z3.Bool("json.list.nonempty")) else "[]"
        d = {"func": "f"} if on(z3.Bool("json.rest.nonempty")) else {}
        o = self.opts
        if o is not SObj.MISSING:
            ne = on(z3.Bool("json.opts.nonempty"))
            if isinstance(o, SStr):
                d["opts"] = "x"
            elif o is None:
                d["opts"] = None
            elif isinstance(o, dict):
                d["opts"] = {"verbose": True} if ne else {}
            else:
                d["opts"] = [1] if ne else []
        return json.dumps(d)


class SOpaque(Sym):
    """a list or dict known only by its type and emptiness"""

    def __init__(self, typ, t, nonempty):
        self.typ, self.t, self.nonempty = typ, t, nonempty

    __class__ = property(lambda self: self.typ)

    def isinstance_sym(self, c):
        import collections.abc as cabc
        return c in (self.typ, object) or c in (
            (cabc.Mapping, cabc.MutableMapping) if self.typ is dict else (cabc.Sequence, cabc.MutableSequence)) \
            or c in (cabc.Sized, cabc.Iterable, cabc.Container)

    def truth(self):
        return self.nonempty

    def __bool__(self):
        return cur().branch(self.nonempty)

    def is_sym_identity(self, o):
        return self is o

    def same_as(self, o):
        if isinstance(o, SOpaque) and o.typ is self.typ:
            return self.t == o.t
        return z3.BoolVal(False)

    def __repr__(self):
        return "<%s>" % self.typ.__name__

    __str__ = __repr__

    def __format__(self, s):
        return repr(self)

    def key(self):
        return self.t


class SObj(SOpaque):
    """a dict with an `opts` entry or without, and other entries"""
    MISSING = object()

    def __init__(self, t, rest, opts):
        SOpaque.__init__(self, dict, t, rest)
        self.rest, self.opts = rest, opts

    def truth(self):
        return self.rest if self.opts is self.MISSING else z3.BoolVal(True)

    def __bool__(self):
        return cur().branch(self.truth())

    def _only(self, k):
        if k != "opts":
            raise Unsupported("key %r of a filter object" % (k,))

    def contains_sym(self, k):
        self._only(k)
        return self.opts is not self.MISSING

    __contains__ = contains_sym

    def get(self, k, d=None):
        self._only(k)
        return d if self.opts is self.MISSING else self.opts

    def pop(self, k, *d):
        self._only(k)
        if self.opts is self.MISSING:
            if d:
                return d[0]
            raise KeyError(k)
        r, self.opts = self.opts, self.MISSING
        return r

    def __getitem__(self, k):
        self._only(k)
        if self.opts is self.MISSING:
            raise KeyError(k)
        return self.opts

    def __delitem__(self, k):
        self.pop(k)

    def copy(self):
        return SObj(self.t, self.rest, self.opts)

    __copy__ = copy

    def key(self):
        if self.opts is self.MISSING:
            return self.t
        return z3.Const("json.with_opts", Val)


CS_OK = z3.Function("call_spec_ok", Val, z3.BoolSort())
CS = z3.Function("call_spec", Val, Val)
TXT = z3.Function("text_value", z3.StringSort(), Val)


def opaque_call_spec(v):
    if isinstance(v, SStr):
        k = TXT(v.t)
    elif isinstance(v, SOpaque):
        k = v.key()
    else:
        raise Unsupported("call-spec of a %s" % type(v).__name__)
    if cur().branch(CS_OK(k)):
        return SAny(CS(k), "call-spec")
    raise ValueError("bad call-spec")


def _re_model(how):
    def m(pat, s, *a):
        if hasattr(type(s), "matched") and not a:
            return s.matched(pat, how)
        raise Unsupported("re.%s of a symbolic string" % how)
    return m


for _h in ("match", "fullmatch"):
    rt.METHODS[(re.Pattern, _h)] = _re_model(_h)


def _re_func(how):
    def m(pat, *a, flags=0):
        return rt.call(getattr(pat if isinstance(pat, re.Pattern) else re.compile(pat, flags), how), *a)
    return m


for _h in ("match", "fullmatch", "search", "sub"):
    rt.MODELS[getattr(re, _h)] = _re_func(_h)


def _loads(s, *a, **kw):
    frag = CUR.get("frag")
    if frag is None or frag.memo.get("js") is not s:
        raise Unsupported("json.loads of a symbolic string")
    if a or kw:
        raise Unsupported("json.loads options")
    if getattr(frag, "json", None) is None:
        frag.json = SJson(frag)
    cur().eng.stats.trust("json.loads gives a string, list or object for the texts the grammar "
                          "lets through, or raises ValueError")
    if frag.json.kind == "bad":
        raise ValueError("bad json")
    return frag.json.value


rt.MODELS[json.loads] = _loads
CUR = {}

# -- specification ------------------------------------------------------------

Cell, Edge = _parse.Cell, _parse.Edge


def cell(row, col):
    return tuple.__new__(Cell, (row, col, None, None))


def edge(row, col, mov, mod):
    if any(is_sym(x) for x in (row, col, mov, mod)):
        # as a term: the four texts in capitals
        return SEdge(EDGE(up_term(row), up_term(col), up_term(mov), opt_term(mod)))
    row, col, mov = up(row), up(col), up(mov)
    return tuple.__new__(Edge, (cell(row, col), mov, mod))


def up(s):
    return None if s is None else s.upper()


TOP = edge("^", "^", None, None)
BOT = edge("_", "_", None, None)


def frag_fields(parts, loads, call_spec):
    """the documented meaning of the parts -> dict of fields"""
    def one(px, missing):
        a1 = parts(px + "col_a1") is not None
        rc = parts(px + "col_rc") is not None
        if not a1 and not rc:
            return missing
        k = "a1" if a1 else "rc"
        return edge(parts(px + "row_" + k), parts(px + "col_" + k), parts(px + "mov"), parts(px + "mod"))
    colon = parts("colon") is not None
    st = one("st_", TOP if colon else None)
    nd = one("nd_", BOT if colon else None)
    if st is None and nd is None:
        st, nd = TOP, BOT
    r = {"sh_name": parts("sh"), "st_edge": st, "nd_edge": nd,
         "exp_moves": parts("exp") if colon else None, "opts": None, "call_spec": None}
    js = parts("js")
    if js is not None:
        v = loads(js)
        if isinstance(v, dict):
            v = v.copy()
            if "opts" in v:
                r["opts"] = v.pop("opts")
                if r["opts"] is not None and not isinstance(r["opts"], dict):
                    raise ValueError("opts")
        if v:
            r["call_spec"] = call_spec(v)
    return r


def concrete_fields(frag):
    parts = rx.run(PROG, frag)
    if parts is None:
        raise SyntaxError(frag)
    return frag_fields(parts.get, json.loads, call_spec_spec)


def call_spec_spec(v):
    """the 3-tuple of a call-specifier"""
    args = kwds = None
    if isinstance(v, str):
        func = v
    elif isinstance(v, list):
        if not 1 <= len(v) <= 3:
            raise ValueError("items")
        func, rest = v[0], v[1:]
        for x in rest:
            if x is None:
                continue
            if isinstance(x, list) and args is None:
                args = x
            elif isinstance(x, dict) and kwds is None:
                kwds = x
            else:
                raise ValueError("args/kwds")
    elif isinstance(v, dict):
        if "func" not in v or not all(k in ("func", "args", "kwds") for k in v):
            raise ValueError("keys")
        func, args, kwds = v["func"], v.get("args"), v.get("kwds")
    else:
        raise ValueError("kind")
    if not isinstance(func, str):
        raise ValueError("func")
    if args is not None and not isinstance(args, list):
        raise ValueError("args")
    if kwds is not None and not isinstance(kwds, dict):
        raise ValueError("kwds")
    return _parse.CallSpec(func, [] if args is None else args, {} if kwds is None else kwds)


KEYS = ("sh_name", "st_edge", "nd_edge", "exp_moves", "opts", "call_spec")


def fields_agree(want, out):
    if want.exc is not None or out.exc is not None:
        if want.exc is None or out.exc is None:
            return False
        # SyntaxError: no xl-ref; ValueError: an xl-ref with bad contents
        return isinstance(out.exc, type(want.exc)) if type(want.exc) in (SyntaxError, ValueError) \
            else isinstance(out.exc, ValueError)
    if not isinstance(out.value, dict) or not all(k in out.value for k in KEYS):
        return False
    return mkbool(z3.And(*[same(out.value[k], want.value[k]) for k in KEYS]))


class EdgeNew(Contract):
    """An edge holds its texts in capitals; with none of them, the default."""
    prop = "C12"
    target = PA + "Edge_new"

    def inputs(self, g):
        def t(n):
            v = z3.String(n)
            g.assume(mkbool(z3.Length(v) > 0))
            return SMaybe(z3.Bool(n + ".none"), v)
        return (t("row"), t("col"), t("mov"), t("mod"), g.choice(None, SAny(z3.Const("default", Val)))), {}

    def spec(self, row, col, mov=None, mod=None, default=None):
        if bool(is_none(row)) and bool(is_none(col)) and bool(is_none(mov)) and bool(is_none(mod)):
            return default
        return edge(row, col, mov, mod)

    def result(self, ctx, args, kw):
        for x in args[:4]:
            if not (x is None or isinstance(x, (str, SMaybe))):
                raise AttributeError("no attribute 'upper'")
        return Contract.result(self, ctx, args, kw)

    def check(self, args, kw, out):
        want = self.spec_outcome(args, kw)
        if out.exc is not None or want.exc is not None:
            return False
        if isinstance(want.value, SEdge):
            return mkbool(want.value.same_as(out.value))
        return mkbool(same(out.value, want.value))

    def concretize(self, args, kw, m):
        def one(x, s):
            return None if z3.is_true(m.eval(x.none, model_completion=True)) else s
        return tuple(one(x, s) for x, s in zip(args, ("b", "a", "ru", "+"))) + (
            None if args[4] is None else "default",), {}

    def cases(self, rng, tier):
        for r in (None, "1", "a", "_", "^", "."):
            for c in (None, "A", "bc", "3", "."):
                for mv in (None, "L", "ru", "Ur"):
                    for md in (None, "+", "?"):
                        for d in (None, TOP):
                            yield (r, c, mv, md, d), {}


def is_none(x):
    return mkbool(x.none) if isinstance(x, SMaybe) else x is None


class Fragment(Contract):
    """A fragment is accepted exactly when the documented grammar derives it,
    and every field is the part the grammar assigns to it, with the documented
    defaults for missing edges."""
    prop = "C12"
    target = PA + "parse_xlref_fragment"

    def inputs(self, g):
        f = SFrag(g)
        CUR["frag"] = f
        return (f,), {}

    def apply(self, ctx, args, kw):
        return x_fields(args[0]) if type(args[0]) is XText else Contract.apply(self, ctx, args, kw)

    def spec(self, frag):
        if isinstance(frag, SFrag):
            if not frag.ok:
                raise SyntaxError("no xl-ref")
            j = getattr(frag, "json", None)

            def loads(js):
                if j is None:
                    v = _loads(js)
                else:
                    if j.kind == "bad":
                        raise ValueError("bad json")
                    v = j.value
                if isinstance(v, SObj):
                    return SObj(v.t, v.rest, frag.json.opts)
                return v
            return frag_fields(frag.field, loads, opaque_call_spec)
        return concrete_fields(frag)

    def check(self, args, kw, out):
        return fields_agree(self.spec_outcome(args, kw), out)

    def cases(self, rng, tier):
        for s in fragments(rng, 4000 if tier == "quick" else 60000):
            if judged(s):
                yield (s,), {}


JS = ['"f"', '""', "[]", "{}", '["f"]', '["f",[1]]', '["f",{"a":1}]', '["f",[1],{"a":1}]', '["f",{"a":1},[1]]',
      '["f",[],[]]', '["f",{},{}]', '["f",1]', '["f",null,[2]]', '["f",[1],{"a":1},3]', '{"func":"f"}', '[1]', '[null]',
      '{"func":"f","args":[1,2],"kwds":{"k":3}}', '{"func":1}', '{"args":[]}', '{"func":"f","args":{}}',
      '{"func":"f","kwds":[]}', '{"func":"f","args":null}', '{"func":"f","x":1}', '{"opts":{}}', '{"opts":null}',
      '{"opts":{"a":1},"func":"f"}', '{"opts":[1],"func":"f"}', '{"opts":"x"}', '{"opts":0}', '{"opts":false,"func":"g"}',
      '{"bad}', "[1", '"a!b"', '["a!",["!A1:b2"]]', '{"func":"x:y","args":["#A1:B2"]}', '"é€"', '"a" x', "{ }", '" "',
      '{"opts":{"opts":{}},"func":"opts"}', '"f"\n', '[\n"f"\n]', '["f",[[]],{"x":{}}]', "{'func':1}"]


def fragments(rng, n):
    toks = tokens.texts("pandalone.xleash._parse")
    cols = ["A", "b", "AZ", "xfd", "R", "C", "Rc", "_", "^", "ABCDEFGHI"]
    rows = ["1", "10", "123456789", "9", "_", "^", "20"]
    rcs = ["1", "-1", "-20", "10", "_", "^", "."]
    movs = MOVES + [m.lower() for m in MOVES] + ["Lu", "rD"]
    exps = ["L", "L1", "L10", "LURD", "lu1rd?", "?", "D0", "L1U2R3D4", "1", "9L"]
    shs = ["", "sh", "0", "-1", "my sheet", "a:b", "A1", "A1:B2", "é", " s", "s ", "#", "(x)", "R1C1", "'s'", "1.5", '"x"',
           "A1(LU):"] + [t for t in toks if "!" not in t][:40]

    def e(dot=True, full=False):
        p = rng.random()
        if p < .15 and not full:
            return ""
        if p < .6:
            s = rng.choice(cols + (["."] if dot else [])) + rng.choice(rows + (["."] if dot else []))
        else:
            s = "%s%s%s%s" % (rng.choice("Rr"), rng.choice(rcs), rng.choice("Cc"), rng.choice(rcs))
        if rng.random() < .5:
            s += "(%s%s)" % (rng.choice(movs), rng.choice(["", "", "+", "?"]))
        return s

    def one():
        s = rng.choice(shs) + "!" if rng.random() < .35 else ""
        s += e(False)
        if rng.random() < .7:
            s += ":" + e()
            if rng.random() < .4:
                s += ":" + rng.choice(exps)
        if rng.random() < .4:
            s += ":" + rng.choice(["", "", " ", "\n "]) + rng.choice(JS)
        return s
    yield ""
    for sh in shs:
        for r in ("", "A1", ":", "A1:B2", '::L:"f"', ':"f"'):
            yield sh + "!" + r
    for a in cols + ["."]:
        for b in rows + [".", "0", "01", "-1"]:
            yield a + b
            yield "A1:" + a + b
    for a in rcs + ["0", "01", "--1", "", "A", "+1"]:
        for b in rcs + ["0", ""]:
            yield "R%sC%s" % (a, b)
            yield "A1:r%sc%s" % (a, b)
    for m in movs + ["LL", "LR", "UD", "X", "", "LUR", "l u"]:
        for d in ("", "+", "?", "-", "++"):
            yield "A1(%s%s)" % (m, d)
            yield "A1:..(%s%s)" % (m, d)
    for x in exps + ["X", "L+", "L-1", "", "L 1"]:
        for pre in ("A1:B2:", "A1::", "::", "A1:", ":"):
            yield pre + x
            yield pre + x + ":{}"
    for j in JS:
        for pre in ("", "A1", "A1:", "A1:B2", "A1::L", "s!", "s!A1:_^"):
            yield pre + ":" + j
            yield pre + j
            yield pre + ": " + j
    for t in toks:
        yield t
        for pat in ("%sA1", "A1%s", "A1:B2%s", "A1:%s", "A1:B2:%s", "%s!A1", "A%s1", "A1:B2:L%s"):
            yield pat % t
    al = "A1R C!:(LU+)?^_.[\"{}-#é\n0aZ"
    for i in range(n):
        s = one()
        yield s
        if i % 2:
            for _ in range(rng.randint(1, 3)):
                k = rng.randint(0, len(s))
                p = rng.random()
                s = s[:k] + ("" if p < .4 else rng.choice(al)) + s[k + (p < .7):]
            yield s


class CallSpecs(Contract):
    """A call-specifier is a name, a list of a name with at most one list and
    one object in any order, or an object with func, args, kwds; nothing else."""
    prop = "C12"
    target = PA + "parse_call_spec"
    proof_bound = "lists of up to 5 items, objects over the keys func, args, kwds and one other"

    def inputs(self, g):
        c = g.ctx

        def leaf(n):
            return [None, SStr(z3.String(n)), SOpaque(list, z3.Const(n + ".l", Val), z3.Bool(n + ".ne")),
                    SOpaque(dict, z3.Const(n + ".d", Val), z3.Bool(n + ".ne")), SInt(z3.Int(n + ".i")),
                    True][c.choose(6)]
        k = c.choose(5)
        if k == 0:
            v = SStr(z3.String("spec"))
        elif k == 1:
            n = c.choose(6)
            v = [leaf("item%d" % i) for i in range(min(n, 3))] + [None] * max(0, n - 3)
            if n > 3 and c.choose(2):
                v[3] = SOpaque(list, z3.Const("extra", Val), z3.Bool("extra.ne"))
        elif k == 2:
            v = {n: leaf(n) for n in ("func", "args", "kwds") if c.choose(2)}
            if c.choose(2):
                v["other"] = leaf("other")
        elif k == 3:
            v = SInt(z3.Int("num"))
        else:
            v = (SStr(z3.String("func")),)
        return (v,), {}

    def spec(self, v):
        return call_spec_spec(v)

    def check(self, args, kw, out):
        want = self.spec_outcome(args, kw)
        if want.exc is not None or out.exc is not None:
            return want.exc is not None and isinstance(out.exc, ValueError)
        if not isinstance(out.value, tuple) or len(out.value) != 3:
            return False
        return mkbool(same(tuple(out.value), tuple(want.value)))

    def apply(self, ctx, args, kw):
        if len(args) == 1 and isinstance(args[0], (SStr, SOpaque)):
            return opaque_call_spec(args[0])
        return Contract.apply(self, ctx, args, kw)

    def cases(self, rng, tier):
        leaves = [None, "f", "", [], [1], {}, {"a": 1}, 1, 0, True, 1.5, ("a",), "args", [1, {"a": 1}], [[2], {}], [None],
                  [{"lax": True}], {"func": "g", "args": [3]}]
        for v in leaves:
            yield (v,), {}
            for w in leaves:
                yield ([v, w],), {}
                yield ({"func": v, "args": w},), {}
                yield ({"func": v, "kwds": w},), {}
                for x in leaves:
                    yield (["f", w, x],), {}
                    yield ({"func": "f", "args": w, "kwds": x},), {}
        yield ([],), {}
        yield (["f", [], {}, None],), {}
        yield (["f", [], {}, []],), {}
        yield ({},), {}
        for k in ("Func", "kwargs", "opts", "name", " func"):
            yield ({"func": "f", k: []},), {}
            yield ({k: "f"},), {}


class XText(Sym):
    """any text, by the parts it splits into"""
    __class__ = property(lambda self: str)

    def __init__(self, t):
        self.t = t

    def truth(self):
        return x_nonempty(self.t)

    def __bool__(self):
        return cur().branch(x_nonempty(self.t))

    def translate(self, table):
        if table != {0x201c: '"', 0x201d: '"'} and table != {0x201c: 34, 0x201d: 34}:
            raise Unsupported("another translation")
        return XText(x_plain(self.t))

    def strip(self, *a):
        return XText(z3.Const(cur().fresh("stripped"), Val))

    def matched(self, pat, how):
        if pat is not _parse._encase_regex or how not in ("match", "fullmatch"):
            raise Unsupported("another regex")
        return XEnclosed(self) if cur().branch(x_enclosed(self.t)) else None

    def __eq__(self, o):
        raise Unsupported("comparing a reference")

    def __iter__(self):
        raise Unsupported("the characters of a reference")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("str.%s of a reference" % name)

    def __repr__(self):
        return "<text>"

    def __str__(self):
        return "<text>"

    def __format__(self, spec):
        return "<text>"

    __hash__ = Sym.__hash__


class XEnclosed:
    def __init__(self, of):
        self.of = of

    def group(self, g=0):
        if g != 2:
            raise Unsupported("group %r" % (g,))
        return XText(x_inner(self.of.t))

    __getitem__ = group


_VB = (Val, z3.BoolSort())
x_nonempty, x_enclosed = (z3.Function(n, *_VB) for n in ("text_nonempty", "text_enclosed"))
x_plain, x_url, x_frag, x_inner = (z3.Function(n, Val, Val) for n in ("text_plain", "text_url", "text_fragment", "text_inside"))
x_kind = z3.Function("fragment_kind", Val, z3.IntSort())
x_field = {k: z3.Function("fragment_" + k, Val, Val) for k in KEYS}


def x_fields(f):
    """what parse_xlref_fragment() does"""
    c, k = cur(), x_kind(f.t)
    if c.branch(k == 0):
        return {n: SAny(x_field[n](f.t), n) for n in KEYS}
    if c.branch(k == 1):
        raise SyntaxError("no xl-ref")
    raise ValueError("bad contents")


class XlRefAny(Contract):
    """
    Any reference: its fragment's fields, its file part and itself, with
    Excel's quotes read as plain ones; if that is no xl-ref but it is
    enclosed in delimiters, those of its inside, and itself; errors pass.
    """
    prop = "C12"
    target = PA + "parse_xlref"
    call_site = False
    stand_in = "XlRef"
    assumes = ("urldefrag() splits a text in two, _encase_regex tells the texts enclosed in delimiters (by concrete runs only)",)

    def inputs(self, g):
        return (XText(z3.Const("xlref", Val)),), {}

    def invoke(self, func, args, kw):
        old = dict(rt.ALWAYS)
        rt.ALWAYS[_parse.urldefrag] = lambda x: urllib.parse.DefragResult(XText(x_url(x.t)), XText(x_frag(x.t)))
        try:
            return rt.hooked(func)(*args, **kw)
        finally:
            rt.ALWAYS.clear()
            rt.ALWAYS.update(old)

    def spec(self, x):
        def plain(x):
            x = XText(x_plain(x.t))
            f, u = XText(x_frag(x.t)), XText(x_url(x.t))
            if not f:
                raise SyntaxError("no fragment")
            return dict(x_fields(f), url_file=u if u else None, xl_ref=x)
        try:
            return plain(x)
        except SyntaxError:
            if not cur().branch(x_enclosed(x.t)):
                raise
            return dict(plain(XText(x_inner(x.t))), xl_ref=x)

    def check(self, args, kw, out):
        want = self.spec_outcome(args, kw)
        if want.exc is not None or out.exc is not None:
            return want.exc is not None and type(want.exc) is type(out.exc)
        r, w = out.value, want.value
        if not isinstance(r, dict) or set(r) != set(w):
            return False
        if any(w[k] is None and r[k] is not None or w[k] is not None and not isinstance(r[k], Sym) for k in w):
            return False
        return mkbool(z3.And(*[r[k].t == w[k].t for k in w if w[k] is not None]))


class XlRef(Contract):
    """The reference as a whole: the file part before `#`, the fragment after
    it, Excel's quotes read as plain ones, optional enclosing delimiters."""
    prop = "C12"
    target = PA + "parse_xlref"
    bounded = "thousands of generated references: file parts, delimiters, fragments of the grammar and near misses"

    def spec(self, xlref):
        def plain(x):
            x = x.translate({0x201c: '"', 0x201d: '"'})
            url, h, frag = x.partition("#")
            if not frag:
                raise SyntaxError(x)
            return dict(concrete_fields(frag), url_file=url or None, xl_ref=x)
        try:
            return plain(xlref)
        except SyntaxError:
            s = xlref.strip()
            if len(s) > 2 and s[0] == s[-1] and s[0] in '/\\"$%&':
                return dict(plain(s[1:-1]), xl_ref=xlref)
            raise

    def check(self, args, kw, out):
        want = self.spec_outcome(args, kw)
        ok = fields_agree(want, out)
        if ok is True and want.exc is None:
            return all(k in out.value and out.value[k] == want.value[k] for k in ("url_file", "xl_ref")) \
                and set(out.value) <= set(Lasso._fields)
        return ok

    def cases(self, rng, tier):
        urls = ["", "wb.xlsx", "path/to/wb.xlsx", "file:///c:/dir/wb.xls", "file://path/wb.xlsx", "../a b.xlsx", "http://h/x.xls",
                "é.xlsx", "a.b.c", "b c.xlsx ", "x y\u2003", "UPPER.XLSX", "d/"]
        fs = [f for f in fragments(rng, 1500) if f and not set("\t\n\r") & set(f)]
        fs = [f for f in fs if f == f.strip()]     # urllib drops these blanks
        rng.shuffle(fs)
        for i, f in enumerate(fs[:4000]):
            u = urls[i % len(urls)]
            x = u + "#" + f
            if i % 5 == 0:
                x = x.replace('"', "\u201c", 1).replace('"', "\u201d")
            if i % 4 == 0:
                q = '/\\"$%&\'#x'[(i // 4) % 9]
                x = q + x + (q if i % 8 else "")
                if i % 3 == 0 and q in '/\\"$%&' and i % 8:
                    x = " " + x + " "
                if x.lstrip()[:2] == "##" or x[:6] == "xfile:" or x[:1] == "/" and x[1:2] in "/f":
                    continue
            yield (x,), {}
        for x in ("", "A1", "wb.xlsx", "#", "wb.xlsx#", "//", '"#"', '""', '"#A1"', "$wb.xlsx#A1:B2$", "%#:%", "&#s!&", '"#A1$',
                  "\\#A1\\"):
            yield (x,), {}


CONTRACTS = [EdgeNew, Fragment, CallSpecs, XlRef, XlRefAny]
