"""Contracts for JSONCodec and for the headers with units (pandalone/pandata.py)."""
import binascii
import collections
import datetime
import fractions
import io
import itertools
import json
import pickle
import random
import re
from json.decoder import JSONDecoder
from json.encoder import JSONEncoder

import numpy as np
import pandas as pd
import z3

from pyvc import rt, rx
from pyvc.contract import Contract
from pyvc.core import Unsupported, cur, in_ctx
from pyvc.vals import *
from pyvc.vals import Val

from pandalone import pandata

from . import parsing     # the models of re



def judged(s):
    """what blanks of other scripts do is not looked at"""
    return True


PD = "pandalone.pandata:"

# -- objects through pickle, quoted-printable and JSON ----------------------------------
#
# pickle, binascii and json are outside: what is known of them is that they
# undo each other, told apart by how each text was made.


class Made(Sym):
    """bytes or a text known by how it was made"""

    def __init__(self, kind, *of):
        self.kind, self.of = kind, of

    def is_sym_identity(self, o):
        return self is o

    def __eq__(self, o):
        if isinstance(o, str) and o == "" or o == b"":
            return False
        raise Unsupported("comparing a %s" % self.kind)

    __hash__ = Sym.__hash__

    def truth(self):
        return z3.BoolVal(True)         # none of these is ever empty

    def __bool__(self):
        return True

    def isinstance_sym(self, c):
        return c is (str if self.kind in ("qp-text", "json") else bytes) or c is object

    def decode(self, encoding="utf-8", errors="strict"):
        if self.kind != "qp" or errors != "strict" or encoding.lower().replace("-", "") not in ("utf8", "ascii", "latin1"):
            raise Unsupported("decoding a %s" % self.kind)
        return Made("qp-text", *self.of)

    def encode(self, encoding="utf-8", errors="strict"):
        if self.kind != "qp-text" or errors != "strict" or encoding.lower().replace("-", "") not in ("utf8", "ascii", "latin1"):
            raise Unsupported("encoding a %s" % self.kind)
        return Made("qp", *self.of)

    def __repr__(self):
        return "<%s>" % self.kind

    __str__ = __repr__

    def __format__(self, s):
        return repr(self)


def _dumps(o, *a, **k):
    if a or k:
        raise Unsupported("options of pickle")
    return Made("pickle", o)


def _unpickle(b, *a, **k):
    if not isinstance(b, Made) or a or k:
        raise Unsupported("unpickling something else")
    if b.kind != "pickle":
        raise Unsupported("unpickling a %s" % b.kind)
    return b.of[0]


def _b2a_qp(b, quotetabs=False, istext=True, header=False):
    if b.kind != "pickle":
        raise Unsupported("quoting a %s" % b.kind)
    return Made("qp", b, bool(istext), bool(header))


def _a2b_qp(b, header=False):
    if b.kind not in ("qp", "qp-text"):
        raise Unsupported("unquoting a %s" % b.kind)
    if b.of[1] or b.of[2] or header:
        return Made("other bytes")      # line-ends become others, or spaces
    return b.of[0]


def _json_encode(enc, o):
    return Made("json", o)


def _json_iter(enc, o, _one_shot=False):
    return ["".join(()) or Made("json", o)]


def _json_decode(dec, s, *a):
    if not isinstance(s, Made) or s.kind != "json" or a:
        raise Unsupported("decoding something else")
    return deep(s.of[0])


def deep(o):
    """what JSON makes of an object: copied, and keys of texts only"""
    if type(o) is dict:
        if not all(type(k) is str for k in o):
            raise Unsupported("JSON object with keys other than texts")
        return {k: deep(v) for k, v in o.items()}
    if type(o) in (list, tuple):
        return [deep(x) for x in o]
    if o is None or type(o) in (str, bool, int) or isinstance(o, Made) and o.kind == "qp-text":
        return o
    if is_sym(o):
        raise TypeError("not JSON serializable")
    raise Unsupported("JSON of a %s" % type(o).__name__)


rt.MODELS[pickle.dumps] = _dumps
rt.MODELS[pickle.loads] = _unpickle
rt.MODELS[binascii.b2a_qp] = _b2a_qp
rt.MODELS[binascii.a2b_qp] = _a2b_qp
rt.MODELS[JSONEncoder.encode] = _json_encode
rt.MODELS[JSONEncoder.iterencode] = _json_iter
rt.MODELS[JSONDecoder.decode] = _json_decode


def _join(sep, parts):
    parts = list(parts)
    if sep == "" and len(parts) == 1 and isinstance(parts[0], Made):
        return parts[0]
    if any(isinstance(p, Made) for p in parts):
        raise Unsupported("joining texts")
    return sep.join(parts)


class Slotted:
    __slots__ = ("a",)

    def __init__(self, a):
        self.a = a

    def __eq__(self, o):
        return type(o) is Slotted and same_tree(self.a, o.a)

    __hash__ = None


class Pickled(Contract):
    """any object that pickle restores comes back from its JSON as it was"""
    prop = "C22"
    target = PD + "JSONCodec.Encoder.encode"
    call_site = False
    stand_in = "Codec"
    assumes = ("pickle.loads undoes pickle.dumps, binascii.a2b_qp undoes b2a_qp of binary data, and JSON keeps objects of texts "
               "(each also run concretely)",)

    def inputs(self, g):
        return (object.__new__(pandata.JSONCodec.Encoder), g.any("o")), {}

    def invoke(self, func, args, kw):
        if not in_ctx():
            text = json.dumps(args[1], cls=pandata.JSONCodec.Encoder)
            return json.loads(text, cls=pandata.JSONCodec.Decoder)
        old = rt.METHODS.get((str, "join"))
        rt.METHODS[(str, "join")] = _join
        try:
            enc, dec = args[0], object.__new__(pandata.JSONCodec.Decoder)
            text = rt.call(enc.encode, args[1])
            if not isinstance(text, Made):
                raise Unsupported("JSON made otherwise")
            if text.kind != "json":
                return None
            parts = list(rt.call(enc.iterencode, args[1]))      # what json.dump() writes
            back = [rt.call(dec.decode, t) for t in [text] + parts]
            return back[0] if len(back) == 2 and back[1] is back[0] else None
        finally:
            if old is None:
                del rt.METHODS[(str, "join")]
            else:
                rt.METHODS[(str, "join")] = old

    def check(self, args, kw, out):
        return out.exc is None and out.value is args[1]


class Codec(Contract):
    """
    Dumping any object with the codec gives plain ASCII JSON, and loading
    this gives an object equal to it; plain JSON loads as without the codec.
    """
    prop = "C22"
    target = PD + "JSONCodec"
    call_site = False
    signature_matters = False
    bounded = "assorted and random trees of plain, numpy and pandas values, texts and bytes with line-ends, and plain JSON"

    def invoke(self, func, args, kw):
        how, o = args
        if how == "plain":
            return json.loads(json.dumps(o), cls=func.Decoder)
        if how == "dump":
            f = io.StringIO()
            json.dump(o, f, cls=func.Encoder)
            return json.loads(f.getvalue()) and json.loads(f.getvalue(), cls=func.Decoder)
        if how == "indent":
            s = json.dumps(o, cls=func.Encoder, indent=2, sort_keys=True)
        else:
            s = json.dumps(o, cls=func.Encoder)
        if not isinstance(json.loads(s), dict):
            return "no JSON object"
        return json.loads(s, cls=func.Decoder)

    def check(self, args, kw, out):
        how, o = args
        if out.exc is not None:
            return False
        return same_tree(out.value, json.loads(json.dumps(o)) if how == "plain" else o)

    def cases(self, rng, tier):
        fixed = [None, True, 0, -1, 2 ** 80, 1.5, float("inf"), float("nan"), "", "\r\n", "a\r", "\n", "=", "=3D\r\n", " \t", "\ud800",
                 "\u20ac\U0001f600", b"", b"\r\n", b"\n", b"a \r\nb\t\n", b"=", b".", bytes(range(256)), b"\r" * 200, b" \n" * 100,
                 (), (1,), [], [()], {}, {1: 2}, {"$qpickle": "x"}, {(1, 2): {3}}, set(), frozenset("ab"), range(4), Ellipsis, int,
                 complex(1, 2), datetime.date(2020, 2, 29), fractions.Fraction(1, 3), collections.OrderedDict(b=1, a=2),
                 np.arange(4), np.array([]), np.float32(2), np.array(["a\r\n"]), pd.Series({}, dtype=float), pd.DataFrame([]),
                 pd.DataFrame({"a\n": [1, None], 2: ["\r\n", "x"]}), pd.Timestamp("2020-01-01"),
                 np.str_("x"), np.float64(1.5), np.int64(3), np.bool_(True), Slotted([1, (2,)]), [Slotted("\r\n")]]
        for o in fixed:
            for how in ("dumps", "dump", "indent"):
                yield (how, o), {}
        for o in (None, 1, "x", [], [1, "$qpickle"], {}, {"a": 1}, {"$qpickle": ""}, {"_ver": "0"}, {"$qpickle": None}, {"a": {"$qpickle": "x"}}, True, 1.5):
            yield ("plain", o), {}
        for o in (b"\r\n=" * 400000, {"a": "x" * 1500000, "b": [(1, 2), b"\0" * 9]}, [np.arange(200000), "\r\n" * 100000]):
            yield (rng.choice(["dumps", "dump"]), o), {}
        for _ in range(300 if tier == "quick" else 5000):
            yield (rng.choice(["dumps", "dump"]), a_tree(rng, 3)), {}


def a_tree(rng, depth):
    k = rng.random()
    if depth and k < .25:
        return {rng.choice([a_text(rng), rng.randint(0, 9), None]): a_tree(rng, depth - 1) for _ in range(rng.randint(0, 4))}
    if depth and k < .45:
        return rng.choice([list, tuple])(a_tree(rng, depth - 1) for _ in range(rng.randint(0, 4)))
    if depth and k < .55:
        return pd.DataFrame({a_text(rng): [rng.random(), None, rng.choice([1, a_text(rng)])] for _ in range(rng.randint(0, 3))})
    if depth and k < .65:
        return np.array([rng.randrange(256) for _ in range(rng.randint(0, 200))], dtype=np.uint8)
    if k < .75:
        return a_text(rng).encode("utf-8", "surrogatepass")
    return rng.choice([a_text(rng), rng.random(), rng.getrandbits(70), None, True])


def a_text(rng):
    return "".join(rng.choice(["a", "\r\n", "\n", "\r", "=", " ", "\t", ".", "\u20ac", "\x00", "=0A", "\ud83d"]) for _ in range(
        rng.choice([0, 1, 3, 90])))


def same_tree(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (pd.DataFrame, pd.Series)):
        return a.equals(b) and [type(x) for x in a.index] == [type(x) for x in b.index]
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and bool(np.array_equal(a, b))
    if isinstance(a, dict):
        return list(map(repr, a)) == list(map(repr, b)) and all(same_tree(a[x], b[y]) for x, y in zip(a, b))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same_tree, a, b))
    return a is b or a == b or a != a and b != b


# -- headers with units -----------------------------------------------------------------

_c, _s, _a, _o, _st, _t = rx.chars, rx.seqn, rx.alt, rx.opt, rx.star, rx.tag
BL = "".join(chr(i) for i in range(128) if chr(i).isspace())
TOKEN = rx.anybut("[<" + BL)
NAME = _o(_s(TOKEN, _st(_a(TOKEN, _s(rx.plus(_c(BL)), TOKEN)))))
HEADER = rx.of_grammar(_s(_st(_c(BL)), _t("name", NAME), _st(_c(BL)), _o(_t("units", _a(
    _s(_c("["), _st(rx.anybut("]")), _c("]")), _s(_c("<"), _st(rx.anybut(">")), _c(">"))))), _st(_c(BL))))
SAMPLES = ["", " ", "a", " a b ", "a[b]", "a [b", "[b]", "<b>", " a\tb <c > ", "[]", "a[<b>]", "<[>", "a]", "a>b", "[a]b", "x<a)>"]
_MEMO = {}


class Head(Sym):
    """any header text, known by its parts"""
    __class__ = property(lambda self: str)
    witness = None

    def __init__(self, g):
        self.ok = g.choice(True, False)
        if self.ok:
            self.name = SStr(z3.String("name"))
            self.brackets = g.choice(None, "[]", "<>")
            if self.brackets:
                t = z3.String("units")
                a, b = self.brackets
                g.ctx.assume(z3.Not(z3.Contains(t, z3.StringVal(b))))
                self.inner = SStr(t)
                self.units = SUnits(z3.Concat(z3.StringVal(a), t, z3.StringVal(b)))
            else:
                self.inner = self.units = None

    def matched(self, pat, how):
        c = cur()
        k = pat.pattern, pat.flags, how
        if k not in _MEMO:
            code = rx.of_pattern(pat)
            if how == "fullmatch":
                code.code.insert(len(code.code) - 1, ["eos"])
            _MEMO[k] = rx.correspond(code, HEADER, rx.ASCII + rx.OTHER, SAMPLES, judged)
        w, m, n = _MEMO[k]
        st = c.eng.stats
        st.by["product automaton (%d states)" % n] = st.by.get("product automaton (%d states)" % n, 0)
        st.trust("re matches as its parse tree says: ordered alternatives, greedy repeats (pyvc/rx.py)")
        st.trust("blanks outside ASCII are not told apart from other signs in the grammar proof")
        if w is not None:
            self.witness = w
        c.prove("pattern accepts exactly the headers%s" % ("" if w is None else ", differs on %r" % w), z3.BoolVal(w is None))
        if not self.ok:
            return None
        return Groups({g: getattr(self, m[g]) if g in m else SStr(z3.String(c.fresh("group"))) for g in pat.groupindex})

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("str.%s of any header" % n)

    def __repr__(self):
        return "<header>"

    __str__ = __repr__

    def __format__(self, s):
        return "<header>"

    def concretize(self, m):
        if self.witness is not None:
            return self.witness
        if not self.ok:
            return "a [b"

        def val(x):
            try:
                return m.eval(x.t, model_completion=True).as_string()
            except Exception:
                return "u"
        a, b = self.brackets or ("", "")
        return "name %s%s%s" % (a, val(self.inner) if self.brackets else "", b)


class Groups:
    def __init__(self, vals):
        self.vals = vals

    def groupdict(self, default=None):
        return {g: default if v is None else v for g, v in self.vals.items()}

    def group(self, *gs):
        r = tuple(self[g] for g in gs)
        return r[0] if len(r) == 1 else r

    def groups(self, default=None):
        return tuple(default if v is None else v for v in self.vals.values())

    def __getitem__(self, g):
        if isinstance(g, int):
            return list(self.vals.values())[g - 1]
        return self.vals[g]


def pieces(t):
    return [p for c in t.children() for p in pieces(c)] if z3.is_app_of(t, z3.Z3_OP_SEQ_CONCAT) else [t]


class SUnits(SStr):
    """units with their brackets"""
    __slots__ = ()

    def __getitem__(self, k):
        n = z3.Length(self.t)
        ps = pieces(self.t)
        if k == slice(1, -1) and len(ps) == 3 and all(z3.is_string_value(x) and len(x.as_string()) == 1 for x in (ps[0], ps[2])):
            return SUnits(ps[1])
        if isinstance(k, slice) and k.step in (None, 1) and all(i is None or type(i) is int for i in (k.start, k.stop)):
            a, b = [z3.If(n + i < 0, 0, n + i) if i < 0 else z3.If(z3.IntVal(i) > n, n, i)
                    for i in (k.start or 0,)] + [n if k.stop is None else z3.If(n + k.stop < 0, 0, n + k.stop) if k.stop < 0 else
                                                 z3.If(z3.IntVal(k.stop) > n, n, k.stop)]
            return SUnits(z3.SubString(self.t, a, z3.If(b > a, b - a, 0)))
        if type(k) is int and k in (0, -1):
            return SStr(z3.SubString(self.t, 0 if k == 0 else n - 1, 1))
        raise Unsupported("subscript of the units")

    def without(self, pat, repl, count=0):
        """re.sub of single characters at the ends"""
        alts = pat.pattern.split("|")
        c = cur()
        if repl != "" or count or pat.flags & ~re.UNICODE:
            raise Unsupported("replacing in the units")
        t = self.t
        for a in alts:
            m = re.fullmatch(r"(\^?)(\[(?:[^\]\\^]|\\.)(?:[^\]\\]|\\.)*\]|\[\^?(?:[^\]\\]|\\.)+\])(\$?)", a)
            if not m or bool(m.group(1)) == bool(m.group(3)):
                raise Unsupported("replacing %s in the units" % a)
            cs = re.compile(m.group(2))
            chars = [ch for ch in rx.ASCII if cs.fullmatch(ch)]
            if any(cs.fullmatch(ch) for ch in rx.OTHER) or len(chars) > 20:
                raise Unsupported("replacing %s in the units" % a)
            n = z3.Length(t)
            if m.group(1):
                x = z3.SubString(t, 0, 1)
                has = z3.And(n > 0, z3.Or(*[x == z3.StringVal(ch) for ch in chars]))
                t = z3.If(has, z3.SubString(t, 1, n - 1), t)
            else:
                c.prove("the units do not end with a new line", z3.Not(z3.SuffixOf(z3.StringVal("\n"), t)))
                x = z3.SubString(t, n - 1, 1)
                has = z3.And(n > 0, z3.Or(*[x == z3.StringVal(ch) for ch in chars]))
                t = z3.If(has, z3.SubString(t, 0, n - 1), t)
        return SUnits(t)


def _sub(pat, repl, s, count=0):
    if isinstance(s, SUnits):
        return s.without(pat, repl, count)
    raise Unsupported("re.sub of a symbolic string")


rt.METHODS[(re.Pattern, "sub")] = _sub


def split_header(s):
    """-> (name, units), or None"""
    s = s.strip()
    i = min([s.index(c) for c in "[<" if c in s], default=len(s))
    name, u = s[:i].rstrip(), s[i:]
    if not u:
        return name, None
    close = {"[": "]", "<": ">"}[u[0]]
    if len(u) > 1 and u[-1] == close and close not in u[1:-1]:
        return name, u[1:-1]
    return None


class Header(Contract):
    """
    The name is what precedes the brackets, without blanks around; the units
    are what is within them, or None without any.  Anything else is None.
    """
    prop = "C23"
    target = PD + "parse_value_with_units"
    call_site = False
    stand_in = "Headers"

    def inputs(self, g):
        return (Head(g),), {}

    def check(self, args, kw, out):
        h = args[0]
        if out.exc is not None:
            return False
        if not in_ctx():
            return Headers.judge(h, out)
        if not h.ok:
            return out.value is None
        r = out.value
        if type(r) is not pandata._U:
            return False
        c = cur()
        if not isinstance(r.name, SStr):
            return False
        c.prove("name", r.name.t == h.name.t)
        if h.units is None or r.units is None:
            return h.units is None and r.units is None
        return mkbool(r.units.t == h.inner.t) if isinstance(r.units, SStr) else False


class Headers(Contract):
    __doc__ = Header.__doc__
    prop = "C23"
    target = PD + "parse_value_with_units"
    call_site = False
    bounded = "all texts of up to 5 of 9 characters, and longer random ones"

    @staticmethod
    def judge(s, out):
        want = split_header(s)
        if want is None:
            return out.exc is None and out.value is None
        return out.exc is None and type(out.value) is pandata._U and tuple(out.value) == want

    def check(self, args, kw, out):
        s = args[0]
        if not isinstance(s, str):
            return isinstance(out.exc, TypeError)
        return self.judge(s, out)

    def cases(self, rng, tier):
        abc = "[]<>) a\n/"
        for n in range(6 if tier == "quick" else 7):
            for p in itertools.product(abc, repeat=n):
                yield ("".join(p),), {}
        for _ in range(20000):
            yield ("".join(rng.choice(["name", " ", "  ", "[", "]", "<", ">", "(", ")", "m/s", "\u20ac", "\t", "\xa0", "-", "km^2", "\n"])
                           for _ in range(rng.randint(0, 9))),), {}
        for x in (None, 1, b"a [b]", ["a"]):
            yield (x,), {}


CONTRACTS = [Pickled, Codec, Header, Headers]
