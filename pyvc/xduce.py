"""
Strings built from one unknown string by chains of constant replacements.

Each `s.replace(a, b)` is a finite-state sequential transducer; equality of
two chains on *every* string is decided by exploring the product of the two
machines with the (bounded) lag between their outputs.
"""
from .core import Unsupported, cur
from .vals import Sym, mkbool
import z3

LAG = 12


class Repl:
    def __init__(self, a, b):
        if not a:
            raise Unsupported("replacement of the empty string")
        self.a, self.b = a, b

    init = ""

    def step(self, buf, c):
        buf += c
        out = ""
        while True:
            if buf == self.a:
                return "", out + self.b
            if self.a.startswith(buf):
                return buf, out
            out += buf[0]
            buf = buf[1:]

    def flush(self, buf):
        return buf

    chars = property(lambda self: set(self.a + self.b))


class Decode:
    """left-to-right decoding of two-character escapes, one pass"""
    init = ""

    def __init__(self, esc, table):
        self.esc, self.table = esc, table

    def step(self, buf, c):
        if buf:
            if c in self.table:
                return "", self.table[c]
            return (c, buf) if c == self.esc else ("", buf + c)
        return (c, "") if c == self.esc else ("", c)

    def flush(self, buf):
        return buf

    chars = property(lambda self: {self.esc} | set(self.table) | set("".join(self.table.values())))


class Hom:
    """character by character"""
    init = ""

    def __init__(self, table):
        self.table = table

    def step(self, buf, c):
        return "", self.table.get(c, c)

    def flush(self, buf):
        return ""

    chars = property(lambda self: set(self.table) | set("".join(self.table.values())))


def feed(ops, st, s):
    st = list(st)
    for i, op in enumerate(ops):
        o = ""
        for c in s:
            st[i], x = op.step(st[i], c)
            o += x
        s = o
    return tuple(st), s


def finish(ops, st):
    st = list(st)
    s = ""
    for i, op in enumerate(ops):
        o = ""
        for c in s:
            st[i], x = op.step(st[i], c)
            o += x
        s = o + op.flush(st[i])
    return s


def alphabet(*chains):
    al = set()
    for ops in chains:
        for op in ops:
            al |= op.chars
    other = next(c for c in "xyzwvu@#" if c not in al)
    return sorted(al) + [other]


def equal(A, B):
    """-> (True, states) or (False, a string they differ on)"""
    al = alphabet(A, B)
    start = (tuple(o.init for o in A), tuple(o.init for o in B), "", "")
    seen, work = {start}, [(start, "")]
    while work:
        (a, b, la, lb), w = work.pop(0)
        if la + finish(A, a) != lb + finish(B, b):
            return False, w
        for c in al:
            a2, oa = feed(A, a, c)
            b2, ob = feed(B, b, c)
            x, y = la + oa, lb + ob
            n = 0
            while n < min(len(x), len(y)) and x[n] == y[n]:
                n += 1
            x, y = x[n:], y[n:]
            if x and y:
                # the outputs differ for good
                return False, w + c
            if max(len(x), len(y)) > LAG:
                raise Unsupported("output lag")
            s = (a2, b2, x, y)
            if s not in seen:
                seen.add(s)
                work.append((s, w + c))
                if len(seen) > 20000:
                    raise Unsupported("transducer product too large")
    return True, len(seen)


def never_emits(A, ch):
    al = alphabet(A)
    start = tuple(o.init for o in A)
    seen, work = {start}, [(start, "")]
    while work:
        a, w = work.pop(0)
        if ch in finish(A, a):
            return False, w
        for c in al + [ch]:
            a2, o = feed(A, a, c)
            if ch in o:
                return False, w + c
            if a2 not in seen:
                seen.add(a2)
                work.append((a2, w + c))
    return True, len(seen)


class SRep(Sym):
    """an arbitrary string after a chain of constant replacements"""
    __class__ = property(lambda self: str)

    def __init__(self, ops=(), name="s"):
        self.ops, self.name = tuple(ops), name

    def replace(self, a, b, *cnt):
        if cnt or type(a) is not str or type(b) is not str:
            raise Unsupported("replace with a count")
        cur().eng.stats.trust("str.replace substitutes left to right without overlap")
        return SRep(self.ops + (Repl(a, b),), self.name)

    def __repr__(self):
        return "<str>"

    __str__ = __repr__

    def __format__(self, s):
        return "<str>"

    def to_str(self):
        return self

    def isinstance_sym(self, c):
        return c in (str, object)

    def same_as(self, o):
        st = cur().eng.stats
        if isinstance(o, SRep):
            ok, info = equal(self.ops, o.ops)
            st.by["transducer equivalence"] = st.by.get("transducer equivalence", 0) + 1
            if not ok:
                cur().counterexample = info
            return z3.BoolVal(ok)
        return z3.BoolVal(False)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("str.%s of an arbitrary string" % n)

    def concretize(self, m):
        raise Unsupported("no model of a string chain")
