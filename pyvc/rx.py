"""
Regular expressions with groups, decided on every string.

A pattern (or a grammar written with the combinators below) becomes a program
for a prioritised-thread machine: at each position an ordered list of threads,
each with its own capture positions, exactly the order in which a backtracking
matcher would prefer them.  `compare` explores the product of two such machines
with capture positions kept up to renaming, which is a finite graph, so the
answer holds for strings of any length over the alphabet.
"""
import re
import re._parser as sp
import re._compiler as sc
import re._constants as K

from .core import Unsupported

ASCII = [chr(i) for i in range(128)]
OTHER = ["é", "€", "文", "“"]      # letters and signs outside every class used


class Prog:
    def __init__(self):
        self.code = []          # ("char", pred) ("split", [pcs]) ("save", tag) ("bol",) ("eol",) ("ok",)

    def emit(self, *ins):
        self.code.append(list(ins))
        return len(self.code) - 1


# -- from a compiled Python pattern -------------------------------------------

def of_pattern(pat):
    """-> Prog with tags ("name", 0|1)"""
    flags = pat.flags
    if flags & re.MULTILINE or isinstance(pat.pattern, bytes):
        raise Unsupported("MULTILINE or bytes pattern")
    tree = sp.parse(pat.pattern, flags)
    names = {v: k for k, v in tree.state.groupdict.items()}
    p = Prog()

    def one(node):
        """a pattern of one character -> membership predicate"""
        sub = sp.SubPattern(tree.state, [node])
        c = sc.compile(sub, flags)
        memo = {}

        def pred(ch):
            if ch not in memo:
                memo[ch] = c.fullmatch(ch) is not None
            return memo[ch]
        return pred

    def nullable(items):
        return sp.SubPattern(tree.state, list(items)).getwidth()[0] == 0

    def seq(items):
        for it in items:
            op, av = it
            if op in (K.LITERAL, K.NOT_LITERAL, K.IN, K.ANY):
                p.emit("char", one(it))
            elif op is K.BRANCH:
                alts(av[1])
            elif op is K.SUBPATTERN:
                g, add, dele, sub = av
                if add or dele:
                    raise Unsupported("inline flags")
                nm = names.get(g, g)
                if g is not None:
                    p.emit("save", (nm, 0))
                seq(sub)
                if g is not None:
                    p.emit("save", (nm, 1))
            elif op in (K.MAX_REPEAT, K.MIN_REPEAT):
                lo, hi, sub = av
                rep(lo, hi, sub, op is K.MAX_REPEAT)
            elif op is K.AT:
                if av in (K.AT_BEGINNING, K.AT_BEGINNING_STRING):
                    p.emit("bol")
                elif av is K.AT_END:
                    p.emit("eol")
                elif av is K.AT_END_STRING:
                    p.emit("eos")
                else:
                    raise Unsupported("assertion %s" % av)
            else:
                raise Unsupported("pattern construct %s" % op)

    def alts(subs):
        s = p.emit("split", [])
        jumps = []
        for sub in subs:
            p.code[s][1].append(len(p.code))
            seq(sub)
            jumps.append(p.emit("split", None))
        for j in jumps:
            p.code[j][1] = [len(p.code)]

    def rep(lo, hi, sub, greedy):
        if lo > 64 or (hi is not K.MAXREPEAT and hi > 64):
            raise Unsupported("large repeat")
        for _ in range(lo):
            seq(sub)
        if hi is K.MAXREPEAT:
            if nullable(sub):
                raise Unsupported("repeat of a nullable group")
            s = p.emit("split", None)
            seq(sub)
            p.emit("split", [s])
            out = len(p.code)
            p.code[s][1] = [s + 1, out] if greedy else [out, s + 1]
            return
        ss = []
        for _ in range(hi - lo):
            ss.append(p.emit("split", None))
            seq(sub)
        out = len(p.code)
        for s in ss:
            p.code[s][1] = [s + 1, out] if greedy else [out, s + 1]

    seq(list(tree))
    p.emit("ok")
    p.tags = sorted({i[1] for i in p.code if i[0] == "save"}, key=str)
    return p


# -- grammars -----------------------------------------------------------------
# nodes: str literal chars set -> ("c", pred); ("s", ..) ("a", ..) ("*", x) ("t", name, x)

def chars(s):
    st = frozenset(s)
    return ("c", lambda ch: ch in st)


def nocase(s):
    return chars(s.upper() + s.lower())


def anybut(s=""):
    st = frozenset(s)
    return ("c", lambda ch: ch not in st)


def word(s):
    """the letters of s in any case"""
    return ("s",) + tuple(nocase(c) for c in s)


def seqn(*xs):
    return ("s",) + xs


def alt(*xs):
    return ("a",) + xs


def opt(x):
    return ("a", x, ("s",))


def star(x):
    return ("*", x)


def plus(x):
    return ("s", x, ("*", x))


def tag(name, x):
    return ("t", name, x)


def of_grammar(g):
    p = Prog()

    def go(n):
        k = n[0]
        if k == "c":
            p.emit("char", n[1])
        elif k == "s":
            for x in n[1:]:
                go(x)
        elif k == "a":
            s = p.emit("split", [])
            js = []
            for x in n[1:]:
                p.code[s][1].append(len(p.code))
                go(x)
                js.append(p.emit("split", None))
            for j in js:
                p.code[j][1] = [len(p.code)]
        elif k == "*":
            s = p.emit("split", None)
            go(n[1])
            p.emit("split", [s])
            p.code[s][1] = [s + 1, len(p.code)]
        elif k == "t":
            p.emit("save", (n[1], 0))
            go(n[2])
            p.emit("save", (n[1], 1))
        else:
            raise AssertionError(k)
    go(g)
    p.emit("eos")
    p.emit("ok")
    p.tags = sorted({i[1] for i in p.code if i[0] == "save"}, key=str)
    return p


# -- the machine --------------------------------------------------------------

def closure(p, threads, pos, first):
    """threads: ordered [(pc, caps)] -> ordered [(pc of a char/eos/ok, caps)]"""
    out, seen = [], set()
    idx = {t: i for i, t in enumerate(p.tags)}
    stack = list(reversed(threads))
    while stack:
        pc, caps = stack.pop()
        if pc in seen:
            continue
        seen.add(pc)
        ins = p.code[pc]
        if ins[0] == "split":
            for q in reversed(ins[1]):
                stack.append((q, caps))
        elif ins[0] == "save":
            c = list(caps)
            c[idx[ins[1]]] = pos
            stack.append((pc + 1, tuple(c)))
        elif ins[0] == "bol":
            if first:
                stack.append((pc + 1, caps))
        else:
            out.append((pc, caps))
    return out


def accept(p, threads, pos):
    """captures of the preferred match when the string ends here, or None"""
    stack = list(reversed(threads))
    seen = set()
    idx = {t: i for i, t in enumerate(p.tags)}
    while stack:
        pc, caps = stack.pop()
        if pc in seen:
            continue
        seen.add(pc)
        ins = p.code[pc]
        if ins[0] == "ok":
            return caps
        if ins[0] in ("eos", "eol"):
            stack.append((pc + 1, caps))
        elif ins[0] == "split":
            for q in reversed(ins[1]):
                stack.append((q, caps))
        elif ins[0] == "save":
            c = list(caps)
            c[idx[ins[1]]] = pos
            stack.append((pc + 1, tuple(c)))
    return None


def start(p):
    return closure(p, [(0, (-1,) * len(p.tags))], 0, True)


def step(p, threads, ch, pos):
    """consume ch; pos is the position after it"""
    nxt = []
    for pc, caps in threads:
        ins = p.code[pc]
        if ins[0] == "char":
            if ins[1](ch):
                nxt.append((pc + 1, caps))
        elif ins[0] == "ok":
            # a match that ends before the string does: pattern without an end
            raise Unsupported("pattern that need not match to the end")
    return closure(p, nxt, pos, False)


def run(p, s):
    """captures {name: text or None} or None"""
    th = start(p)
    for i, ch in enumerate(s):
        th = step(p, th, ch, i + 1)
    caps = accept(p, th, len(s))
    if caps is None:
        return None
    return _texts(p, caps, s)


def _texts(p, caps, s):
    pos = dict(zip(p.tags, caps))
    return {n: (s[pos[n, 0]:pos[n, 1]] if pos[n, 0] >= 0 and pos.get((n, 1), -1) >= 0 else None)
            for n in {t[0] for t in p.tags}}


def classes(progs, alphabet):
    """one representative per class of characters the programs tell apart"""
    preds = [i[1] for p in progs for i in p.code if i[0] == "char"]
    reps, sig = [], {}
    for ch in alphabet:
        k = tuple(f(ch) for f in preds)
        if k not in sig:
            sig[k] = ch
            reps.append(ch)
    return reps


def canon(a, b):
    ren = {-1: -1}

    def r(v):
        if v not in ren:
            ren[v] = len(ren) - 1
        return ren[v]
    return (tuple((pc, tuple(r(v) for v in caps)) for pc, caps in a),
            tuple((pc, tuple(r(v) for v in caps)) for pc, caps in b)), ren


def project(p, name):
    """the program with only the marks of one group"""
    q = Prog()
    q.code = [ins if ins[0] != "save" or ins[1][0] == name else ["split", [i + 1]]
              for i, ins in enumerate(p.code)]
    q.tags = [t for t in p.tags if t[0] == name]
    return q


def compare(code, spec, pair, alphabet, limit=60000, end_ok=lambda s: True):
    """Do both accept the same strings and, with pair=(code group, spec field),
    mark the same span?  -> (None or the shortest string that tells, states)"""
    cg, sf = pair or (None, None)
    code, spec = project(code, cg), project(spec, sf)
    reps = classes([code, spec], alphabet)
    a, b = start(code), start(spec)
    st, _ = canon(a, b)
    seen = {st}
    work = [(st, "")]
    NOW = 10 ** 6
    while work:
        nxt = []
        for (a, b), s in work:
            if end_ok(s):
                x, y = accept(code, a, NOW), accept(spec, b, NOW)
                if (x is None) != (y is None):
                    return s, len(seen)
                if x is not None and pair:
                    if (None if -1 in x else x) != (None if -1 in y else y):
                        return s, len(seen)
            for ch in reps:
                a2, b2 = step(code, a, ch, NOW), step(spec, b, ch, NOW)
                if not a2 and not b2:
                    continue
                k, _ = canon(a2, b2)
                if k not in seen:
                    seen.add(k)
                    nxt.append((k, s + ch))
                    if len(seen) > limit:
                        raise Unsupported("pattern product larger than %d states" % limit)
        work = nxt
    return None, len(seen)


def correspond(code, spec, alphabet, samples, end_ok=lambda s: True):
    """-> (string telling the languages apart or None, {code group: spec field},
    total states).  Candidate pairs come from samples, each is then decided."""
    w, n = compare(code, spec, None, alphabet, end_ok=end_ok)
    if w is not None:
        return w, {}, n
    cgs, sfs = sorted({t[0] for t in code.tags}, key=str), sorted({t[0] for t in spec.tags})
    live = {(c, f) for c in cgs for f in sfs}
    for s in samples:
        x, y = run(code, s), run(spec, s)
        if x is None:
            continue
        live = {(c, f) for c, f in live if x[c] == y[f]}
    out = {}
    for c, f in sorted(live, key=str):
        if c in out:
            continue
        w, k = compare(code, spec, (c, f), alphabet, end_ok=end_ok)
        n += k
        if w is None:
            out[c] = f
    return None, out, n
