"""Contracts for pandalone/xleash/_capture.py and the margins in io/backend.py."""
import itertools
import numpy as np
import z3

from pyvc.contract import Contract, Lemma, Ok, Err
from pyvc.spec import *
from pyvc import loops
from pyvc.vals import *
from pyvc.strs import SNumStr, SColStr, SLetter

from pandalone.xleash import Coords, _capture as cap, _parse
from pandalone.xleash._capture import EmptyCaptureException

CAP = "pandalone.xleash._capture:"
DIRS = {"L": (0, -1), "U": (-1, 0), "R": (0, 1), "D": (1, 0)}
MOVES1 = ["L", "U", "R", "D"]
MOVES2 = [a + b for a in "LURD" for b in "LURD" if (a in "LR") != (b in "LR")]
MOVES = MOVES1 + MOVES2


# -- concrete matrices for the run-time cross-check -------------------------

def small_mats(maxr=2, maxc=3):
    for r in range(1, maxr + 1):
        for c in range(1, maxc + 1):
            for bits in itertools.product([False, True], repeat=r * c):
                yield np.array(bits, dtype=bool).reshape(r, c)


def rand_mat(rng, maxr=7, maxc=7):
    r, c = rng.randint(1, maxr), rng.randint(1, maxc)
    p = rng.choice([0.1, 0.3, 0.5, 0.8, 0.95])
    return np.array([[rng.random() < p for _ in range(c)] for _ in range(r)], dtype=bool)


class Margins(Contract):
    """The two margins are the tightest box around the full cells."""
    prop = "C02"
    target = "pandalone.xleash.io.backend:margin_coords_from_states_matrix"

    def inputs(self, g):
        return (g.mat("sm"),), {}

    def spec(self, sm):
        nr, nc = shape(sm)
        if not either(exists(0, nr, lambda r: exists(0, nc, lambda c: full(sm, r, c)))):
            return Coords(0, 0), Coords(0, 0)
        row = lambda r: exists(0, nc, lambda c: full(sm, r, c))
        col = lambda c: exists(0, nr, lambda r: full(sm, r, c))
        return (Coords(first(0, nr, row), first(0, nc, col)),
                Coords(last(0, nr, row), last(0, nc, col)))

    def cases(self, rng, tier):
        for m in small_mats(2, 3) if tier == "quick" else small_mats(3, 4):
            yield (m,), {}
        for _ in range(300 if tier == "quick" else 5000):
            yield (rand_mat(rng),), {}
        big = np.zeros((70000, 2), dtype=bool)
        big[66000, 1] = big[40000, 0] = True
        yield (big,), {}
        big = np.zeros((2, 40000), dtype=bool)
        big[1, 33000] = True
        yield (big,), {}


OTHER = np.array([[False, True]])


class SheetMargins(Contract):
    """A sheet's margins are what it reports itself, each missing one taken
    from its states; states and margins are read once, whatever other sheets
    of the kind were read in between."""
    prop = "C02"
    target = "pandalone.xleash.io.backend:ABCSheet.get_margin_coords"
    call_site = False
    signature_matters = False

    def inputs(self, g):
        c = lambda n: Coords(g.int(n + ".row", 0), g.int(n + ".col", 0))
        return (g.mat("sm"), g.choice(None, c("up")), g.choice(None, c("dn"))), {}

    def invoke(self, func, args, kw):
        from pandalone.xleash.io import backend
        from pyvc import rt
        from pyvc.core import in_ctx
        sm, up, dn = args
        me = self
        self.reads = [0, 0]

        class S(backend.ABCSheet):
            other = False

            def _read_states_matrix(self):
                if self.other:
                    return OTHER
                me.reads[0] += 1
                return sm

            def _read_margin_coords(self):
                if self.other:
                    return Coords(7, 8), Coords(9, 9)
                me.reads[1] += 1
                return up, dn
            get_sheet_ids = open_sibling_sheet = list_sheetnames = read_rect = None
        s, o = S(), S()
        o.other = True
        run = rt.call if in_ctx() else lambda f, *a: f(*a)
        o1 = run(o.get_margin_coords), run(o.get_states_matrix)
        a = run(s.get_margin_coords)
        m = run(s.get_states_matrix)
        o2 = run(o.get_margin_coords), run(o.get_states_matrix)
        b = run(s.get_margin_coords)
        for got in (o1, o2):
            if got[0] != (Coords(7, 8), Coords(9, 9)) or got[1] is not OTHER:
                raise AssertionError("another sheet's")
        if m is not sm or run(s.get_states_matrix) is not sm or self.reads[0] > 1 or self.reads[1] > 1:
            raise AssertionError("read again")
        return a, b

    def spec(self, sm, up, dn):
        u, d = Margins().spec(sm) if up is None or dn is None else (None, None)
        r = (u if up is None else up), (d if dn is None else dn)
        return r, r

    def cases(self, rng, tier):
        for _ in range(200):
            c = lambda: rng.choice([None, Coords(rng.randint(0, 3), rng.randint(0, 3))])
            yield (rand_mat(rng), c(), c()), {}


def sheet(g, name="sm"):
    """a states matrix and the bottom-right margin of its full cells"""
    sm = g.mat(name)
    nr, nc = shape(sm)
    dn = Coords(g.int("dn.row", 0), g.int("dn.col", 0))
    g.assume(covers(sm, dn))
    return sm, dn


def covers(sm, dn):
    nr, nc = shape(sm)
    return both(0 <= dn[0], dn[0] < nr, 0 <= dn[1], dn[1] < nc,
                forall(0, nr, lambda r: forall(0, nc, lambda c: implies(
                    full(sm, r, c), both(r <= dn[0], c <= dn[1])))))


def con_sheet(m):
    rows, cols = np.where(m)
    return Coords(int(rows.max()), int(cols.max())) if len(rows) else Coords(0, 0)


def fullcell(sm, axis, along, line):
    """axis 0: `along` counts rows (vertical move); axis 1: columns"""
    return full(sm, along, line) if axis == 0 else full(sm, line, along)


def extent(sm, axis):
    return shape(sm)[axis]


class Opposite(Contract):
    """First full cell in traversal order: along the first move from the
    landing cell, then the same on each next line in the second direction."""
    prop = "C03"
    target = CAP + "_target_opposite"
    shards = 6
    weight = 2

    def inputs(self, g):
        moves = g.choice(*MOVES)
        sm, dn = sheet(g)
        land = Coords(g.int("land.row", 0), g.int("land.col", 0))
        return (sm, dn, land, moves), {}

    def pre(self, sm, dn, land, moves, edge_name=""):
        return both(covers(sm, dn), land[0] >= 0, land[1] >= 0)

    def result(self, ctx, args, kw):
        if isinstance(args[3], Opaque):
            return opaque_target(self.name, *args[:4])
        return Contract.result(self, ctx, args, kw)

    def spec(self, sm, dn, land, moves, edge_name=""):
        m1, m2 = moves[0], moves[1:2]
        ax = 0 if m1 in "UD" else 1
        q0, p0 = land[ax], land[1 - ax]
        nq, np_ = extent(sm, ax), extent(sm, 1 - ax)
        ql, qh = (q0, nq) if m1 in "RD" else (0, imin(q0 + 1, nq))
        if not m2:
            pl, ph = p0, p0 + 1
        else:
            pl, ph = (p0, np_) if m2 in "RD" else (0, imin(p0 + 1, np_))
        line = lambda p: exists(ql, qh, lambda q: fullcell(sm, ax, q, p))
        if not exists(pl, ph, line):
            raise EmptyCaptureException()
        p = first(pl, ph, line) if not m2 or m2 in "RD" else last(pl, ph, line)
        on = lambda q: fullcell(sm, ax, q, p)
        q = first(ql, qh, on) if m1 in "RD" else last(ql, qh, on)
        return Coords(q, p) if ax == 0 else Coords(p, q)

    def cases(self, rng, tier):
        for m in small_mats(2, 3):
            dn = con_sheet(m)
            for r in range(m.shape[0] + 2):
                for c in range(m.shape[1] + 2):
                    for mv in MOVES:
                        yield (m, dn, Coords(r, c), mv), {}
        for _ in range(2000 if tier == "quick" else 40000):
            m = rand_mat(rng)
            yield (m, con_sheet(m), Coords(rng.randint(0, 9), rng.randint(0, 9)),
                   rng.choice(MOVES)), {}


class Same(Contract):
    """Last full cell of the contiguous run that starts at the (full) landing
    cell, on the landing row and/or column independently."""
    prop = "C04"
    target = CAP + "_target_same"

    def inputs(self, g):
        moves = g.choice(*MOVES)
        sm, dn = sheet(g)
        land = Coords(g.int("land.row", 0), g.int("land.col", 0))
        return (sm, dn, land, moves), {}

    def pre(self, sm, dn, land, moves, edge_name=""):
        return both(covers(sm, dn), land[0] >= 0, land[1] >= 0)

    def result(self, ctx, args, kw):
        if isinstance(args[3], Opaque):
            return opaque_target(self.name, *args[:4])
        return Contract.result(self, ctx, args, kw)

    def spec(self, sm, dn, land, moves, edge_name=""):
        if not full(sm, land[0], land[1]):
            raise EmptyCaptureException()
        out = [land[0], land[1]]
        for m in moves:
            ax = 0 if m in "UD" else 1
            q0, p, n = land[ax], land[1 - ax], extent(sm, ax)
            gap = lambda q: no(fullcell(sm, ax, q, p))
            if m in "RD":
                out[ax] = first(q0, n, gap) - 1 if exists(q0, n, gap) else n - 1
            else:
                out[ax] = last(0, q0 + 1, gap) + 1 if exists(0, q0 + 1, gap) else 0
        return Coords(*out)

    cases = Opposite.cases


# -- coordinates ------------------------------------------------------------

def fold_value(key, plan, recs):
    """loop over the letters of a column name: the one int carried is the
    value of the letters seen so far"""
    if not recs:
        return None
    carried = [n for n in plan["changed"] if all(n in r.fresh and len(r.fresh[n]) == 1 for r in recs)]
    if len(carried) != 1:
        return None
    s = loops.Summary()
    s.how = "fold: value of a column-name prefix"
    s.covers = set(carried)

    def strval(L):
        a = cur().inputs[0][0]
        if not isinstance(a, SColStr):
            raise Unsupported("fold over something else")
        return a
    s.vals = lambda L, k: {carried[0]: mkint(strval(L).prefix(k))}
    return s


from pyvc.core import cur, Unsupported  # noqa


def col_letters(n):
    """independent oracle: column number -> letters"""
    out = ""
    n += 1
    while n:
        n, d = divmod(n - 1, 26)
        out = chr(65 + d) + out
    return out


def letters_value(s):
    if isinstance(s, SLetter):
        s = s.as_col()
    if isinstance(s, SColStr):
        return s.value()
    v = 0
    for ch in s:
        v = v * 26 + "ABCDEFGHIJKLMNOPQRSTUVWXYZ".index(ch.upper()) + 1
    return v - 1


def is_decimal(s):
    if isinstance(s, SNumStr):
        return True
    if isinstance(s, SColStr):
        return False
    try:
        int(s)
        return True
    except (ValueError, TypeError):
        return False


def is_letters(s):
    return isinstance(s, (SColStr, SLetter)) or (type(s) is str and s != "" and s.isascii() and s.isalpha())


def dec_value(s):
    return mkint(s.t) if isinstance(s, SNumStr) else (s if isinstance(s, SInt) else int(s))


class Row2Num(Contract):
    prop = "C01"
    target = CAP + "_row2num"

    def inputs(self, g):
        k = g.choice("dec", "int", "col", "^", "_", ".")
        if k == "dec":
            return (SNumStr(g.int("n").t),), {}
        if k == "int":
            return (g.int("n"),), {}
        if k == "col":
            return (SColStr.arbitrary(g, "coord"),), {}
        return (k,), {}

    def spec(self, coord):
        if not isinstance(coord, SInt) and not is_decimal(coord):
            raise ValueError()
        n = dec_value(coord)
        if n == 0:
            raise ValueError()
        return n - 1 if n > 0 else n

    def cases(self, rng, tier):
        for n in list(range(-60, 300)) + [10 ** 6, 2 ** 40, -10 ** 5]:
            yield (n,), {}
            yield (str(n),), {}
        for s in ["A", "zz", "^", "_", "."]:
            yield (s,), {}


class Col2Num(Contract):
    prop = "C01"
    target = CAP + "_col2num"
    loops = (fold_value,)

    inputs = Row2Num.inputs

    def spec(self, coord):
        if not isinstance(coord, SInt) and is_letters(coord):
            return letters_value(coord)
        return Row2Num.spec(self, coord)

    def cases(self, rng, tier):
        yield from Row2Num.cases(self, rng, tier)
        for n in list(range(0, 20000 if tier == "thorough" else 1500)) + [71084, 10 ** 7]:
            s = col_letters(n)
            yield (s,), {}
            yield (s.lower(),), {}
            yield (s.title(),), {}


class ResolveCoord(Contract):
    """^ and _ are the margins, . the base, positive N is N-1, -N counts back
    from the far margin; everything else is a ValueError."""
    prop = "C01"
    target = CAP + "_resolve_coord"

    def inputs(self, g):
        cname, cfunc = g.choice(("row", cap._row2num), ("col", cap._col2num))
        (coord,), _ = Row2Num.inputs(self, g)
        up, dn = g.int("up", 0), g.int("dn", 0)
        base = g.choice(None, g.int("base", 0))
        return (cname, cfunc, coord, up, dn, base), {}

    def spec(self, cname, cfunc, coord, up, dn, base=None):
        if type(coord) is str and coord in ("^", "_", "."):
            if coord == "^":
                return up
            if coord == "_":
                return dn
            if base is None:
                raise ValueError()
            return base
        if cname == "row" or not (is_letters(coord) if not isinstance(coord, SInt) else False):
            n = Row2Num.spec(self, coord)
        else:
            n = letters_value(coord)
        if n >= 0:
            return n
        if dn + n + 1 < 0:
            raise ValueError()          # counts back past the sheet start
        return dn + n + 1

    def pre(self, cname, cfunc, *a, **k):
        return cname in ("row", "col")

    def cases(self, rng, tier):
        for (cname, cfunc) in (("row", cap._row2num), ("col", cap._col2num)):
            for coord in ["^", "_", ".", "1", "-1", "0", 1, -2, 5, "A", "Zz", "AAB", "-7", "12"]:
                for up, dn in ((0, 0), (2, 9), (3, 30)):
                    for base in (None, 0, 7):
                        yield (cname, cfunc, coord, up, dn, base), {}


class ResolveCell(Contract):
    prop = "C01"
    target = CAP + "_resolve_cell"

    @staticmethod
    def coord(g, name, letters):
        k = g.choice(*(["dec", "^", "_", "."] + (["col"] if letters else [])))
        if k == "dec":
            return SNumStr(g.int(name).t)
        if k == "col":
            return SColStr.arbitrary(g, name)
        return k

    def inputs(self, g):
        cell = _parse.Cell(self.coord(g, "row", False), self.coord(g, "col", True))
        up = Coords(g.int("up.row", 0), g.int("up.col", 0))
        dn = Coords(g.int("dn.row", 0), g.int("dn.col", 0))
        base = g.choice(None, Coords(g.int("base.row", 0), g.int("base.col", 0)))
        return (cell, up, dn, base), {}

    def result(self, ctx, args, kw):
        if isinstance(args[0], Opaque):
            return opaque_resolve(*args, **kw)
        return Contract.result(self, ctx, args, kw)

    def spec(self, cell, up, dn, base=None):
        br, bc = (None, None) if base is None else base
        rs = ResolveCoord.spec
        return Coords(rs(self, "row", None, cell.row, up[0], dn[0], br),
                      rs(self, "col", None, cell.col, up[1], dn[1], bc))

    def cases(self, rng, tier):
        for row in ["^", "_", ".", "1", "3", "-1", "-2", "14"]:
            for col in ["^", "_", ".", "A", "ab", "2", "-1", "-3", "30"]:
                for base in (None, Coords(5, 6)):
                    yield (_parse.Cell(row, col), Coords(1, 2), Coords(10, 7), base), {}


class ColName(Contract):
    """the letters of a column are the ones whose value it is"""
    prop = "C01"
    target = CAP + "xl_colname"
    recursive = True

    def inputs(self, g):
        n = g.int("col", 0)
        self.arg = n
        return (n,), {}

    def pre(self, col):
        return col >= 0

    def apply(self, ctx, args, kw):
        # a recursive call is on a smaller number: termination
        if ctx.eng.contract is self:
            ctx.prove("recursion decreases", z3.And(tint(args[0]) < tint(self.arg),
                                                    tint(args[0]) >= 0))
        return Contract.apply(self, ctx, args, kw)

    def result(self, ctx, args, kw):
        return SColStr.of_value(args[0])

    def check(self, args, kw, out):
        if out.exc is not None:
            return False
        v = out.value
        if isinstance(v, SLetter):
            v = v.as_col()
        if not in_ctx():
            return v == col_letters(args[0])
        if not isinstance(v, SColStr):
            return False
        i = z3.Int("qi")
        return both(v.value() == args[0], mkbool(z3.ForAll([i], z3.Implies(
            z3.And(0 <= i, i < tint(v.n)), v.up(i)))))

    def cases(self, rng, tier):
        for n in list(range(0, 20000)) + [10 ** 6, 10 ** 9]:
            yield (n,), {}


class Coords2Cell(Contract):
    """naming a cell and resolving the name gives the cell back; symbols pass
    through; negative numbers are refused"""
    prop = "C01"
    target = CAP + "coords2Cell"

    def inputs(self, g):
        return (g.choice(g.int("row"), "^", "_", "."), g.choice(g.int("col"), "^", "_", ".")), {}

    def check(self, args, kw, out):
        row, col = args
        neg = [x < 0 for x in args if not isinstance(x, str)]
        if either(*neg) if neg else False:
            return isinstance(out.exc, AssertionError)
        if out.exc is not None or not isinstance(out.value, _parse.Cell):
            return False
        up, dn, base = Coords(3, 4), Coords(30, 40), Coords(7, 8)
        got = ResolveCell().spec(out.value, up, dn, base)
        want = [x if not isinstance(x, str) else {"^": up, "_": dn, ".": base}[x][i]
                for i, x in enumerate(args)]
        letters = isinstance(col, str) or is_letters(out.value.col)
        return both(got[0] == want[0], got[1] == want[1], letters,
                    out.value.brow is None and out.value.bcol is None)

    def cases(self, rng, tier):
        for c in list(range(-3, 3000)) + [16383, "^", "_", "."]:
            for r in (0, "^", ".", "_", 1048575, 41):
                yield (r, c), {}
        yield (-1, 2), {}


# -- expansion --------------------------------------------------------------

class SDir(SLetter.__mro__[1]):
    """one of the letters L U R D (index 0..3)"""
    __class__ = property(lambda self: str)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        if type(o) is str:
            return mkbool(self.t == "LURD".index(o)) if o in DIRS else False
        if isinstance(o, SDir):
            return mkbool(self.t == o.t)
        return False

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r

    __hash__ = SLetter.__hash__

    def __repr__(self):
        return "<dir>"

    __str__ = __repr__

    def str_in(self, s):
        return either(*[self == c for c in s]) if s else False


class SExp(SDir.__mro__[1]):
    """an expansion string that parses to any list of (directions, times)"""
    __class__ = property(lambda self: str)

    def __init__(self, g):
        I = z3.IntSort()
        self.n = g.int("groups", 0)
        self.len = z3.Function("group.len", I, I)
        self.letter = z3.Function("group.letter", I, I, I)
        self.times = z3.Function("group.times", I, I)     # < 0: unlimited
        i, j = z3.Ints("gi gj")
        g.ctx.assume(z3.ForAll([i], self.len(i) >= 1))
        g.ctx.assume(z3.ForAll([i, j], z3.And(0 <= self.letter(i, j), self.letter(i, j) < 4)))

    def groups(self):
        def group(i):
            dirs = loops.SymSeq(SInt(self.len(i)), lambda j: SDir(self.letter(i, j)), ("dirs", i))
            unl = cur().branch(self.times(i) < 0)
            return loops.SymSeq(None if unl else SInt(self.times(i)), lambda j: dirs, ("reps", i))
        return loops.SymSeq(self.n, group, ("groups",))

    def __bool__(self):
        return True

    def __repr__(self):
        return "<moves>"

    __str__ = __repr__

    def __format__(self, s):
        return "<moves>"


def split_moves(s):
    """independent reading of an expansion string: maximal (letters, times)
    groups; a number (or ? for 1) binds to the one letter before it"""
    s = s.upper().replace("?", "1")
    groups, i, pend = [], 0, ""
    while i < len(s):
        if s[i] not in "LURD":
            raise ValueError(s)
        j = i + 1
        while j < len(s) and s[j].isdecimal():
            j += 1
        if j > i + 1:
            if pend:
                groups.append((pend, None))
                pend = ""
            groups.append((s[i], int(s[i + 1:j])))
        else:
            pend += s[i]
        i = j
    if pend:
        groups.append((pend, None))
    return groups


class ParseMoves(Contract):
    """Bounded: every string up to a length over a small alphabet."""
    prop = "C06"
    bounded = "all strings of length <= 5 over {L,u,R,D,1,2,0,?,x,space} and random longer ones"
    target = "pandalone.xleash._parse:parse_expansion_moves"

    def spec(self, exp_moves):
        return split_moves(exp_moves)

    def result(self, ctx, args, kw):
        m = args[0]
        if isinstance(m, SExp):
            ctx.eng.stats.trust("parse_expansion_moves yields the (letters, times) groups of its "
                                "string (bounded check only)")
            return m.groups()
        raise Unsupported("expansion string")

    def check(self, args, kw, out):
        want = self.spec_outcome(args, kw)
        if want.exc or out.exc:
            return isinstance(out.exc, ValueError) and isinstance(want.exc, ValueError)
        got = []
        for it in out.value:
            a = it.__reduce__()[1] if type(it) is itertools.repeat else None
            if a is None:
                l = list(itertools.islice(it, 50))
                got.append((l[0] if l else "", None if len(l) == 50 else len(l)))
            else:
                got.append((a[0], None if len(a) < 2 else a[1]))
        return [(g, t) for g, t in got if t != 0] == [(g, t) for g, t in want.value if t != 0]

    def cases(self, rng, tier):
        al = "LuRD120?x "
        for n in range(0, 5 if tier == "quick" else 6):
            for t in itertools.product(al, repeat=n):
                yield ("".join(t),), {}
        for _ in range(3000):
            yield ("".join(rng.choice("LURDlurd?123456789") for _ in range(rng.randint(1, 14))),), {}


class RectSpec:
    """the recursive specification of expansion, as uninterpreted functions
    whose defining equations are instantiated where they are used"""

    def __init__(self, sm, exp, r1, r2):
        I = z3.IntSort()
        self.sm, self.exp = sm, exp
        self.S = [z3.Function("S.%s" % n, I, I) for n in ("r1", "r2", "c1", "c2")]
        self.M = [z3.Function("M.%s" % n, I, I, I) for n in ("r1", "r2", "c1", "c2")]
        self.I = [z3.Function("I.%s" % n, I, I, I, I) for n in ("r1", "r2", "c1", "c2")]
        self.start = sorted_rect(r1, r2)

    def s(self, g):
        c = cur()
        z = z3.IntVal(0)
        c.assume(z3.And(*[f(z) == tint(v) for f, v in zip(self.S, self.start)]))
        return [f(g) for f in self.S]

    def m(self, g, j):
        c = cur()
        z = z3.IntVal(0)
        c.assume(z3.And(*[a(g, z) == b(g) for a, b in zip(self.M, self.S)]))
        n = self.exp.len(g)
        c.assume(z3.And(*[a(g, j + 1) == b(g, j, n) for a, b in zip(self.M, self.I)]))
        c.assume(z3.Implies(j >= 1, z3.And(
            *[a(g, j) == b(g, j - 1, n) for a, b in zip(self.M, self.I)])))
        return [f(g, j) for f in self.M]

    def i(self, g, j, d):
        c = cur()
        z = z3.IntVal(0)
        c.assume(z3.And(*[a(g, j, z) == b(g, j) for a, b in zip(self.I, self.M)]))
        for x in (d, d - 1):
            x = z3.simplify(x)
            st = [SInt(f(g, j, x)) for f in self.I]
            nx = one_step(self.sm, st, SDir(self.exp.letter(g, x)))
            c.assume(z3.Implies(x >= 0, z3.And(
                *[f(g, j, x + 1) == tint(v) for f, v in zip(self.I, nx)])))
        return [f(g, j, d) for f in self.I]

    def next_group(self, g, state):
        """definition of S(g+1): stop at the first repetition that changes
        nothing, else after the given number of repetitions"""


def sorted_rect(a, b):
    return [imin(a[0], b[0]), imax(a[0], b[0]), imin(a[1], b[1]), imax(a[1], b[1])]


def line_full(sm, d, st):
    """does the line next to the rect in direction d hold a full cell?"""
    r1, r2, c1, c2 = st
    if d == "U":
        return exists(c1, c2 + 1, lambda c: full(sm, r1 - 1, c))
    if d == "D":
        return exists(c1, c2 + 1, lambda c: full(sm, r2 + 1, c))
    if d == "L":
        return exists(r1, r2 + 1, lambda r: full(sm, r, c1 - 1))
    return exists(r1, r2 + 1, lambda r: full(sm, r, c2 + 1))


def one_step(sm, st, d):
    """grow one line in direction d if that line holds a full cell"""
    r1, r2, c1, c2 = st
    if not is_sym(d):
        if not line_full(sm, d, st):
            return list(st)
        return [r1 - (d == "U"), r2 + (d == "D"), c1 - (d == "L"), c2 + (d == "R")]
    up = both(d == "U", line_full(sm, "U", st))
    dn = both(d == "D", line_full(sm, "D", st))
    lf = both(d == "L", line_full(sm, "L", st))
    rt = both(d == "R", line_full(sm, "R", st))
    return [r1 - ite(up, 1, 0), r2 + ite(dn, 1, 0), c1 - ite(lf, 1, 0), c2 + ite(rt, 1, 0)]


class Expand(Contract):
    """Group by group, repetition by repetition, direction by direction, the
    rect grows by the adjacent line iff that line holds a full cell; a group
    ends when a repetition changes nothing or its count is used up."""
    prop = "C06"
    target = CAP + "_expand_rect"
    weight = 9
    z3_ms = 15000

    def inputs(self, g):
        sm = g.mat("sm")
        r1 = Coords(g.int("r1.row", 0), g.int("r1.col", 0))
        r2 = Coords(g.int("r2.row", 0), g.int("r2.col", 0))
        exp = SExp(g)
        self.rs = RectSpec(sm, exp, r1, r2)
        return (sm, r1, r2, exp), {}

    def pre(self, sm, r1, r2, exp_moves):
        return both(r1[0] >= 0, r1[1] >= 0, r2[0] >= 0, r2[1] >= 0)

    def result(self, ctx, args, kw):
        if isinstance(args[3], Opaque):
            return opaque_expand(*args)
        return Contract.result(self, ctx, args, kw)

    # S(g) as computed by the middle loop leaves either by `break` after a
    # repetition j that changed nothing, or after `times` repetitions
    def end_of_group(self, g, j, stopped):
        """defining equation of S(g+1), given where group g stops"""
        rs = self.rs
        return z3.And(*[a(g + 1) == b(g, j) for a, b in zip(rs.S, rs.M)])

    @staticmethod
    def kinds(L):
        ks = {}
        for l in cur().loop_stack:
            t = getattr(l.seq, "tag", None) if getattr(l, "seq", None) is not None else None
            if t:
                ks[t[0]] = l
        return ks

    def _measure(self, st):
        sm = self.rs.sm
        nr, nc = tint(sm.nr), tint(sm.nc)
        r1, r2, c1, c2 = [tint(x) for x in st]
        pos = lambda x: z3.If(x > 0, x, z3.IntVal(0))
        return r1 + c1 + pos(nr - 1 - r2) + pos(nc - 1 - c2)

    def _ordered(self, st):
        r1, r2, c1, c2 = [tint(x) for x in st]
        return z3.And(0 <= r1, r1 <= r2, 0 <= c1, c1 <= c2)

    @property
    def loops(self):
        from pyvc.loops import Fold
        tag = lambda name: (lambda L: getattr(L.seq, "tag", None) and L.seq.tag[0] == name)

        def st_groups(L, k):
            return self.rs.s(z3.simplify(k))

        def st_reps(L, k):
            return self.rs.m(L.seq.tag[1], z3.simplify(k))

        def st_dirs(L, k):
            g, j = L.seq.tag[1], self.kinds(L)["reps"].k
            return self.rs.i(g, j, z3.simplify(k))

        def facts_groups(L, k):
            # relation between consecutive groups is proved where the group
            # ends, below; here: the state stays a proper rect
            return z3.And(k >= 0, self._ordered(st_groups(L, k)))

        def facts_reps(L, k):
            g = L.seq.tag[1]
            a = st_reps(L, k)
            j = z3.Int("jj")
            prev = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), z3.Or(
                *[f(g, j + 1) != f(g, j) for f in self.rs.M])))
            return z3.And(k >= 0, self._ordered(a), prev)

        def facts_dirs(L, k):
            g, j = L.seq.tag[1], self.kinds(L)["reps"].k
            a0, a = self.rs.i(g, j, z3.IntVal(0)), st_dirs(L, k)
            same_ = z3.And(*[x == y for x, y in zip(a0, a)])
            return z3.And(k >= 0, self._ordered(a),
                          z3.Or(same_, self._measure(a) < self._measure(a0)))

        def var_reps(L, k):
            return SInt(self._measure(st_reps(L, k)) + 1)
        return [Fold(tag("dirs"), st_dirs, facts_dirs),
                Fold(tag("reps"), st_reps, facts_reps, var_reps),
                GroupFold(tag("groups"), st_groups, facts_groups, self)]

    def spec(self, sm, r1, r2, exp_moves):
        st = sorted_rect(r1, r2)
        for dirs, times in split_moves(exp_moves):
            n = 0
            while times is None or n < times:
                old = st
                for d in dirs:
                    st = one_step(sm, st, d)
                if st == old:
                    break
                n += 1
        return Coords(st[0], st[2]), Coords(st[1], st[3])

    def check(self, args, kw, out):
        if not isinstance(args[3], SExp):
            return Contract.check(self, args, kw, out)
        if out.exc is not None:
            return False
        st = self.rs.s(tint(args[3].n))
        want = (Coords(SInt(st[0]), SInt(st[2])), Coords(SInt(st[1]), SInt(st[3])))
        return mkbool(same(out.value, want))

    def cases(self, rng, tier):
        from pandalone.xleash import Coords
        for m in small_mats(2, 3):
            for r in range(m.shape[0]):
                for c in range(m.shape[1]):
                    for e in ("LURD", "R1D1", "RD", "UL?", "D"):
                        yield (m, Coords(r, c), Coords(r, c), e), {}
        for _ in range(2500 if tier == "quick" else 40000):
            m = rand_mat(rng)
            P = lambda: Coords(rng.randint(0, 8), rng.randint(0, 8))
            e = "".join(rng.choice("LURDLURD?123") for _ in range(rng.randint(1, 6)))
            if e[0] in "?123":
                e = "R" + e[1:]
            try:
                split_moves(e)
            except ValueError:
                continue
            yield (m, P(), P(), e), {}


class GroupFold(loops.Fold):
    """the group loop: its step S(g) -> S(g+1) is defined through where the
    group's repetitions stop (a definition by cases, total because exactly
    one of the stopping conditions is met first)"""

    def __init__(self, applies, state, facts, contract):
        super().__init__(applies, state, facts)
        self.c = contract

    def _vals(self, L, k):
        rs = self.c.rs
        if L.binding is not None and L.mode == "real" and not L.ctx.spec_mode:
            g = L.k
            if g is not None and z3.simplify(k - g).eq(z3.IntVal(1)):
                # definition of S(g+1), by the spec's own stopping rule
                j = z3.Int("jstop")
                T = rs.exp.times(g)
                eq = lambda a, b: z3.And(*[f(g, a) == f(g, b) for f in rs.M])
                stop = z3.Function("stop", z3.IntSort(), z3.IntSort())
                q = z3.Int("q")
                # stop(g) = first repetition that changes nothing, or T
                L.ctx.assume(z3.And(*[a(g + 1) == b(g, stop(g)) for a, b in zip(rs.S, rs.M)]))
                L.ctx.assume(z3.ForAll([q], z3.Implies(z3.And(
                    0 <= q, z3.Or(T < 0, q < T), eq(q + 1, q),
                    z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < q), z3.Not(eq(j + 1, j))))),
                    stop(g) == q)))
                L.ctx.assume(z3.Implies(z3.And(T >= 0, z3.ForAll([j], z3.Implies(
                    z3.And(0 <= j, j < T), z3.Not(eq(j + 1, j))))), stop(g) == T))
        return super()._vals(L, k)


# -- the whole capture ------------------------------------------------------

class Opaque(Sym):
    """an edge component the caller may only hand over to its callees: the
    callees' results are functions of it, whatever they are"""
    __slots__ = ("t", "alts")

    def __init__(self, name, **eqs):
        self.t = z3.Const(name, Val)
        self.alts = eqs

    def __repr__(self):
        return "<opaque %s>" % self.t

    __str__ = __repr__

    def __format__(self, s):
        return repr(self)

    def __bool__(self):
        return True

    def __eq__(self, o):
        if isinstance(o, Opaque):
            return mkbool(self.t == o.t)
        if o is None:
            return False
        if isinstance(o, _parse.Cell) and o == _parse.Cell(".", "."):
            return mkbool(z3.Function("is_dot_dot", Val, z3.BoolSort())(self.t))
        raise Unsupported("test of an opaque edge component against %r" % (o,))

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r

    __hash__ = Sym.__hash__


def ufun(name, ret, *args):
    ts = []
    for a in args:
        ts.append(a.t if isinstance(a, Opaque) else tint(a))
    return z3.Function(name, *([t.sort() for t in ts] + [ret]))(*ts)


def opaque_resolve(cell, up, dn, base=None):
    """_resolve_cell's contract as a function symbol of all its arguments"""
    a = [cell, up[0], up[1], dn[0], dn[1]]
    nm = "resolve%d" % (0 if base is None else 1)
    if base is not None:
        a += [base[0], base[1]]
    if mkbool(ufun(nm + ".fails", z3.BoolSort(), *a)):
        raise ValueError()
    r, c = [ufun(nm + x, z3.IntSort(), *a) for x in (".r", ".c")]
    cur().assume(z3.And(r >= 0, c >= 0))      # proved: ResolveCell's range lemma
    return Coords(SInt(r), SInt(c))


def opaque_target(name, sm, dn, land, mov):
    a = [dn[0], dn[1], land[0], land[1], mov]
    if mkbool(ufun(name + ".fails", z3.BoolSort(), *a)):
        raise EmptyCaptureException()
    r, c = [ufun(name + x, z3.IntSort(), *a) for x in (".r", ".c")]
    cur().assume(z3.And(r >= 0, c >= 0))
    return Coords(SInt(r), SInt(c))


def opaque_expand(sm, r1, r2, exp):
    a = sorted_rect(r1, r2) + [exp]
    r1, r2, c1, c2 = [ufun("expand" + x, z3.IntSort(), *a) for x in (".r1", ".r2", ".c1", ".c2")]
    cur().assume(z3.And(0 <= r1, r1 <= r2, 0 <= c1, c1 <= c2))
    return Coords(SInt(r1), SInt(c1)), Coords(SInt(r2), SInt(c2))


class ResolveRange(Lemma, ResolveCell):
    """lemma used by the capture contract: resolved cells are never negative
    when the margins and the base are not"""
    def check(self, args, kw, out):
        if out.exc is not None:
            return isinstance(out.exc, ValueError)
        return both(out.value[0] >= 0, out.value[1] >= 0)


class TargetRange(Lemma, Opposite):
    """lemma: targets are cells, never negative, and full"""
    def check(self, args, kw, out):
        if out.exc is not None:
            return isinstance(out.exc, EmptyCaptureException)
        return both(out.value[0] >= 0, out.value[1] >= 0, full(args[0], *out.value))


class TargetSameRange(Lemma, Same):
    def check(self, args, kw, out):
        if out.exc is not None:
            return isinstance(out.exc, EmptyCaptureException)
        return both(out.value[0] >= 0, out.value[1] >= 0)


class SortRect(Contract):
    prop = "C05"
    target = CAP + "_sort_rect"

    def inputs(self, g):
        return (Coords(g.int("a0"), g.int("a1")), Coords(g.int("b0"), g.int("b1"))), {}

    def spec(self, r1, r2):
        a, b, c, d = sorted_rect(r1, r2)
        return [[a, c], [b, d]]

    def result(self, ctx, args, kw):
        from pyvc.nparr import OArr
        o = np.empty((2, 2), dtype=object)
        o[:] = self.spec(*args)
        return o.view(OArr)

    def check(self, args, kw, out):
        if out.exc is not None or np.shape(out.value) != (2, 2):
            return False
        return mkbool(same([list(r) for r in out.value], self.spec(*args)))

    def cases(self, rng, tier):
        for _ in range(500):
            yield (Coords(rng.randint(0, 9), rng.randint(0, 9)),
                   Coords(rng.randint(0, 9), rng.randint(0, 9))), {}
        yield (Coords(10 ** 6, 3), Coords(5, 10 ** 5)), {}


def the(contract, *a):
    """what a callee's contract promises, on symbolic or concrete arguments"""
    if in_ctx():
        return contract.result(cur(), a, {})
    o = contract.spec_outcome(a, {})
    if o.exc is not None:
        raise o.exc
    return o.value


from pyvc.core import in_ctx  # noqa


class CaptureRect(Contract):
    """Resolve the 1st landing cell; from a full one '+' runs to the end of
    its block, from an empty one the moves search; the 2nd likewise with the
    resolved 1st as base (a '.,.' landing runs unless '?'); then expand, and
    order the vertices."""
    prop = "C05"
    target = CAP + "resolve_capture_rect"
    shards = 14
    weight = 5

    def inputs(self, g):
        sm = g.mat("sm")
        up = Coords(g.int("up.row", 0), g.int("up.col", 0))
        dn = Coords(g.int("dn.row", 0), g.int("dn.col", 0))
        g.assume(covers(sm, dn))
        st = _parse.Edge(Opaque("st.land"), g.choice(None, Opaque("st.mov")),
                         g.choice(None, "+", "?"))
        nd = g.choice(None, 1) and _parse.Edge(
            Opaque("nd.land"), g.choice(None, Opaque("nd.mov")), g.choice(None, "+", "?"))
        exp = g.choice(None, Opaque("exp"))
        base = g.choice(None, Coords(g.int("base.row", 0), g.int("base.col", 0)))
        return (sm, (up, dn), st, nd, exp, base), {}

    def spec(self, sm, margins, st_edge, nd_edge=None, exp_moves=None, base=None):
        up, dn = margins
        resolve, same_, opp, exp = ResolveCell(), Same(), Opposite(), Expand()

        def target(edge, cell, runs):
            if edge.mov is None:
                return cell
            if full(sm, *cell):
                return the(same_, sm, dn, cell, edge.mov) if runs else cell
            return the(opp, sm, dn, cell, edge.mov)
        st = the(resolve, st_edge.land, up, dn, base)
        st = target(st_edge, st, st_edge.mod == "+")
        nd = None
        if nd_edge is not None:
            nd = the(resolve, nd_edge.land, up, dn, st)
            runs = nd_edge.mov is not None and full(sm, *nd) and (
                nd_edge.mod == "+" or
                nd_edge.mod != "?" and nd_edge.land == _parse.Cell(".", "."))
            nd = target(nd_edge, nd, runs)
        if exp_moves:
            return the(exp, sm, st, st if nd is None else nd, exp_moves)
        if nd is None:
            return st, None
        r1, r2, c1, c2 = sorted_rect(st, nd)
        return Coords(r1, c1), Coords(r2, c2)

    def cases(self, rng, tier):
        from pandalone.xleash._parse import Cell, Edge
        rows = ["^", "_", ".", "1", "2", "3", "5", "-1", "-2", "-3", "9"]
        cols = ["^", "_", ".", "A", "B", "c", "E", "-1", "-2", "3", "K"]
        n = 6000 if tier == "quick" else 80000
        pick = rng.choice
        for i in range(n):
            m = rand_mat(rng, 5, 5)
            if i % 3 == 0:
                m[:1] = False
            ri, ci = np.where(m)
            up = Coords(int(ri.min()), int(ci.min())) if len(ri) else Coords(0, 0)
            E = lambda: Edge(Cell(pick(rows), pick(cols)), pick([None] + MOVES),
                             pick([None, "+", "?"]))
            st, nd = E(), pick([None, E()])
            if nd is not None and i % 2:
                nd = Edge(Cell(".", "."), nd.mov, nd.mod)
            exp = pick([None, None, "L", "RD", "LURD", "U1D?", "R2"])
            base = pick([None, Coords(rng.randint(0, 5), rng.randint(0, 5))])
            yield (m, (up, con_sheet(m)), st, nd, exp, base), {}
        big = np.zeros((70001, 3), dtype=bool)
        big[40000:66000, 1] = big[66001:70000, 0] = True
        mg = (Coords(40000, 0), Coords(69999, 1))
        for r in ("1", "40001", "65537", "66000", "70000", "70009", "_", "^"):
            for st, nd, exp in ((Edge(Cell(r, "B"), "U", "+"), Edge(Cell("1", "A"), "D"), None),
                                (Edge(Cell(r, "A"), "DR"), Edge(Cell("66001", "C"), "L"), None),
                                (Edge(Cell(r, "C"), "L"), None, "U5D4R?"),
                                (Edge(Cell("-1", "A")), Edge(Cell(r, "ZZZ")), None)):
                yield (big, mg, st, nd, exp, None), {}


def cellname(r, c):
    return _parse.Cell(str(r + 1), col_letters(c))


class ViaCapture(CaptureRect):
    """the same guarantee seen from the public entry point"""
    bounded = "concrete sheets up to 7x7 through resolve_capture_rect"
    call_site = False
    weight = 0

    def sheets(self, rng, n, *dims):
        for _ in range(n):
            m = rand_mat(rng, *dims)
            ri, ci = np.where(m)
            up = Coords(int(ri.min()), int(ci.min())) if len(ri) else Coords(0, 0)
            yield m, (up, con_sheet(m))


class PublicCoords(ViaCapture):
    prop = "C01"

    def cases(self, rng, tier):
        E, C = _parse.Edge, _parse.Cell
        R = ["^", "_", ".", "0"] + [str(i) for i in (1, 2, 7, 11, 300, -1, -2, -3, -5, -9, -12, 70000)]
        Cc = R + ["A", "b", "Z", "AA", "aZ", "BA", "ZZ", "AAA", "XFD", "bcde", "UVXWK", "Abcdefgh"]
        for m, mg in itertools.chain(self.sheets(rng, 5), mid_sheets(rng, 2)):
            for r in R:
                for c in Cc:
                    for base in (None, Coords(4, 2), Coords(0, 0), Coords(0, 3), Coords(5, 0)):
                        yield (m, mg, E(C(r, c)), None, None, base), {}
                    for st in (C("2", "C"), C("1", "A"), C("_", "^")):
                        yield (m, mg, E(st), E(C(r, c)), None, None), {}


def long_mats(rng):
    """tall and wide sheets: sparse ones and ones with long blocks"""
    for n in (300, 700, 40000, 70000):
        for dense in (False, True):
            m = np.zeros((n, 2), dtype=bool)
            if dense:
                m[rng.randint(0, 5):n - rng.randint(0, 5)] = True
                m[n // 2, 1] = False
            else:
                for _ in range(3):
                    m[rng.randint(n * 9 // 10, n - 1), rng.randint(0, 1)] = True
                    m[rng.randint(0, n // 20), rng.randint(0, 1)] = True
            yield m
            yield m.T.copy()


def long_cases(rng, mod, moves, exp=None):
    for m in long_mats(rng):
        r, c = m.shape
        mg = (Coords(*[int(x) for x in np.argwhere(m).min(0)]), con_sheet(m))
        for land in ((0, 0), (r - 1, c - 1), (r // 2, c // 2), (r - 1, 0), (0, c - 1), (r // 2 + 1, 0)):
            for mv in moves:
                yield (m, mg, _parse.Edge(cellname(*land), mv, mod), None, exp, None), {}


def mid_sheets(rng, n):
    """blocks and stray cells on sheets of some tens or hundreds of cells a side"""
    for i in range(n):
        big = i % 4 == 0
        r, c = (rng.randint(9, 150 if big else 26) for _ in range(2))
        m = np.zeros((r, c), dtype=bool)
        for _ in range(rng.randint(1, 4)):
            r0, c0 = rng.randrange(r), rng.randrange(c)
            m[r0:r0 + rng.randint(1, r), c0:c0 + rng.randint(1, c)] = rng.random() < .8
        for _ in range(rng.randint(0, 6)):
            m[rng.randrange(r), rng.randrange(c)] ^= True
        if rng.random() < .3:       # blank strips at the far ends
            m[r - rng.randint(0, r // 3):] = False
            m[:, c - rng.randint(0, c // 3):] = False
        ri, ci = np.where(m)
        up = Coords(int(ri.min()), int(ci.min())) if len(ri) else Coords(0, 0)
        yield m, (up, con_sheet(m))


class PublicOpposite(ViaCapture):
    prop = "C03"

    def cases(self, rng, tier):
        for m, mg in mid_sheets(rng, 250 if tier == "quick" else 4000):
            for mv in MOVES:
                r, c = rng.randint(0, m.shape[0] + 20), rng.randint(0, m.shape[1] + 20)
                if not full(m, r, c):
                    yield (m, mg, _parse.Edge(cellname(r, c), mv, None), None, None, None), {}
        for a, k in long_cases(rng, None, MOVES1 + (MOVES2 if tier != "quick" else ["DR", "LU"])):
            if not full(a[0], *_rc(a[2].land)):
                yield a, k
        for m, mg in self.sheets(rng, 150 if tier == "quick" else 3000):
            for mv in MOVES:
                for _ in range(3):
                    r, c = rng.randint(0, m.shape[0] + 2), rng.randint(0, m.shape[1] + 2)
                    if not full(m, r, c):
                        yield (m, mg, _parse.Edge(cellname(r, c), mv, rng.choice([None, "+", "?"])),
                               None, None, None), {}


def _rc(cell):
    return int(cell.row) - 1, letters_value(cell.col)


class PublicSame(ViaCapture):
    prop = "C04"

    def cases(self, rng, tier):
        for a, k in long_cases(rng, "+", MOVES1 + ["DR", "LU"]):
            if full(a[0], *_rc(a[2].land)):
                yield a, k
        for m, mg in mid_sheets(rng, 250 if tier == "quick" else 4000):
            for mv in MOVES:
                r, c = rng.randint(0, m.shape[0] - 1), rng.randint(0, m.shape[1] - 1)
                if full(m, r, c):
                    yield (m, mg, _parse.Edge(cellname(r, c), mv, "+"), None, None, None), {}
        for m, mg in self.sheets(rng, 150 if tier == "quick" else 3000):
            for mv in MOVES:
                for _ in range(4):
                    r, c = rng.randint(0, m.shape[0] - 1), rng.randint(0, m.shape[1] - 1)
                    if full(m, r, c):
                        yield (m, mg, _parse.Edge(cellname(r, c), mv, "+"), None, None, None), {}


class PublicExpand(ViaCapture):
    prop = "C06"

    def cases(self, rng, tier):
        for e in ("R300D300", "LURD", "D40R40"):
            for m in long_mats(rng):
                r, c = m.shape
                if max(r, c) < 1000:
                    mg = (Coords(*[int(x) for x in np.argwhere(m).min(0)]), con_sheet(m))
                    yield (m, mg, _parse.Edge(cellname(r // 2 + 1, c // 2)), None, e, None), {}
        for m, mg in itertools.chain(mid_sheets(rng, 800 if tier == "quick" else 8000),
                                     self.sheets(rng, 1500 if tier == "quick" else 30000)):
            e = "".join(rng.choice("LURDLURD?123") for _ in range(rng.randint(1, 6)))
            e = "R" + e[1:] if e[0] in "?123" else e
            try:
                split_moves(e)
            except ValueError:
                continue
            a, b = (max(8, n + 3) for n in m.shape)
            P = lambda: _parse.Edge(cellname(rng.randint(0, a), rng.randint(0, b)))
            yield (m, mg, P(), rng.choice([None, P()]), e, None), {}


CONTRACTS = [PublicCoords, PublicOpposite, PublicSame, PublicExpand, SortRect, CaptureRect, ResolveRange, TargetRange, TargetSameRange, Margins, SheetMargins, Opposite, Same, ColName, Coords2Cell, Row2Num, Col2Num, ResolveCoord, ResolveCell, ParseMoves,
             Expand]
