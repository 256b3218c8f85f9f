"""Contracts for reading cells (pandalone/xleash/io/_xlrd.py and ArraySheet)."""
import datetime
import fractions
import os
import shutil
import tempfile

import numpy as np
import xlrd
from xlrd.sheet import Cell
import z3

from pyvc.contract import Contract, Ok, Err, conc
from pyvc.core import cur, in_ctx, Unsupported
from pyvc import rt, tokens
from pyvc.loops import Build, SList, prove_same
from pyvc.spec import *
from pyvc.vals import *

from pandalone import xleash
from pandalone.xleash import Coords, EmptyCaptureException
from pandalone.xleash.io import _xlrd as X, backend as be_mod

XL = "pandalone.xleash.io._xlrd:"
BE = "pandalone.xleash.io.backend:"

EMPTY, TEXT, NUMBER, DATE, BOOL, ERROR, BLANK = range(7)


# -- numbers and dates ------------------------------------------------------

class SNum(Sym):
    """any finite float (a real number: int(), == and % 1 of it are exact)"""
    __class__ = property(lambda self: float)
    is_number = True

    def __init__(self, t):
        self.t = t

    def to_int(self):
        t = self.t
        return mkint(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))

    def _o(self, o):
        if isinstance(o, SNum):
            return o.t
        if isintlike(o):
            return z3.ToReal(tint(o))
        if type(o) is float and o - o == 0:
            return z3.RealVal(str(fractions.Fraction(o)))
        raise Unsupported("float arithmetic")

    def _cmp(op):
        def f(self, o):
            if o is None or isinstance(o, str):
                return op == "ne"
            x, y = self.t, self._o(o)
            return mkbool({"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[op])
        return f
    __eq__, __ne__, __lt__, __le__, __gt__, __ge__ = map(_cmp, ["eq", "ne", "lt", "le", "gt", "ge"])
    __hash__ = Sym.__hash__

    def is_integer(self):
        return mkbool(z3.IsInt(self.t))

    def __mod__(self, o):
        if o != 1:
            raise Unsupported("float modulo")
        return SNum(self.t - z3.ToReal(z3.ToInt(self.t)))

    def __floordiv__(self, o):
        if o != 1:
            raise Unsupported("float division")
        return SNum(z3.ToReal(z3.ToInt(self.t)))

    def __sub__(self, o):
        cur().eng.stats.trust("float + and - as on real numbers, in _parse_cell")
        return SNum(self.t - self._o(o))

    def __rsub__(self, o):
        return SNum(self._o(o) - self.t)

    def __add__(self, o):
        return SNum(self._o(o) + self.t)

    __radd__ = __add__

    def __neg__(self):
        return SNum(-self.t)

    def __abs__(self):
        return SNum(z3.If(self.t < 0, -self.t, self.t))

    def __bool__(self):
        return cur().branch(self.t != 0)

    def __str__(self):
        return "<float>"

    __repr__ = __str__

    def __format__(self, spec):
        return "<float>"

    def __index__(self):
        raise TypeError("'float' object cannot be interpreted as an integer")

    def same_as(self, o):
        return self.t == o.t if isinstance(o, SNum) else z3.BoolVal(False)

    def concretize(self, m):
        v = m.eval(self.t, model_completion=True)
        return float(v.as_fraction())


@rt.model(float)
def _float(x=0.0):
    if isinstance(x, SNum):
        return x
    if is_sym(x):
        raise Unsupported("float()")
    return float(x)


class SStamp(Sym):
    """any moment; its parts are ints"""
    __class__ = property(lambda self: datetime.datetime)
    names = ("year", "month", "day", "hour", "minute", "second", "microsecond")

    def __init__(self, name):
        self.name = name
        for n in self.names:
            setattr(self, n, SInt(z3.Int(name + "." + n)))

    def timetuple(self):
        return tuple(getattr(self, n) for n in self.names[:6]) + (0, 1, -1)

    def date(self):
        return SDay(self.year, self.month, self.day)

    def time(self):
        return STime(*[getattr(self, n) for n in self.names[3:]])

    def _none(self, o):
        raise Unsupported("comparison of moments")

    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __sub__ = _none
    __hash__ = Sym.__hash__

    def __repr__(self):
        return "<datetime>"


class SDay(Sym):
    __class__ = property(lambda self: datetime.date)

    def __init__(self, y, m, d):
        self.year, self.month, self.day = y, m, d

    def parts(self):
        return self.year, self.month, self.day

    def timetuple(self):
        return self.parts() + (0, 0, 0, 0, 1, -1)

    def __eq__(self, o):
        if isinstance(o, datetime.date):
            return both(*[a == b for a, b in zip(self.parts(), (o.year, o.month, o.day))])
        return False

    def __ne__(self, o):
        return no(self == o)

    __hash__ = Sym.__hash__


class STime(Sym):
    __class__ = property(lambda self: datetime.time)

    def __init__(self, hour=0, minute=0, second=0, microsecond=0):
        self.parts = (hour, minute, second, microsecond)

    def same_as(self, o):
        return z3.And(*[same(a, b) for a, b in zip(self.parts, o.parts)]) if isinstance(o, STime) else z3.BoolVal(False)

    def __repr__(self):
        return "<time>"


@rt.model(datetime.time)
def _time(*a, **kw):
    return STime(*a, **kw)


def stamp(v, e1904):
    """the moment of a date cell"""
    if in_ctx():
        if isinstance(e1904, SBool) or type(e1904) is not bool:
            raise Unsupported("epoch")
        cur().eng.stats.trust("xlrd.xldate.xldate_as_datetime(value, epoch1904) is a function of both")
        return SStamp("stamp%d(%s)" % (e1904, v.t))
    return xlrd.xldate.xldate_as_datetime(v, e1904)


@rt.model(xlrd.xldate.xldate_as_datetime)
def _as_dt(v, e1904):
    return stamp(v, bool(e1904))


class ParseCell(Contract):
    """A cell's value by its type: whole numbers are ints, dates moments in
    the workbook's epoch (the first day: a time), errors NaN, no content None."""
    prop = "C18"
    target = XL + "_parse_cell"
    internal = True

    def inputs(self, g):
        ctype = g.choice(EMPTY, TEXT, NUMBER, DATE, BOOL, ERROR, BLANK, "other")
        e = g.choice((False,), (True,), ())
        v = {TEXT: g.str("text"), NUMBER: SNum(z3.Real("number")), DATE: SNum(z3.Real("date")), BOOL: g.int("truth", 0, 1),
             ERROR: g.int("error"), EMPTY: "", BLANK: ""}.get(ctype, 1)
        if ctype == "other":
            ctype = g.int("ctype")
            g.assume(either(ctype < 0, ctype > 6))
        return (Cell(ctype, v),) + e, {}

    def spec(self, cell, e1904=False):
        t, v = cell.ctype, cell.value
        if is_sym(t) or t not in range(7):
            raise ValueError
        if t in (EMPTY, BLANK):
            return None
        if t == TEXT:
            return v
        if t == BOOL:
            return mkbool(v.t != 0) if is_sym(v) else bool(v)
        if t == ERROR:
            return float("nan")
        if t == NUMBER:
            if is_sym(v):
                if cur().branch(z3.IsInt(v.t)):
                    return mkint(z3.ToInt(v.t))
                return v
            return int(v) if float(v).is_integer() else v
        d = stamp(v, e1904)
        day = (1904, 1, 1) if e1904 else (1899, 12, 31)
        if all([bool(a == b) for a, b in zip((d.year, d.month, d.day), day)]):
            return d.time()
        return d

    def check(self, args, kw, out):
        want = self.spec_outcome(args, kw)
        if out.exc is None and want.exc is None and isinstance(want.value, SStamp):
            return out.value is want.value or (isinstance(out.value, SStamp) and out.value.name == want.value.name)
        if not in_ctx() and out.exc is None and want.exc is None and type(out.value) is not type(want.value):
            return False
        return self.agree(want, out)

    def concretize(self, args, kw, m):
        c = args[0]
        return (Cell(conc(c.ctype, m), conc(c.value, m)),) + args[1:], {}

    def lift(self, args, kw):
        yield EndToEnd(), ([[None, args[0]], ["x", "y"]], bool(args[1:] and args[1]), [(0, 0, 1, 1), (0, 1, 0, 1)]), {}

    def cases(self, rng, tier):
        pool = [(EMPTY, ""), (BLANK, ""), (TEXT, ""), (TEXT, "a"), (TEXT, "1"), (NUMBER, 0.0), (NUMBER, 1.0), (NUMBER, -1.0), (NUMBER, 1.5),
                (NUMBER, -2.5), (NUMBER, 1e15), (NUMBER, 1e300), (NUMBER, 123456789012.0), (NUMBER, 65536.0), (NUMBER, -0.25), (BOOL, 0), (BOOL, 1), (ERROR, 15), (ERROR, 7), (ERROR, 0),
                (7, 1), (-1, 2), (99, 3)]
        for n in (0.0, 1.0, -1.0, 5.0, 65536.0, 1e9, 2.0 ** 53, 1e18):
            for d in (1e-300, 1e-16, 1e-13, 1e-10, 1e-6, .5):
                pool += [(NUMBER, n + d), (NUMBER, n - d)]
            pool += [(NUMBER, float(np.nextafter(n, s * np.inf))) for s in (1, -1)] + [(NUMBER, n)]
        for t, v in pool:
            for e in ((), (False,), (True,)):
                yield (Cell(t, v),) + e, {}
        for _ in range(400):
            v = rng.choice([rng.uniform(0, 3), rng.uniform(61, 60000), float(rng.randint(61, 60000)), 0.0, 0.5, .999, 1.0, 1.25, 1462.0, 1462.5, 366.0, 59.0])
            yield (Cell(DATE, v),) + rng.choice([(), (False,), (True,)]), {}


# -- sheets -----------------------------------------------------------------

class FakeBook:
    """a book of any sheets: by_name(text) says which one has that name"""

    def __init__(self, n, has, number, datemode):
        self.nsheets, self.has, self.number, self.datemode = n, has, number, datemode

    def sheet_by_index(self, i):
        if bool(both(i >= 0, i < self.nsheets)) if is_sym(i) else bool(i >= 0) and bool(i < self.nsheets):
            return FakeSheet(self, i)
        if bool(both(i < 0, i >= -self.nsheets)):
            return FakeSheet(self, self.nsheets + i)
        raise IndexError("list index out of range")

    def sheet_by_name(self, nm):
        if bool(self.has(nm)):
            return FakeSheet(self, self.number(nm))
        raise xlrd.XLRDError("No sheet named <%r>" % (nm,))

    def sheet_names(self):
        raise Unsupported("names of any book")


class FakeSheet(xlrd.sheet.Sheet):
    def __init__(self, book, number):
        self.book, self.number = book, number


INTTEXT = z3.Function("text_is_int", z3.StringSort(), z3.BoolSort())
INTOF = z3.Function("int_of_text", z3.StringSort(), z3.IntSort())


class SName(SStr):
    """any text; int() of it is a function of it"""

    def to_int(self):
        cur().eng.stats.trust("int(text) is a function of the text, or a ValueError")
        if cur().branch(INTTEXT(self.t)):
            return SInt(INTOF(self.t))
        raise ValueError("invalid literal for int()")

    def _digits(self):
        raise Unsupported("digits of any text")
    isdigit = isdecimal = isnumeric = _digits


HAS = z3.Function("has_sheet", z3.StringSort(), z3.BoolSort())
NUM = z3.Function("sheet_number", z3.StringSort(), z3.IntSort())


class OpenSibling(Contract):
    """Sheets are opened by name, else by their index, counting from the
    first; each keeps the epoch of its workbook."""
    prop = "C18"
    target = XL + "XlrdSheet.open_sibling_sheet"
    call_site = False
    signature_matters = False

    def inputs(self, g):
        n = g.int("nsheets", 1)
        b = FakeBook(n, lambda s: mkbool(HAS(tstr(s))), lambda s: SInt(NUM(tstr(s))), g.choice(0, 1))
        s = z3.String("id")
        g.assume(z3.And(NUM(s) >= 0, NUM(s) < n.t))
        ident = g.choice(None, g.int("index"), SName(s))
        return (b, g.choice("book.xls", None), ident), {}

    def invoke(self, func, args, kw):
        b, fname, ident = args
        run = rt.call if in_ctx() else lambda f, *a: f(*a)
        me = run(X.XlrdSheet, b.sheet_by_index(0), fname, bool(b.datemode))
        r = run(me.open_sibling_sheet, ident)
        if type(r) is not X.XlrdSheet or r._sheet.book is not b or r.book_fname != fname:
            raise AssertionError("not a sheet of that book")
        return r._sheet.number, bool(r._epoch1904) == bool(b.datemode)

    def spec(self, b, fname, ident):
        i = ident
        if ident is None:
            i = 0
        elif isinstance(ident, str):
            if bool(b.has(ident)):
                return b.number(ident), True
            err = xlrd.XLRDError("none")
            try:
                i = rt.call(int, ident) if in_ctx() else int(ident)
            except ValueError:
                raise err
        return b.sheet_by_index(i).number, True

    def concretize(self, args, kw, m):
        b, fname, ident = args
        ident = conc(ident, m)
        n = min(conc(b.nsheets, m), 6)
        i = z3.String("id")
        if isinstance(args[2], SName):
            has = z3.is_true(m.eval(HAS(i), model_completion=True))
            num = m.eval(NUM(i), model_completion=True).as_long()
            isint = z3.is_true(m.eval(INTTEXT(i), model_completion=True))
            ident = str(m.eval(INTOF(i), model_completion=True).as_long()) if isint else "some name"
            return (book_of(n, {ident: num % n} if has else {}, b.datemode), fname, ident), {}
        return (book_of(n, {}, b.datemode), fname, ident), {}

    def cases(self, rng, tier):
        for _ in range(500):
            n = rng.randint(1, 4)
            names = rng.sample(["a", "Sheet1", "1", "0", "-1", "2", " 3", "x y", "", "1.0"] + tokens.texts("pandalone.xleash.io._xlrd"), n)
            ident = rng.choice([None, rng.randint(-5, 5), rng.choice(names), rng.choice(["a", "1", "2", "0", "-1", "9", "x", "1.0", " 1", "Sheet1"]),
                                rng.choice(["%s ", " %s", "%s\t", "%s.", "'%s'", "%s!", "x%s"]) % rng.choice(names),
                                rng.choice([str.lower, str.upper, str.strip, str.title])(rng.choice(names)),
                                str(rng.randint(-3, 4))])
            yield (book_of(n, {s: i for i, s in enumerate(names)}, rng.choice([0, 1])), rng.choice(["b.xls", None]), ident), {}


def book_of(n, names, datemode):
    b = FakeBook(n, lambda s: s in names, lambda s: names[s], datemode)
    b.names = names
    return b


FakeBook.__repr__ = lambda b: "Book(%s sheets, %s, datemode=%s)" % (b.nsheets, getattr(b, "names", "?"), b.datemode)


PARSED = z3.Function("parsed", z3.IntSort(), z3.IntSort(), Val)


class GridSheet(xlrd.sheet.Sheet):
    """any grid of cells; full(r, c) tells those with content"""

    def __init__(self, nrows, ncols, full):
        self.nrows, self.ncols, self.full = nrows, ncols, full

    def inside(self, r, c):
        return both(r >= 0, r < self.nrows, c >= 0, c < self.ncols)

    def cell(self, r, c):
        if not bool(self.inside(r, c)):
            raise IndexError("outside the sheet")
        f = bool(self.full(r, c))
        return Cell(TEXT if f else EMPTY, Tag(r, c) if f else "")

    def cell_type(self, r, c):
        return self.cell(r, c).ctype

    def cell_value(self, r, c):
        return self.cell(r, c).value

    def row_len(self, r):
        return self.ncols


class Tag(Sym):
    """the content of cell (r, c)"""
    __class__ = property(lambda self: str)

    def __init__(self, r, c):
        self.r, self.c = r, c

    def same_as(self, o):
        if isinstance(o, CellAt):
            return o.same_as(self)
        return z3.And(same(self.r, o.r), same(self.c, o.c)) if isinstance(o, Tag) else z3.BoolVal(False)

    def __repr__(self):
        return "<cell %s,%s>" % (self.r, self.c)

    __str__ = __repr__


class CellAt(Sym):
    """what the specification says of cell (r, c): its content, or None"""

    def __init__(self, sm, r, c):
        self.sm, self.r, self.c = sm, r, c

    def full(self):
        nr, nc = shape(self.sm)
        return tbool(both(self.r < nr, self.c < nc, full(self.sm, self.r, self.c)))

    def same_as(self, o):
        if o is None:
            return z3.Not(self.full())
        if isinstance(o, Tag):
            return z3.And(self.full(), same(self.r, o.r), same(self.c, o.c))
        if isinstance(o, CellAt):
            return z3.And(same(self.r, o.r), same(self.c, o.c))
        return z3.BoolVal(False)


class ReadRectAny(Contract):
    """A rect is read as rows of its cells' values, None for those without
    content and those outside the sheet."""
    prop = "C18"
    target = XL + "XlrdSheet.read_rect"
    call_site = False
    signature_matters = False
    stand_in = "ReadRect"

    def inputs(self, g):
        sm = g.mat("sm")
        st = Coords(g.int("st.row", 0), g.int("st.col", 0))
        nd = Coords(g.int("nd.row"), g.int("nd.col"))
        g.assume(both(st.row <= nd.row, st.col <= nd.col))
        h, w = nd.row - st.row + 1, nd.col - st.col + 1

        def over(n):
            """does a loop walk over so many lines?"""
            def f(L):
                return L.seq is not None and L.seq.n is not None and L.ctx.entails(tint(L.seq.n) == n.t)
            return f
        rows, cols = over(h), over(w)

        def cell(L, j):
            k = [l.k for l in cur().loop_stack if l is not L and rows(l)]
            if not k:
                raise Unsupported("columns walked outside any walk over the rows")
            return CellAt(sm, st.row + SInt(k[-1]), st.col + SInt(j))

        def row(L, i):
            return SList(w, lambda j: CellAt(sm, st.row + SInt(i), st.col + SInt(j)))
        self.loops = [Build(rows, row, fresh=True), Build(cols, cell)]
        self.want = SList(h, lambda i: row(None, i))
        return (sm, st, nd, None), {}

    def __init__(self):
        super().__init__()
        self.loops = ()

    def invoke(self, func, args, kw):
        cur().eng.loop_handlers = list(self.loops)
        return ReadRect.invoke(self, func, args, kw)

    def check(self, args, kw, out):
        if out.exc is not None:
            return False
        prove_same(cur(), "every cell of the rect", out.value, self.want)
        if isinstance(out.value, SList):
            i, j = cur().int("one"), cur().int("other")
            if out.value.get(i) is out.value.get(j):
                return False
        return True

    def concretize(self, args, kw, m):
        sm, st, nd, size = args
        h, w = conc((nd.row - st.row + 1, nd.col - st.col + 1), m)
        return conc((sm, st, nd), m) + ((h, w),), {}

    def lift(self, args, kw):
        yield ReadRect(), args, kw


class ReadRect(Contract):
    """A rect is read as rows of its cells' values, None for those without
    content and those outside the sheet."""
    prop = "C18"
    target = XL + "XlrdSheet.read_rect"
    call_site = False
    proof_bound = "rects up to 2x3 or 3x1, anywhere in (or over) a sheet of any size"
    shards = 5
    signature_matters = False

    def inputs(self, g):
        sm = g.mat("sm")
        st = Coords(g.int("st.row", 0), g.int("st.col", 0))
        size = g.choice(None, (1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3))
        nd = None if size is None else Coords(st.row + (size[0] - 1), st.col + (size[1] - 1))
        if nd is None:
            nr, nc = shape(sm)
            g.assume(both(st.row < nr, st.col < nc))
        return (sm, st, nd, size), {}

    def invoke(self, func, args, kw):
        sm, st, nd, size = args
        if not in_ctx():
            sh = X.XlrdSheet(GridSheet(sm.shape[0], sm.shape[1], lambda r, c: sm[r, c]), "b")
            sh._states_matrix = sm
            return sh.read_rect(st, nd)
        nr, nc = shape(sm)
        sh = rt.call(X.XlrdSheet, GridSheet(nr, nc, lambda r, c: full(sm, r, c)), "b")
        sh._states_matrix = sm
        return rt.call(sh.read_rect, st, nd)

    def check(self, args, kw, out):
        sm, st, nd, size = args
        if out.exc is not None:
            return False
        nr, nc = shape(sm) if in_ctx() else sm.shape

        def isval(v, r, c):
            has = both(r < nr, c < nc)
            if not in_ctx():
                has = has and bool(sm[r, c])
                return (isinstance(v, Tag) and (v.r, v.c) == (r, c)) if has else v is None
            f = both(has, full(sm, r, c))
            if v is None:
                return no(f)
            return both(f, mkbool(same(v, Tag(r, c)))) if isinstance(v, Tag) else False
        if nd is None:
            return isval(out.value, *st)
        t = out.value
        h, w = size
        if not isinstance(t, list) or len(t) != h or any(not isinstance(x, list) or len(x) != w for x in t):
            return False
        if len({id(x) for x in t}) != h:
            return False
        return both(*[isval(t[i][j], st.row + i, st.col + j) for i in range(h) for j in range(w)])

    def concretize(self, args, kw, m):
        sm, st, nd, size = args
        return conc((sm, st, nd), m) + (size,), {}

    def cases(self, rng, tier):
        for _ in range(400):
            r, c = rng.randint(1, 5), rng.randint(1, 5)
            m = np.array([[rng.random() < .6 for _ in range(c)] for _ in range(r)])
            st = Coords(rng.randint(0, 5), rng.randint(0, 5))
            h, w = rng.randint(1, 5), rng.randint(1, 5)
            if rng.random() < .2 and st.row < r and st.col < c:
                yield (m, st, None, None), {}
            else:
                yield (m, st, Coords(st.row + h - 1, st.col + w - 1), (h, w)), {}


class States(Contract):
    """The states are false exactly for empty and blank cells; the margins
    reach the last row and column."""
    prop = "C18"
    target = XL + "XlrdSheet._read_states_matrix"
    internal = False
    call_site = False
    signature_matters = False
    proof_bound = "sheets up to 2x3 cells, of any types"

    def inputs(self, g):
        h, w = g.choice((1, 1), (1, 2), (2, 1), (2, 2), (2, 3))
        return ([[g.int("t%d,%d" % (i, j), 0, 6) for j in range(w)] for i in range(h)],), {}

    def invoke(self, func, args, kw):
        types, = args
        s = FakeSheet(None, 0)
        s._cell_types, s.nrows, s.ncols = types, len(types), len(types[0]) if types else 0
        run = rt.call if in_ctx() else lambda f, *a: f(*a)
        if not types or not types[0]:
            try:
                run(X.XlrdSheet(s, "b").get_margin_coords)
            except EmptyCaptureException:
                return "empty"
            return "not empty"
        sh = run(X.XlrdSheet, s, "b")
        m = run(sh.get_states_matrix)
        up, dn = run(sh._read_margin_coords)
        if m.shape != (s.nrows, s.ncols) or tuple(dn) != (s.nrows - 1, s.ncols - 1) or up is not None:
            raise AssertionError("other limits")
        return [[m[i, j] for j in range(s.ncols)] for i in range(s.nrows)]

    def check(self, args, kw, out):
        types, = args
        if out.exc is not None:
            return False
        if not types or not types[0]:
            return out.value == "empty"
        w = [both(t != EMPTY, t != BLANK) for row in types for t in row]
        g = [x for row in out.value for x in row]
        if in_ctx():
            return mkbool(z3.And(*[tbool(a) == tbool(b) for a, b in zip(g, w)]))
        return all(bool(a) == bool(b) for a, b in zip(g, w))

    def cases(self, rng, tier):
        yield ([],), {}
        for _ in range(200):
            w = rng.randint(0, 5)
            yield ([[rng.choice([0, 0, 1, 2, 3, 4, 5, 6, 6]) for _ in range(w)] for _ in range(rng.randint(1, 5))],), {}


# -- end to end -------------------------------------------------------------

def norm(v):
    if isinstance(v, float) and v != v:
        return "NaN"
    return (type(v).__name__, v)


class EndToEnd(Contract):
    """What was put in a sheet is read from it."""
    prop = "C18"
    target = XL + "XlrdSheet"
    bounded = "random grids and rects put through the real xlrd.sheet.Sheet, ArraySheet, and files"
    call_site = False
    signature_matters = False

    def invoke(self, func, args, kw):
        grid, e1904, rects = args[:3]
        how = args[3] if len(args) > 3 else "xlrd"
        w = max([len(r) for r in grid] or [0])
        if how == "array":
            a = np.empty((len(grid), w), dtype=object)
            for i, row in enumerate(grid):
                for j, c in enumerate(row):
                    a[i, j] = c
            sh = be_mod.ArraySheet(a)
        else:
            book = xlrd.book.Book()
            book.datemode, book.logfile, book.verbosity, book.formatting_info = int(e1904), None, 0, 0
            book.ragged_rows, book.on_demand, book._xls_version, book._sheet_visibility = 0, 0, 80, [0]
            s = xlrd.sheet.Sheet(book, None, "S", 0)
            for i, row in enumerate(grid):
                for j, c in enumerate(row):
                    c = as_cell(c)
                    if c is not None:
                        s.put_cell(i, j, c.ctype, c.value, None)
            s.tidy_dimensions()
            book._sheet_list, book._sheet_names, book.nsheets = [s], ["S"], 1
            sh = X._open_sheet_by_name_or_index(book, "b", 0)
        out = []
        for t, l, b, r in rects:
            try:
                for _ in range(2):
                    rows = sh.read_rect(Coords(t, l), Coords(b, r))
                    out.append([[norm(v) for v in row] for row in rows])
                    for i, row in enumerate(rows):
                        row[:] = [("changed", i)] * len(row)     # rows are the reader's own
                    if any(v != ("changed", i) for i, row in enumerate(rows) for v in row):
                        raise AssertionError("rows share one list")
                if out.pop() != out[-1]:
                    raise AssertionError("changing the rows read changes what is read next")
            except EmptyCaptureException:
                out.append("empty")
            if t == b and l == r and t < len(grid) and l < len(grid[t]) and grid[t][l] is not None:
                out.append(norm(sh.read_rect(Coords(t, l), None)))
        try:
            m = sh.get_states_matrix()
            out.append([[i, j] for i in range(m.shape[0]) for j in range(m.shape[1]) if m[i, j]])
        except EmptyCaptureException:
            out.append("empty")
        return out

    def spec(self, grid, e1904, rects, how="xlrd"):
        def at(r, c):
            x = grid[r][c] if r < len(grid) and c < len(grid[r]) else None
            if how == "array" or x is None:
                return norm(x)
            return norm(ParseCell().spec(as_cell(x), e1904))
        w = max([len(r) for r in grid] or [0])
        out = []
        for t, l, b, r in rects:
            if how == "array":
                out.append("empty" if not len(grid) * w else
                           [[at(i, j) for j in range(l, min(r + 1, w))] for i in range(t, min(b + 1, len(grid)))])
            else:
                out.append([[at(i, j) for j in range(l, r + 1)] for i in range(t, b + 1)])
            if t == b and l == r and t < len(grid) and l < len(grid[t]) and grid[t][l] is not None:
                out.append(at(t, l))
        states = [[i, j] for i in range(len(grid)) for j in range(len(grid[i])) if grid[i][j] is not None
                  and (how == "array" or as_cell(grid[i][j]).ctype not in (EMPTY, BLANK))]
        out.append(states if how != "array" or len(grid) * w else "empty")
        return out

    def check(self, args, kw, out):
        want = self.spec_outcome(args, kw)
        if want.exc is not None or out.exc is not None:
            return want.exc is not None and isinstance(out.exc, type(want.exc))
        return out.value == want.value

    def cases(self, rng, tier):
        vals = [None, None, "", "x", "1", 1, 0, -3, 2.5, True, False, Cell(ERROR, 7), Cell(DATE, 0.5), Cell(DATE, 40000.25), Cell(DATE, 0.0),
                Cell(BLANK, ""), Cell(NUMBER, 70000.0), Cell(NUMBER, 1e10 + .5)]
        for n in range(300 if tier == "quick" else 4000):
            arr = rng.random() < .3
            h, w = rng.randint(1, 5), rng.randint(1, 5)
            grid = [[rng.choice(vals) for _ in range(w)] for _ in range(h)]
            if arr:
                grid = [[c.value if isinstance(c, Cell) else c for c in row] for row in grid]
            elif all(c is None for row in grid for c in row):
                grid[0][0] = 1
            rects = []
            for _ in range(4):
                t, l = rng.randint(0, 5), rng.randint(0, 5)
                rects.append((t, l, t + rng.randint(0, 3), l + rng.randint(0, 3)) if rng.random() < .7 else (t, l, t, l))
            yield (grid, rng.random() < .3, rects, "array" if arr else "xlrd"), {}


def as_cell(c):
    if c is None or isinstance(c, Cell):
        return c
    if isinstance(c, bool):
        return Cell(BOOL, int(c))
    if isinstance(c, (int, float)):
        return Cell(NUMBER, float(c))
    return Cell(TEXT, c)


def serve(d):
    """a web-server of the files of a folder, on the loopback network"""
    import http.server
    import threading

    class H(http.server.SimpleHTTPRequestHandler):
        def __init__(self, *a):
            super().__init__(*a, directory=d)

        def log_message(self, *a):
            pass

        def translate_path(self, p):
            return super().translate_path(p.split(";")[0])
    os.environ["no_proxy"] = "127.0.0.1"
    s = http.server.HTTPServer(("127.0.0.1", 0), H)
    threading.Thread(target=s.serve_forever, args=(.02,), daemon=True).start()
    return s


class Files(Contract):
    """What a workbook-file holds is read through the factory and the lasso."""
    prop = "C18"
    target = XL + "XlrdBackend.open_sheet"
    bounded = "random workbooks written with openpyxl, read with the backend the factory decides"
    call_site = False
    signature_matters = False

    def invoke(self, func, args, kw):
        import openpyxl
        sheets, want, epoch, how = args
        top = d = tempfile.mkdtemp(prefix="pyvc")
        server = None
        try:
            if how.endswith("/long"):
                how = how[:-5]
                d = os.path.join(d, "x" * 120, "y z" * 40)
                os.makedirs(d)
            p = os.path.join(d, "b k.xlsx")
            wb = openpyxl.Workbook()
            wb.remove(wb.active)
            if epoch:
                wb.epoch = openpyxl.utils.datetime.CALENDAR_MAC_1904
            for name, grid in sheets:
                ws = wb.create_sheet(name)
                for i, row in enumerate(grid):
                    for j, v in enumerate(row):
                        if v is not None:
                            ws.cell(i + 1, j + 1, v)
            wb.save(p)
            out = []
            url = p if how == "path" else "file:///" + p.lstrip("/").replace(" ", "%20")
            if how.startswith("http"):
                server = serve(d)
                url = "http://127.0.0.1:%d/b%%20k.xlsx%s" % (server.server_port, how[4:])
            with be_mod.SheetsFactory() as sf:
                for sid, rect in want:
                    try:
                        sh = sf.fetch_sheet(url, sid)
                    except (xlrd.XLRDError, IndexError):
                        out.append("none")
                        continue
                    out.append((sh.get_sheet_ids().ids, sh.list_sheetnames(),
                                [[norm(v) for v in row] for row in sh.read_rect(Coords(*rect[:2]), Coords(*rect[2:]))]))
                out.append(sf.list_sheetnames(url))
            return out
        finally:
            if server:
                server.shutdown()
                server.server_close()
            shutil.rmtree(top)

    def spec(self, sheets, want, epoch, how):
        out = []
        names = [n for n, _ in sheets]
        for sid, (t, l, b, r) in want:
            if sid is None:
                i = 0
            elif sid in names:
                i = names.index(sid)
            elif isinstance(sid, int) or sid.lstrip("-").isdigit():
                i = int(sid)
                if not -len(names) <= i < len(names):
                    i = None
                elif i < 0:
                    i += len(names)
            else:
                i = None
            if i is None:
                out.append("none")
                continue
            g = sheets[i][1]

            def at(r, c):
                v = g[r][c] if r < len(g) and c < len(g[r]) else None
                if isinstance(v, float) and v.is_integer():
                    v = int(v)
                return norm(v)
            out.append(([names[i], i], names, [[at(x, y) for y in range(l, r + 1)] for x in range(t, b + 1)]))
        return out + [names]

    def check(self, args, kw, out):
        want = self.spec_outcome(args, kw)
        return out.exc is None and out.value == want.value

    def cases(self, rng, tier):
        D = datetime.datetime
        vals = [None, None, "x", "1", "é ü", 1, 0, -3, 2.5, 7.0, True, False, D(2020, 2, 3), D(1999, 12, 31, 23, 30), D(2000, 2, 29, 12), datetime.time(12, 0), datetime.time(6, 30)]
        try:
            server = serve(tempfile.gettempdir())
            server.shutdown()
            server.server_close()
            net = True
        except OSError:
            net = False       # no loopback network here: remote workbooks are left out
        for n in range(60 if tier == "quick" else 500):
            names = rng.sample(["Sheet1", "a b", "1", "0", "Zoë", "S-2"], rng.randint(1, 3))
            sheets = [(nm, [[rng.choice(vals) for _ in range(rng.randint(1, 4))] for _ in range(rng.randint(1, 4))]) for nm in names]
            for _, g in sheets:
                g[0][0] = g[0][0] or "top"
            want = []
            for _ in range(4):
                t, l = rng.randint(0, 4), rng.randint(0, 4)
                want.append((rng.choice([None, 0, rng.choice(names), 1, "1", "2", "-1", -1, "nope"]), (t, l, t + rng.randint(0, 2), l + rng.randint(0, 2))))
            yield (sheets, want, rng.random() < .25, rng.choice(["path", "file", "path/long", "file/long"] if not net else ["path", "file", "path/long", "file/long", "http", "http;v=1", "http?a=b", "http#f"])), {}


CONTRACTS = [ParseCell, OpenSibling, ReadRectAny, ReadRect, States, EndToEnd, Files]
