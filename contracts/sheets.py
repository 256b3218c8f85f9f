"""Contracts for the sheets-factories and sheets (pandalone/xleash/io/backend.py)."""
import itertools

import z3

from pyvc.contract import Contract, Ok, Err, conc
from pyvc.core import cur, in_ctx, Unsupported
from pyvc import rt, tokens
from pyvc.spec import *
from pyvc.vals import *

from pandalone import utils
from pandalone.xleash import Coords
from pandalone.xleash.io import backend as be_mod

BE = "pandalone.xleash.io.backend:"


URL = z3.Function("path2url", z3.StringSort(), z3.StringSort())


def url_of(x):
    if is_sym(x):
        return SId(URL(x.t))
    return utils.path2url(x) if x is not None else None


class Path2Url(Contract):
    """an (idempotent) function of its text, here"""
    prop = ()
    target = "pandalone.utils:path2url"

    def apply(self, ctx, args, kw):
        if args[0] is None:
            return None
        if not is_sym(args[0]):
            raise Unsupported("path2url of a fixed text")
        t = args[0].t
        if z3.is_app(t) and t.decl().eq(URL):
            return args[0]
        ctx.eng.stats.trust("path2url maps equal texts to equal non-empty urls and urls to themselves")
        ctx.assume(z3.Implies(z3.Length(t) > 0, z3.Length(URL(t)) > 0))
        return SId(URL(t))


class Stub(be_mod.ABCSheet):
    """a sheet that counts what is done to it"""

    def __init__(self, ids, origin=None):
        self.ids, self.closed, self.closed_all, self.origin = ids, 0, 0, origin
        self.siblings = []

    def get_sheet_ids(self):
        return be_mod.SheetId(self.ids[0], list(self.ids[1]))

    def open_sibling_sheet(self, sheet_id):
        s = Stub(self.sib(sheet_id), ("sibling", self, sheet_id))
        self.siblings.append(s)
        return s

    def list_sheetnames(self):
        return [self.ids[1][0]]

    def _read_states_matrix(self):
        raise NotImplementedError

    def read_rect(self, st, nd):
        raise NotImplementedError

    def _close(self):
        self.closed += 1

    def _close_all(self):
        self.closed_all += 1

    def __repr__(self):
        return "Stub(%r)" % (self.ids,)


class StubBackend(be_mod.ABCBackend):
    def __init__(self, score, ids=None):
        self.score, self.ids, self.asked, self.opened = score, ids, [], []

    def bid(self, wb_url):
        self.asked.append(wb_url)
        return self.score

    def open_sheet(self, wb_url, sheet_id):
        s = Stub(self.ids(wb_url, sheet_id), ("opened", self, wb_url, sheet_id))
        s.sib = lambda sid: self.ids(wb_url, sid)
        self.opened.append(s)
        return s

    def list_sheetnames(self, wb_url):
        return [("names of", wb_url)]


class DecideBackend(Contract):
    """A backend that bids, none bidding more, gets it; none: ValueError."""
    prop = "C17"
    target = BE + "SimpleSheetsFactory.decide_backend"
    call_site = False
    signature_matters = False
    proof_bound = "up to 4 backends, any bids"

    def inputs(self, g):
        n = g.choice(1, 2, 3, 4)
        bes = [StubBackend(g.choice(None, g.int("bid%d" % i))) for i in range(n)]
        return (bes, SId(z3.String("wb")), g.choice("decide", "list")), {}

    def invoke(self, func, args, kw):
        bes, wb, what = args
        sf = be_mod.SimpleSheetsFactory(list(bes))
        run = rt.call if in_ctx() else lambda f, *a: f(*a)
        if what == "list":
            return run(sf.list_sheetnames, wb)
        return run(sf.decide_backend, wb)

    def check(self, args, kw, out):
        bes, wb, what = args
        url = url_of(wb)
        for b in bes:
            if len(b.asked) < 1:
                return False
            if in_ctx():
                for a in b.asked:
                    cur().prove("bids are asked for the full url", same(a, url))
            elif set(b.asked) != {url}:
                return False
        scores = [b.score for b in bes if b.score is not None]
        if not scores:
            return isinstance(out.exc, ValueError)
        if out.exc is not None:
            return False
        if what == "list":
            return len(out.value) == 1 and out.value[0][0] == "names of" and mkbool(same(out.value[0][1], url))
        for b in bes:
            if out.value is b:
                return b.score is not None and both(*[b.score >= s for s in scores])
        return False

    def concretize(self, args, kw, m):
        return ([StubBackend(conc(b.score, m)) for b in args[0]], "wb.xls", args[2]), {}

    def cases(self, rng, tier):
        nums = [0, 1, -1, -5, 100, 3, None]
        for _ in range(600):
            yield ([StubBackend(rng.choice(nums)) for _ in range(rng.randint(1, 5))],
                   rng.choice(["a.xls", "http://h/x.xlsx", "/d/e f.xls"]), rng.choice(["decide", "list"])), {}


class Model:
    """what a caching factory must serve: pairs of ids with their sheet"""

    def __init__(self):
        self.pairs, self.closed, self.closed_all = [], [], []

    def eq(self, a, b):
        if a is None or b is None or type(a) is int or type(b) is int:
            return a is b or (type(a) is type(b) and a == b)
        return bool(a == b)

    def get(self, wb, sh):
        for w, s, x in self.pairs:
            if self.eq(w, wb) and self.eq(s, sh):
                return x
        return None

    def add(self, sheet, wbs, shs):
        wb, ids = sheet.get_sheet_ids()
        keys = [(w, s) for w in [wb] + wbs for s in ids + shs if w is not None and bool(w)]
        gone = []
        for w, s in keys:
            old = self.get(w, s)
            if old is not None and old is not sheet and not any(old is x for x in gone):
                gone.append(old)
        self.closed += gone
        self.pairs = [(w, s, x) for w, s, x in self.pairs if not any(x is g for g in gone)]
        for w, s in keys:
            self.pairs = [(a, b, x) for a, b, x in self.pairs if not (self.eq(a, w) and self.eq(b, s))]
            self.pairs.append((w, s, sheet))

    def close(self):
        for w, s, x in self.pairs:
            if not any(x is y for y in self.closed_all):
                self.closed_all.append(x)
        self.pairs = []


class Bad(Exception):
    pass


def aslist(x):
    return list(x) if isinstance(x, (list, tuple)) and not is_sym(x) else [x]


class Histories(Contract):
    """Whatever was added, fetched and closed, a sheet is served under exactly
    the ids it was given and not displaced from."""
    prop = "C17"
    target = BE + "SheetsFactory"
    call_site = False
    signature_matters = False
    shards = 24
    weight = 4
    max_paths = 60000
    proof_bound = "histories of up to 4 operations, any ids"
    # operations: ("add", sheet, wb_ids, sh_ids) ("fetch", wb, sh, base) ("close",)
    # sheets 0.. are given ones; -1 the sheet of the last fetch
    SHAPES = [
        [("add", 0, "x", "y"), ("fetch", "p", "q", None)],
        [("add", 0, None, None), ("fetch", "p", "q", None), ("fetch", "p", None, None)],
        [("add", 0, ["x", "y"], ["s", None]), ("fetch", "p", "q", None)],
        [("add", 0, "x", []), ("add", 1, [], []), ("fetch", "p", "q", None)],
        [("add", 0, [], "y"), ("add", 1, [], []), ("fetch", "p", "q", None)],
        [("add", 0, [], []), ("add", 1, "z", []), ("fetch", "p", "q", None)],
        [("add", 0, [], []), ("add", 1, [], "t"), ("fetch", "p", "q", None)],
        [("add", 0, None, "y"), ("add", 1, "z", None), ("fetch", "p", None, None)],
        [("add", 0, [], []), ("add", 1, [], []), ("add", 0, [], "t"), ("fetch", "p", "q", None)],
        [("fetch", "x", "s", None), ("fetch", "y", "t", None), ("fetch", "y", "s", None)],
        [("fetch", "x", "s", None), ("fetch", "y", "t", None), ("fetch", "x", "t", None)],
        [("fetch", "x", None, None), ("fetch", "x", "t", None), ("fetch", "x", None, None)],
        [("add", 0, "x", "y"), ("fetch", None, "q", 0), ("fetch", "x", "q", None)],
        [("add", 0, [], []), ("fetch", None, "q", 0), ("fetch", None, "r", 0)],
        [("fetch", None, None, 0), ("fetch", None, "q", 0), ("fetch", None, "q", 0)],
        [("fetch", "x", "s", 0), ("fetch", "x", "s", None)],
        [("add", 0, "x", "y"), ("close",), ("fetch", "p", "q", None), ("fetch", "p", "q", None)],
        [("add", 0, "x", "y"), ("fetch", "x", "s", None), ("close",), ("fetch", None, None, 0)],
        [("fetch", "x", "s", None), ("add", 1, "z", "t"), ("fetch", "x", "s", None)],
    ]

    def inputs(self, g):
        shape = g.choice(*self.SHAPES)
        syms = {}

        def sid(n, nonempty=True):
            if n is None or isinstance(n, list):
                return n if n is None else [sid(x) for x in n]
            if n not in syms:
                syms[n] = SId(z3.String(n))
                if nonempty and n not in ("x",):
                    g.assume(z3.Length(syms[n].t) > 0)
            return syms[n]
        ops = []
        for op in shape:
            if op[0] == "add":
                ops.append((op[0], op[1], sid(op[2]), sid(op[3])))
            elif op[0] == "fetch":
                ops.append((op[0], sid(op[1]), sid(op[2]), op[3]))
            else:
                ops.append(op)
        if any(o[0] == "fetch" and o[1] is syms.get("x") for o in ops) and "x" in syms:
            g.assume(z3.Length(syms["x"].t) > 0)
        two = any(o[0] == "add" and o[1] == 1 for o in ops)
        sheets = [((sid("book%d" % i)), [sid("name%d" % i)] + ([i] if not two else [])) for i in range(2 if two else 1)]
        # what the backend's sheets call themselves
        return (sheets, ops), {}

    def native_ids(self, url, sh):
        """ids of a sheet opened by the backend"""
        if in_ctx():
            f = z3.Function("sheet_name", z3.StringSort(), z3.StringSort(), z3.StringSort())
            return url, [SId(f(url.t, z3.StringVal("") if sh is None else sh.t))]
        return url, ["n-%s" % (sh if sh is not None else "first"), 0 if sh in (None, 0) else 1]

    def invoke(self, func, args, kw):
        sheets, ops = args
        run = rt.call if in_ctx() else lambda f, *a, **k: f(*a, **k)
        backend = StubBackend(5, self.native_ids)
        sf = run(be_mod.SheetsFactory, [StubBackend(None), backend, StubBackend(1, self.native_ids)])
        given = [Stub(s) for s in sheets]
        for s in given:
            s.sib = (lambda s: lambda sid: (s.ids[0], self.native_ids(s.ids[0], sid)[1]))(s)
        m = Model()
        every = list(given)
        for op in ops:
            if op[0] == "add":
                _, i, wbs, shs = op
                m.add(given[i], aslist(wbs), aslist(shs))
                run(sf.add_sheet, given[i], wbs, shs)
            elif op[0] == "close":
                run(sf.close)
                m.close()
            else:
                _, wb, sh, b = op
                base = None if b is None else given[b]
                nopen, nsib = len(backend.opened), len(base.siblings) if base else 0
                got = run(sf.fetch_sheet, wb, sh, base)
                want = None
                if wb is None and base is not None:
                    want = base if sh is None else m.get(base.get_sheet_ids()[0], sh)
                    if want is None:
                        if len(base.siblings) != nsib + 1 or got is not base.siblings[-1]:
                            raise Bad("not its sibling")
                        o = got.origin
                        if not m.eq(o[2], sh):
                            raise Bad("sibling of another id")
                        every.append(got)
                        m.add(got, [base.get_sheet_ids()[0]], [sh])
                        want = got
                    elif len(base.siblings) != nsib:
                        raise Bad("opened again")
                else:
                    want = m.get(wb, sh)
                    if want is None:
                        if len(backend.opened) != nopen + 1 or got is not backend.opened[-1]:
                            raise Bad("not opened by the best backend")
                        _, _, u, s = got.origin
                        if not (m.eq(u, url_of(wb)) and m.eq(s, sh)):
                            raise Bad("opened with other ids")
                        every.append(got)
                        m.add(got, [wb], [sh])
                        want = got
                    elif len(backend.opened) != nopen:
                        raise Bad("opened again")
                if got is not want:
                    raise Bad("another sheet than the one known under these ids")
            for s in every:
                if bool(s.closed) != any(s is x for x in m.closed):
                    raise Bad("closed %s" % (s,))
                if bool(s.closed_all) != any(s is x for x in m.closed_all):
                    raise Bad("closed_all %s" % (s,))
        return "fine"

    def check(self, args, kw, out):
        return out.exc is None and out.value == "fine"

    def concretize(self, args, kw, m):
        return conc(args, m), {}

    def cases(self, rng, tier):
        toks = [t for t in tokens.texts("pandalone.xleash.io.backend") if t.strip()]
        for n in range(2500 if tier == "quick" else 25000):
            odd = [rng.choice(toks)] if toks and rng.random() < .3 else []
            wbs = ["w1", "w2", "w3", "/a/w1"] + odd
            shs = ["s1", "s2", "s3", 0, 1, None] + odd
            sheets = [(rng.choice(wbs), [rng.choice(["s1", "s2", "s3"] + odd), rng.choice([0, 1, 2])]) for _ in range(3)]
            ops = []
            for _ in range(rng.randint(1, 9)):
                k = rng.random()
                some = lambda pool: rng.choice([None, rng.choice(pool), rng.choice(pool), [], [rng.choice(pool), rng.choice(pool)]])
                if k < .4:
                    ops.append(("add", rng.randrange(3), some([w for w in wbs if w]), some(shs)))
                elif k < .93:
                    b = rng.choice([None, None, 0, 1, 2])
                    wb = rng.choice(wbs) if b is None or rng.random() < .4 else None
                    ops.append(("fetch", wb, rng.choice(shs), b))
                else:
                    ops.append(("close",))
            yield (sheets, ops), {}


class Resource(Contract):
    """with-statement, wrong books, and the non-caching factory"""
    prop = "C17"
    target = BE + "SheetsFactory.__exit__"
    internal = False
    call_site = False
    signature_matters = False

    def inputs(self, g):
        g.assume(z3.Length(z3.String("wb")) > 0)
        return (g.choice("with", "with-error", "simple-base", "simple-sibling", "simple-open", "nobody"),
                SId(z3.String("wb")), SId(z3.String("sh"))), {}

    def invoke(self, func, args, kw):
        how, wb, sh = args
        run = rt.call if in_ctx() else lambda f, *a, **k: f(*a, **k)
        b = StubBackend(1, lambda u, s: (u, [s]))
        base = Stub(("b", ["n"]))
        base.sib = lambda s: ("b", [s])
        if how.startswith("with"):
            sf = run(be_mod.SheetsFactory, [b])
            inside = run(sf.__enter__)
            if inside is not sf:
                raise Bad("enters another")
            s1 = run(sf.fetch_sheet, wb, sh)
            e = run(sf.__exit__, *((None,) * 3 if how == "with" else (ValueError, ValueError(), None)))
            if e:
                raise Bad("swallows errors")
            s2 = run(sf.fetch_sheet, wb, sh)
            return s1.closed_all >= 1 and s1 is not s2 and s2.closed_all == 0
        sf = run(be_mod.SimpleSheetsFactory, [b])
        if how == "simple-base":
            return run(sf.fetch_sheet, None, None, base) is base
        if how == "simple-sibling":
            s = run(sf.fetch_sheet, None, sh, base)
            return s is base.siblings[0] and s.origin[2] is sh
        if how == "simple-open":
            s, t = run(sf.fetch_sheet, wb, sh, base), run(sf.fetch_sheet, wb, sh)
            return s is b.opened[0] and t is b.opened[1] and s.origin[3] is sh and bool(s.origin[2] == url_of(wb))
        try:
            run(run(be_mod.SheetsFactory, [StubBackend(None)]).fetch_sheet, wb, sh)
        except ValueError:
            return True
        return False

    def check(self, args, kw, out):
        return out.exc is None and out.value is True

    def concretize(self, args, kw, m):
        return (args[0], "wb.xls", "sh"), {}

    def cases(self, rng, tier):
        for h in ("with", "with-error", "simple-base", "simple-sibling", "simple-open", "nobody"):
            yield (h, "wb.xls", "sh"), {}
            yield (h, "http://h/b.xlsx", 0), {}


CONTRACTS = [Path2Url, DecideBackend, Histories, Resource]
