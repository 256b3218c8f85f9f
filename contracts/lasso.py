"""Contracts for the lassoing stages (pandalone/xleash/_lasso.py)."""
import collections
import copy
import itertools
import json

import numpy as np
import z3

from pyvc.contract import Contract, Ok, Err, conc
from pyvc.core import cur, in_ctx, Unsupported
from pyvc.spec import *
from pyvc.vals import *
from pyvc.vals import Val
from contracts import capture
from contracts.filters import (lasso_same, run_call, make_ranger, redim_want, typed, call_spec_spec, Classify)
from contracts.parsing import concrete_fields, fragments

from pandalone import xleash
from pandalone.xleash import Lasso, Coords, _filter, _lasso, _parse
from pandalone.xleash._capture import EmptyCaptureException

LA = "pandalone.xleash._lasso:"
PARSED = ("url_file", "sh_name", "st_edge", "nd_edge", "exp_moves", "call_spec")


def anyv(n):
    return SAny(z3.Const(n, Val))


class World:
    """what the stages call and get, on one path"""

    def __init__(self, g):
        self.g, self.log = g, []

    def note(self, what, *a):
        self.log.append((what,) + a)

    def last(self, what):
        return [x[1:] for x in self.log if x[0] == what]


W = [None]


class ParseXlref(Contract):
    prop = ()
    target = "pandalone.xleash._parse:parse_xlref"

    def apply(self, ctx, args, kw):
        w = W[0]
        w.note("parse", *args)
        how = w.parse
        if how != "ok":
            raise how("parsing failed")
        return dict(w.parsed)


class Capture(Contract):
    prop = ()
    target = "pandalone.xleash._capture:resolve_capture_rect"

    def apply(self, ctx, args, kw):
        w = W[0]
        w.note("capture", args)
        w.capture = ["ok1", "ok2", EmptyCaptureException, ValueError, KeyError][ctx.choose(5)]
        if isinstance(w.capture, type):
            raise w.capture("capture failed")
        w.st = Coords(SInt(z3.Int("st.row")), SInt(z3.Int("st.col")))
        w.nd = Coords(SInt(z3.Int("nd.row")), SInt(z3.Int("nd.col"))) if w.capture == "ok2" else None
        return w.st, w.nd


class Call(Contract):
    prop = ()
    target = LA + "Ranger.make_call"

    def apply(self, ctx, args, kw):
        w = W[0]
        w.note("call", args[1], tuple(args[2:]) + tuple(kw.values()))
        w.call = ["ok", ValueError, EmptyCaptureException][ctx.choose(3)]
        if isinstance(w.call, type):
            raise w.call("call failed")
        return args[1]._replace(values=anyv("filtered"))


class FakeSheet:
    def __init__(self, w):
        self.w = w

    def get_states_matrix(self):
        return "states"

    def get_margin_coords(self):
        return "margins"

    def read_rect(self, st, nd):
        self.w.note("read", st, nd)
        return anyv("read")


class FakeFactory:
    def __init__(self, w):
        self.w = w

    def fetch_sheet(self, wb_id, sheet_id, base_sheet=None):
        self.w.note("fetch", wb_id, sheet_id, base_sheet)
        self.w.fetch = ["ok", KeyError][cur().choose(2)]
        if self.w.fetch != "ok":
            raise KeyError("no such sheet")
        return self.w.sheet


class DoLasso(Contract):
    """Parsed parts override the context's, parsed options overlay the base
    ones; the sheet is fetched for them, the rectangle captured on its states,
    exactly that rectangle read, and the filter called on the result.  No cell
    captured gives no values (or the error, under no_empty)."""
    prop = "C16"
    target = LA + "Ranger.do_lasso"
    internal = False
    call_site = False
    shards = 16
    weight = 4
    max_paths = 100000

    def inputs(self, g):
        c = g.ctx
        w = self.w = W[0] = World(g)
        w.sheet = FakeSheet(w)
        w.parse = g.choice("ok", SyntaxError, ValueError, KeyError)
        w.base = g.choice({}, {"no_empty": g.bool("base.no_empty"), "deep": {"a": 1}, "gone": 1})
        edge = lambda n: _parse.Edge(anyv(n), None, None)
        vals = {"url_file": anyv("url"), "sh_name": anyv("sh"), "st_edge": edge("st"), "nd_edge": edge("nd"),
                "exp_moves": SStr(z3.String("exp")), "call_spec": _parse.CallSpec(anyv("f"), anyv("a"), anyv("k"))}
        w.parsed = {"xl_ref": anyv("ref")}
        w.popts = {}
        if w.parse == "ok":
            for n in PARSED:
                w.parsed[n] = g.choice(None, vals[n])
            w.parsed["opts"] = g.choice(None, {"no_empty": g.bool("parsed.no_empty"), "own": anyv("own"), "gone": None})
            w.popts = w.parsed["opts"] or {}
        ranger = _lasso.Ranger(FakeFactory(w), base_opts=w.base, available_filters={})
        ctx_kw = {}
        if g.choice(0, 1):
            ctx_kw = {n: anyv("ctx." + n) for n in ("url_file", "sh_name", "sheet", "nd")}
            ctx_kw["base_coords"] = Coords(g.int("ctx.base.row"), g.int("ctx.base.col"))
            ctx_kw["st"] = Coords(g.int("ctx.st.row"), g.int("ctx.st.col"))
            ctx_kw["st_edge"] = edge("ctx.st_edge")
        xl = g.str("xlref") if w.parse != "ok" or g.ctx.choose(2) == 0 else g.choice(None, g.int("n"))
        return (ranger, xl), ctx_kw

    def check(self, args, kw, out):
        w, xl = self.w, args[1]
        if not isinstance(xl, str):
            return isinstance(out.exc, ValueError) and not w.log
        la = Lasso(**kw)

        def says(what, *want):
            got = w.last(what)
            return len(got) == 1 and cur().prove("%s with the merged fields" % what, z3.And(
                *[same(a, b) for a, b in zip(got[0], want)])) or False
        if not says("parse", xl):
            return False
        if w.parse != "ok":
            return isinstance(out.exc, w.parse if w.parse is SyntaxError else ValueError)
        la = la._replace(xl_ref=w.parsed["xl_ref"], **{n: w.parsed[n] for n in PARSED if w.parsed[n] is not None})
        if not says("fetch", la.url_file, la.sh_name, la.sheet):
            return False
        if w.fetch != "ok":
            return isinstance(out.exc, ValueError)
        la = la._replace(sheet=w.sheet)
        if not says("capture", ("states", "margins", la.st_edge, la.nd_edge, la.exp_moves, la.base_coords)):
            return False
        no_empty = w.popts.get("no_empty", w.base.get("no_empty", False))
        if w.capture is EmptyCaptureException:
            if w.last("read"):
                return False
            if no_empty:
                return isinstance(out.exc, EmptyCaptureException)
            la = la._replace(st=None, nd=None, values=[])
        elif isinstance(w.capture, type):
            return isinstance(out.exc, ValueError)
        else:
            if not says("read", w.st, w.nd):
                return False
            la = la._replace(st=w.st, nd=w.nd, values=anyv("read"))
        if la.call_spec is not None:
            got = w.last("call")
            if len(got) != 1:
                return False
            cur().prove("filter called on the lasso read", z3.And(
                lasso_same(got[0][0], la, but=("opts",)), same(tuple(got[0][1]), tuple(la.call_spec))))
            if isinstance(w.call, type):
                return isinstance(out.exc, ValueError)
            la = la._replace(values=anyv("filtered"))
        elif w.last("call"):
            return False
        if out.exc is not None:
            return False
        opts = out.value.opts
        want = dict(w.base, **w.popts)
        if set(opts) != set(want) or "deep" in want and opts["deep"] is w.base["deep"]:
            return False
        return mkbool(z3.And(lasso_same(out.value, la, but=("opts",)), *[same(opts[n], want[n]) for n in want]))


class OnSheet(Contract):
    """the whole of it, on real sheets, references and filters"""
    prop = "C16"
    target = LA + "lasso"
    bounded = "sheets up to 5x5, generated references with edges, moves, expansions, options and filters"
    internal = False
    call_site = False
    signature_matters = False

    def invoke(self, func, args, kw):
        table, ref, base, at = args
        ck = {} if at is None else {"base_coords": Coords(*at)}
        sf = xleash.SheetsFactory()
        sf.add_sheet(xleash.ArraySheet(table), "wb", ["s", None])
        fl = {}
        _filter.install_default_filters(fl)
        keep = copy.deepcopy(base)
        la = func(ref, sf, base, fl, return_lasso=True, **ck)
        if base != keep:
            raise AssertionError("the options given were altered")
        if sf._cached_sheets == {}:
            raise AssertionError("the factory given was closed")
        v = func(ref, sf, base, fl, **ck)
        if typed(v) != typed(la.values):
            raise AssertionError("values differ from the lasso's")
        return la

    class Beyond(Exception):
        pass

    def want(self, table, ref, base, at):
        url, _, frag = ref.partition("#")
        if not frag:
            raise SyntaxError("no fragment")
        try:
            f = concrete_fields(frag)
        except SyntaxError:
            s = ref.strip()
            if len(s) < 3 or s[0] != s[-1] or s[0] not in '/\\"$%&':
                raise
            url, _, frag = s[1:-1].partition("#")
            f = concrete_fields(frag)
        if url not in ("wb", ""):
            raise ValueError("workbook")
        if f["sh_name"] not in (None, "s", "sh"):
            raise ValueError("sheet")
        opts = dict(base, **(f["opts"] or {}))
        sm = ~np.equal(table, None)
        rows, cols = np.where(sm)
        up, dn = Coords(0, 0), Coords(0, 0)
        if len(rows):
            up, dn = Coords(int(rows.min()), int(cols.min())), Coords(int(rows.max()), int(cols.max()))
        values = []
        st = nd = None
        o = capture.CaptureRect().spec_outcome((sm, (up, dn), f["st_edge"], f["nd_edge"], f["exp_moves"],
                                                       None if at is None else Coords(*at)), {})
        if isinstance(o.exc, EmptyCaptureException):
            if opts.get("no_empty", False):
                raise o.exc
        elif o.exc is not None:
            raise o.exc
        else:
            st, nd = o.value
            if nd is None:
                if not (st[0] < table.shape[0] and st[1] < table.shape[1]):
                    raise self.Beyond
                values = table[st[0]][st[1]]
            else:
                values = [[table[i][j] for j in range(st[1], min(nd[1] + 1, table.shape[1]))]
                          for i in range(st[0], min(nd[0] + 1, table.shape[0]))]
        if f["call_spec"]:
            values = self.filtered(f["call_spec"], values, st, nd, opts.get("lax", False))
        return st, nd, values, opts

    def filtered(self, spec, values, st, nd, lax):
        name, a, k = spec
        k = dict(k)
        opts_lax, lax = lax, k.pop("lax", lax)
        try:
            if name == "redim":
                ks = list(a) + [None] * (5 - len(a))
                for n, x in k.items():
                    ks[("scalar", "cell", "row", "col", "table").index(n)] = x
                return redim_want(values, ks[Classify.spec(None, st, nd)])
            if name == "pipe":
                for x in a:
                    values = self.filtered(call_spec_spec(x), values, st, nd, opts_lax)
                return values
            if name == "sorted":
                return sorted(values, **k)
            raise ValueError("no such filter")
        except Exception as ex:
            if lax:
                return values
            raise ValueError(str(ex))

    def check(self, args, kw, out):
        try:
            st, nd, values, opts = self.want(*args)
        except self.Beyond:
            return out.exc is not None  # "if beyond margins, raise error!"
        except Exception as ex:
            t = SyntaxError if isinstance(ex, SyntaxError) else EmptyCaptureException \
                if isinstance(ex, EmptyCaptureException) else ValueError
            return isinstance(out.exc, t)
        if out.exc is not None:
            return False
        la = out.value
        return la.st == st and la.nd == nd and typed(la.values) == typed(values) and \
            dict(la.opts) == dict(xleash.get_default_opts(), **opts)

    def cases(self, rng, tier):
        js = ["", "", '{"opts": {"no_empty": true}}', '{"opts": {"lax": null, "x": null}}', '{"opts": {"lax": true}, "func": "nofilter"}', '"nofilter"', '["redim", [0, 1, 1, 1, 2]]',
              '["redim", {"col": [2, true], "row": 1}]', '["pipe", ["sorted", ["redim", {"table": 1}]]]', '["nofilter", {"lax": true}]',
              '["pipe", ["nofilter", ["redim", {"table": [2, true]}]], {"lax": false}]', '{"opts": {"lax": 1}, "func": "sorted", "kwds": {"lax": 0}}']
        cols = ["A", "B", "c", "D", "E", "_", "^"]
        rows = ["1", "2", "3", "4", "5", "_", "^"]
        for i in range(3000 if tier == "quick" else 30000):
            t = np.empty((rng.randint(1, 5), rng.randint(1, 5)), dtype=object)
            for p in np.ndindex(t.shape):
                if rng.random() < .6:
                    t[p] = rng.choice([1, "x", 2.5, True, "", 0])
            mv = lambda: rng.choice(["", "", "(%s%s)" % (rng.choice(["L", "U", "RD", "DR", "UR", "d", "lu"]), rng.choice(["", "+", "?"]))])
            at = rng.choice([None, (rng.randint(0, 4), rng.randint(0, 4))])
            rc = lambda more: "R%sC%s" % tuple(rng.choice(["1", "2", "3", "-1", "-2", "_", "^"] + [x for x in more]) for _ in "rc")
            one = rc("....") if rng.random() < .3 else rng.choice(cols) + rng.choice(rows)
            ref = rng.choice(["", "", "s!", "sh!", "zz!"] + [""] * 4) + one + mv()
            if rng.random() < .75:
                two = rng.choice(cols + ["."] * 3) + rng.choice(rows + ["."] * 3) if rng.random() < .8 else rc("....")
                ref += ":" + (two + mv() if rng.random() < .8 else "")
                if rng.random() < .4:
                    ref += ":" + rng.choice(["RD", "LURD", "D1", "U1R2?", "L"])
                elif rng.random() < .3:
                    ref += ":"
            elif rng.random() < .3:
                ref = ref + "::RULD"
            j = rng.choice(js)
            if j:
                ref += ":" + j
            base = rng.choice([{}, {"no_empty": True}, {"lax": True}, {"no_empty": False, "lax": False, "deep": {"x": [1]}}])
            ref = "wb#" + ref
            if rng.random() < .1:       # enclosed in delimiters
                q = rng.choice('/\\"$%&')
                ref = rng.choice(["", " "]) + q + ref + q + rng.choice(["", " "])
            yield (t, ref, base, at), {}
        for ref in ("wb#A0", "wb", "wb#", "wb#A1:B2:X", "other#A1"):
            yield (np.array([[1, None]], dtype=object), ref, {}, None), {}


class Stages(Contract):
    """do_lasso is its stages put together: what is parsed over the context,
    options over the base ones, sheet, capture, read, filter; with contexts
    that hold fields of all kinds and a ranger used several times."""
    prop = "C16"
    target = LA + "Ranger.do_lasso"
    bounded = "sheets up to 4x4, generated references, contexts with up to 9 fields, up to three calls of one ranger"
    internal = False
    call_site = False
    signature_matters = False

    def invoke(self, func, args, kw):
        tables, calls, base, given = args
        sheets = [xleash.ArraySheet(t, ids) for t, ids in zip(tables, (("wb", ["s", 0]), ("wb2", ["s2", 0])))]
        sf = xleash.SheetsFactory()
        sf.add_sheet(sheets[0], "wb", ["s", None])
        sf.add_sheet(sheets[1], "wb2", ["s2", None])
        seen = []

        def spy(ranger, lasso, *a, **k):
            seen.append((ranger, lasso, copy.deepcopy(lasso), a, k))
            if "deep" in lasso.opts:
                lasso.opts["deep"]["x"].append(len(seen))
            lasso.opts["spied"] = True
            return lasso._replace(values=["spied", lasso.values])
        fl = None if given is None else dict({"spy": {"func": spy}} if given else {})
        keep = copy.deepcopy(base)
        r = _lasso.Ranger(sf, base_opts=base, available_filters=fl)
        gave = []
        for ref, ck in calls:
            ck = {n: sheets[v[0]] if n == "sheet" else v for n, v in ck.items()}
            del seen[:]
            try:
                out = Ok(r.do_lasso(ref, **dict(ck)))
            except Exception as ex:
                out = Err(ex)
            if base != keep:
                raise AssertionError("base options altered")
            err = self.judge(r, sf, sheets, ref, ck, base, seen, fl, out)
            if err:
                raise AssertionError("%s: %s" % (ref, err))
            gave.append(type(out.exc) if out.exc else (out.value.st, out.value.nd, out.value.call_spec))
        return gave

    def judge(self, r, sf, sheets, ref, ck, base, seen, fl, out):
        try:
            p = _parse.parse_xlref(ref)
        except Exception as ex:
            return None if isinstance(out.exc, SyntaxError if isinstance(ex, SyntaxError) else ValueError) else "parse error"
        la = Lasso(**ck)._replace(**{n: v for n, v in p.items() if v is not None and n != "opts"})
        opts = dict(copy.deepcopy(base), **(p["opts"] or {}))
        if la.url_file is None and la.sheet is not None:
            sh = la.sheet if la.sh_name is None else None
        else:
            sh = {("wb", None): sheets[0], ("wb", "s"): sheets[0], ("wb2", None): sheets[1], ("wb2", "s2"): sheets[1]}.get(
                (la.url_file, la.sh_name))
        if sh is None:
            try:
                sh = sf.fetch_sheet(la.url_file, la.sh_name, la.sheet)
            except Exception:
                return None if isinstance(out.exc, ValueError) else "no such sheet"
        o = capture.CaptureRect().spec_outcome((sh.get_states_matrix(), sh.get_margin_coords(), la.st_edge, la.nd_edge,
                                                la.exp_moves, la.base_coords), {})
        if isinstance(o.exc, EmptyCaptureException):
            if opts.get("no_empty", False):
                return None if isinstance(out.exc, EmptyCaptureException) else "empty capture"
            st, nd, vals = None, None, []
        elif o.exc is not None:
            return None if isinstance(out.exc, ValueError) else "capture error"
        else:
            st, nd = o.value
            try:
                vals = sh.read_rect(st, nd)
            except Exception:
                return None if out.exc is not None else "read error"
        la = la._replace(sheet=sh, st=st, nd=nd, values=vals)
        spec = la.call_spec
        if spec:
            fl = _lasso.installed_filters if fl is None else fl
            lax = spec.kwds.get("lax", opts.get("lax", False))
            if spec.func in fl and spec.func == "spy":
                if len(seen) != 1 or seen[0][0] is not r or seen[0][3] != tuple(spec.args) or \
                        seen[0][4] != {n: v for n, v in spec.kwds.items() if n != "lax"}:
                    return "filter not called as specified"
                if not self.alike(seen[0][2], la, opts):
                    return "filter called on another lasso"
                la = la._replace(values=["spied", vals])
                opts["spied"] = True
                if "deep" in opts:
                    opts["deep"] = out.value.opts["deep"] if out.exc is None else None
            elif not lax:
                return None if isinstance(out.exc, ValueError) else "no such filter"
        if seen and not spec:
            return "filter called"
        if out.exc is not None:
            return "failed: %r" % out.exc
        if out.value.sheet is not sh:
            return "another sheet"
        return None if self.alike(out.value, la, opts) else "result differs"

    def alike(self, a, b, opts):
        z = dict(values=None, sheet=None, opts=None)
        return a._replace(**z) == b._replace(**z) and typed(a.values) == typed(b.values) and dict(a.opts) == opts

    def check(self, args, kw, out):
        return out.exc is None

    def cases(self, rng, tier):
        edge = lambda c, r, m=None: _parse.Edge(_parse.Cell(r, c), m, None)
        some = ["A1", "B2", "C1", "D4", "A_", "^^", "__", "_^", "B.", ".1", "R.C2", "A1(DR)", "D4(UL)"]
        js = ["", "", '"spy"', '"spy"', '["spy", [1], {"a": 2}]', '{"opts": {"lax": true}}', '{"opts": {"no_empty": true}}', '{"opts": {}}',
              '{"opts": {"lax": null, "no_empty": null, "other": [null]}}', '{"opts": {"lax": 0}, "func": "spy"}',
              '{"opts": {"deep": {"x": []}}, "func": "spy"}', '"nofilter"', '["nofilter", {"lax": true}]', '["spy", {"lax": false}]',
              '["spy", {"lax": true, "b": null}]']

        def table():
            t = np.empty((rng.randint(1, 4), rng.randint(1, 4)), dtype=object)
            for p in np.ndindex(t.shape):
                if rng.random() < .6:
                    t[p] = rng.choice([1, "x", 2.5, True, "", 0])
            return t

        def call():
            ref = rng.choice(["", "wb", "wb2", "wb", "other"]) + "#" + rng.choice(["", "", "", "s!", "s2!"]) + rng.choice(some)
            if rng.random() < .5:
                ref += ":" + rng.choice(some + ["..(RD)", "..(D)"]) + rng.choice(["", "", ":RULD", ":R1"])
            j = rng.choice(js)
            ref += ":" + j if j else ""
            if rng.random() < .04:
                ref = rng.choice(["wb", "#A0", "#", "wb#A1:B2:zz"])
            pool = {"url_file": rng.choice(["wb", "wb2", "none"]), "sh_name": rng.choice(["s", "s2"]), "sheet": (rng.randint(0, 1),),
                    "base_coords": Coords(rng.randint(0, 3), rng.randint(0, 3)), "st_edge": edge("A", "1"),
                    "nd_edge": rng.choice([edge("B", "2"), edge(".", ".", "R"), edge("_", "_")]), "exp_moves": rng.choice(["RULD", "R1", "D?"]),
                    "call_spec": _parse.CallSpec("spy", [7], {}), "st": Coords(8, 8), "nd": Coords(9, 9), "values": "stale",
                    "xl_ref": "stale#A1"}
            return ref, {n: pool[n] for n in rng.sample(sorted(pool), rng.choice([0, 0, 1, 1, 2, 3, 5]))}
        for i in range(1500 if tier == "quick" else 15000):
            base = rng.choice([{}, {"no_empty": True}, {"lax": True}, {"no_empty": False, "lax": False, "deep": {"x": [1]}},
                               {"deep": {"x": []}}])
            yield ([table(), table()], [call() for _ in range(rng.randint(1, 3))], copy.deepcopy(base),
                   rng.choice([True, True, True, False, None])), {}


class Closing(Contract):
    """A factory made for the call is closed afterwards, whatever happens; a
    given one is left open."""
    prop = "C16"
    target = LA + "lasso"
    internal = False
    call_site = False
    signature_matters = False

    def inputs(self, g):
        return (g.choice("mine", "given"), g.choice("ok", SyntaxError, ValueError, EmptyCaptureException, KeyError),
                g.choice(None, {"lax": True}), g.choice(True, False), g.choice({}, {"sheet": anyv("sheet")})), {}

    def invoke(self, func, args, kw):
        from pyvc import rt
        whose, how, base, ret, ctxt = args
        made, me = [], self

        class SF:
            closed = 0

            def __init__(self, *a, **k):
                made.append(self)

            def close(self):
                self.closed += 1

        class R(_lasso.Ranger):
            def do_lasso(self, xlref, **context_kwds):
                me.seen = (xlref, context_kwds, self)
                if how != "ok":
                    raise how("failed")
                return Lasso(values="values", xl_ref=xlref)
        self.seen, self.made = None, made
        keep = _lasso.backend.SheetsFactory, _lasso.Ranger
        _lasso.backend.SheetsFactory, _lasso.Ranger = SF, R
        try:
            self.given = SF() if whose == "given" else None
            f = rt.hooked(func) if in_ctx() else func
            return f("#A1", self.given, base, {"f": {}}, ret, **ctxt)
        finally:
            _lasso.backend.SheetsFactory, _lasso.Ranger = keep

    def check(self, args, kw, out):
        whose, how, base, ret, ctxt = args
        if len(self.made) != 1 or self.seen is None:
            return False
        if self.made[0].closed != (1 if whose == "mine" else 0) and not (whose == "mine" and self.made[0].closed > 0):
            return False
        xl, ck, r = self.seen
        if xl != "#A1" or list(ck) != list(ctxt) or r.sheets_factory is not self.made[0] or r.available_filters != {"f": {}}:
            return False
        if r.base_opts != dict(xleash.get_default_opts(), **(base or {})) or base not in (None, {"lax": True}):
            return False
        if how != "ok":
            return isinstance(out.exc, how)
        return out.exc is None and (out.value == "values" if not ret else
                                    isinstance(out.value, Lasso) and out.value.values == "values")

    def concretize(self, args, kw, m):
        return tuple("ctx" if False else a for a in args[:4]) + ({k: "sheet" for k in args[4]},), {}

    def cases(self, rng, tier):
        for x in itertools.product(("mine", "given"), ("ok", SyntaxError, ValueError, EmptyCaptureException, KeyError),
                                   (None, {"lax": True}), (True, False), ({}, {"sheet": "sheet"})):
            yield x, {}


CONTRACTS = [ParseXlref, Capture, Call, DoLasso, OnSheet, Stages, Closing]
