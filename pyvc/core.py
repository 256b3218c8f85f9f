"""
Path exploration, hypotheses, obligations and solver back ends.

One *path* is one complete run of the instrumented function under a list of
decisions.  Wherever a symbolic truth value is needed, `Ctx.branch` asks the
solver which sides are feasible, takes one and queues the other as a new
decision prefix, so all paths are covered by re-execution.
"""
import os
import subprocess
import tempfile
import time
import threading
import ctypes

import z3


class Unsupported(Exception):
    """The code left the subset the verifier models: never a proof, never a bug."""


class PathDone(BaseException):
    """This path has nothing left to show (dead, or closed by a loop rule)."""


class NeedSummary(BaseException):
    """A loop was reached whose iteration has not been analysed yet."""

    def __init__(self, key, dec):
        self.key, self.dec = key, dec


class Stats:
    def __init__(self):
        self.obligations = 0
        self.discharged = 0
        self.by = {}
        self.solver_s = 0.0
        self.paths = 0
        self.queries = 0
        self.assumed = {}
        self.functions = {}
        self.names = {}

    def trust(self, what):
        self.assumed[what] = self.assumed.get(what, 0) + 1


class Failure:
    def __init__(self, oname, why, func, detail="", smt="", args=None, model=None):
        self.oname, self.why, self.func = oname, why, func
        self.detail, self.smt, self.args, self.model = detail, smt, args, model

    def __repr__(self):
        return "Failure(%s: %s in %s)" % (self.oname, self.why, self.func)


_tls = threading.local()


def cur():
    c = getattr(_tls, "ctx", None)
    if c is None:
        raise Unsupported("symbolic value used outside a verification run")
    return c


def in_ctx():
    return getattr(_tls, "ctx", None) is not None


def has_quant(t, memo=None):
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        stack.extend(x.children())
    return False


class Backend:
    """z3 first (API, several strategies), then cvc5 on the exported SMT-LIB text."""

    def __init__(self, stats, z3_ms=8000, cvc5_ms=8000):
        self.stats, self.z3_ms, self.cvc5_ms = stats, z3_ms, cvc5_ms
        self.hurry = False          # once an obligation has failed, the verdict is settled

    def prove(self, hyps, goal):
        """-> ('proved', backend) | ('refuted', model) | ('unknown', text)"""
        t0 = time.time()
        self.stats.queries += 1
        try:
            g = z3.simplify(goal)
            if z3.is_true(g):
                return "proved", "simplify"
            other = {"smt.random_seed": 7, "smt.relevancy": 0}
            by_patterns = {"auto_config": False, "mbqi": False}
            ms, cvc5_ms = self.z3_ms, self.cvc5_ms
            # short tries with different strategies first
            tries = [(2000, {}), (2000, other), (2000, by_patterns), (ms, {}), (ms, other)]
            if self.hurry:
                tries, cvc5_ms = tries[:3], min(cvc5_ms, 5000)
            for limit, opts in tries:
                s = z3.Solver()
                s.set("timeout", limit)
                for o, v in opts.items():
                    s.set(o, v)
                s.add(*hyps)
                s.add(z3.Not(goal))
                r = s.check()
                if r == z3.unsat:
                    return "proved", "z3-%s" % z3.get_version_string()
                if r == z3.sat:
                    return "refuted", s.model()
            out = self._cvc5(s.to_smt2(), cvc5_ms)
            if out == "unsat":
                return "proved", "cvc5"
            return "unknown", "z3: %s; cvc5: %s" % (s.reason_unknown(), out)
        finally:
            self.stats.solver_s += time.time() - t0

    def _cvc5(self, smt, cvc5_ms):
        txt = "(set-logic ALL)\n" + smt
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(txt)
        try:
            p = subprocess.run(
                ["cvc5", "--strings-exp", "--tlimit=%d" % cvc5_ms, f.name],
                capture_output=True, text=True, timeout=cvc5_ms / 1000 + 10)
            return (p.stdout.strip().splitlines() or [p.stderr.strip()[:200]])[0]
        except Exception as ex:  # solver missing or killed: undecided, not proved
            return "error %s" % ex
        finally:
            os.unlink(f.name)


class Ctx:
    def __init__(self, eng, prefix):
        self.eng = eng
        self.prefix = prefix
        self.dec = []          # decisions taken so far (prefix then new)
        self.pc = []
        self.qf = z3.Solver()
        self.qf.set("timeout", 3000)
        self.n = 0
        self.dead = False
        self.nobranch = 0
        self.dry = frozenset()  # keys of the loops being dry-run
        self.loop_occ = 0
        self.loop_stack = []
        self.oprefix = []
        self.depth = 0
        self.inputs = None
        self.steps = 0
        self.spec_mode = 0
        self.notes = []
        self.iteration_ended = None
        self.writes = []
        self.newlists = {}      # id -> (list, where its display stands)

    # -- symbols
    def fresh(self, hint="v"):
        self.n += 1
        return "%s!%d" % (hint, self.n)

    def int(self, hint="i"):
        return z3.Int(self.fresh(hint))

    def bool(self, hint="b"):
        return z3.Bool(self.fresh(hint))

    # -- hypotheses
    def assume(self, t):
        if isinstance(t, bool):
            if not t:
                self.die()
            return
        t = z3.simplify(t)
        if z3.is_true(t):
            return
        if z3.is_false(t):
            self.die()
        self.pc.append(t)
        if not has_quant(t):
            self.qf.add(t)

    def die(self):
        self.dead = True
        raise PathDone()

    def feasible(self, t):
        self.eng.stats.queries += 1
        t0 = time.time()
        r = self.qf.check(t)
        self.eng.stats.solver_s += time.time() - t0
        return r != z3.unsat

    def entails(self, t, ms=2000):
        """quick entailment test used by rules, never as an obligation"""
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        s = z3.Solver()
        s.set("timeout", ms)
        s.add(*self.pc)
        s.add(z3.Not(t))
        t0 = time.time()
        r = s.check()
        self.eng.stats.solver_s += time.time() - t0
        return r == z3.unsat

    # -- decisions
    def choose(self, n, why=""):
        """nondeterministic choice among n alternatives, all explored"""
        if self.dead:
            raise PathDone()
        i = len(self.dec)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            v = 0
            for alt in range(n - 1, 0, -1):
                self.eng.push(self.dec + [alt])
        self.dec.append(v)
        return v

    def branch(self, t):
        if self.dead:
            raise PathDone()
        if isinstance(t, bool):
            return t
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        if self.nobranch:
            raise Unsupported("branch inside a quantified body: %s" % str(t)[:120])
        self.steps += 1
        if self.steps > self.eng.max_branches:
            raise Unsupported("path longer than %d branches" % self.eng.max_branches)
        i = len(self.dec)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            a = self.feasible(t)
            if not a:
                # keep deterministic numbering: forced decisions are recorded
                v = 0
            else:
                b = self.feasible(z3.Not(t))
                v = 1
                if b:
                    self.eng.push(self.dec + [0])
        self.dec.append(v)
        self.assume(t if v else z3.Not(t))
        return bool(v)

    # -- obligations
    def prove(self, name, t):
        if self.dead:
            raise PathDone()
        if self.dry:
            return True
        self.eng.obligation(self, name, t)
        return True


def _restart():
    from .loops import Restart
    return Restart


class Engine:
    def __init__(self, func, stats, z3_ms=8000, cvc5_ms=8000, max_paths=4000,
                 max_branches=400, deadline=None):
        self.func = func
        self.stats = stats
        self.backend = Backend(stats, z3_ms, cvc5_ms)
        self.max_paths = max_paths
        self.max_branches = max_branches
        self.work = []
        self.summaries = {}
        self.failures = []
        self.n_oblig = 0
        self.deadline = deadline
        self.covered = set()
        self.symloops = set()
        self.dry_plan = {}
        self.dry_record = {}
        self.loop_handlers = []
        self.grow, self.growing = set(), set()
        self.use_contract = lambda c, ctx: True

    def push(self, prefix):
        self.work.append(list(prefix))

    def obligation(self, ctx, name, t):
        st = self.stats
        st.obligations += 1
        self.n_oblig += 1
        st.names[(self.func, name)] = st.names.get((self.func, name), 0) + 1
        if isinstance(t, bool):
            t = z3.BoolVal(t)
        g = z3.simplify(t)
        parts = [g]
        if z3.is_and(g) and g.num_args() <= 12:
            parts = g.children()
        for part in parts:
            verdict, info = self.backend.prove(ctx.pc, part)
            if verdict != "proved":
                t = part
                break
        if verdict == "proved":
            st.discharged += 1
            st.by[info] = st.by.get(info, 0) + 1
            return True
        self.backend.hurry = True
        smt = ""
        try:
            s = z3.Solver()
            s.add(*ctx.pc)
            s.add(z3.Not(t))
            smt = s.to_smt2()
        except Exception:
            pass
        f = Failure(name, verdict, self.func,
                    detail=("goal: %s\nsolver: %s" % (str(t)[:1500], str(info)[:3000])),
                    smt=smt[:20000], model=info if verdict == "refuted" else None)
        f.ctx_inputs = ctx.inputs
        f.pc = list(ctx.pc)
        f.goal = t
        self.failures.append(f)
        return False

    def explore(self, run, start=None, dry=frozenset()):
        """run(ctx) once per path; returns list of per-path results"""
        saved, self.work = self.work, [list(start or [])]
        out = []
        n = 0
        try:
            while self.work:
                prefix = self.work.pop()
                n += 1
                if len(self.failures) >= 8 and not dry:
                    break
                if n > self.max_paths:
                    raise Unsupported("more than %d paths" % self.max_paths)
                if self.deadline and time.time() > self.deadline:
                    raise Unsupported("verification time budget used up")
                ctx = Ctx(self, prefix)
                ctx.dry = dry
                old = getattr(_tls, "ctx", None)
                _tls.ctx = ctx
                res = None
                try:
                    res = run(ctx)
                except PathDone:
                    pass
                except _restart() as rs:
                    d = list(rs.dec)
                    self.work = [w for w in self.work if w[:len(d)] != d]
                    self.work.append(d)
                    n -= 1
                    continue
                except NeedSummary as ns:
                    _tls.ctx = old
                    self._summarise(run, ns.key, ns.dec, dry)
                    self.work.append(list(ns.dec))
                    n -= 1
                    continue
                finally:
                    _tls.ctx = old
                self.stats.paths += 1
                out.append((ctx, res))
        finally:
            self.work = saved
        return out

    def _summarise(self, run, key, prefix, dry):
        from . import loops
        loops.summarise(self, run, key, prefix, dry)
