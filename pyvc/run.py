"""
The check of one property:

    bin/py -m pyvc.run C05 [--tier quick|thorough]
    bin/py -m pyvc.run --replay FILE

Every contract of the property is (1) verified: all paths of the function's
current source are explored symbolically and every obligation goes to the
solvers; (2) executed: its specification is run against the real function on
concrete inputs, so that a failed obligation comes with a failing input where
one exists.  Exit 0: all obligations discharged and no failing input.
Exit 1: a VIOLATION line.
"""
import base64
import copy
import importlib
import inspect
import json
import multiprocessing as mp
import os
import pickle
import queue
import random
import signal
import sys
import time
import traceback

from pyvc.core import Unsupported

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODULES = ["contracts.capture"]
for _f in sorted(os.listdir(os.path.join(HERE, "contracts"))):
    if _f.endswith(".py") and _f not in ("__init__.py", "capture.py"):
        MODULES.append("contracts." + _f[:-3])
CASE_S = 30
MAXFAIL = 6


class CaseTimeout(BaseException):
    pass


class ShapeChanged(Exception):
    """the function under contract is gone or takes other arguments"""


def load():
    """all contracts by module; a module that cannot be imported is reported
    against every property it holds"""
    out, broken = {}, {}
    for m in MODULES:
        try:
            mod = importlib.import_module(m)
            out[m] = [c() for c in mod.CONTRACTS]
        except Exception:
            broken[m] = traceback.format_exc()
    return out, broken


def run_case(c, args, kw):
    """real function on concrete input -> (ok, outcome text)"""
    from .contract import Ok, Err

    def ring(*_):
        raise CaseTimeout()
    old = signal.signal(signal.SIGALRM, ring)
    signal.alarm(CASE_S)
    try:
        c.snap = c.before(args, kw) if hasattr(c, "before") else None
        try:
            func = c.func()
        except Exception as ex:
            raise ShapeChanged("cannot find %s: %r" % (c.target, ex))
        if c.signature_matters:
            try:
                inspect.signature(func).bind(*args, **kw)
            except TypeError as ex:
                raise ShapeChanged("%s: %s" % (c.target, ex))
            except ValueError:
                pass
        try:
            out = Ok(c.invoke(func, args, kw))
        except Unsupported:
            raise
        except Exception as ex:
            out = Err(ex)
        try:
            ok = bool(c.check(args, kw, out))
        except (CaseTimeout, Unsupported):
            raise
        except Exception:
            # a result so unexpected that the specification cannot read it
            return False, "%s (specification could not compare it: %s)" % (
                repr(out)[:1500], traceback.format_exc(limit=-2))
        return ok, repr(out)[:1500]
    except CaseTimeout:
        return False, "no result within %d s" % CASE_S
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def freeze(c, args, kw):
    try:
        return base64.b64encode(pickle.dumps((args, kw))).decode()
    except Exception:
        return None


def want_of(c, args, kw):
    if c.spec is None:
        return (c.__doc__ or "see the contract's check()").strip()
    try:
        return repr(c.spec_outcome(args, kw))[:1500]
    except BaseException:
        return "see the contract's check()"


def violation(c, args, kw, got, how):
    return {"contract": type(c).__name__, "function": c.target, "how": how,
            "call": c.describe(args, kw)[:3000], "got": got, "wanted": want_of(c, args, kw),
            "internal": c.is_internal(), "pickle": freeze(c, args, kw)}


def task_prove(c, group, prefixes, tier, deadline):
    from .core import Stats
    from . import contract as C
    st = Stats()
    t0 = time.time()
    fails = C.verify(c, st, group, tier, deadline, prefixes)
    res = {"contract": type(c).__name__, "stats": st, "fails": [], "violations": [],
           "wall": time.time() - t0}
    for f in fails[:MAXFAIL]:
        d = {"contract": type(c).__name__, "function": c.target, "obligation": f.oname,
             "why": f.why, "detail": f.detail[:6000], "smt": f.smt}
        # a contract without concrete cases has no meaning outside proofs
        concrete = type(c).cases is not C.Contract.cases
        if f.model is not None and (concrete or type(c).lift is not C.Contract.lift):
            try:
                a, k = c.concretize(*f.ctx_inputs, f.model)
                d["model_input"] = c.describe(a, k)[:2000]
                a0, k0 = copy.deepcopy((a, k))
                ok, got = run_case(c, a, k) if concrete else (True, "")
                if not ok:
                    res["violations"].append(violation(c, a0, k0, got, "counterexample of the "
                                             "obligation '%s', replayed" % f.oname))
                for pc, pa, pk in c.lift(a0, k0) if c.is_internal() else ():
                    pa0, pk0 = copy.deepcopy((pa, pk))
                    ok, got = run_case(pc, pa, pk)
                    if not ok:
                        res["violations"].append(violation(pc, pa0, pk0, got, "counterexample of a helper's "
                                                 "obligation '%s', through the public entry" % f.oname))
            except BaseException as ex:
                d["replay"] = "no: %s: %s" % (type(ex).__name__, str(ex)[:300])
        res["fails"].append(d)
    return res


def task_cases(c, tier, seed, deadline):
    rng = random.Random(seed * 7919 + 13)
    n, distinct, viol, samples = 0, set(), [], []
    t0 = time.time()
    err = None
    known = {}
    try:
        for args, kw in c.cases(rng, tier):
            n += 1
            keep = None
            try:
                keep = copy.deepcopy((args, kw)) if c.mutates else (args, kw)
            except Exception:
                keep = (args, kw)
            ok, got = run_case(c, args, kw)
            if len(distinct) < 200000:
                distinct.add(hash(got))
            if n in (1, 2, 3, 10, 100):
                samples.append("%s -> %s" % (c.describe(*keep)[:300], got[:200]))
            if not ok:
                key = c.known(*keep) if hasattr(c, "known") else None
                if key:
                    known[key] = c.describe(*keep)[:300]
                    continue
                viol.append(violation(c, keep[0], keep[1], got, "concrete execution"))
                for pc, pa, pk in c.lift(*copy.deepcopy(keep)) if c.is_internal() else ():
                    p0 = copy.deepcopy((pa, pk))
                    ok, got = run_case(pc, pa, pk)
                    if not ok:
                        viol.append(violation(pc, p0[0], p0[1], got, "a helper's failing input, through the public entry"))
                if len(viol) >= 6:
                    break
            if time.time() > deadline:
                break
    except Exception:
        err = traceback.format_exc()
    return {"contract": type(c).__name__, "n": n, "distinct": len(distinct), "violations": viol,
            "samples": samples, "wall": time.time() - t0, "error": err, "known": known}


# -- pool ---------------------------------------------------------------------

def worker(jobs, results, groups, tier, seed, deadline):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    while True:
        try:
            j = jobs.get(timeout=1)
        except queue.Empty:
            continue
        if j is None:
            return
        kind, mod, idx, extra, jid = j
        c = groups[mod][idx]
        results.put(("start", jid, os.getpid()))
        try:
            if kind == "search":
                r = task_cases(c, tier, seed + 17 * jid, time.time() + extra)
            elif kind == "prove":
                r = task_prove(c, groups[mod], extra, tier, deadline)
            else:
                r = task_cases(c, tier, seed, deadline)
        except BaseException as ex:
            r = {"contract": type(c).__name__, "crash": "%s: %s\n%s" % (
                type(ex).__name__, ex, traceback.format_exc()[-3000:])}
        results.put(("done", jid, r))


def main(argv):
    if argv and argv[0] == "--replay":
        return replay(argv[1])
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    try:
        seed = int(os.environ.get("VERIF_SEED") or 1)
    except ValueError:
        seed = 1
    t0 = time.time()
    limit = 780 if tier == "quick" else 3 * 3600
    deadline = t0 + limit
    case_deadline = t0 + (240 if tier == "quick" else 2 * 3600)
    groups, broken = load()
    mine = [(m, i, c) for m, cs in groups.items() for i, c in enumerate(cs)
            if prop in c.props()]
    if "--only" in argv:
        o = argv[argv.index("--only") + 1]
        mine = [x for x in mine if type(x[2]).__name__ == o]
    for m in broken:
        src = open(os.path.join(HERE, m.replace(".", "/") + ".py")).read()
        if '"%s"' % prop in src:
            mine.append((m, None, None))
    ncpu = min(8, os.cpu_count() or 4)
    ctxmp = mp.get_context("fork")
    from . import contract as C
    jobs_list = []
    pre_fail = []
    for m, i, c in mine:
        if c is None:
            pre_fail.append({"contract": m, "function": m, "obligation": "import", "why": "unsupported",
                             "detail": broken[m][-4000:], "smt": ""})
            continue
        jobs_list.append(("cases", m, i, None))
        if not c.bounded:
            try:
                shards = C.shards(c, c.shards) if c.shards > 1 else [None]
            except Exception:
                shards = [None]
            for s in shards:
                jobs_list.append(("prove", m, i, s))
    # longest first is not known: proofs with shards first
    jobs_list.sort(key=lambda j: (-(groups[j[1]][j[2]].weight), j[0] == "cases"))
    jobs, results = ctxmp.Queue(), ctxmp.Queue()
    for n, j in enumerate(jobs_list):
        jobs.put(j + (n,))
    for _ in range(ncpu):
        jobs.put(None)
    procs = [ctxmp.Process(target=worker, args=(jobs, results, groups, tier, seed, deadline),
                           daemon=True) for _ in range(min(ncpu, max(1, len(jobs_list))))]
    sys.stdout.flush()
    for p in procs:
        p.start()
    done, started = {}, {}
    while len(done) < len(jobs_list):
        try:
            k, jid, r = results.get(timeout=2)
            if k == "start":
                started[jid] = r
            else:
                done[jid] = r
        except queue.Empty:
            pass
        if time.time() > deadline + 60:
            break
        alive = {p.pid for p in procs if p.is_alive()}
        if results.empty():
            for jid, pid in list(started.items()):
                if jid not in done and pid not in alive:
                    time.sleep(0.3)
                    if results.empty():
                        done[jid] = {"contract": type(groups[jobs_list[jid][1]][jobs_list[jid][2]]).__name__,
                                     "crash": "the verifier process ended unexpectedly"}
            if not alive and len(done) < len(jobs_list) and results.empty():
                break
    for p in procs:
        if p.is_alive():
            p.terminate()
    for n, j in enumerate(jobs_list):
        if n not in done:
            done[n] = {"contract": type(groups[j[1]][j[2]]).__name__,
                       "crash": "not finished within the time limit"}
    return report(prop, tier, seed, t0, groups, mine, jobs_list, done, pre_fail)


def known_file():
    p = os.path.join(HERE, "known-findings.txt")
    try:
        return [l.strip() for l in open(p) if l.strip() and not l.startswith("#")]
    except OSError:
        return []


def claimed(prop):
    """the level the manifest claims"""
    try:
        cs = json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]
        return [c["level"] for c in cs if c["property"] == prop][0]
    except (OSError, ValueError, KeyError, IndexError):
        return "proof"


def deciders(mine):
    """the contracts of the property's public entries that have concrete cases"""
    from . import contract as C
    return [c for _, _, c in mine if c is not None and not c.is_internal()
            and type(c).cases is not C.Contract.cases]


def search(fails, mine, groups, seed, left):
    """obligations failed and no input did yet: look further for one
    -> (number of executions, violations)"""
    from . import contract as C
    if left < 30:
        return 0, []
    names = {f["contract"] for f in fails}
    mine = [x for x in mine if x[2] is not None and type(x[2]).cases is not C.Contract.cases]
    jobs_list = [x for x in mine if type(x[2]).__name__ in names or not x[2].is_internal()]
    if not jobs_list:
        return 0, []
    ctxmp = mp.get_context("fork")
    jobs, results = ctxmp.Queue(), ctxmp.Queue()
    ncpu = min(8, os.cpu_count() or 4)
    n = 0
    each = max(15, min(60, int(left / 2 / (1 + len(jobs_list) // ncpu))))
    for r in range(max(1, ncpu // len(jobs_list))):
        for m, i, c in jobs_list:
            jobs.put(("search", m, i, each, n))
            n += 1
    for _ in range(ncpu):
        jobs.put(None)
    procs = [ctxmp.Process(target=worker, args=(jobs, results, groups, "thorough", seed + 1000, None),
                           daemon=True) for _ in range(ncpu)]
    for p in procs:
        p.start()
    total, viols, done = 0, [], 0
    stop = time.time() + each * (1 + n // ncpu) + CASE_S + 10
    while done < n and time.time() < stop:
        try:
            k, jid, r = results.get(timeout=2)
        except queue.Empty:
            if not any(p.is_alive() for p in procs):
                break
            continue
        if k == "done":
            done += 1
            total += r.get("n", 0)
            viols += [v for v in r.get("violations", ()) if not v.get("internal")]
            if viols:
                break
    for p in procs:
        if p.is_alive():
            p.terminate()
    return total, viols


def report(prop, tier, seed, t0, groups, mine, jobs_list, done, pre_fail):
    fails, viols = list(pre_fail), []
    per = {}
    trusted, funcs, by = {}, {}, {}
    btot = dict(obligations=0, discharged=0)
    tot = dict(obligations=0, discharged=0, paths=0, queries=0, solver_s=0.0, cases=0, distinct=0)
    samples, bounded, known, oblig_names = [], [], {}, {}
    for n, j in enumerate(jobs_list):
        c = groups[j[1]][j[2]]
        r = done[n]
        p = per.setdefault(type(c).__name__, {"function": c.target, "kind":
                           "bounded" if c.bounded else
                           "bounded proof" if c.proof_bound else "proved", "obligations": 0, "discharged": 0,
                           "paths": 0, "solver_s": 0.0, "cases": 0, "wall_s": 0.0})
        if "crash" in r:
            fails.append({"contract": type(c).__name__, "function": c.target, "obligation": j[0],
                          "why": "unsupported", "detail": r["crash"], "smt": ""})
            continue
        viols += r["violations"]
        p["wall_s"] = round(p["wall_s"] + r["wall"], 2)
        if j[0] == "prove":
            st = r["stats"]
            fails += r["fails"]
            for k in ("obligations", "discharged"):
                (btot if c.proof_bound else tot)[k] += getattr(st, k)
            for k in ("paths", "queries"):
                tot[k] += getattr(st, k)
            tot["solver_s"] += st.solver_s
            p["obligations"] += st.obligations
            p["discharged"] += st.discharged
            p["paths"] += st.paths
            p["solver_s"] = round(p["solver_s"] + st.solver_s, 2)
            for k, v in st.by.items():
                by[k] = by.get(k, 0) + v
            for k, v in st.assumed.items():
                trusted[k] = trusted.get(k, 0) + v
            for k, v in st.functions.items():
                if funcs.get(k) != "under contract":
                    funcs[k] = v
            for (f, o), v in st.names.items():
                o = "%s: %s" % (f, o)
                oblig_names[o] = oblig_names.get(o, 0) + v
        else:
            if r["error"]:
                fails.append({"contract": type(c).__name__, "function": c.target,
                              "obligation": "concrete cases", "why": "unsupported",
                              "detail": r["error"], "smt": ""})
            tot["cases"] += r["n"]
            tot["distinct"] += r["distinct"]
            p["cases"] += r["n"]
            samples += r["samples"][:3]
            known.update(r["known"])
    # a failing input of a private helper shows that its contract is broken,
    # not yet that a user sees it: it counts as an input of the property only
    # if the public entry points fail too
    for v in [v for v in viols if v.get("internal")]:
        fails.insert(0, {"contract": v["contract"], "function": v["function"],
                         "obligation": "contract of a helper on " + v["call"][:300],
                         "why": "helper contract fails", "detail": "got %s, contract says %s" % (
                             v["got"][:800], v["wanted"][:800]), "smt": "", "input": v})
    viols = [v for v in viols if not v.get("internal")]
    idle = set()
    searched = 0
    if fails and not viols:
        searched, viols = search(fails, mine, groups, seed, t0 + 780 - time.time())
        tot["cases"] += searched
    # a contract whose code left the verifier's reach (nothing was refuted but
    # loop invariants): its bounded stand-in decides, labelled bounded
    reach = lambda f: f["why"] == "unsupported" and f["obligation"] != "import" \
        or f["why"] == "refuted" and f["obligation"].startswith("loop ")
    for m, i, c in mine:
        if c is None or c.stand_in:
            continue
        name = type(c).__name__
        bad = [f for f in fails if f["contract"] == name]
        if not bad or viols or not searched or not all(map(reach, bad)):
            continue
        if any("ShapeChanged" in f["detail"] for f in bad):
            by_ = [x for x in deciders(mine) if x is not c] if c.is_internal() else []
        elif per.get(name, {}).get("cases"):
            by_ = [c]
        else:
            by_ = deciders(mine) if c.is_internal() else []
        if not by_ or not all(per.get(type(x).__name__, {}).get("cases") for x in by_):
            continue
        fails = [f for f in fails if f not in bad]
        bounded.append("%s: out of the verifier's reach (%s); concrete executions against the "
                       "specifications of %s decided, %d more of them searched for a failing input" % (
                           name, bad[0]["detail"][:200].split("\n")[0],
                           ", ".join(x.target for x in by_), searched))
        per[name]["kind"] = "out of reach, bounded cases decided"
    for m, i, c in mine:
        if c is None or not c.stand_in:
            continue
        bad = [f for f in fails if f["contract"] == type(c).__name__]
        idle.add(c.stand_in)
        if bad and not viols and all(f["why"] != "refuted" and f["obligation"] != "concrete cases" or f["obligation"].startswith("loop ")
                                     for f in bad) and not any(f["contract"] == c.stand_in for f in fails):
            fails = [f for f in fails if f not in bad]
            idle.discard(c.stand_in)
            bounded.append("%s: out of the verifier's reach (%s); its bounded stand-in %s decided" % (
                type(c).__name__, bad[0]["detail"][:200], c.stand_in))
            if type(c).__name__ in per:
                per[type(c).__name__]["kind"] = "out of reach, see " + c.stand_in
    for m, i, c in mine:
        if type(c).__name__ in idle:
            continue
        if c is not None and c.bounded:
            bounded.append("%s: %s (%s)" % (type(c).__name__, c.target, c.bounded))
        if c is not None and c.proof_bound:
            bounded.append("%s: %s (obligations discharged %s)" % (
                type(c).__name__, c.target, c.proof_bound))
        if c is not None:
            for a in c.assumes:
                trusted[a] = trusted.get(a, 0) + 1
    listed = [l for l in known_file() if l.startswith("known: property=%s " % prop)]
    unlisted = [k for k in known if not any(("key=%s " % k) in l for l in listed)]
    for k in unlisted:
        viols.append({"contract": "", "function": "", "how": "known() names an unlisted finding",
                      "call": known[k], "got": "", "wanted": "", "pickle": None, "internal": False})
    level = "proof" if tot["obligations"] and claimed(prop) == "proof" else "exploration"
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level,
          "coverage": {
              "obligations": tot["obligations"], "discharged": tot["discharged"],
              "checker_cmd": "bin/py -m pyvc.run %s --tier %s" % (prop, tier),
              "trusted_base": sorted(set(
                  ["pyvc, the verification-condition generator in /verif/pyvc",
                   "the z3 5.3.2 and cvc5 1.1.2 solvers", "CPython 3.12 semantics of the "
                   "statements executed natively between hooks"] + list(trusted))),
              "evaluations": tot["cases"] + tot["queries"],
              "distinct_nontrivial": tot["distinct"],
              "rule": "concrete executions of the real functions against their specifications "
                      "(distinct: different outcomes) plus solver queries",
              "samples": samples[:12],
              "functions": funcs, "contracts": per, "back_ends": by,
              "solver_s": round(tot["solver_s"], 1), "paths": tot["paths"],
              "bounded_obligations": btot, "concrete_cases": tot["cases"], "bounded_not_proved": bounded,
              "obligation_names": dict(sorted(oblig_names.items(), key=lambda x: -x[1])[:60]),
          },
          "wall_s": round(time.time() - t0, 1),
          "assumptions": sorted(trusted) + [
              "Python ints are mathematical integers in the proofs, as in Python; numpy index "
              "arithmetic is assumed not to overflow 64 bits",
              "logging calls have no effect on results"] +
             ["bounded, not proved: " + b for b in bounded]}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev["coverage"]["undischarged"] = [
        {k: f[k] for k in ("contract", "function", "obligation", "why")} for f in fails[:40]]
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fd:
        json.dump(ev, fd, indent=1, default=str)
    for l in listed:
        # printed for each listed finding that still fails
        key = l.split("key=")[1].split()[0]
        if key in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, l.split("key=%s " % key)[1]))
    print("%s: %d contracts, %d/%d obligations discharged, %d paths, %d concrete cases, %.0f s "
          "(solver %.0f s)" % (prop, len(mine), tot["discharged"] + btot["discharged"],
                               tot["obligations"] + btot["obligations"], tot["paths"],
                               tot["cases"], time.time() - t0, tot["solver_s"]))
    rdir = os.path.join(HERE, "evidence", "replay")
    if viols:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, prop + ".json")
        with open(path, "w") as fd:
            json.dump({"property": prop, "violations": viols[:10], "undischarged": fails[:10]}, fd,
                      indent=1, default=str)
        for v in viols[:5]:
            print("  %s [%s]\n    got    %s\n    wanted %s" % (v["call"], v["how"], v["got"],
                                                           v["wanted"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if fails or tot["obligations"] + btot["obligations"] == 0 and not bounded:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, prop + ".json")
        with open(path, "w") as fd:
            json.dump({"property": prop, "failed_obligations": fails[:20] or "no obligation at all"},
                      fd, indent=1, default=str)
        for f in fails[:5]:
            print("  failed obligation '%s' of %s (%s): %s" % (
                f["obligation"], f["function"], f["why"], f["detail"][:700]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
        return 1
    return 0


def replay(path):
    d = json.load(open(path))
    groups, _ = load()
    by = {type(c).__name__: c for cs in groups.values() for c in cs}
    bad = 0
    for v in d.get("violations", []):
        c = by.get(v["contract"])
        if c is None or not v.get("pickle"):
            print("cannot replay mechanically:", v["call"])
            continue
        a, k = pickle.loads(base64.b64decode(v["pickle"]))
        ok, got = run_case(c, a, k)
        print("%s: %s -> %s" % ("holds" if ok else "FAILS", v["call"], got))
        bad += not ok
    for f in d.get("failed_obligations", []):
        print("obligation %s of %s: %s\n%s" % (f["obligation"], f["function"], f["why"], f["detail"]))
    return 1 if bad else 0


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except BaseException:
        traceback.print_exc()
        pid = sys.argv[1] if len(sys.argv) > 1 else "?"
        p = os.path.join(HERE, "evidence", "replay-crash.txt")
        try:
            open(p, "w").write(traceback.format_exc())
        except OSError:
            pass
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, p))
        rc = 1
    sys.stdout.flush()
    os._exit(rc)
