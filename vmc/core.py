"""Driver shared by all checks: unit scheduling, counting, findings, evidence.

A check module defines PROPERTY, RULE, BOUNDS (dict tier -> text) and units(tier), a list of
(function name, keyword arguments).  Every unit exhaustively explores one finite slice of the
bounded space on the real code imported from /repo and records on its Ctx
  * states       distinct states / inputs / environment histories visited,
  * transitions  executions of implementation steps (calls judged by the oracle),
  * traces       complete histories replayed on the implementation and compared with the oracle.
"""

import hashlib
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import pickle
import signal
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, "evidence")
REPLAY = os.path.join(EVID, "replay")
FINDINGS = os.path.join(ROOT, "known_findings.txt")

MAX_VIOL_PER_UNIT = 8
UNIT_ALARM = {"quick": 500, "thorough": 3000}
DEADLINE = {"quick": 800, "thorough": 6000}


class UnitTimeout(Exception):
    pass


class StopUnit(Exception):
    """Raised when a unit collected enough violations."""


class Ctx:
    def __init__(self, tier="quick"):
        self.tier = tier
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.samples = []
        self.viols = []
        self.caps = []

    def state(self, n=1):
        self.states += n

    def trans(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, *key):
        if len(self.outcomes) < 200000:
            self.outcomes.add(hash(repr(key)) & 0xFFFFFFFFFFFF)

    def sample(self, obj, limit=2):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def cap(self, text):
        self.caps.append(text)

    def viol(self, key, msg, **detail):
        if any(v["key"] == key for v in self.viols):
            return
        self.viols.append({"key": key, "msg": msg, "detail": jsonable(detail)})
        if len(self.viols) >= MAX_VIOL_PER_UNIT:
            raise StopUnit()

    def check(self, cond, key, msg, **detail):
        if not cond:
            self.viol(key, msg, **detail)
        return cond


def jsonable(o, depth=0):
    import numpy as np

    if depth > 8:
        return repr(o)
    if isinstance(o, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist(), depth + 1)
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating, float)):
        f = float(o)
        return f if f == f and abs(f) != float("inf") else repr(f)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, (str, int, bool)) or o is None:
        return o
    return repr(o)


def load_findings(prop):
    """Lines 'finding: property=<id> key=<key> <what>' (fixed: lines suppress nothing)."""
    out = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if not line.startswith("finding:"):
                continue
            parts = line.split(None, 3)
            p = parts[1].split("=", 1)[1]
            k = parts[2].split("=", 1)[1]
            what = parts[3] if len(parts) > 3 else ""
            if p == prop:
                out[k] = what
    return out


def _alarm(_sig, _frm):
    raise UnitTimeout()


def run_unit(modname, fname, kwargs, tier):
    os.environ["VMC_WORKER"] = "1"
    ctx = Ctx(tier)
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(UNIT_ALARM.get(tier, 500))
    try:
        mod = importlib.import_module("vmc.checks." + modname)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            getattr(mod, fname)(ctx, **kwargs)
    except StopUnit:
        pass
    except UnitTimeout:
        tb = traceback.format_exc()
        ctx.viols.append({"key": "hang:%s" % fname, "detail": {"tb": tb[-1500:]},
                          "msg": "the exploration of this slice did not terminate (an implementation call hangs)"})
    except Exception as e:
        tb = traceback.format_exc()
        ctx.viols.append({"key": "exception:%s:%s" % (fname, type(e).__name__), "detail": {"tb": tb[-3000:]},
                          "msg": "unexpected exception during the exploration: %r" % (e,)})
    finally:
        signal.alarm(0)
    return dict(unit=fname, kwargs=jsonable(kwargs), states=ctx.states, transitions=ctx.transitions,
                traces=ctx.traces, outcomes=ctx.outcomes, samples=jsonable(ctx.samples), viols=ctx.viols,
                caps=ctx.caps, wall=time.time() - t0)


def _child(wr, modname, fname, kwargs, tier):
    """Body of a forked worker: one unit, in its own process, so that a crash is seen and contained."""
    try:
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        if not os.environ.get("VMC_DEBUG"):
            os.dup2(dn, 2)
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        r = run_unit(modname, fname, kwargs, tier)
        wr.send_bytes(pickle.dumps(r))
        wr.close()
    finally:
        os._exit(0)


def run_check(modname, tier, seed, jobs=None):
    t0 = time.time()
    mod = importlib.import_module("vmc.checks." + modname)
    prop = mod.PROPERTY
    known = load_findings(prop)
    units = mod.units(tier)
    jobs = jobs or int(os.environ.get("VMC_JOBS", "0")) or min(8, os.cpu_count() or 1)
    deadline = t0 + DEADLINE.get(tier, 800)

    if hasattr(mod, "warm"):
        try:
            mod.warm()  # e.g. JIT compilation, once, before the workers are forked
        except Exception:
            pass
    results, truncated = [], 0
    sys.stdout.flush()
    pending = [(i, f, k) for i, (f, k) in enumerate(units)][::-1]
    running = {}
    stop = False
    try:
        while pending or running:
            while pending and len(running) < jobs and not stop:
                i, f, k = pending.pop()
                rd, wr = mp.Pipe(duplex=False)
                pid = os.fork()
                if pid == 0:
                    _child(wr, modname, f, k, tier)
                wr.close()
                running[rd] = (pid, f, k, time.time())
            left = deadline - time.time()
            if left <= 0:
                break
            for rd in mp.connection.wait(list(running), timeout=min(left, 5)):
                pid, f, k, t1 = running.pop(rd)
                try:
                    r = pickle.loads(rd.recv_bytes())
                except Exception:
                    r = None
                rd.close()
                _, status = os.waitpid(pid, 0)
                if r is None:
                    r = dict(unit=f, kwargs=jsonable(k), states=0, transitions=0, traces=0, outcomes=set(), samples=[], caps=[],
                             wall=time.time() - t1,
                             viols=[{"key": "crash:%s" % f, "detail": {"wait_status": status},
                                     "msg": "the interpreter died while executing the implementation (status %r)" % status}])
                results.append(r)
                if sum(1 for v in r["viols"] if v["key"] not in known) > 0 and not os.environ.get("VMC_ALL"):
                    stop = True
            if stop:
                break
    finally:
        for rd, (pid, f, k, t1) in running.items():
            try:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            except OSError:
                pass
        if not stop:
            truncated = len(units) - len(results)

    os.makedirs(REPLAY, exist_ok=True)
    new, seen_known = [], {}
    for r in results:
        for v in r["viols"]:
            if v["key"] in known:
                seen_known[v["key"]] = known[v["key"]]
            else:
                new.append((r, v))

    states = sum(r["states"] for r in results)
    trans = sum(r["transitions"] for r in results)
    traces = sum(r["traces"] for r in results)
    outcomes = set()
    for r in results:
        outcomes |= r["outcomes"]
    samples = []
    for r in results:
        for s in r["samples"]:
            if len(samples) < 12:
                samples.append({"unit": r["unit"], "args": r["kwargs"], "sample": s})
    caps = sorted({c for r in results for c in r["caps"]})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "model_checking"),
        "coverage": {
            "states": states, "transitions": trans, "traces_validated_against_impl": traces,
            "distinct_nontrivial": len(outcomes), "rule": mod.RULE,
            "bounds": mod.BOUNDS.get(tier, mod.BOUNDS.get("quick", "")),
            "units": len(results), "units_planned": len(units), "units_not_run": truncated,
            "stopped_at_first_violation": stop, "caps_hit": caps,
            "exhaustive": truncated == 0 and not stop and not caps,
            "explanation": "every element of the bounded space named in 'bounds' was executed on the real code",
            "known_findings_seen": sorted(seen_known),
            "samples": samples,
        },
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + [
            "numpy, scipy and the Python interpreter behave as documented",
            "behaviour outside the stated bounds is not covered by this run"],
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    for k, what in sorted(seen_known.items()):
        print("KNOWN-FINDING: property=%s %s [%s]" % (prop, what, k))
    print("%s tier=%s units=%d/%d states=%d transitions=%d traces=%d outcomes=%d wall=%.1fs%s" % (
        prop, tier, len(results), len(units), states, trans, traces, len(outcomes), time.time() - t0,
        " TRUNCATED" if truncated else ""))
    if os.environ.get("VMC_PROFILE"):
        for r in sorted(results, key=lambda r: -r["wall"])[:25]:
            print("  %.1fs %s %s trans=%d" % (r["wall"], r["unit"], json.dumps(r["kwargs"])[:120], r["transitions"]))
    if new:
        done = set()
        for r, v in new:
            if v["key"] in done:
                continue
            done.add(v["key"])
            h = hashlib.sha1((prop + v["key"]).encode()).hexdigest()[:10]
            path = os.path.join(REPLAY, "%s-%s.json" % (prop, h))
            with open(path, "w") as f:
                json.dump({"property": prop, "module": modname, "unit": r["unit"], "kwargs": r["kwargs"],
                           "tier": tier, "key": v["key"], "msg": v["msg"], "detail": v["detail"]}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("   %s: %s" % (v["key"], v["msg"]))
        sys.stdout.flush()
        return 1
    return 0


def replay(path):
    """Re-run, without the scheduler, the slice that produced a recorded violation."""
    rec = json.load(open(path))
    r = run_unit(rec["module"], rec["unit"], rec["kwargs"], rec["tier"])
    hit = [v for v in r["viols"] if v["key"] == rec["key"]]
    for v in hit or r["viols"]:
        print("VIOLATION property=%s replay=%s" % (rec["property"], path))
        print(json.dumps(v, indent=1)[:4000])
    return 1 if r["viols"] else 0
