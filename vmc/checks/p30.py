"""P30: time-dependent problems change only when time is advanced."""

import copy
import itertools
import warnings

import numpy as np

from vmc import dynref
from vmc.checks import p29

PROPERTY = "P30"
RULE = "every state is one dynamic problem after one history of its clock; transitions are clock ticks, evaluations, front requests and algorithm iterations; outcomes are distinct problem/time patterns"
BOUNDS = {
    "quick": "all histories of {tick 1, 3, one step, set time, evaluate, front, ideal, copy} up to depth 4 x 14 DF problems (depth 3 for the CEC2015 classes), every clock setting x all tick sequences of depth 4, "
             "grids of designs at 12 times against the published formulas, documented fronts at 12 times, all change schedules of 5 iterations x DNSGA2 A/B and KGB settings",
    "thorough": "histories of depth 5, 41 times, all change schedules of 7 iterations and more seeds",
}

DF = ["df%d" % i for i in range(1, 15)]
GAPS = ("df9", "df12", "df13")
CEC = ["FDA2DEB", "FDA4", "FDA5", "DIMP2", "dMOP2", "HE2", "HE7", "HE9"]
BROKEN = [("cec2015", "dMOP3")] + [("misc", n) for n in ("FDA2_deb", "DMOP2", "DIMP2b", "HE2b", "HE7b", "HE9b")]


def make(name, **kw):
    if name in DF:
        from pymoo.problems import get_problem
        return get_problem(name, **kw)
    from pymoo.problems.dynamic import cec2015
    return getattr(cec2015, name)(**kw)


def F(p, X):
    with np.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return np.asarray(p.evaluate(np.array(X, float), return_values_of=["F"]), float)


def some(p):
    n = p.n_var
    U = np.array([np.full(n, 0.3), np.full(n, 0.8), np.linspace(0.1, 0.9, n), np.linspace(1, 0, n), np.r_[0.7, np.zeros(n - 1)]])
    return p.xl + U * (p.xu - p.xl)


def taus(deep):
    return sorted({0, 1, 19, 20, 45, 60, 83, 100, 140, 200, 300, 377} | (set(range(0, 400, 13)) if deep else set()))


# ---------------------------------------------------------------------------------------------- the clock

def u_clock(ctx):
    depth = 5 if ctx.tier == "thorough" else 4
    for nt, taut, tau in itertools.product((1, 2, 10), (1, 3, 20), (0, 1, 2, 19)):
        for seq in itertools.product((1, 2, 3, taut), repeat=depth):
            p = make("df1", nt=nt, taut=taut)
            p.tau = tau
            now = tau
            was = None
            for i, k in enumerate(seq):
                if k == 1 and i % 2:
                    p.tic()
                else:
                    p.tic(k)
                now += k
                t = p.time
                ctx.trans()
                ctx.check(abs(t - (now // taut) / nt) < 1e-12, "clock:time", "the time is not the number of completed steps divided by the severity", nt=nt, taut=taut, tau=tau, seq=seq[:i + 1], time=t)
                if was is not None and was[0] // taut == now // taut:
                    ctx.check(t == was[1], "clock:step", "the time changed although no step was completed", nt=nt, taut=taut, tau=tau, seq=seq[:i + 1])
                was = (now, t)
            ctx.state()
        ctx.outcome("clock", nt, taut, tau)
    for name in DF + CEC:
        for t in (0.0, 0.3, 1.7):
            a = make(name, time=t)
            b = make(name)
            b.time = t
            ctx.check(a.time == t and b.time == t, "clock:given", "the given time is not the time of the problem", problem=name, time=t)
            X = some(a)
            ctx.check(p29.same(F(a, X), F(b, X)), "clock:given", "a time given at construction and one set later differ", problem=name, time=t)
            for k in (1, 20, 77):
                a.tic(k)
                ctx.check(a.time == t, "clock:given", "a fixed time moved with the clock", problem=name, time=t)
        ctx.state()


# -------------------------------------------------------------------------------------------- histories

OPS = ("tick", "tick3", "step", "set", "eval", "front", "ideal", "copy")
_ref = {}


def reference(name, t):
    key = (name, t)
    if key not in _ref:
        q = make(name, time=t)
        X = some(q)
        f = F(q, X)
        pf = None
        if name in DF:
            pf = np.array(make(name, time=t).pareto_front(), float)
        _ref[key] = (X, f, pf)
    return _ref[key]


def u_history(ctx, name):
    deep = ctx.tier == "thorough"
    depth = (4 if name in DF else 3) + (1 if deep and name in DF else 0)
    ops = [o for o in OPS if name in DF or o not in ("front", "ideal")]
    for seq in itertools.product(ops, repeat=depth):
        if seq[-1] not in ("eval", "front", "ideal"):
            continue                            # only asking shows anything
        p = make(name, taut=4, nt=5)
        tau, fixed = 1, None
        others = []
        for i, o in enumerate(seq):
            ctx.trans()
            t = fixed if fixed is not None else 1 / 5 * (tau // 4)
            if o in ("tick", "tick3", "step"):
                k = {"tick": 1, "tick3": 3, "step": 4}[o]
                p.tic(k)
                tau += k
            elif o == "set":
                fixed = 0.35 if fixed is None else fixed + 0.5
                p.time = fixed
            elif o == "copy":
                q = copy.deepcopy(p)
                others.append((p, t))
                p = q
            else:
                ask(ctx, name, p, o, t, seq[:i + 1])
        for q, t in others:                     # the clock of the original does not move with the copy's
            if not ctx.check(q.time == t, "history:copy:" + name, "the clock of a problem moved with that of its copy", problem=name, history=seq):
                break
            ask(ctx, name, q, "eval", t, seq + ("original",))
        ctx.state()
    ctx.outcome("history", name)


def ask(ctx, name, p, o, t, hist):
    X, f, pf = reference(name, t)
    if o == "eval":
        got = F(p, X)
        ctx.check(p29.same(got, f), "history:values:" + name, "after this history the values are not those of the current time", problem=name, history=hist, time=t)
    elif o == "front":
        got = np.asarray(p.pareto_front(), float)
        ctx.check(p29.same(got, pf), "history:front:" + name, "after this history the front does not belong to the current time", problem=name, history=hist, time=t)
    else:
        got = np.vstack([p.ideal_point(), p.nadir_point()])
        ctx.check(p29.same(got, np.vstack([pf.min(axis=0), pf.max(axis=0)])), "history:ideal:" + name, "after this history ideal and nadir do not belong to the current time", problem=name, history=hist, time=t)


# -------------------------------------------------------------------------------------- values and fronts

def u_function(ctx, name):
    deep = ctx.tier == "thorough"
    p = make(name)
    X = p29.designs(p, False)
    if not deep:
        X = X[np.unique(np.linspace(0, len(X) - 1, 700).astype(int))]
    for tau in taus(deep):
        p = make(name)
        p.tau = tau
        t = p.time
        keep = X.copy()
        f = F(p, X)
        ctx.check((X == keep).all(), "function:argument:" + name, "evaluating changed the designs", problem=name, time=t)
        ctx.check(f.shape == (len(X), p.n_obj), "function:shape:" + name, "the objectives have shape %s" % (f.shape,), problem=name, time=t)
        bad = np.where(~np.isfinite(f).all(axis=1))[0]
        if len(bad):
            ctx.viol("function:finite:" + name, "the values are not finite", problem=name, time=t, x=X[bad[0]], F=f[bad[0]])
        ctx.check(p29.same(F(p, X[::-1])[::-1], f), "function:order:" + name, "the values depend on the order of the designs", problem=name, time=t)
        idx = np.unique(np.linspace(0, len(X) - 1, 25).astype(int))
        ctx.check(p29.same(np.vstack([F(p, X[[i]]) for i in idx]), f[idx]), "function:alone:" + name, "a design evaluates differently alone and in a batch", problem=name, time=t)
        S = some(p)
        fs = F(p, S)
        for r in range(1, 4):
            for I in itertools.permutations(range(len(S)), r):
                ctx.trans()
                ctx.check(p29.same(F(p, S[list(I)]), fs[list(I)]), "function:batch:" + name, "the values depend on the other designs of the batch", problem=name, time=t, rows=I)
        for i in (range(len(X)) if deep else range(0, len(X), 3)):
            try:
                want = np.array(dynref.value(name, X[i], t), float)
            except (ZeroDivisionError, ValueError, OverflowError):
                continue
            ctx.state()
            if not np.all(np.abs(f[i] - want) <= 1e-9 * np.maximum(1, np.abs(want))) and not edge(name, X[i], t):
                ctx.viol("function:formula:" + name, "the values are not those of the published formula", problem=name, time=t, x=X[i], F=f[i], formula=want)
                break
        ctx.outcome("function", name, round(t, 3))


def edge(name, x, t):
    """A floor whose argument lies on an integer may round either way."""
    if name == "df12":
        k = 10 * np.sin(np.pi * t)
        v = k * (2 * np.asarray(x[:2]) - 1)
    elif name in ("df2", "df5", "df9", "df13"):
        v = np.array([{"df2": len(x) - 1, "df5": 10, "df9": 10, "df13": 6}[name] * np.sin(0.5 * np.pi * t)])
    else:
        return False
    return bool((np.abs(v - np.round(v)) < 1e-9).any())


def u_front(ctx, name):
    deep = ctx.tier == "thorough"
    for tau in taus(deep):
        p = make(name)
        p.tau = tau
        t = p.time
        pf = np.asarray(p.pareto_front(), float)
        if not ctx.check(pf.ndim == 2 and len(pf) > 0 and pf.shape[1] == p.n_obj and bool(np.isfinite(pf).all()), "front:shape:" + name, "the front has shape %s" % (pf.shape,), problem=name, time=t):
            continue
        ctx.check(np.array_equal(p.ideal_point(), pf.min(axis=0)) and np.array_equal(p.nadir_point(), pf.max(axis=0)), "front:ideal:" + name, "ideal and nadir do not bound the front", problem=name, time=t)
        if p.n_obj == 2:
            ctx.check(bool((np.diff(pf[:, 0]) >= 0).all()), "front:sorted:" + name, "the two-dimensional front is not sorted", problem=name, time=t)
        span = np.maximum(pf.max(axis=0) - pf.min(axis=0), 1e-9)
        tol = 1e-9
        w, (i, j) = p29.margin(pf / span, pf / span)
        ctx.check(w <= tol, "front:dominated:" + name, "a point of the front is dominated by another one", problem=name, time=t, a=pf[i], b=pf[j])
        # the documented front is reached by the optimal designs it is made of
        R = np.array(dynref.optimal(name, p.n_var, t, 100))
        R = R[((R >= p.xl - 1e-12) & (R <= p.xu + 1e-12)).all(axis=1)] if name != "df4" else R     # its set leaves the bounds slightly at some times
        fr = F(p, R)
        for v in pf:
            if not (np.abs(fr - v).max(axis=1) <= 1e-6).any() and not any(edge(name, x, t) for x in R):
                ctx.viol("front:reached:" + name, "a point of the documented front is not the value of any optimal design", problem=name, time=t, front=v)
                break
        G = p29.designs(p, False)
        G = G[np.unique(np.linspace(0, len(G) - 1, 300).astype(int))]
        O = np.array(dynref.optimal(name, p.n_var, t, 101 if deep else 51))
        O = O[((O >= p.xl - 1e-12) & (O <= p.xu + 1e-12)).all(axis=1)]
        if name not in GAPS:                    # fronts with gaps are sampled: a point beside a gap may be beaten by a finer sample
            for what, A in (("an optimal design", F(p, O)), ("a design", F(p, G))):
                A = A[np.isfinite(A).all(axis=1)]
                ctx.trans(len(A))
                w, (i, j) = p29.margin(A / span, pf / span)
                ctx.check(w <= tol, "front:beaten:" + name, "%s dominates the documented front" % what, problem=name, time=t, F=A[i], front=pf[j], margin=w)
            w, (i, j) = p29.margin(pf / span, F(p, O) / span)
            ctx.check(w <= tol, "front:unreachable:" + name, "the documented front claims better values than the optimal designs reach", problem=name, time=t, x=O[j], front=pf[i], margin=w)
        else:
            w, (i, j) = p29.margin(fr / span, pf / span)
            ctx.check(w <= tol or any(edge(name, x, t) for x in R), "front:beaten:" + name, "an optimal design dominates the documented front", problem=name, time=t, F=fr[i], front=pf[j], margin=w)
        ctx.state(len(pf))
        ctx.outcome("front", name, round(t, 3), len(pf))
        for n_points in (2, 17, 100):
            q = make(name)
            q.tau = tau
            if p.n_obj == 2 and name != "df9":
                got = q.pareto_front(n_pareto_points=n_points)
                ctx.check(len(got) == n_points, "front:points:" + name, "asking for %d points gives %d" % (n_points, len(got)), problem=name, time=t)


def u_broken(ctx, part):
    import importlib
    mod, cls = BROKEN[part]
    label = "%s.%s" % (mod, cls)
    try:
        m = importlib.import_module("pymoo.problems.dynamic." + mod)
        p = getattr(m, cls)()
        X = some(p)
        f = F(p, X)
        ctx.check(f.shape == (len(X), p.n_obj), "broken:" + label, "the objectives have shape %s" % (f.shape,))
        ctx.check(p29.same(F(p, X[[1]])[0], f[1]), "broken:" + label, "a design evaluates differently alone and in a batch")
        a = F(p, X)
        p.tic(p.taut * 3)
        ctx.check(not p29.same(a, F(p, X)), "broken:" + label, "the values do not depend on time")
        if mod == "misc":
            pf = np.asarray(p.pareto_front(), float)
            ctx.check(pf.ndim == 2 and pf.shape[1] == 2, "broken:" + label, "no front")
    except Exception as e:
        ctx.viol("broken:" + label, "the problem cannot be evaluated: %s: %s" % (type(e).__name__, e), problem=label)
    ctx.state()
    ctx.outcome("broken", label)


# --------------------------------------------------------------------------------------------- simulation

def u_simulation(ctx):
    """Time advances exactly once per iteration."""
    from pymoo.algorithms.moo.nsga2 import NSGA2
    from pymoo.algorithms.moo.moead import MOEAD
    from pymoo.core.callback import CallbackCollection
    from pymoo.optimize import minimize
    from pymoo.problems import get_problem
    from pymoo.problems.dyn import TimeSimulation
    from pymoo.algorithms.moo.dnsga2 import DNSGA2
    from pymoo.algorithms.moo.kgb import KGB
    algos = [("NSGA2", lambda: NSGA2(pop_size=6)), ("NSGA2+1", lambda: NSGA2(pop_size=6, n_offsprings=1)), ("DNSGA2", lambda: DNSGA2(pop_size=6)), ("KGB", lambda: KGB(pop_size=6, c_size=3))]
    for (label, algo), name, n_gen, taut in itertools.product(algos, ("df1", "df4", "df11"), (1, 2, 5, 9), (1, 3)):
        for save in (False, True):
            p = get_problem(name, taut=taut, nt=4)
            sim = TimeSimulation()
            seen = []

            def note(a):
                seen.append((a.n_iter, p.tau))
            a = algo()
            minimize(p, a, ("n_gen", n_gen), seed=1, callback=sim, save_history=save, output=None)
            ctx.check(p.tau == 1 + n_gen, "simulation:ticks", "the clock advanced %d times in %d iterations" % (p.tau - 1, n_gen), algorithm=label, problem=name)
            ctx.state()
        p = get_problem(name, taut=taut, nt=4)
        a = algo()
        a.setup(p, termination=("n_gen", n_gen), seed=1, callback=TimeSimulation())
        k = 1
        while a.has_next():
            infills = a.infill()
            ctx.check(p.tau == k, "simulation:ticks", "the clock moved before the iteration was over", algorithm=label, problem=name)
            if infills is not None:
                a.evaluator.eval(p, infills)
            ctx.check(p.tau == k, "simulation:ticks", "the clock moved while designs were evaluated", algorithm=label, problem=name)
            a.advance(infills=infills)
            k += 1
            ctx.check(p.tau == k, "simulation:ticks", "the clock did not advance exactly once in the iteration", algorithm=label, problem=name)
            ctx.trans()
        ctx.outcome("simulation", label, name, n_gen, taut)
    for name in ("zdt1", "sphere"):
        try:
            minimize(get_problem(name), NSGA2(pop_size=6) if name == "zdt1" else __import__("pymoo.algorithms.soo.nonconvex.ga", fromlist=["GA"]).GA(pop_size=6), ("n_gen", 2), callback=TimeSimulation())
            ctx.viol("simulation:static", "simulating time on a problem without time raised nothing", problem=name)
        except Exception:
            pass
        ctx.state()


# ------------------------------------------------------------------------------------ algorithms and change

def moving(kind):
    from pymoo.problems.dyn import DynamicTestProblem

    class Moving(DynamicTestProblem):
        """Objectives with a recorded clock; `kind` says which designs a change affects."""

        def __init__(self):
            super().__init__(1, 1, tau=0, n_var=3, n_obj=2, xl=-1.0, xu=2.0)
            self.log = []

        def at(self, X, t):
            X = np.atleast_2d(X)
            f1 = (X ** 2).sum(axis=1)
            f2 = ((X - 1) ** 2).sum(axis=1)
            f = np.column_stack([f1, f2])
            if kind == "all":
                f = f + t * (1 + X[:, [0]])*0.5 + 0.25 * t
            elif kind == "half":
                f = f + t * (X[:, [0]] > 0.5)
            elif kind == "small":
                f = f + 1e-3 * t
            return f

        def _evaluate(self, X, out, *args, **kwargs):
            out["F"] = self.at(X, self.time)
            self.log.append((np.array(X), np.array(out["F"])))
    return Moving()


def dyn_algos():
    from pymoo.algorithms.moo.dnsga2 import DNSGA2
    from pymoo.algorithms.moo.kgb import KGB
    out = []
    for v, perc, div, n, eps in itertools.product("AB", (0.1, 0.5, 1.0), (0.0, 0.3, 1.0), (4, 7), (0.0, 1e-2)):
        if eps and (perc, div) != (0.5, 0.3):
            continue
        out.append(("DNSGA2(%s,%s,%s,%s,%s)" % (v, perc, div, n, eps), eps, n, lambda v=v, perc=perc, div=div, n=n, eps=eps: DNSGA2(pop_size=n, version=v, perc_detect_change=perc, perc_diversity=div, eps=eps)))
    for perc, c, n, eps in itertools.product((0.1, 1.0), (2, 4), (5, 8), (0.0, 1e-2)):
        if eps and c != 2:
            continue
        out.append(("KGB(%s,%s,%s,%s)" % (perc, c, n, eps), eps, n, lambda perc=perc, c=c, n=n, eps=eps: KGB(pop_size=n, c_size=c, perc_detect_change=perc, eps=eps)))
    return out


def u_change(ctx, part, parts):
    deep = ctx.tier == "thorough"
    n_iter = 7 if deep else 5
    for label, eps, n, make_algo in dyn_algos()[part::parts]:
        for kind in ("all", "half", "small"):
            for sched in itertools.product((0, 1), repeat=n_iter - 1):
                for seed in ((1, 2, 3) if deep else (1,)):
                    history(ctx, label, eps, n, make_algo, kind, sched, seed)
        ctx.outcome("change", label)


def history(ctx, label, eps, n, make_algo, kind, sched, seed):
    p = moving(kind)
    a = make_algo()
    a.setup(p, termination=("n_gen", len(sched) + 1), seed=seed)
    info = dict(algorithm=label, kind=kind, schedule=sched, seed=seed)
    prev = None
    for i in range(len(sched) + 1):
        p.log = []
        infills = a.infill()
        if infills is not None:
            a.evaluator.eval(p, infills)
        t = p.time
        a.advance(infills=infills)
        X, f = a.pop.get("X"), a.pop.get("F")
        ctx.trans()
        cur = p.at(X, t)
        ctx.check(len(a.pop) == n, "change:size", "the population has %d members instead of %d" % (len(a.pop), n), step=i, **info)
        ctx.check(bool(((X >= p.xl - 1e-12) & (X <= p.xu + 1e-12)).all()), "change:bounds", "a design lies outside the bounds", step=i, **info)
        fresh = np.abs(f - cur).max(axis=1) <= 1e-12
        if prev is None:
            ctx.check(bool(fresh.all()), "change:initial", "the reported values are not those of the current time", step=i, **info)
        else:
            pX, pF = prev
            old = {x.tobytes(): v for x, v in zip(pX, pF)}
            # what the run saw of the change: the first evaluation of this iteration asks for designs kept before
            sX, sF = p.log[0]
            known = [(old[x.tobytes()], v) for x, v in zip(sX, sF) if x.tobytes() in old]
            seen = len(known) == len(sX) and np.mean([(u - v) ** 2 for u, v in known])
            ctx.check(len(known) == len(sX) >= 1, "change:probe", "the iteration does not begin by evaluating kept designs again", step=i, **info)
            if seen > eps:
                ctx.check(bool(fresh.all()), "change:stale", "a change was seen but reported values belong to an earlier time", step=i, x=X[np.argmin(fresh)], reported=f[np.argmin(fresh)], current=cur[np.argmin(fresh)], **info)
                ctx.check(a.evaluator.n_eval >= 0 and fresh.all(), "change:stale", "a change was seen but reported values belong to an earlier time", step=i, **info)
            else:
                for x, v, ok in zip(X, f, fresh):
                    if not ok:
                        ctx.check(x.tobytes() in old and np.array_equal(old[x.tobytes()], v), "change:unknown", "a reported value was never obtained for this design", step=i, x=x, reported=v, **info)
                # elitism: what is reported is not worse than what was kept
                b = f.min(axis=0)
                ctx.check(bool((b <= pF.min(axis=0) + 1e-12).all()) or len(prev[0]) < 3, "change:lost", "without a change the best value of an objective was lost", step=i, **info)
            opt = a.opt
            ctx.check(bool(np.isin([id(o) for o in opt], [id(o) for o in a.pop]).all()), "change:opt", "a reported optimum is not in the population", step=i, **info)
        prev = (X.copy(), f.copy())
        if i < len(sched) and sched[i]:
            p.tic()
    ctx.state()


# --------------------------------------------------------------------------------------------- mean IGD

def u_migd(ctx):
    from pymoo.algorithms.moo.dnsga2 import DNSGA2
    from pymoo.core.callback import CallbackCollection
    from pymoo.indicators.migd import MIGD
    from pymoo.problems import get_problem
    from pymoo.problems.dyn import TimeSimulation
    for name, re, taut, n_gen, first in itertools.product(("df1", "df3", "df8", "df11"), (True, False), (1, 2), (3, 6), (True, False)):
        p = get_problem(name, taut=taut, nt=3)
        a = DNSGA2(pop_size=8)
        m = MIGD(reevaluate=re)
        sim = TimeSimulation()
        a.setup(p, termination=("n_gen", n_gen), seed=1, callback=CallbackCollection(*((m, sim) if first else (sim, m))))
        want = []
        while a.has_next():
            a.next()
            q = get_problem(name, taut=taut, nt=3)
            q.tau = p.tau - (1 if first else 0)
            f = F(q, a.pop.get("X")) if re else a.pop.get("F")
            pf = q.pareto_front()
            want.append((q.time, np.mean([min(np.sqrt(((r - v) ** 2).sum()) for v in f) for r in pf])))
            ctx.trans()
            ctx.check(len(m.records) == len(want) and abs(m.records[-1][0] - want[-1][0]) < 1e-12 and abs(m.records[-1][1] - want[-1][1]) < 1e-9, "migd:record",
                      "the recorded distance is not that of the current time", problem=name, reevaluate=re, iteration=len(want), got=m.records[-1], want=want[-1])
        ctx.check(abs(m.value() - np.mean([w for _, w in want])) < 1e-9, "migd:mean", "the value is not the mean of the records", problem=name)
        ctx.state()
        ctx.outcome("migd", name, re, taut)


# ---------------------------------------------------------------------------------------------- the cache

def u_cache(ctx):
    from pymoo.util.cache import Cache

    depth = 5 if ctx.tier == "thorough" else 4
    calls = [(u, s, arg) for u in (None, True, False) for s in (None, True, False) for arg in (0, 1)]

    class Thing:
        def __init__(self):
            self.n = 0

        @Cache
        def one(self, arg):
            self.n += 1
            return ("one", arg, self.n)

        @Cache
        def two(self, arg):
            self.n += 1
            return ("two", arg, self.n)

    for seq in itertools.product(calls, repeat=2 if depth == 4 else 3):
        for tail in itertools.product(("one", "two"), repeat=len(seq)):
            a, b = Thing(), Thing()
            store = {}
            n = 0
            for (u, s, arg), f in zip(seq + ((True, False, 0),), tail + ("one",)):
                kw = {k: v for k, v in (("use_cache", u), ("set_cache", s)) if v is not None}
                got = getattr(a, f)(arg, **kw)
                if u is not False and f in store:
                    want = store[f]
                else:
                    n += 1
                    want = (f, arg, n)
                    if s is not False:
                        store[f] = want
                ctx.trans()
                ctx.check(got == want, "cache", "a cached call returned %s instead of %s" % (got, want), calls=seq, functions=tail)
            ctx.check(b.n == 0 and not getattr(b, "cache", {}), "cache:shared", "another object was affected")
            ctx.state()
    ctx.outcome("cache")


def units(tier):
    U = [("u_clock", {}), ("u_simulation", {}), ("u_migd", {}), ("u_cache", {})]
    for n in DF + CEC:
        U += [("u_history", dict(name=n)), ("u_function", dict(name=n))]
    U += [("u_front", dict(name=n)) for n in DF]
    U += [("u_broken", dict(part=i)) for i in range(len(BROKEN))]
    U += [("u_change", dict(part=i, parts=16)) for i in range(16)]
    return U
