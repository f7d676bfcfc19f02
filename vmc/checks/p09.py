"""P09: budget terminations against their definition: complete runs and enumerated counters/clocks."""

import itertools
import time
from types import SimpleNamespace

import numpy as np

PROPERTY = "P09"
RULE = ("an execution is one complete run under one budget (or one sequence of updates of a termination), judged at every iteration; outcomes are distinct "
        "(algorithm, budget kind, iterations, evaluations) results")
BOUNDS = {
    "quick": "45 algorithms x iteration budgets 1-5, every evaluation budget 1-22, every way to write the same budget (string, tuple, object, constructor, setup, minimize), "
             "time budgets with a virtual clock under every pattern of evaluation durations {0,1,2} of the first 4 iterations; bare terminations: every sequence of 6 counter increments from {0,1,3} x budgets 1-8, every "
             "clock sequence of 5 steps from {0,0.5,1,2.5} x 4 limits; combinations (any, all, collection, nested) of 2-3 budgets",
    "thorough": "as quick with evaluation budgets up to 45, iteration budgets up to 9 and 8 increments",
}
ASSUMPTIONS = ["iterations are counted the way the algorithm counts them (n_iter, callback); a local search may need several evaluations per iteration",
               "CMA-ES may also stop by its own numerical criteria"]


def problem_of(a, n_ieq=0, m=None):
    from vmc import zoo
    return zoo.make_problem(n_var=a.n_var, n_obj=m or (1 if a.soo else 2), n_ieq=n_ieq)


class Trace:
    """Callback that records every iteration."""

    def __new__(cls, clock=None):
        from pymoo.core.callback import Callback

        class T(Callback):
            def __init__(self):
                super().__init__()
                self.rows = []

            def notify(self, algorithm):
                self.rows.append((algorithm.n_iter, algorithm.evaluator.n_eval, float(algorithm.termination.perc), clock() if clock else None,
                                  algorithm.termination.has_terminated()))

            def __deepcopy__(self, memo):
                return self
        return T()


def run(a, termination, ctor=None, how="setup", clock=None, limit=400):
    """Drive with the public loop; returns (trace rows, algorithm, problem, calls of next)."""
    from pymoo.optimize import minimize
    p = problem_of(a)
    cb = Trace(clock)
    if how == "minimize":
        algo = a.make()
        res = minimize(p, algo, termination, seed=1, callback=cb)
        return cb.rows, res.algorithm, p, None
    algo = a.make(**({"termination": ctor} if ctor is not None else {}))
    kw = {"termination": termination} if termination is not None else {}
    algo.setup(p, seed=1, callback=cb, **kw)
    n = 0
    while algo.has_next():
        algo.next()
        n += 1
        if n > limit:
            break
    return cb.rows, algo, p, n


def progress_ok(ctx, rows, tag, d):
    last = -1.0
    for k, (it, ne, perc, clk, done) in enumerate(rows):
        if not (perc >= last - 1e-12):
            ctx.viol("%s:monotone" % tag, "progress decreases during the run", progress=[r[2] for r in rows], **d)
        if perc < 0 or perc != perc:
            ctx.viol("%s:range" % tag, "progress leaves its range", progress=[r[2] for r in rows], **d)
        if (perc >= 1.0) != done or (done and k != len(rows) - 1) or (not done and k == len(rows) - 1):
            ctx.viol("%s:complete" % tag, "progress does not reach 1 exactly when the run ends", progress=[r[2] for r in rows], **d)
        last = perc


OWN_STOP = ("CMAES",)


def u_iter(ctx, name, top):
    from vmc import zoo
    a = zoo.by_name(name)
    for n in range(1, top + 1):
        rows, algo, p, calls = run(a, ("n_iter", n))
        d = dict(algorithm=name, budget=n, iterations=len(rows))
        ctx.state()
        ctx.trace()
        ctx.trans(len(rows))
        ctx.outcome(name, n, len(rows))
        if len(rows) != n and not (name in OWN_STOP and len(rows) < n):
            ctx.viol("iter:count:%s" % name, "a run limited to %d iterations performed %d" % (n, len(rows)), **d)
        if [r[0] for r in rows] != list(range(1, len(rows) + 1)):
            ctx.viol("iter:number:%s" % name, "iterations are not numbered 1, 2, 3, ...", numbers=[r[0] for r in rows], **d)
        if name not in OWN_STOP:
            progress_ok(ctx, rows, "iter:%s" % name, d)


def u_eval(ctx, name, top):
    from vmc import zoo
    a = zoo.by_name(name)
    for n in range(1, top + 1):
        rows, algo, p, calls = run(a, ("n_eval", n))
        counts = [r[1] for r in rows]
        d = dict(algorithm=name, budget=n, counter=counts)
        ctx.state()
        ctx.trace()
        ctx.trans(len(rows))
        ctx.outcome(name, "e", n, len(rows), counts[-1] if counts else None)
        if not counts:
            ctx.viol("eval:none:%s" % name, "a run limited by evaluations performed no iteration", **d)
            continue
        if any(c >= n for c in counts[:-1]):
            ctx.viol("eval:late:%s" % name, "an iteration was started although the budget of %d evaluations was used up: %r" % (n, counts), **d)
        if counts[-1] < n and name not in OWN_STOP:
            ctx.viol("eval:early:%s" % name, "the run ended after %d of %d evaluations" % (counts[-1], n), **d)
        if name not in OWN_STOP and name != "RVEA":
            progress_ok(ctx, rows, "eval:%s" % name, d)


def u_equiv(ctx, name):
    """Every way to write a budget."""
    from pymoo.termination import get_termination
    from pymoo.termination.max_eval import MaximumFunctionCallTermination
    from pymoo.termination.max_gen import MaximumGenerationTermination
    from vmc import zoo
    a = zoo.by_name(name)
    for kind, n in (("iter", 3), ("eval", 11)):
        if kind == "iter":
            forms = [("tuple n_iter", lambda: ("n_iter", n)), ("tuple n_gen", lambda: ("n_gen", n)), ("get n_gen", lambda: get_termination("n_gen", n)),
                     ("object", lambda: MaximumGenerationTermination(n)), ("list", lambda: ["n_gen", n])]
        else:
            forms = [("tuple n_eval", lambda: ("n_eval", n)), ("tuple n_evals", lambda: ("n_evals", n)), ("get n_eval", lambda: get_termination("n_eval", n)),
                     ("object", lambda: MaximumFunctionCallTermination(n))]
        ref = None
        for label, mk in forms:
            for how in ("setup", "constructor", "minimize"):
                if how == "constructor":
                    if name == "NRBO":
                        continue  # its constructor takes max_iteration instead
                    rows, algo, p, _ = run(a, None, ctor=mk())
                else:
                    rows, algo, p, _ = run(a, mk(), how=how)
                got = ([r[:2] for r in rows], [r[0].tobytes() for r in p.log])
                ctx.state()
                ctx.trace()
                ctx.trans(len(rows))
                ctx.outcome(name, kind, len(rows))
                if ref is None:
                    ref = got
                elif got != ref:
                    ctx.viol("equiv:%s:%s" % (name, kind), "the budget written as %s (%s) gives another run: %r instead of %r" % (
                        label, how, got[0][-3:], ref[0][-3:]), algorithm=name, form=label, how=how)


class Clock:
    """A virtual clock: time only passes when the script says so."""

    def __init__(self):
        self.now = 1000.0

    def __enter__(self):
        self.saved = {k: getattr(time, k) for k in ("time", "perf_counter", "monotonic", "time_ns", "perf_counter_ns", "monotonic_ns", "process_time")}
        for k in self.saved:
            setattr(time, k, (lambda: int(self.now * 1e9)) if k.endswith("_ns") else (lambda: self.now))
        return self

    def __exit__(self, *a):
        for k, f in self.saved.items():
            setattr(time, k, f)


def u_time(ctx, name):
    from vmc import zoo
    a = zoo.by_name(name)
    for limit in (1, 3, "00:00:04", 2.5):
        lim = 4.0 if isinstance(limit, str) else float(limit)
        for pattern in itertools.product((0.0, 1.0, 2.0), repeat=4):
            with Clock() as clk:
                p = problem_of(a)
                orig = p._evaluate
                step = {"k": -1}
                # each iteration takes the scripted time (0.7 after the script is used up), counted from the start of the first evaluation
                cb = Trace(lambda: clk.now)
                algo = a.make()
                algo.setup(p, termination=("time", limit), seed=1, callback=cb)
                starts = []

                def tick(X, out, *args, **kwargs):
                    k = len(cb.rows)
                    if step["k"] != k:
                        step["k"] = k
                        starts.append(clk.now)
                        clk.now += pattern[k] if k < len(pattern) else 0.7
                    return orig(X, out, *args, **kwargs)
                p._evaluate = tick
                n = 0
                while algo.has_next() and n < 500:
                    algo.next()
                    n += 1
            el = [r[3] - 1000.0 for r in cb.rows]
            ctx.state()
            ctx.trace()
            ctx.trans(len(el))
            ctx.outcome(name, limit, len(el))
            d = dict(algorithm=name, limit=limit, elapsed=el, durations=pattern)
            if any(e >= lim for e in el[:-1]):
                ctx.viol("time:late:%s" % name, "the run continued although the time was used up", **d)
            if el and el[-1] < lim:
                ctx.viol("time:early:%s" % name, "the run stopped before the time was used up", **d)
            progress_ok(ctx, cb.rows, "time:%s" % name, d)


def fake(n_gen=1, n_eval=0, start=1000.0):
    return SimpleNamespace(n_gen=n_gen, n_iter=n_gen, evaluator=SimpleNamespace(n_eval=n_eval), start_time=start, opt=None, problem=None)


def u_bare(ctx, depth):
    from pymoo.termination import get_termination
    for kind in ("n_gen", "n_iter", "n_eval", "n_evals"):
        for n in range(1, 9):
            for incs in itertools.product((0, 1, 3), repeat=depth):
                t = get_termination(kind, n)
                c = 0
                ctx.state()
                for k, i in enumerate(incs):
                    c += i
                    t.update(fake(n_gen=c, n_eval=c))
                    ctx.trans()
                    if t.has_terminated() != (c >= n) or t.do_continue() != (c < n):
                        ctx.viol("bare:%s" % kind, "a budget of %d is %s at %d" % (n, "reported as used up" if t.has_terminated() else "not reported as used up", c), increments=incs)
                    if c <= n and abs(t.perc - c / n) > 1e-12:
                        ctx.viol("bare:progress:%s" % kind, "progress is not the used fraction of the budget", used=c, budget=n, got=t.perc)
                ctx.outcome(kind, n, c >= n)
    for limit, lim in ((1, 1.0), (2.5, 2.5), ("3", 3.0), ("00:02", 2.0), ("00:01:01", 61.0), ("01:00:00", 3600.0)):
        for incs in itertools.product((0.0, 0.5, 1.0, 2.5, 59.0, 3540.0), repeat=4):
            with Clock() as clk:
                t = get_termination("time", limit)
                for i in incs:
                    clk.now += i
                    t.update(fake(start=1000.0))
                    e = clk.now - 1000.0
                    ctx.trans()
                    if t.has_terminated() != (e >= lim):
                        ctx.viol("bare:time", "a limit of %r is judged wrongly after %r seconds" % (limit, e), increments=incs)
            ctx.state()
    for kind in ("n_gen", "n_eval"):
        from pymoo.termination.max_eval import MaximumFunctionCallTermination
        from pymoo.termination.max_gen import MaximumGenerationTermination
        for cls in (MaximumFunctionCallTermination, MaximumGenerationTermination):
            for none in (None, float("inf")):
                t = cls(none) if none is not None else cls(None)
                for c in (0, 1, 10 ** 9):
                    t.update(fake(n_gen=c, n_eval=c))
                    ctx.trans()
                    if t.has_terminated():
                        ctx.viol("bare:unlimited", "a termination without a limit ends the run", limit=none)


def u_combo(ctx, depth):
    from pymoo.core.termination import TerminateIfAll, TerminateIfAny
    from pymoo.termination import get_termination
    from pymoo.termination.collection import TerminationCollection
    specs = []
    for g, e in itertools.product((1, 2, 4), (2, 5)):
        specs.append((("any", "g%d" % g, "e%d" % e), lambda g=g, e=e: TerminateIfAny(get_termination("n_gen", g), get_termination("n_eval", e)), lambda G, E, g=g, e=e: G >= g or E >= e))
        specs.append((("all", "g%d" % g, "e%d" % e), lambda g=g, e=e: TerminateIfAll(get_termination("n_gen", g), get_termination("n_eval", e)), lambda G, E, g=g, e=e: G >= g and E >= e))
        specs.append((("collection", "g%d" % g, "e%d" % e), lambda g=g, e=e: TerminationCollection(get_termination("n_gen", g), get_termination("n_eval", e)), lambda G, E, g=g, e=e: G >= g or E >= e))
        specs.append((("nested", "g%d" % g, "e%d" % e), lambda g=g, e=e: TerminateIfAny(TerminateIfAll(get_termination("n_gen", g), get_termination("n_eval", e)), get_termination("n_gen", 5)),
                      lambda G, E, g=g, e=e: (G >= g and E >= e) or G >= 5))
        specs.append((("three", "g%d" % g, "e%d" % e), lambda g=g, e=e: TerminationCollection(get_termination("n_gen", g), get_termination("n_gen", 9), get_termination("n_eval", e)),
                      lambda G, E, g=g, e=e: G >= g or E >= e))
    for label, mk, ref in specs:
        for incs in itertools.product(((0, 1), (1, 0), (1, 2), (2, 3)), repeat=depth):
            t = mk()
            G = E = 0
            ctx.state()
            prog = [0.0]
            for a, b in incs:
                G, E = G + a, E + b
                t.update(fake(n_gen=G, n_eval=E))
                ctx.trans()
                if t.has_terminated() != ref(G, E):
                    ctx.viol("combo:%s" % label[0], "a combination of budgets is judged wrongly at iteration %d, evaluation %d" % (G, E), spec=label)
                if t.perc < prog[-1] - 1e-12:
                    ctx.viol("combo:monotone", "progress of a combination decreases", spec=label)
                prog.append(t.perc)
            ctx.outcome(label, t.has_terminated())


def u_default(ctx):
    """The default criteria also honour their own limits, and a combination in a real run ends with the first one met."""
    from pymoo.core.termination import TerminateIfAny, TerminateIfAll
    from pymoo.termination import get_termination
    from pymoo.termination.collection import TerminationCollection
    from pymoo.termination.default import DefaultMultiObjectiveTermination, DefaultSingleObjectiveTermination
    from vmc import zoo
    for name, cls in (("GA", DefaultSingleObjectiveTermination), ("DE", DefaultSingleObjectiveTermination), ("NSGA2", DefaultMultiObjectiveTermination)):
        a = zoo.by_name(name)
        for g, e in itertools.product((1, 2, 3, 5), (4, 9, 14, 100)):
            rows, algo, p, _ = run(a, cls(n_max_gen=g, n_max_evals=e))
            ends = [i for i, r in enumerate(rows) if r[0] >= g or r[1] >= e]
            ctx.state()
            ctx.trace()
            ctx.trans(len(rows))
            if not ends or ends[0] != len(rows) - 1:
                ctx.viol("default:limit:%s" % name, "the default termination does not stop at its own limits", gen=g, evals=e, rows=[r[:2] for r in rows])
            for nm, comb in (("any", TerminateIfAny), ("all", TerminateIfAll), ("collection", TerminationCollection)):
                rows, algo, p, _ = run(a, comb(get_termination("n_gen", g), get_termination("n_eval", e)))
                hit = (lambda r: r[0] >= g and r[1] >= e) if nm == "all" else (lambda r: r[0] >= g or r[1] >= e)
                ends = [i for i, r in enumerate(rows) if hit(r)]
                ctx.state()
                ctx.trans(len(rows))
                if not ends or ends[0] != len(rows) - 1:
                    ctx.viol("default:combo:%s" % nm, "a run with combined budgets does not end with the right one", gen=g, evals=e, rows=[r[:2] for r in rows])


def units(tier):
    from vmc import zoo
    q = tier == "quick"
    U = []
    for a in zoo.all_algorithms():
        U.append(("u_iter", dict(name=a.name, top=5 if q else 9)))
        U.append(("u_eval", dict(name=a.name, top=22 if q else 45)))
        U.append(("u_equiv", dict(name=a.name)))
    for n in ("GA", "DE", "PSO", "NelderMead", "PatternSearch", "NSGA2", "MOEAD", "SMSEMOA", "CTAEA", "DIRECT"):
        U.append(("u_time", dict(name=n)))
    U += [("u_bare", dict(depth=6 if q else 8)), ("u_combo", dict(depth=4 if q else 6)), ("u_default", {})]
    return U
