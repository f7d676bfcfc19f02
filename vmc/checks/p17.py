"""P17: ask-and-tell, stepwise and one-call use are the same run."""

import copy
import itertools

import numpy as np

PROPERTY = "P17"
RULE = ("an execution is one complete run in which every iteration is driven in one of the ways a user can drive it; all assignments of ways to the iterations within the bound are enumerated and compared with the "
        "one-call run; outcomes are distinct traces")
BOUNDS = {
    "quick": "58 configurations x 2 problems: all 5^3 assignments of {next, ask+evaluator+tell, ask+external evaluation through StaticProblem+tell, ask+evaluation of a serialized copy elsewhere+tell of the copy, "
             "ask+external evaluation of the plain design array+set attributes+tell} to the first 3 of 4 iterations; run() after every number of steps; minimize with and without copying, with the termination given "
             "to the call, the constructor or setup; individual evaluation in reversed order; extra attributes on every solution; callback as function, object, constructor or setup argument, counted per iteration",
    "thorough": "all 5^4 assignments to 4 of 5 iterations, 4 problems",
}
MODES = ("next", "eval", "static", "remote", "array")


def configs():
    from vmc.checks import p15
    return p15.configs()


class Trace:
    """A callback that records when it is called."""

    def __init__(self):
        self.calls = []

    def __call__(self, algorithm):
        from vmc import fp
        self.calls.append((algorithm.n_gen, fp.solutions(algorithm.pop), fp.solutions(algorithm.opt)))

    def __deepcopy__(self, memo):
        return self


def start(make, kind, n_iter, cb=None, **kw):
    algo, problem = make(kind)
    old = algo.callback
    if cb is not None:
        if getattr(old, "is_initialized", None) is not None and type(old).__name__ == "TimeSimulation":
            # dynamic problems need their clock: call both
            algo.callback = lambda a, c=cb, o=old: (c(a), o(a))
        else:
            algo.callback = cb
    algo.setup(problem, termination=("n_iter", n_iter), seed=1, **kw)
    return algo


def rows(algo, n0=0):
    from vmc.checks import p16
    return p16.rows(algo, n0)


def nlog(algo):
    return len(algo.problem.log or [])


def final(algo):
    from vmc import fp
    r = algo.result()
    return (fp.solutions(algo.pop), fp.solutions(algo.opt), repr(r.X), None if r.F is None else np.asarray(r.F, float).tobytes(), algo.n_gen, fp.solutions(algo.archive), algo.has_next(),
            r.success, None if r.CV is None else np.asarray(r.CV, float).tobytes())


NAMES = ("population", "optimum", "X", "F", "n_gen", "archive", "has_next", "success", "CV")


def drive(ctx, name, algo, mode, tag=None):
    """One iteration; returns False if there is none left."""
    from pymoo.core.evaluator import Evaluator
    from pymoo.core.individual import Individual
    from pymoo.core.population import Population
    from pymoo.problems.static import StaticProblem
    if not algo.has_next():
        return False
    ctx.trans()
    if mode == "next":
        algo.next()
        return True
    n0 = nlog(algo)
    inf = algo.ask()
    if nlog(algo) != n0:
        ctx.viol("ask:%s" % name, "%s evaluates %d designs while being asked" % (name, nlog(algo) - n0), mode=mode)
    if inf is None:
        algo.tell(infills=None)
        return True
    if tag is not None:
        for i, ind in enumerate([inf] if isinstance(inf, Individual) else inf):
            ind.set("tag", (tag, i))
    if mode == "eval":
        algo.evaluator.eval(algo.problem, inf, algorithm=algo)
    elif mode == "static":
        new = Population.create(*[i for i in ([inf] if isinstance(inf, Individual) else inf) if "F" not in i.evaluated])
        if len(new):
            out = algo.problem.evaluate(new.get("X"), return_as_dictionary=True)
            Evaluator().eval(StaticProblem(algo.problem, **{k: out[k] for k in ("F", "G", "H") if out.get(k) is not None}), new)
    elif mode == "remote":
        memo = {id(algo.problem): algo.problem}
        inf = copy.deepcopy(inf, memo)
        Evaluator().eval(algo.problem, inf)
    elif mode == "array":
        inds = [i for i in ([inf] if isinstance(inf, Individual) else inf) if "F" not in i.evaluated]
        out = algo.problem.evaluate(np.array([i.X for i in inds]), return_as_dictionary=True) if inds else {}
        for k, ind in enumerate(inds):
            for v in ("F", "G", "H"):
                if out.get(v) is not None:
                    ind.set(v, np.array(out[v][k]))
            ind.evaluated.update({"F", "G", "H"})
    elif mode == "single":
        for ind in reversed([inf] if isinstance(inf, Individual) else list(inf)):
            algo.evaluator.eval(algo.problem, ind, algorithm=algo)
    algo.tell(infills=inf)
    return True


def compare(ctx, name, algo, calls, ref, how, ordered=True, **d):
    r = rows(algo)
    if (r if ordered else sorted(map(str, r))) != (ref[0] if ordered else sorted(map(str, ref[0]))):
        k = next((i for i, (x, y) in enumerate(zip(r, ref[0])) if x != y), min(len(r), len(ref[0])))
        ctx.viol("rows:%s" % name, "%s: %s evaluates other solutions than one call (first difference at evaluation %d, %d versus %d)" % (name, how, k + 1, len(r), len(ref[0])), **d)
        return False
    f = final(algo)
    if f != ref[1]:
        ctx.viol("result:%s" % name, "%s: %s ends with another result than one call (%s)" % (name, how, next(n for n, a, b in zip(NAMES, f, ref[1]) if a != b)), **d)
        return False
    if calls is not None and calls != ref[2]:
        ctx.viol("callback:%s" % name, "%s: %s calls the callback differently (%d calls at %s instead of %d at %s)" %
                 (name, how, len(calls), [c[0] for c in calls], len(ref[2]), [c[0] for c in ref[2]]), **d)
        return False
    return True


def reference(make, kind, n):
    """The one-call run."""
    from pymoo.optimize import minimize
    algo, problem = make(kind)
    cb = Trace()
    old = algo.callback
    if type(old).__name__ == "TimeSimulation":
        algo.callback = lambda a, c=cb, o=old: (c(a), o(a))
    else:
        algo.callback = cb
    res = minimize(problem, algo, ("n_iter", n), seed=1)
    return rows(res.algorithm), final(res.algorithm), cb.calls


def u_mix(ctx, name, kind, n, depth):
    make = configs()[name]
    ref = reference(make, kind, n)
    gens = [c[0] for c in ref[2]]
    ctx.check(gens == list(range(1, len(gens) + 1)), "once:%s" % name, "%s: the callback is not called exactly once per iteration: %s" % (name, gens))
    ctx.outcome(name, kind, len(ref[0]), len(gens))
    for modes in itertools.product(MODES, repeat=depth):
        cb = Trace()
        a = start(make, kind, n, cb)
        k = 0
        while drive(ctx, name, a, modes[k] if k < depth else "next"):
            k += 1
            if k > 400:
                break
        ctx.state()
        ctx.trace()
        if not compare(ctx, name, a, cb.calls, ref, "a run driven by %s" % (modes,), kind=kind, modes=modes):
            return


def u_calls(ctx, name, kind, n):
    from pymoo.core.callback import Callback
    from pymoo.optimize import minimize
    from pymoo.termination import get_termination
    make = configs()[name]
    ref = reference(make, kind, n)

    def chk(algo, calls, how, ordered=True, **d):
        ctx.state()
        ctx.trace()
        ctx.trans(n)
        return compare(ctx, name, algo, calls, ref, how, ordered, kind=kind, **d)
    dyn = type(make(kind)[0].callback).__name__ == "TimeSimulation"
    # run() after k steps
    for k in range(n + 1):
        cb = Trace()
        a = start(make, kind, n, cb)
        for _ in range(k):
            if a.has_next():
                a.next()
        a.run()
        chk(a, cb.calls, "run() after %d steps" % k)
    # minimize
    t = get_termination("n_iter", n)
    a, p = make(kind)
    r = minimize(p, a, t, seed=1, copy_algorithm=False)
    chk(r.algorithm, None, "minimize without copying")
    ctx.check(r.algorithm is a, "same:%s" % name, "minimize(copy_algorithm=False) works on another object")
    a, p = make(kind)
    r = minimize(p, a, t, seed=1, copy_termination=False)
    chk(r.algorithm, None, "minimize without copying the termination")
    a, p = make(kind)
    a.termination = get_termination("n_iter", n)
    r = minimize(p, a, seed=1)
    chk(r.algorithm, None, "minimize with the algorithm's own termination")
    a, p = make(kind)
    a.setup(p, termination=("n_iter", n), seed=1)
    r = minimize(p, a)
    chk(r.algorithm, None, "minimize of an algorithm that was set up before")
    a, p = make(kind)
    r = minimize(p, a, ("n_iter", n), seed=1, save_history=True, verbose=False, return_least_infeasible=False)
    chk(r.algorithm, None, "minimize with history")
    ctx.check(len(r.history) == len(ref[2]) and [h.n_gen for h in r.history] == [c[0] for c in ref[2]], "history:%s" % name,
              "%s: the history has entries for iterations %s instead of %s" % (name, [h.n_gen for h in r.history], [c[0] for c in ref[2]]))
    # evaluation of the individuals one by one, in reversed order
    if not dyn:
        cb = Trace()
        a = start(make, kind, n, cb)
        while drive(ctx, name, a, "single"):
            pass
        chk(a, cb.calls, "evaluating one by one", ordered=False)
    # extra attributes
    a = start(make, kind, n)
    g = 0
    seen = {}
    while drive(ctx, name, a, "eval", tag=g):
        g += 1
        for where in (a.pop, a.opt):
            for ind in where:
                tg = ind.get("tag")
                if tg is None and a.off is None:
                    continue
                key = repr(ind.X)
                if tg is None:
                    ctx.viol("tag:%s" % name, "%s: an attribute attached to a proposed solution is lost" % name, iteration=g, kind=kind)
                    break
                seen.setdefault(tg, key)
                if seen[tg] != key:
                    ctx.viol("tag:%s" % name, "%s: an attribute attached to one solution is found on another one" % name, iteration=g, kind=kind)
                    break
    chk(a, None, "attaching attributes")
    # callback placements
    if not dyn:
        class C(Callback):
            def __init__(self):
                super().__init__()
                self.t = Trace()
                self.notified = 0

            def notify(self, algorithm):
                self.t(algorithm)
                self.notified += 1

            def __deepcopy__(self, memo):
                return self
        c = C()
        a, p = make(kind)
        r = minimize(p, a, ("n_iter", n), seed=1, callback=c)
        chk(r.algorithm, c.t.calls, "a Callback object given to minimize")
        cb = Trace()
        a, p = make(kind)
        r = minimize(p, a, ("n_iter", n), seed=1, callback=cb)
        chk(r.algorithm, cb.calls, "a function as callback given to minimize")
        from pymoo.core.callback import CallbackCollection
        c1, c2 = C(), C()
        a, p = make(kind)
        r = minimize(p, a, ("n_iter", n), seed=1, callback=CallbackCollection(c1, c2))
        chk(r.algorithm, c1.t.calls, "the first callback of a collection")
        chk(r.algorithm, c2.t.calls, "the second callback of a collection")
    if dyn:
        from pymoo.core.callback import CallbackCollection
        from pymoo.problems.dyn import TimeSimulation
        a, p = make(kind)
        a.callback = CallbackCollection(TimeSimulation())
        r = minimize(p, a, ("n_iter", n), seed=1)
        chk(r.algorithm, None, "the time simulation in a collection")
    ctx.outcome(name, kind)


def warm():
    from vmc.checks import p04
    p04.warm()


def units(tier):
    q = tier == "quick"
    U = []
    for name in configs():
        for kind in (("plain", "mixed") if q else ("plain", "mixed", "tied", "infeasible")):
            U.append(("u_mix", dict(name=name, kind=kind, n=4 if q else 5, depth=3 if q else 4)))
            U.append(("u_calls", dict(name=name, kind=kind, n=4 if q else 6)))
    return U
