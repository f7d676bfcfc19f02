"""P07: the evaluator asks for exactly what is missing; complete runs count every row."""

import itertools

import numpy as np

PROPERTY = "P07"
RULE = ("an execution is one call of the evaluator on one population (or one history of such calls), or one iteration of an algorithm, judged against the "
        "rows the problem was really asked for; outcomes are distinct (mask, asked rows) pairs")
BOUNDS = {
    "quick": "all populations of 0-3 solutions, each already evaluated in any subset of {F,G,H}, x requested values (7 subsets) x skipping on/off x as population, slice or single solution; "
             "all histories of 3 operations (evaluate variants, move, reset, failing evaluation) on 2 solutions; all histories of 4 requests out of 7 on a problem that only computes what is asked, observed by the callback of the evaluator; 45 algorithms x base problem x every script of one deviating answer "
             "(4 kinds, first 12 rows, 4 iterations); every evaluated/unevaluated mask of a given initial population of 4 x 19 algorithms",
    "thorough": "as quick with histories of 4 operations and scripts over 20 rows",
}
ASSUMPTIONS = ["a population does not hold the same solution object twice"]
KEYS = ("F", "G", "H")


def value(x):
    return {"F": np.array([x * x + 1.0]), "G": np.array([x - 2.0, -x]), "H": np.array([3.0 * x])}


def make():
    from pymoo.core.problem import Problem

    class P(Problem):
        def __init__(self):
            super().__init__(n_var=1, n_obj=1, n_ieq_constr=2, n_eq_constr=1, xl=-100.0, xu=100.0)
            self.calls = []
            self.fail = False

        def _evaluate(self, X, out, *args, **kwargs):
            if self.fail:
                raise RuntimeError("scripted failure")
            self.calls.append([float(x[0]) for x in X])
            V = [value(float(x[0])) for x in X]
            for k in KEYS:
                out[k] = np.array([v[k] for v in V])
    return P()


def subsets():
    return [s for r in range(4) for s in itertools.combinations(KEYS, r)]


def make_ind(x, mask):
    from pymoo.core.individual import Individual
    ind = Individual(X=np.array([float(x)]))
    v = value(x)
    for k in mask:
        ind.set(k, v[k].copy())
    ind.evaluated.update(mask)
    return ind


def judge(ctx, tag, inds, where):
    for ind in inds:
        v = value(float(ind.X[0]))
        for k in ind.evaluated & set(KEYS):
            if not np.array_equal(np.asarray(ind.get(k)), v[k]):
                ctx.viol("%s:values" % tag, "a solution carries %s values that are not its own" % k, x=ind.X, got=ind.get(k), expect=v[k], where=where)
                return False
    return True


def u_single(ctx, n):
    from pymoo.core.evaluator import Evaluator
    from pymoo.core.individual import Individual
    from pymoo.core.population import Population
    for masks in itertools.product(subsets(), repeat=n):
        for req in subsets()[1:]:
            for skip in (True, False):
                for mode in ("ctor", "call", "slice", "individual"):
                    if mode == "individual" and n != 1:
                        continue
                    inds = [make_ind(5 * i + 3, m) for i, m in enumerate(masks)]
                    pop = Population.create(*inds)
                    extra = None
                    problem = make()
                    if mode == "ctor":
                        ev = Evaluator(skip_already_evaluated=skip, evaluate_values_of=list(req))
                        ret = ev.eval(problem, pop)
                    elif mode == "call":
                        ev = Evaluator(skip_already_evaluated=not skip)
                        ret = ev.eval(problem, pop, skip_already_evaluated=skip, evaluate_values_of=list(req))
                    elif mode == "slice":
                        extra = make_ind(99, ())
                        big = Population.create(*(inds + [extra]))
                        ev = Evaluator(skip_already_evaluated=skip)
                        ret = ev.eval(problem, big[:n], evaluate_values_of=list(req))
                    else:
                        ev = Evaluator(skip_already_evaluated=skip)
                        ret = ev.eval(problem, inds[0], evaluate_values_of=list(req))
                    expect = [5.0 * i + 3 for i, m in enumerate(masks) if not skip or not set(req) <= set(m)]
                    asked = [x for c in problem.calls for x in c]
                    ctx.state()
                    ctx.trans()
                    ctx.outcome(tuple(asked), req, skip)
                    d = dict(masks=masks, requested=req, skip=skip, mode=mode, asked=asked, expect=expect)
                    if asked != expect:
                        ctx.viol("single:rows", "the problem was asked for other rows than the ones lacking a requested value", **d)
                    if ev.n_eval != len(expect):
                        ctx.viol("single:count", "the counter differs from the number of evaluated solutions", counter=ev.n_eval, **d)
                    if (mode == "individual" and ret is not inds[0]) or (mode != "individual" and (len(ret) != n or any(a is not b for a, b in zip(ret, inds)))):
                        ctx.viol("single:return", "evaluation does not return what it was given", **d)
                    for i, ind in enumerate(inds):
                        if not set(req) <= ind.evaluated:
                            ctx.viol("single:unevaluated", "a requested value is still marked as not evaluated", **d)
                        for k in req:
                            if not np.array_equal(np.asarray(ind.get(k)), value(5.0 * i + 3)[k]):
                                ctx.viol("single:values", "a solution did not get the values of its own row", got=ind.get(k), key=k, **d)
                    judge(ctx, "single", inds, d)
                    if extra is not None and (extra.evaluated or len(extra.F) or len(extra.G)):
                        ctx.viol("single:others", "a solution that was not passed was evaluated", **d)
                    # asking again does nothing
                    n0, a0 = ev.n_eval, len(problem.calls)
                    ev.eval(problem, pop, skip_already_evaluated=True, evaluate_values_of=list(req))
                    if ev.n_eval != n0 or len(problem.calls) != a0:
                        ctx.viol("single:again", "solutions that have every requested value were evaluated again", **d)
                    ctx.trans()
    ctx.sample({"n": n})


H_OPS = ["eval", "eval0", "evalF", "evalG", "all", "nocount", "fail", "move0", "move1", "reset0", "replace1"]


def u_history(ctx, first, depth):
    from pymoo.core.evaluator import Evaluator
    from pymoo.core.population import Population
    for tail in itertools.product(H_OPS, repeat=depth - 1):
        seq = (first,) + tail + ("eval",)
        problem = make()
        inds = [make_ind(1, ()), make_ind(2, ())]
        pop = Population.create(*inds)
        ev = Evaluator()
        marks = [set(), set()]
        xs = [1.0, 2.0]
        at = [{}, {}]     # the value of x at which each key was computed
        count = 0
        for op in seq:
            before = len(problem.calls)
            n0 = ev.n_eval
            if op in ("move0", "move1"):
                i = int(op[-1])
                xs[i] += 10
                inds[i].X = np.array([xs[i]])
                continue
            if op == "reset0":
                inds[0].reset()
                inds[0].X = np.array([xs[0]])
                marks[0], at[0] = set(), {}
                continue
            if op == "replace1":
                inds[1] = make_ind(xs[1], ())
                pop[1] = inds[1]
                marks[1], at[1] = set(), {}
                continue
            req, who, skip, cnt = KEYS, (0, 1), True, True
            kw = {}
            target = pop
            if op == "eval0":
                who, target = (0,), inds[0]
            elif op == "evalF":
                req = ("F",)
                kw["evaluate_values_of"] = ["F"]
            elif op == "evalG":
                req = ("G",)
                kw["evaluate_values_of"] = ["G"]
            elif op == "all":
                skip = False
                kw["skip_already_evaluated"] = False
            elif op == "nocount":
                cnt = False
                kw["count_evals"] = False
            todo = [i for i in who if not skip or not set(req) <= marks[i]]
            if op == "fail":
                problem.fail = True
                try:
                    ev.eval(problem, target, **kw)
                    if todo:
                        ctx.viol("history:swallowed", "a failing evaluation did not reach the caller", history=seq)
                except RuntimeError:
                    pass
                problem.fail = False
                if ev.n_eval != n0:
                    ctx.viol("history:fail-count", "a failed evaluation was counted", history=seq)
                ctx.trans()
                continue
            ev.eval(problem, target, **kw)
            ctx.trans()
            for i in todo:
                marks[i] |= set(KEYS)
                at[i] = {k: xs[i] for k in KEYS}
            if cnt:
                count += len(todo)
            asked = [x for c in problem.calls[before:] for x in c]
            if asked != [xs[i] for i in todo]:
                ctx.viol("history:rows", "after %s the problem was asked for %r instead of %r" % (" ; ".join(seq), asked, [xs[i] for i in todo]), history=seq)
            if ev.n_eval != count:
                ctx.viol("history:count", "after %s the counter is %d instead of %d" % (" ; ".join(seq), ev.n_eval, count), history=seq)
        ctx.state()
        ctx.trace()
        ctx.outcome(count, tuple(sorted(marks[0])), tuple(sorted(marks[1])))
        for i, ind in enumerate(inds):
            for k in KEYS:
                if k in at[i] and not np.array_equal(np.asarray(ind.get(k)), value(at[i][k])[k]):
                    ctx.viol("history:values", "after %s a solution carries the %s of another row or time" % (" ; ".join(seq), k), history=seq)
            if not set(KEYS) <= ind.evaluated:
                ctx.viol("history:unevaluated", "after evaluation a value is marked missing", history=seq)


LAZY = ["default", "F", "G", "FG", "FdF", "dF", "tag"]


def u_lazy(ctx, first, depth):
    """A problem that only computes what it is asked for (as the gradient wrappers and expensive models do), and an observer of the evaluator."""
    from pymoo.core.evaluator import Evaluator
    from pymoo.core.population import Population
    from pymoo.core.problem import Problem
    names = {"default": KEYS, "F": ("F",), "G": ("G",), "FG": ("F", "G"), "FdF": ("F", "dF"), "dF": ("dF",), "tag": ("F", "tag")}

    class Lazy(Problem):
        def __init__(self):
            super().__init__(n_var=1, n_obj=1, n_ieq_constr=2, n_eq_constr=1, xl=-100.0, xu=100.0)
            self.calls = []

        def do(self, X, return_values_of, *args, **kwargs):
            out = {}
            for k in return_values_of:
                V = [dict(value(float(x[0])), dF=np.array([[2.0 * x[0]]]), tag=np.array(x[0] + 0.5)) for x in X]
                out[k] = np.array([v[k] for v in V])
            self.calls.append(([float(x[0]) for x in X], tuple(return_values_of)))
            return out
    for tail in itertools.product(LAZY, repeat=depth - 1):
        for late in (False, True):
            seq = (first,) + tail + ("default",)
            problem = Lazy()
            seen = []
            inds = [make_ind(1, ()), make_ind(2, ())]
            pop = Population.create(*inds)
            ev = Evaluator(callback=lambda p: seen.append((len(p), ev.n_eval, [set(i.evaluated) for i in p])))
            marks = [set(), set()]
            count = 0
            for t, op in enumerate(seq):
                req = names[op]
                who = [0] if late and t == 0 else [0, 1]
                todo = [i for i in who if not set(req) <= marks[i]]
                before = len(problem.calls)
                kw = {} if op == "default" else {"evaluate_values_of": list(req)}
                ev.eval(problem, pop[who], **kw)
                ctx.trans()
                for i in todo:
                    marks[i] |= set(req)
                count += len(todo)
                asked = [x for c in problem.calls[before:] for x in c[0]]
                d = dict(history=seq, at=t, late=late)
                if asked != [float(i + 1) for i in todo]:
                    ctx.viol("lazy:rows", "after %s the problem was asked for the rows %r instead of %r" % (" ; ".join(seq[:t + 1]), asked, [i + 1.0 for i in todo]), **d)
                if ev.n_eval != count:
                    ctx.viol("lazy:count", "the counter is %d after %d computed rows" % (ev.n_eval, count), **d)
                if len(seen) != t + 1 or seen[-1][0] != len(who) or seen[-1][1] != count or any(not set(req) <= e for e in seen[-1][2]):
                    ctx.viol("lazy:callback", "the observer of the evaluator is not told once per evaluation, with the values and the counter already in place", seen=seen[-1:], **d)
                for i, ind in enumerate(inds):
                    v = dict(value(i + 1.0), dF=np.array([[2.0 * (i + 1)]]), tag=np.array(i + 1.5))
                    for k in marks[i]:
                        if k not in ind.evaluated:
                            ctx.viol("lazy:unmarked", "%s was computed but counts as missing" % k, **d)
                        if not np.array_equal(np.asarray(ind.get(k)), v[k]):
                            ctx.viol("lazy:values", "%s is not the value of this solution" % k, got=ind.get(k), expect=v[k], **d)
                    for k in ind.evaluated - marks[i]:
                        if k in v and k != "tag":
                            ctx.viol("lazy:marked", "%s was never computed but counts as evaluated" % k, **d)
            ctx.state()
            ctx.trace()
            ctx.outcome(count, tuple(map(tuple, map(sorted, marks))))


# ---------------------------------------------------------------- complete runs

def judge_algo(ctx, tag, algo, problem, d):
    n = algo.evaluator.n_eval
    if n != len(problem.log):
        ctx.viol("%s:count:%s" % (tag, d["algorithm"]), "the evaluation counter reads %d but the problem answered %d rows" % (n, len(problem.log)), **d)
    for nm in ("pop", "opt"):
        P = getattr(algo, nm)
        for ind in (P if P is not None else []):
            need = {"F", "G", "H"} if True else set()
            if not need <= ind.evaluated or len(np.atleast_1d(ind.F)) != problem.n_obj:
                ctx.viol("%s:unevaluated:%s" % (tag, d["algorithm"]), "the %s holds a solution that is not evaluated" % nm, evaluated=sorted(ind.evaluated), **d)


def u_run(ctx, name, cons, rows, n_iter):
    from vmc import zoo
    a = zoo.by_name(name)
    for script in zoo.scripts(rows, ["good", "bad", "tie"] + (["infeas"] if cons else []), 1):
        problem = zoo.make_problem(n_var=a.n_var, n_obj=1 if a.soo else 2, n_ieq=1 if cons else 0, script=script)
        d = dict(algorithm=name, script=script)
        ctx.state()
        ctx.trace()

        def step(algo, it):
            ctx.trans()
            judge_algo(ctx, "run", algo, problem, dict(d, iteration=it))
            ctx.outcome(name, algo.evaluator.n_eval)
        algo = zoo.drive(a, problem, n_iter, on_step=step, seed=1)
        res = algo.result()
        judge_algo(ctx, "end", algo, problem, d)
        if res.algorithm is not None and res.algorithm.evaluator.n_eval != len(problem.log):
            ctx.viol("end:count:%s" % name, "the result counts other evaluations than were made", **d)


def with_sampling(s):
    """Algorithms that accept an initial population (public argument 'sampling')."""
    from pymoo.algorithms.soo.nonconvex.ga import GA
    from pymoo.algorithms.soo.nonconvex.de import DE
    from pymoo.algorithms.soo.nonconvex.pso import PSO
    from pymoo.algorithms.soo.nonconvex.es import ES
    from pymoo.algorithms.soo.nonconvex.sres import SRES
    from pymoo.algorithms.soo.nonconvex.brkga import BRKGA
    from pymoo.algorithms.soo.nonconvex.ga_niching import NicheGA
    from pymoo.algorithms.soo.nonconvex.nrbo import NRBO
    from pymoo.algorithms.moo.nsga2 import NSGA2
    from pymoo.algorithms.moo.nsga3 import NSGA3
    from pymoo.algorithms.moo.age import AGEMOEA
    from pymoo.algorithms.moo.sms import SMSEMOA
    from pymoo.algorithms.moo.spea2 import SPEA2
    from pymoo.algorithms.moo.ctaea import CTAEA
    from pymoo.algorithms.moo.rvea import RVEA
    from pymoo.algorithms.moo.gde3 import GDE3
    from pymoo.algorithms.moo.nsde import NSDE
    from pymoo.algorithms.moo.dnsga2 import DNSGA2
    from vmc import zoo
    rd = np.array([[1.0, 0.0], [0.6, 0.4], [0.3, 0.7], [0.0, 1.0]])
    return {
        "GA": (1, lambda: GA(pop_size=4, sampling=s)), "DE": (1, lambda: DE(pop_size=4, sampling=s)),
        "PSO": (1, lambda: PSO(pop_size=4, sampling=s)), "ES": (1, lambda: ES(n_offsprings=4, rule=0.5, sampling=s)),
        "SRES": (1, lambda: SRES(n_offsprings=4, rule=0.5, sampling=s)),
        "BRKGA": (1, lambda: BRKGA(n_elites=2, n_offsprings=1, n_mutants=1, sampling=s)), "NicheGA": (1, lambda: NicheGA(pop_size=4, sampling=s)),
        "NRBO": (1, lambda: NRBO(pop_size=4, sampling=s)),
        "NSGA2": (2, lambda: NSGA2(pop_size=4, sampling=s)), "NSGA3": (2, lambda: NSGA3(ref_dirs=rd, pop_size=4, sampling=s)),
        "AGEMOEA": (2, lambda: AGEMOEA(pop_size=4, sampling=s)), "SMSEMOA": (2, lambda: SMSEMOA(pop_size=4, sampling=s)),
        "SPEA2": (2, lambda: SPEA2(pop_size=4, sampling=s)), "CTAEA": (2, lambda: CTAEA(ref_dirs=rd, sampling=s)),
        "RVEA": (2, lambda: RVEA(ref_dirs=rd, pop_size=4, sampling=s)), "GDE3": (2, lambda: GDE3(pop_size=4, sampling=s)),
        "NSDE": (2, lambda: NSDE(pop_size=4, sampling=s)), "DNSGA2": (2, lambda: DNSGA2(pop_size=4, sampling=s)),
    }


POINTS = [[0.1, 0.9], [0.8, 0.2], [0.5, 0.5], [0.3, 0.4]]


def u_initial(ctx, name):
    from pymoo.core.evaluator import Evaluator
    from pymoo.core.population import Population
    from vmc import zoo
    m = with_sampling(None)[name][0]
    for kind in ("population", "array"):
        for mask in itertools.product((False, True), repeat=4):
            if kind == "array" and any(mask):
                continue
            problem = zoo.make_problem(n_var=2, n_obj=m, n_ieq=0)
            X = np.array(POINTS)
            if kind == "array":
                sampling = X.copy()
            else:
                sampling = Population.new(X=X.copy())
                idx = [i for i in range(4) if mask[i]]
                if idx:
                    Evaluator().eval(problem, sampling[idx])
                problem.log.clear()
            algo = with_sampling(sampling)[name][1]()
            algo.setup(problem, termination=("n_iter", 3), seed=1)
            algo.next()
            ctx.state()
            ctx.trans()
            d = dict(algorithm=name, kind=kind, evaluated=mask)
            asked = [tuple(r[0]) for r in problem.log]
            expect = [tuple(POINTS[i]) for i in range(4) if not mask[i]]
            ctx.outcome(name, len(asked))
            if asked != expect:
                ctx.viol("initial:rows:%s" % name, "a given initial population was not evaluated exactly once where it lacked values", asked=asked, expect=expect, **d)
            if algo.evaluator.n_eval != len(asked):
                ctx.viol("initial:count:%s" % name, "the counter is wrong after the initial population", **d)
            algo.next()
            judge_algo(ctx, "initial", algo, problem, d) if not any(mask) else None
            if algo.evaluator.n_eval != len(problem.log):
                ctx.viol("initial:count2:%s" % name, "the counter is wrong after the second iteration", **d)
            ctx.trace()


def units(tier):
    from vmc import zoo
    U = [("u_single", dict(n=n)) for n in (0, 1, 2, 3)]
    d = 3 if tier == "quick" else 4
    U += [("u_history", dict(first=o, depth=d)) for o in H_OPS]
    U += [("u_lazy", dict(first=o, depth=d)) for o in LAZY]
    rows = 12 if tier == "quick" else 20
    for a in zoo.all_algorithms():
        for cons in ((False, True) if a.cons else (False,)):
            U.append(("u_run", dict(name=a.name, cons=cons, rows=rows if a.cost == 1 else 4, n_iter=4)))
    for n in with_sampling(None):
        U.append(("u_initial", dict(name=n)))
    return U
