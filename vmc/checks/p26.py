"""P26: mixed-variable search only proposes valid values of every variable."""

import itertools
import signal

import numpy as np

from vmc.rng import MixRNG, ScriptRNG, explore

PROPERTY = "P26"
RULE = "every state is one sampling, mating or run under one sequence of answers of the generator; outcomes are distinct sets of proposed solutions"
BOUNDS = {
    "quick": "24 sets of variables (every subset of the four types, several of one type, options of different type and length, single values, negative and wide ranges): sampling of 1..3 solutions under every 2 deviations, "
             "mating of every ordered pair of up to 5 corner solutions into 1..3 offspring under every deviation, runs of 3 algorithms (3 iterations, populations of 4) under every deviation of the generator at the first 25 points",
    "thorough": "as quick with 3 deviations for sampling, 2 for mating and for the first 60 points of the runs, and 5 iterations",
}


def sets():
    from pymoo.core.variable import Binary, Choice, Integer, Real
    base = {"b": lambda: Binary(), "c": lambda: Choice(options=["p", "qq", "rrrr"]), "i": lambda: Integer(bounds=(-2, 3)), "r": lambda: Real(bounds=(-1.5, 2.0))}
    out = {}
    for k in range(1, 5):
        for names in itertools.combinations(base, k):
            out["".join(names)] = {n: base[n]() for n in names}
    out["cc"] = {"c1": Choice(options=["a", "b"]), "c2": Choice(options=["long option", "s", "mid"]), "c3": Choice(options=[1, 2, 3])}
    out["types"] = {"c1": Choice(options=[1, "one", 2.5]), "c2": Choice(options=[None, "x"]), "c3": Choice(options=[True, False]), "r": Real(bounds=(0, 1))}
    out["tuples"] = {"c1": Choice(options=[("a", 1), ("b", 2)]), "i": Integer(bounds=(0, 5))}
    out["arrays"] = {"c1": Choice(options=np.array([0.5, 1.5, 4.0])), "b": Binary()}
    out["bbb"] = {"b1": Binary(), "b2": Binary(), "b3": Binary(), "r": Real(bounds=(0, 1))}
    out["iii"] = {"i1": Integer(bounds=(0, 1)), "i2": Integer(bounds=(-7, -5)), "i3": Integer(bounds=(0, 1000))}
    out["rrr"] = {"r1": Real(bounds=(-3, 7)), "r2": Real(bounds=(1e-6, 1e-5)), "r3": Real(bounds=(-1e6, 1e6)), "c": Choice(options=["u", "v"])}
    out["single"] = {"i": Integer(bounds=(3, 3)), "r": Real(bounds=(0.5, 0.5)), "c": Choice(options=["only"]), "b": Binary()}
    out["order"] = {"z": Real(bounds=(0, 1)), "a": Integer(bounds=(5, 9)), "m": Real(bounds=(10, 11)), "k": Integer(bounds=(-9, -5)), "y": Choice(options=["Y"]), "x": Binary()}
    return out


def wrong(vars, X):
    """What is wrong about one proposed solution - None if nothing is."""
    from pymoo.core.variable import Binary, Choice, Integer, Real
    if not isinstance(X, dict) or set(X) != set(vars):
        return "the variables are %r" % (sorted(X) if isinstance(X, dict) else X,)
    for k, v in vars.items():
        x = X[k]
        if isinstance(v, Real):
            ok = isinstance(x, (float, np.floating)) and v.bounds[0] <= x <= v.bounds[1]
        elif isinstance(v, Integer):
            ok = isinstance(x, (int, np.integer)) and not isinstance(x, (bool, np.bool_)) and v.bounds[0] <= x <= v.bounds[1]
        elif isinstance(v, Binary):
            ok = isinstance(x, (bool, np.bool_))
        else:
            ok = False
            for o in list(v.options):
                if isinstance(x, np.generic) and not isinstance(o, np.generic):
                    ok = ok or (type(x.item()) is type(o) and x.item() == o)
                else:
                    ok = ok or (type(x) is type(o) and x == o) or (isinstance(o, np.generic) and type(x) is type(o.item()) and x == o)
        if not ok:
            return "%s (%s %s) is %r (%s)" % (k, type(v).__name__, getattr(v, "bounds", None) or getattr(v, "options", None), x, type(x).__name__)
    return None


def problem(vars, n_obj=1, n_ieq=0):
    from pymoo.core.problem import ElementwiseProblem

    class P(ElementwiseProblem):
        def __init__(self):
            super().__init__(vars=vars, n_obj=n_obj, n_ieq_constr=n_ieq)
            self.log = []

        def _evaluate(self, X, out, *args, **kwargs):
            self.log.append(X)
            v = 0.0
            for k, x in sorted(X.items()):
                v = 0.5 * v + (float(x) if not isinstance(x, (str, tuple)) and x is not None else float(len(str(x)))) % 3.1
            out["F"] = [v * (j + 1) + (-1) ** j * v * v for j in range(n_obj)]
            if n_ieq:
                out["G"] = [v - 1.0] * n_ieq
    return P()


def judge(ctx, what, vars, Xs, **d):
    for X in Xs:
        w = wrong(vars, X)
        if not ctx.check(w is None, what, "a proposed solution is invalid: %s" % w, **d):
            return False
    return True


def u_sampling(ctx, name, dev):
    from pymoo.core.mixed import MixedVariableSampling
    vars = sets()[name]
    p = problem(vars)
    for n in (1, 2, 3):
        def run(o):
            signal.alarm(120)
            pop = MixedVariableSampling()(p, n, random_state=ScriptRNG(o))
            ctx.trans()
            ctx.state()
            if ctx.check(len(pop) == n, "sampling:size", "%d solutions are sampled instead of %d" % (len(pop), n), vars=name, choices=o.choices[:40]):
                judge(ctx, "sampling", vars, [i.X for i in pop], vars_name=name, choices=o.choices[:40])
            ctx.outcome(name, [repr(i.X) for i in pop])
        explore(run, max_dev=dev)


def corners(vars):
    from pymoo.core.variable import Binary, Choice, Integer, Real

    def at(v, j):
        if isinstance(v, Binary):
            return [False, True, True, False, True][j]
        if isinstance(v, Choice):
            o = list(v.options)
            return [o[0], o[-1], o[len(o) // 2], o[0], o[-1]][j]
        lo, hi = v.bounds
        if isinstance(v, Integer):
            return [lo, hi, (lo + hi) // 2, min(lo + 1, hi), lo][j]
        return [float(lo), float(hi), 0.5 * (lo + hi), float(lo) + 0.25 * (hi - lo), float(hi)][j]
    vs = list(vars.items())
    return [{k: at(v, j) for k, v in vs} for j in range(4)] + [{k: at(v, (q * 2 + 1) % 5) for q, (k, v) in enumerate(vs)}]


def u_mating(ctx, name, dev):
    from pymoo.core.mixed import MixedVariableDuplicateElimination, MixedVariableMating
    from pymoo.core.population import Population
    vars = sets()[name]
    p = problem(vars)
    C = corners(vars)
    for (i, a), (j, b) in itertools.product(enumerate(C), repeat=2):
        for n_off in (1, 2, 3):
            if n_off != 2 and (i, j) not in ((0, 1), (4, 2)):
                continue
            before = [dict(a), dict(b)]

            def run(o):
                signal.alarm(120)
                pop = Population.new(X=[dict(a), dict(b)], F=np.array([[0.0], [1.0]]))
                mating = MixedVariableMating(eliminate_duplicates=MixedVariableDuplicateElimination(), n_max_iterations=2)
                off = mating.do(p, pop, n_off, random_state=MixRNG(o, 7 * i + j))
                ctx.trans()
                ctx.state()
                d = dict(vars_name=name, parents=(repr(a), repr(b)), n_offsprings=n_off, choices=o.choices[:60])
                ctx.check(len(off) <= n_off, "mating:size", "%d offspring instead of %d" % (len(off), n_off), **d)
                judge(ctx, "mating", vars, [k.X for k in off], **d)
                ctx.check([k.X for k in pop] == before, "mating:parents", "mating changes the parents", **d)
                # distinct from the parents and among each other
                Xs = [k.X for k in off]
                ctx.check(not any(x == y for x, y in itertools.combinations(Xs, 2)) and not any(x == y for x in Xs for y in before), "mating:duplicate", "a duplicate is proposed", **d)
                ctx.outcome(name, [repr(k.X) for k in off])
            explore(run, max_dev=dev, max_points=60)


def algorithms():
    from pymoo.algorithms.moo.nsga2 import NSGA2, RankAndCrowding
    from pymoo.core.mixed import MixedVariableDuplicateElimination, MixedVariableGA, MixedVariableMating, MixedVariableSampling
    return {
        "GA": (lambda **k: MixedVariableGA(pop_size=4, **k), 1, 0),
        "GA-ss": (lambda **k: MixedVariableGA(pop_size=4, n_offsprings=1, **k), 1, 1),
        "NSGA2": (lambda **k: NSGA2(**dict(dict(pop_size=4, sampling=MixedVariableSampling(), mating=MixedVariableMating(eliminate_duplicates=MixedVariableDuplicateElimination()), eliminate_duplicates=MixedVariableDuplicateElimination()), **k)), 2, 0),
        "GA-moo": (lambda **k: MixedVariableGA(pop_size=4, survival=RankAndCrowding(), **k), 2, 1),
        "GA-given": (lambda **k: MixedVariableGA(pop_size=4, **k), 1, 0),
    }


def u_run(ctx, alg, names, dev, n_iter, points):
    from pymoo.core.mixed import MixedVariableDuplicateElimination, MixedVariableMating
    from pymoo.core.population import Population
    mk, n_obj, n_ieq = algorithms()[alg]
    for name in names:
        for seed in (1, 2):
            def run(o):
                signal.alarm(200)
                vars = sets()[name]
                p = problem(vars, n_obj, n_ieq)
                kw = {}
                if name in ("single", "i", "c", "b"):
                    # there are hardly any solutions to be found
                    kw["mating"] = MixedVariableMating(eliminate_duplicates=MixedVariableDuplicateElimination(), n_max_iterations=3)
                if alg == "GA-given":
                    kw["sampling"] = Population.new(X=corners(vars))
                algo = mk(**kw)
                rng = MixRNG(o, seed)
                algo.setup(p, termination=("n_iter", n_iter), seed=seed)
                algo.random_state = rng
                d = dict(vars_name=name, algorithm=alg, seed=seed, choices=o.choices[:80])
                while algo.has_next():
                    infills = algo.ask()
                    if infills is None or len(infills) == 0:
                        break
                    if not judge(ctx, "proposed", vars, [i.X for i in infills], iteration=algo.n_iter, **d):
                        return
                    asked = len(p.log)
                    algo.evaluator.eval(p, infills)
                    if not judge(ctx, "evaluated", vars, p.log[asked:], iteration=algo.n_iter, **d):
                        return
                    ctx.check(len(p.log) - asked == len(infills) and all(a == i.X for a, i in zip(p.log[asked:], infills)), "asked", "the problem is asked for other solutions than proposed", **d)
                    algo.tell(infills=infills)
                    ctx.trans()
                    judge(ctx, "kept", vars, [i.X for i in algo.pop], iteration=algo.n_iter, **d)
                    if algo.opt is not None:
                        judge(ctx, "best", vars, [i.X for i in algo.opt], iteration=algo.n_iter, **d)
                    if alg != "GA-given":
                        Xs = [i.X for i in algo.pop]
                        ctx.check(not any(x == y for x, y in itertools.combinations(Xs, 2)), "duplicate", "the population holds a solution twice", iteration=algo.n_iter, **d)
                ctx.state()
                ctx.trace()
                ctx.outcome(alg, name, [repr(x) for x in p.log])
            explore(run, max_dev=dev, max_points=points)


def units(tier):
    deep = tier == "thorough"
    N = list(sets())
    U = [("u_sampling", dict(name=n, dev=3 if deep else 2)) for n in N]
    U += [("u_mating", dict(name=n, dev=2 if deep and len(sets()[n]) == 1 else 1)) for n in N]
    for a in algorithms():
        U += [("u_run", dict(alg=a, names=[n], dev=2 if deep else 1, n_iter=5 if deep else 3, points=60 if deep else 25)) for n in N]
    return U
