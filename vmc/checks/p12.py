"""P12: duplicate elimination by definition, the infill loop against every offspring stream, and runs on tiny design spaces."""

import itertools

import numpy as np

from vmc.rng import MixRNG, ScriptRNG, explore

PROPERTY = "P12"
RULE = ("an execution is one elimination, one infill (one stream of generated batches) or one complete run; outcomes are distinct "
        "(kept set) / (proposed designs) results")
BOUNDS = {
    "quick": "every population of <= 4 designs from an alphabet of 5 (1-D and 2-D; incl. designs exactly at the tolerance, NaN and the same object twice) x every reference "
             "population of <= 2 (and pairs of references) x tolerances {0, 1e-16, 0.5} x {design, objective, element-wise, hash} elimination; every stream of 4 generated "
             "batches for the infill loop; Initialization from operator/array/population; mating of 5 operators on binary and permutation parents with every <= 2 deviations of "
             "the generator; 17 algorithms on 8 and 4 designs with every single deviation of the first 40 random draws",
    "thorough": "as quick with populations of 5, streams of 5, 3 deviations in mating and 2 deviations (120 draws) in the runs",
}

NAN = float("nan")
ALPHA1 = [0.0, 0.5, 0.75, 2.0, NAN]
ALPHA2 = [(0.0, 0.0), (0.0, 0.5), (0.25, 0.25), (0.0, 5e-17), (3.0, 3.0)]


def dist(a, b):
    return sum((x - y) ** 2 for x, y in zip(a, b)) ** 0.5


def ref_default(vals, refs, eps, to_itself=True):
    """Keep a row unless it is within eps of an earlier row (or of a row of a reference)."""
    keep = []
    for i, v in enumerate(vals):
        if to_itself and any(dist(v, vals[j]) <= eps for j in range(i)):
            continue
        if any(dist(v, w) <= eps for r in refs for w in r):
            continue
        keep.append(i)
    return keep


def make(vals, attr="X", start=0):
    from pymoo.core.individual import Individual
    from pymoo.core.population import Population
    inds = []
    for k, v in enumerate(vals):
        x = np.array(v, float)
        inds.append(Individual(X=x if attr == "X" else np.array([float(start + k)]), F=x.copy() if attr == "F" else np.array([float(start + k)])))
    return Population.create(*inds)


def snap(pop):
    return [(id(i), i.X.tobytes(), i.F.tobytes()) for i in pop]


def u_default(ctx, alpha, n, eps, attr, first):
    from pymoo.core.duplicate import DefaultDuplicateElimination
    A = [(v,) for v in ALPHA1] if alpha == 1 else ALPHA2
    refsets = [()] + [((a,),) for a in A] + [((a, b),) for a in A for b in A] + [((a,), (b,)) for a in A for b in A] + [((), (a,)) for a in A]
    el = DefaultDuplicateElimination(epsilon=eps, func=(lambda p: p.get("F")) if attr == "F" else None)
    for tail in itertools.product(range(len(A)), repeat=n - 1):
        vals = [A[first]] + [A[t] for t in tail]
        pop = make(vals, attr)
        before = snap(pop)
        ctx.state()
        for refs in refsets if n <= 3 else refsets[:6]:
            R = [make(r, attr, 100) for r in refs]
            rb = [snap(r) for r in R]
            expect = ref_default(vals, refs, eps)
            out, keep, dup = el.do(pop, *R, return_indices=True)
            out2 = el.do(pop, *R)
            out3, keep3, _ = el.do(pop, *R, return_indices=True, to_itself=False)
            ctx.trans(3)
            d = dict(population=vals, references=refs, epsilon=eps, attribute=attr)
            if [id(i) for i in out] != [before[k][0] for k in expect] or [id(i) for i in out2] != [id(i) for i in out]:
                ctx.viol("default:kept", "duplicate elimination keeps %s instead of %s" % (list(keep), expect), **d)
            if list(keep) != expect or sorted(list(keep) + list(dup)) != list(range(n)):
                ctx.viol("default:indices", "the reported indices do not name the kept solutions", keep=list(keep), expect=expect, **d)
            e3 = ref_default(vals, refs, eps, to_itself=False)
            if list(keep3) != e3:
                ctx.viol("default:itself", "elimination against references only keeps %s instead of %s" % (list(keep3), e3), **d)
            if snap(pop) != before or [snap(r) for r in R] != rb:
                ctx.viol("default:mutated", "duplicate elimination changed a population", **d)
            ctx.outcome(alpha, eps, tuple(expect))
    ctx.trace()


def u_same(ctx):
    """The same Individual object several times in a population; empty populations."""
    from pymoo.core.duplicate import DefaultDuplicateElimination, NoDuplicateElimination
    from pymoo.core.population import Population
    el = DefaultDuplicateElimination()
    objs = list(make([(0.0,), (1.0,), (1.0,)]))
    for n in (0, 1, 2, 3, 4):
        for c in itertools.product(range(3), repeat=n):
            pop = Population.create(*[objs[k] for k in c])
            vals = [tuple(objs[k].X) for k in c]
            expect = ref_default(vals, [], 1e-16)
            out, keep, dup = el.do(pop, return_indices=True)
            ctx.trans()
            ctx.state()
            if list(keep) != expect or len(out) != len(expect) or len(keep) + len(dup) != n:
                ctx.viol("same:indices", "duplicate elimination of a population holding one object twice reports indices %s, expected %s" % (list(keep), expect), population=c)
            none = NoDuplicateElimination().do(pop, pop)
            if len(none) != n or any(a is not b for a, b in zip(none, pop)):
                ctx.viol("same:none", "no elimination removed something", population=c)
            ctx.outcome(tuple(expect))
    ctx.trace()


def u_classes(ctx, kind, n):
    """Custom equality and hashing: exactly one representative per class of equal solutions, in the given order."""
    from pymoo.core.duplicate import ElementwiseDuplicateElimination, HashDuplicateElimination
    from pymoo.core.mixed import MixedVariableDuplicateElimination

    class Eq(ElementwiseDuplicateElimination):
        def is_equal(self, a, b):
            return bool(np.all(a.X == b.X))

    class NpEq(ElementwiseDuplicateElimination):
        def is_equal(self, a, b):
            return np.all(a.X == b.X)

    elim = {"eq": lambda: Eq(), "npeq": lambda: NpEq(), "cmp": lambda: ElementwiseDuplicateElimination(cmp_func=lambda a, b: float(abs(a.X[0] - b.X[0]))),
            "hash": lambda: HashDuplicateElimination(), "mixed": lambda: MixedVariableDuplicateElimination(), "mixed:cat": lambda: MixedVariableDuplicateElimination()}[kind]()
    A = [(0.0,), (1.0,), (1.0 + 1e-9,), (2.0,)]
    make, snap = globals()["make"], globals()["snap"]
    if kind.startswith("mixed"):
        # the same keys, differing in one variable of every type (and in types of the options)
        A = [(0.5, 1, True, "a"), (0.5, 1, True, "b"), (0.5, 1, False, "a"), (0.5, 2, True, "a"), (0.25, 1, True, "a")]
        if kind == "mixed:cat":
            A = [("a", "b", None, (1, 2)), ("b", "a", None, (1, 2)), ("a", "b", "None", (1, 2)), ("a", "b", None, (2, 1)), ("b", "b", None, (1, 2))]

        def make(vals, start=0):
            from pymoo.core.population import Population
            pop = Population.new(X=[dict(zip("zaxb", v)) for v in vals])
            for k, i in enumerate(pop):
                i.set("tag", start + k)
            return pop

        def snap(pop):
            return [(id(i), repr(i.X), i.get("tag")) for i in pop]
    for vals in itertools.product(A, repeat=n):
        pop = make(vals)
        before = snap(pop)
        for refs in [()] + [((a,),) for a in A] + [((a, b),) for a in A for b in A] + [((a,), (b,)) for a in A[:2] for b in A[:2]]:
            R = [make(r, start=100) for r in refs]
            out, keep, dup = elim.do(pop, *R, return_indices=True)
            ctx.trans()
            ctx.state()
            gone = {w for r in refs for w in r}
            want = {v for v in vals if v not in gone}
            got = [vals[k] for k in keep]
            d = dict(population=vals, references=refs, kind=kind)
            if len(got) != len(set(got)) or set(got) != want:
                ctx.viol("%s:classes" % kind, "elimination keeps %s, expected one of each of %s" % (got, sorted(want, key=repr)), **d)
            if list(keep) != sorted(keep) or [id(i) for i in out] != [before[k][0] for k in keep] or sorted(list(keep) + list(dup)) != list(range(n)):
                ctx.viol("%s:order" % kind, "elimination changes the order or reports wrong indices", keep=list(keep), **d)
            if snap(pop) != before:
                ctx.viol("%s:mutated" % kind, "elimination changed the population", **d)
            ctx.outcome(kind, len(got))
    ctx.trace()


def u_infill(ctx, depth, n_off, first):
    """The loop that fills up the offspring: an environment answers each request with every possible batch."""
    from pymoo.core.duplicate import DefaultDuplicateElimination
    from pymoo.core.infill import InfillCriterion
    from pymoo.core.repair import Repair
    batches = [(), (0,), (1,), (2, 2), (2, 3), (0, 1, 4), (5, 3, 4), (6, 6, 5)]   # parents are 0 and 1; 6 is repaired to 2

    class Rep(Repair):
        def _do(self, problem, X, **kw):
            X = X.copy()
            X[X == 6.0] = 2.0
            return X

    class Env(InfillCriterion):
        def __init__(self, answers, **kw):
            super().__init__(**kw)
            self.answers, self.calls = list(answers), []

        def _do(self, problem, pop, n_offsprings, **kw):
            self.calls.append(n_offsprings)
            b = self.answers[len(self.calls) - 1] if len(self.calls) <= len(self.answers) else ()
            return make([(float(v),) for v in b], start=len(self.calls) * 10)

    for tail in itertools.product(batches, repeat=depth - 1):
        ans = (first,) + tail
        for limit in (depth, depth - 1, 2):
            parents = make([(0.0,), (1.0,)])
            env = Env(ans, repair=Rep(), eliminate_duplicates=DefaultDuplicateElimination(), n_max_iterations=limit)
            off = env.do(None, parents, n_off)
            ctx.trans(len(env.calls))
            ctx.state()
            expect, k = [], 0
            while len(expect) < n_off and k < limit:
                for v in ans[k]:
                    v = 2 if v == 6 else v
                    if v not in (0, 1) and v not in expect:
                        expect.append(v)
                k += 1
            expect = expect[:n_off]
            got = [int(i.X[0]) for i in off]
            d = dict(answers=ans, limit=limit, n_offsprings=n_off)
            if got != expect:
                ctx.viol("infill:content", "the offspring are %s, expected %s" % (got, expect), **d)
            if len(env.calls) != k:
                ctx.viol("infill:calls", "the offspring were requested %d times instead of %d" % (len(env.calls), k), **d)
            if any(c < 1 or c > n_off for c in env.calls):
                ctx.viol("infill:request", "a request asks for %s offspring" % env.calls, **d)
            if [int(i.X[0]) for i in parents] != [0, 1]:
                ctx.viol("infill:parents", "the parents were changed", **d)
            ctx.outcome(tuple(got))
        ctx.trace()


def u_init(ctx):
    """Initial populations from an operator, an array or a population, with repair and duplicates."""
    from pymoo.core.duplicate import DefaultDuplicateElimination
    from pymoo.core.initialization import Initialization
    from pymoo.core.population import Population
    from pymoo.core.repair import Repair
    from pymoo.core.sampling import Sampling
    from vmc import zoo

    class Rep(Repair):
        def _do(self, problem, X, **kw):
            return np.where(X > 0.9, 0.25, X)

    problem = zoo.make_problem(1, 1)
    A = [0.0, 0.25, 0.5, 1.0]
    for n in (1, 2, 3, 4):
        for c in itertools.product(range(4), repeat=n):
            X = np.array([[A[k]] for k in c])
            for mode in ("operator", "array", "population", "evaluated", "mixed"):
                for elim in (False, True):
                    evaluated = [False] * n
                    if mode == "operator":
                        class Smp(Sampling):
                            def _do(self, problem, n_samples, random_state=None, **kw):
                                return X[:n_samples].copy()
                        smp = Smp()
                    elif mode == "array":
                        smp = X.copy()
                    else:
                        smp = Population.new(X=X.copy())
                        if mode != "population":
                            for k in range(n):
                                if mode == "evaluated" or k % 2 == 0:
                                    smp[k].set("F", np.array([1.0]))
                                    smp[k].evaluated.add("F")
                                    evaluated[k] = True
                    init = Initialization(smp, repair=Rep(), eliminate_duplicates=DefaultDuplicateElimination() if elim else None)
                    pop = init.do(problem, n, random_state=np.random.default_rng(0))
                    ctx.trans()
                    ctx.state()
                    vals = [A[k] if (A[k] <= 0.9 or evaluated[i]) else 0.25 for i, k in enumerate(c)]
                    expect = [v for i, v in enumerate(vals) if not (elim and v in vals[:i])]
                    got = [float(i.X[0]) for i in pop]
                    if got != expect:
                        ctx.viol("init:%s" % mode, "the initial population holds %s, expected %s" % (got, expect), designs=X, eliminate=elim)
                    ctx.outcome(mode, tuple(got))
    ctx.trace()


def u_mating(ctx, kind, dev, pi):
    from pymoo.core.duplicate import DefaultDuplicateElimination
    from pymoo.core.mating import Mating
    from pymoo.core.population import Population
    from pymoo.core.problem import Problem
    from pymoo.operators.crossover.ox import OrderCrossover
    from pymoo.operators.crossover.pntx import TwoPointCrossover
    from pymoo.operators.crossover.sbx import SBX
    from pymoo.operators.crossover.ux import UniformCrossover
    from pymoo.operators.crossover.nox import NoCrossover
    from pymoo.operators.mutation.bitflip import BitflipMutation
    from pymoo.operators.mutation.inversion import InversionMutation
    from pymoo.operators.mutation.pm import PM
    from pymoo.operators.repair.rounding import RoundingRepair
    from pymoo.operators.selection.rnd import RandomSelection
    P = {"bin": (UniformCrossover(), BitflipMutation(prob_var=0.5), None, bool), "bin2": (TwoPointCrossover(), BitflipMutation(prob_var=0.5), None, bool),
         "perm": (OrderCrossover(), InversionMutation(), None, int), "int": (SBX(vtype=float, repair=RoundingRepair()), PM(vtype=float, repair=RoundingRepair()), None, int),
         "none": (NoCrossover(), BitflipMutation(prob_var=0.5), None, bool)}[kind]
    cx, mu, rep, typ = P
    n_var = 3 if kind == "perm" else 2
    problem = Problem(n_var=n_var, n_obj=1, xl=0, xu=1 if kind != "perm" else 2, vtype=typ)
    if kind == "perm":
        designs = [np.array(p) for p in itertools.permutations(range(3))]
    else:
        designs = [np.array(p).astype(typ) for p in itertools.product((0, 1), repeat=2)]
    pops = [c for k in (2, 3) for c in itertools.combinations(range(len(designs)), k)]
    for c in pops[pi::8]:
        parents = [designs[k] for k in c]

        def run(o):
            pop = Population.new(X=np.array(parents))
            m = Mating(RandomSelection(), cx, mu, repair=rep, eliminate_duplicates=DefaultDuplicateElimination(), n_max_iterations=2)
            off = m.do(problem, pop, 2, random_state=ScriptRNG(o))
            ctx.trans()
            xs = [tuple(np.asarray(i.X).astype(float).tolist()) for i in off]
            ps = [tuple(np.asarray(p).astype(float).tolist()) for p in parents]
            if len(set(xs)) != len(xs) or set(xs) & set(ps) or len(xs) > 2:
                ctx.viol("mating:%s" % kind, "mating proposes duplicates: offspring %s of parents %s" % (xs, ps), choices=o.choices[:40])
            if not np.array_equal(pop.get("X"), np.array(parents)):
                ctx.viol("mating:parents:%s" % kind, "mating changed its parents", choices=o.choices[:40])
            ctx.outcome(kind, tuple(xs))

        n, ok = explore(run, max_dev=dev, max_runs=20000, max_points=60)
        ctx.state(n)
        ctx.trace(n)


NAMES = ["GA", "GA-ss", "NicheGA", "NSGA2", "NSGA2-ss", "NSGA2-pcd", "NSGA2-constr", "NSGA3", "UNSGA3", "RNSGA2", "RNSGA3", "AGEMOEA", "AGEMOEA2", "SMSEMOA", "SPEA2", "RVEA", "CTAEA", "Omni"]


def u_run(ctx, name, space, dev, points, seed):
    from pymoo.operators.crossover.pntx import TwoPointCrossover
    from pymoo.operators.mutation.bitflip import BitflipMutation
    from pymoo.operators.sampling.rnd import BinaryRandomSampling
    from vmc import zoo
    a = zoo.by_name(name)
    m = 1 if a.soo else 2
    n_var = 3 if space == 8 else 2

    def run(o):
        problem = zoo.make_problem(n_var=n_var, n_obj=m)
        algo = a.make(sampling=BinaryRandomSampling(), crossover=TwoPointCrossover(), mutation=BitflipMutation(prob_var=0.5))
        algo.setup(problem, termination=("n_iter", 3), seed=1)
        algo.random_state = MixRNG(o, seed, levels=[0.3, 0.7])
        batches = []
        while algo.has_next():
            infills = algo.ask()
            if infills is None or len(infills) == 0:
                break
            before = {tuple(np.asarray(i.X, float)) for i in algo.pop} if algo.pop is not None and len(batches) else set()
            xs = [tuple(np.asarray(i.X, float)) for i in infills]
            if len(set(xs)) != len(xs):
                ctx.viol("run:twice:%s" % name, "%s proposes the same design twice in one iteration: %s" % (name, xs), choices=o.choices[:60])
            if before & set(xs):
                ctx.viol("run:again:%s" % name, "%s proposes a design that is in its population: %s" % (name, sorted(before & set(xs))), choices=o.choices[:60])
            batches.append(tuple(xs))
            algo.evaluator.eval(problem, infills, algorithm=algo)
            algo.tell(infills=infills)
            ctx.trans()
            if len({tuple(np.asarray(i.X, float)) for i in algo.pop}) != len(algo.pop):
                ctx.viol("run:pop:%s" % name, "the population of %s holds a design twice" % name, choices=o.choices[:60])
        ctx.outcome(name, tuple(batches))

    n, ok = explore(run, max_dev=dev, max_runs=4000, max_points=points)
    ctx.state(n)
    ctx.trace(n)


def units(tier):
    q = tier == "quick"
    U = [("u_same", {}), ("u_init", {})]
    for alpha in (1, 2):
        for eps in (0.0, 1e-16, 0.5):
            for n in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5):
                for first in range(5):
                    U.append(("u_default", dict(alpha=alpha, n=n, eps=eps, attr="F" if (n == 3 and alpha == 1) else "X", first=first)))
    for kind in ("eq", "npeq", "cmp", "hash", "mixed", "mixed:cat"):
        for n in (1, 2, 3, 4):
            U.append(("u_classes", dict(kind=kind, n=n)))
    batches = [(), (0,), (1,), (2, 2), (2, 3), (0, 1, 4), (5, 3, 4), (6, 6, 5)]
    for b in batches:
        for n_off in (1, 2, 4):
            U.append(("u_infill", dict(depth=4 if q else 5, n_off=n_off, first=b)))
    for kind in ("bin", "bin2", "perm", "int", "none"):
        for pi in range(8):
            U.append(("u_mating", dict(kind=kind, dev=2 if q else 3, pi=pi)))
    for name in NAMES:
        for space in (8, 4):
            for seed in (1, 2):
                U.append(("u_run", dict(name=name, space=space, dev=1 if q else 2, points=40 if q else 120, seed=seed)))
    return U
