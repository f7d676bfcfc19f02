"""P15: a seeded run depends on nothing but its seed."""

import hashlib
import itertools
import json
import os
import random
import subprocess
import sys

import numpy as np

PROPERTY = "P15"
RULE = ("an execution is one complete seeded run (or one interleaving of two) in one environment; environments differ in the state of the global generators at every step, in the answers of "
        "generators created without a seed, in what ran before, in what runs in between, and in the process; outcomes are distinct runs")
BOUNDS = {
    "quick": "50 algorithm configurations x 4 problems (plain, all tied, all infeasible, mixed feasibility) x {integer, binary, permutation, mixed-variable} for the generic ones; 5 iterations; global numpy and "
             "python generators reseeded before every single step and before all of them, 4 families of answers for generators created without a seed; every ordered pair of configurations one after the other; "
             "all 20 interleavings of 3+3 steps of two runs of the same configuration (equal and different seeds) and of each configuration with 6 others; 2 fresh processes with different hash seeds; "
             "6 ways to pass the seed; 60 randomised functions called with a seeded generator under every environment",
    "thorough": "as quick with all 70 interleavings of 4+4 steps and every unordered pair of configurations interleaved",
}

KINDS = ("plain", "tied", "infeasible", "mixed")


def values_of(kind):
    from vmc import zoo

    def values(x, i, alt, n_obj, n_ieq, n_eq):
        f, g, h = zoo.base_values(x, i, None, n_obj, n_ieq, n_eq)
        if kind == "tied":
            f = [1.0] * n_obj
        elif kind == "infeasible":
            g = [1.0] * n_ieq
        elif kind == "mixed":
            g = [round(float(np.sum(x)), 1) - 0.9] * n_ieq
            f = [round(v, 1) for v in f]
        return f, g, h
    return values


def configs():
    """name -> (maker(kind) -> (algorithm, problem))"""
    from vmc import zoo
    out = {}

    def mk(a, kind):
        m = 1 if a.soo else 2
        cons = a.cons and kind != "plain" and kind != "tied"
        p = zoo.make_problem(n_var=2, n_obj=m, n_ieq=1 if cons else 0, values=values_of(kind if cons or kind in ("plain", "tied") else "plain"))
        return a.make(), p
    for a in zoo.all_algorithms():
        out[a.name] = lambda kind, a=a: mk(a, kind)
    for name, f in typed().items():
        out[name] = f
    return out


def typed():
    from vmc import zoo
    out = {}

    def mk(name, typ, kind):
        from pymoo.operators.crossover.erx import ERX
        from pymoo.operators.crossover.hux import HalfUniformCrossover
        from pymoo.operators.crossover.ox import OrderCrossover
        from pymoo.operators.crossover.sbx import SBX
        from pymoo.operators.mutation.bitflip import BitflipMutation
        from pymoo.operators.mutation.inversion import InversionMutation
        from pymoo.operators.mutation.pm import PM
        from pymoo.operators.repair.rounding import RoundingRepair
        from pymoo.operators.sampling.rnd import BinaryRandomSampling, IntegerRandomSampling, PermutationRandomSampling
        a = zoo.by_name(name)
        m = 1 if a.soo else 2
        xl, xu, kw = {
            "int": (-2, 3, dict(sampling=IntegerRandomSampling(), crossover=SBX(vtype=float, repair=RoundingRepair()), mutation=PM(vtype=float, repair=RoundingRepair()))),
            "bool": (0, 1, dict(sampling=BinaryRandomSampling(), crossover=HalfUniformCrossover(), mutation=BitflipMutation())),
            "perm": (0, 4, dict(sampling=PermutationRandomSampling(), crossover=OrderCrossover(), mutation=InversionMutation())),
            "erx": (0, 4, dict(sampling=PermutationRandomSampling(), crossover=ERX(), mutation=InversionMutation())),
        }[typ]
        cons = kind in ("infeasible", "mixed")
        p = zoo.make_problem(n_var=5, n_obj=m, n_ieq=1 if cons else 0, xl=xl, xu=xu, values=values_of(kind))
        return a.make(**kw), p
    for n in ("GA", "NSGA2"):
        for t in ("int", "bool", "perm", "erx"):
            out["%s-%s" % (n, t)] = lambda kind, n=n, t=t: mk(n, t, kind)
    out["mixed"] = mixed
    out["GA-gauss"] = lambda kind: variant("GA", kind, "gauss")
    out["GA-archive"] = lambda kind: variant("NSGA2", kind, "archive")
    out["GA-repair"] = lambda kind: variant("GA", kind, "repair")
    out["DE-dem"] = lambda kind: variant("GA", kind, "dem")
    for n in ("DE-evolutionary", "DE-random", "EPPSO-random", "GA-control"):
        out[n] = lambda kind, n=n: control(n, kind)
    out["SimpleCMAES"] = lambda kind: cma("SimpleCMAES", kind)
    out["BIPOPCMAES"] = lambda kind: cma("BIPOPCMAES", kind)
    out["KGB"] = lambda kind: dynamic("KGB")
    out["DNSGA2-A"] = lambda kind: dynamic("A")
    out["DNSGA2-B"] = lambda kind: dynamic("B")
    return out


def control(name, kind):
    """Algorithms whose parameters are sampled or evolved while they run."""
    from vmc import zoo
    from pymoo.algorithms.soo.nonconvex.de import DE, Variant
    from pymoo.algorithms.soo.nonconvex.ga import GA
    from pymoo.algorithms.soo.nonconvex.pso_ep import EPPSO, Swarm
    from pymoo.operators.control import EvolutionaryParameterControl, ParameterControlMating, RandomParameterControl
    from pymoo.operators.crossover.sbx import SBX
    from pymoo.operators.mutation.pm import PM
    from pymoo.operators.selection.rnd import RandomSelection
    if name == "DE-evolutionary":
        a = DE(pop_size=5, variant=Variant())
    elif name == "DE-random":
        a = DE(pop_size=5, variant=Variant(control=RandomParameterControl))
    elif name == "EPPSO-random":
        a = EPPSO(pop_size=4, swarm=Swarm(control=RandomParameterControl), init_V="random")
    else:
        a = GA(pop_size=4, mating=ParameterControlMating(RandomSelection(), SBX(), PM(), control=EvolutionaryParameterControl))
    cons = name == "GA-control" and kind in ("infeasible", "mixed")
    return a, zoo.make_problem(n_var=2, n_obj=1, n_ieq=1 if cons else 0, values=values_of(kind if cons or kind in ("plain", "tied") else "plain"))


def cma(which, kind):
    from vmc import zoo
    from pymoo.algorithms.soo.nonconvex import cmaes
    return getattr(cmaes, which)(), zoo.make_problem(n_var=2, n_obj=1, values=values_of(kind if kind == "tied" else "plain"))


def variant(name, kind, what):
    from vmc import zoo
    a = zoo.by_name(name)
    m = 1 if a.soo else 2
    kw = {}
    if what == "gauss":
        from pymoo.operators.crossover.dex import DEX
        from pymoo.operators.mutation.gauss import GaussianMutation
        kw = dict(mutation=GaussianMutation(sigma=0.9), crossover=DEX(F=1.5))
    elif what == "archive":
        from pymoo.util.archive import MultiObjectiveArchive
        kw = dict(archive=MultiObjectiveArchive(max_size=3, truncate_size=2))
    elif what == "repair":
        from pymoo.operators.repair.inverse_penalty import InversePenaltyOutOfBoundsRepair
        from pymoo.operators.crossover.pcx import PCX
        from pymoo.operators.repair.bounce_back import BounceBackOutOfBoundsRepair
        kw = dict(repair=BounceBackOutOfBoundsRepair(), crossover=PCX())
    elif what == "dem":
        from pymoo.operators.crossover.dex import DEM
        kw = dict(crossover=DEM(F=(0.1, 1.5), gamma=0.3))
    cons = kind in ("infeasible", "mixed")
    return a.make(**kw), zoo.make_problem(n_var=2, n_obj=m, n_ieq=1 if cons else 0, values=values_of(kind))


def mixed(kind):
    from pymoo.core.mixed import MixedVariableGA
    from pymoo.core.problem import ElementwiseProblem
    from pymoo.core.variable import Binary, Choice, Integer, Real

    class P(ElementwiseProblem):
        def __init__(self):
            super().__init__(vars={"b": Binary(), "c": Choice(options=["p", "q", "r"]), "i": Integer(bounds=(-2, 7)), "r": Real(bounds=(-1, 4))}, n_obj=1)
            self.log = []

        def _evaluate(self, X, out, *args, **kwargs):
            f = 1.0 if kind == "tied" else float(X["b"]) + X["i"] ** 2 + X["r"] + {"p": 0, "q": 1, "r": 2}[X["c"]]
            self.log.append((repr(sorted((k, str(v)) for k, v in X.items())), f, (), ()))
            out["F"] = f

    return MixedVariableGA(pop_size=5), P()


def dynamic(which):
    from pymoo.problems.dynamic.df import DF1
    from pymoo.problems.dyn import TimeSimulation

    class P(DF1):
        log = None

        def _evaluate(self, X, out, *args, **kwargs):
            super()._evaluate(X, out, *args, **kwargs)
            self.log = (self.log or []) + [(x.copy(), tuple(f), (), ()) for x, f in zip(X, np.asarray(out["F"]))]

    p = P(n_var=3, taut=2)
    if which == "KGB":
        from pymoo.algorithms.moo.kgb import KGB
        return KGB(pop_size=16, callback=TimeSimulation()), p
    from pymoo.algorithms.moo.dnsga2 import DNSGA2
    return DNSGA2(pop_size=6, version=which, callback=TimeSimulation()), p


class Env:
    """The surroundings of a run: the global generators and the answers of generators nobody seeded."""

    def __init__(self, reseed_at=(), fam=0):
        self.reseed_at, self.fam, self.k = reseed_at, fam, 0

    def __enter__(self):
        self.orig = np.random.default_rng
        env = self

        def default_rng(seed=None):
            if seed is None:
                env.k += 1
                return env.orig(1000 * env.fam + env.k)
            return env.orig(seed)
        np.random.default_rng = default_rng
        np.random.seed(5 + self.fam)
        random.seed(5 + self.fam)
        return self

    def step(self, i):
        if self.reseed_at == "all" or i in self.reseed_at:
            np.random.seed(77 + i)
            random.seed(77 + i)

    def state(self):
        s = np.random.get_state()
        return (s[0], s[1].tobytes(), s[2:], random.getstate())

    def __exit__(self, *a):
        np.random.default_rng = self.orig


class Run:
    """A run that is advanced step by step."""

    def __init__(self, make, kind, seed, n_iter=5, how="setup"):
        self.algo, self.problem = make(kind)
        if how == "setup":
            self.algo.setup(self.problem, termination=("n_iter", n_iter), seed=seed)
        elif how == "attr":
            self.algo.seed = seed
            self.algo.setup(self.problem, termination=("n_iter", n_iter))

    def step(self):
        if self.algo.has_next():
            self.algo.next()
            return True
        return False

    def trace(self):
        rows = [(x if isinstance(x, str) else np.asarray(x, float).tobytes(), np.asarray(f, float).tobytes()) for x, f, *_ in (self.problem.log or [])]
        r = self.algo.result()
        fin = (repr(r.X), None if r.F is None else np.asarray(r.F, float).tobytes(), len(self.algo.pop))
        arch = None if self.algo.archive is None else np.asarray(self.algo.archive.get("F"), float).tobytes()
        return rows, fin, arch


def solo(make, kind, seed=1, n_iter=5, env=None, how="setup"):
    env = env or Env()
    with env:
        r = Run(make, kind, seed, n_iter, how)
        i = 0
        env.step(0)
        before = env.state()
        touched = False
        while True:
            i += 1
            go = r.step()
            touched = touched or env.state() != before
            if not go or i > 400:
                break
            env.step(i)
            before = env.state()
        t = r.trace()
    return t, touched


def first_diff(a, b):
    for k, (x, y) in enumerate(zip(a[0], b[0])):
        if x != y:
            return "evaluation %d differs" % (k + 1)
    if len(a[0]) != len(b[0]):
        return "%d versus %d evaluations" % (len(a[0]), len(b[0]))
    return "the final result differs"


def u_env(ctx, name, kinds=KINDS):
    make = configs()[name]
    for kind in kinds:
        ref, touched = solo(make, kind)
        ctx.trace()
        ctx.outcome(name, kind, len(ref[0]))
        if touched:
            ctx.viol("writes-global:%s" % name, "%s changes the state of the global random generators" % name, kind=kind)
        for env in [Env(fam=f) for f in (1, 2, 3)] + [Env(reseed_at=(k,)) for k in range(6)] + [Env(reseed_at="all"), Env(reseed_at="all", fam=1)]:
            t, _ = solo(make, kind, env=env)
            ctx.state()
            ctx.trans()
            ctx.trace()
            if t != ref:
                what = "generators created without a seed" if env.fam else "the global random state"
                ctx.viol("depends:%s" % name, "%s depends on %s: %s" % (name, what, first_diff(ref, t)), kind=kind, reseed_at=env.reseed_at, family=env.fam)
                break
        other, _ = solo(make, kind, seed=2)
        ctx.outcome(name, kind, "seed 2", other == ref)


def u_seedpass(ctx, name):
    """The seed is the seed, however it is passed, and whether or not the objects were used before."""
    from pymoo.optimize import minimize
    make = configs()[name]
    ref, _ = solo(make, "plain")
    res = {}
    with Env(fam=1):
        r = Run(make, "plain", 1, how="attr")
        while r.step():
            pass
        res["attribute"] = r.trace()
        algo, problem = make("plain")
        x = minimize(problem, algo, ("n_iter", 5), seed=1)
        rows = lambda p: [(q[0] if isinstance(q[0], str) else np.asarray(q[0], float).tobytes(), np.asarray(q[1], float).tobytes()) for q in p.log]
        res["minimize"] = rows(problem)
        _, p2 = make("plain")
        minimize(p2, algo, ("n_iter", 5), seed=1)
        res["minimize again"] = rows(p2)
        from pymoo.termination import get_termination
        t = get_termination("n_iter", 5)
        for k in range(2):
            _, p3 = make("plain")
            minimize(p3, algo, t, seed=1, verbose=False)
            res["same termination object %d" % k] = rows(p3)
        _, p4 = make("plain")
        minimize(p4, algo, ("n_iter", 2), seed=7)
        _, p5 = make("plain")
        minimize(p5, algo, ("n_iter", 5), seed=1, save_history=False)
        res["after another seed"] = rows(p5)
    for k, v in res.items():
        ctx.state()
        ctx.trans()
        ctx.trace()
        if (v[0] if isinstance(v, tuple) else v) != ref[0]:
            ctx.viol("pass:%s" % name, "%s: the run differs with the seed passed by '%s'" % (name, k))
    ctx.outcome(name)


def u_after(ctx, first, n_iter=3):
    """Every configuration after `first` in the same process."""
    cs = configs()
    refs = reference()
    a, _ = solo(cs[first], "mixed", seed=3, n_iter=n_iter)
    for name in cs:
        for kind in ("plain", "mixed"):
            t, _ = solo(cs[name], kind, n_iter=n_iter)
            ctx.trans()
            ctx.state()
            ctx.trace()
            if digest(t) != refs[name, kind]:
                ctx.viol("after:%s" % name, "%s gives another result after a run of %s (or of the ones before it) in the same process" % (name, first), kind=kind)
            ctx.outcome(name, kind)
        solo(cs[first], "tied", seed=4, n_iter=2)


def digest(t):
    return hashlib.sha1(repr(t).encode()).hexdigest()


_REF = None


def reference():
    """Digests of first runs, each in a process of its own (forked before anything ran)."""
    global _REF
    if _REF is None:
        _REF = {}
        import multiprocessing as mp
        for name in configs():
            for kind in ("plain", "mixed"):
                rd, wr = os.pipe()
                pid = os.fork()
                if pid == 0:
                    try:
                        t, _ = solo(configs()[name], kind, n_iter=3)
                        os.write(wr, digest(t).encode())
                    except BaseException as e:
                        os.write(wr, ("error " + repr(e))[:200].encode())
                    finally:
                        os._exit(0)
                os.close(wr)
                _REF[name, kind] = os.read(rd, 1000).decode()
                os.close(rd)
                os.waitpid(pid, 0)
    return _REF


def warm():
    from vmc.checks import p04
    p04.warm()
    reference()


PARTNERS = ["GA", "NSGA2", "NSGA3", "PSO", "SPEA2", "CMAES"]


def u_interleave(ctx, name, partner, steps, seeds):
    cs = configs()
    kinds = (("plain", "plain"), ("mixed", "mixed"))
    for ka, kb in kinds:
        ra, _ = solo(cs[name], ka, seed=seeds[0], n_iter=steps)
        rb, _ = solo(cs[partner], kb, seed=seeds[1], n_iter=steps)
        # two runs of `steps` macro steps (setup + all iterations of the budget share)
        for pick in itertools.combinations(range(2 * steps), steps):
            with Env():
                A, B = [None], [None]

                def go(slot, nm, kind, seed, share):
                    if slot[0] is None:
                        slot[0] = Run(cs[nm], kind, seed, steps)
                    slot[0].step()
                for i in range(2 * steps):
                    if i in pick:
                        go(A, name, ka, seeds[0], i)
                    else:
                        go(B, partner, kb, seeds[1], i)
                while A[0].step():
                    pass
                while B[0].step():
                    pass
                ta, tb = A[0].trace(), B[0].trace()
            ctx.state()
            ctx.trans(2 * steps)
            ctx.trace()
            if ta != ra:
                ctx.viol("interleave:%s" % name, "%s is disturbed by an interleaved run of %s: %s" % (name, partner, first_diff(ra, ta)), schedule=["A" if i in pick else "B" for i in range(2 * steps)], seeds=seeds)
                return
            if tb != rb:
                ctx.viol("interleave:%s" % partner, "%s is disturbed by an interleaved run of %s: %s" % (partner, name, first_diff(rb, tb)), schedule=["A" if i in pick else "B" for i in range(2 * steps)], seeds=seeds)
                return
    ctx.outcome(name, partner, seeds)


def functions():
    """Randomised functions: name -> call(rng) returning something comparable."""
    from pymoo.core.population import Population
    from pymoo.core.problem import Problem
    from vmc.checks import p13
    f = {}
    X = {"real": np.array([[0.0, 0.3, 1.0], [0.5, 0.3, 0.9], [1.0, 0.0, 0.2], [0.1, 0.9, 0.6]]),
         "int": np.array([[0, 1, 2], [2, 1, 0], [1, 1, 2], [0, 0, 0]]),
         "bool": np.array([[True, False, True], [False, False, True], [True, True, True], [False, True, False]]),
         "perm": np.array([[0, 1, 2], [2, 1, 0], [1, 0, 2], [0, 2, 1]])}
    hi = {"real": 1.0, "int": 2, "bool": 1, "perm": 2}
    for kind, ops in (("real", p13.real_ops()), ("int", p13.int_ops()), ("bool", p13.bin_ops()), ("perm", p13.perm_ops())):
        for name, (mode, mk) in ops.items():
            def g(rng, kind=kind, mode=mode, mk=mk):
                p = Problem(n_var=3, n_obj=1, xl=np.zeros(3), xu=np.full(3, hi[kind]))
                op = mk()
                k = p13.n_parents(op, mode)
                idx = np.array([[(i + s) % 4 for i in range(k)] for s in range(4)])
                return np.array([i.X for i in p13.call(op, mode, p, X[kind], idx, rng)]).tobytes()
            f["%s:%s" % (kind, name)] = g
    from pymoo.operators.sampling.lhs import LHS
    from pymoo.operators.sampling.rnd import BinaryRandomSampling, FloatRandomSampling, IntegerRandomSampling, PermutationRandomSampling
    for S in (LHS, FloatRandomSampling, IntegerRandomSampling, BinaryRandomSampling, PermutationRandomSampling):
        f["sampling:" + S.__name__] = lambda rng, S=S: np.array([i.X for i in S()(Problem(n_var=3, n_obj=1, xl=np.zeros(3), xu=np.full(3, 2)), 5, random_state=rng)]).tobytes()
    from pymoo.operators.repair.inverse_penalty import InversePenaltyOutOfBoundsRepair
    out = np.array([[-0.5, 2.7, 0.5], [1.0, -3.0, 9.0]])
    f["repair:inverse"] = lambda rng: InversePenaltyOutOfBoundsRepair().do(Problem(n_var=3, n_obj=1, xl=np.zeros(3), xu=np.ones(3)), Population.new(X=out.copy()), P=np.full((2, 3), 0.5), random_state=rng).get("X").tobytes()
    from pymoo.operators.crossover.dex import DE_REPAIRS
    for r in DE_REPAIRS:
        f["repair:de:" + r] = lambda rng, r=r: np.asarray(DE_REPAIRS[r](out.copy(), np.full((2, 3), 0.5), np.zeros(3), np.ones(3), random_state=rng)).tobytes()
    from pymoo.util.misc import random_permutations
    from pymoo.util.randomized_argsort import randomized_argsort
    f["permutations"] = lambda rng: np.asarray(random_permutations(3, 4, random_state=rng)).tobytes()
    f["argsort"] = lambda rng: np.asarray(randomized_argsort(np.array([1.0, 0.0, 1.0, 0.0]), order="descending", method="numpy", random_state=rng)).tobytes()
    f["argsort-q"] = lambda rng: np.asarray(randomized_argsort(np.array([1.0, 0.0, 1.0, 0.0]), order="ascending", method="quicksort", random_state=rng)).tobytes()
    from pymoo.util.reference_direction import sample_on_unit_simplex
    f["simplex"] = lambda rng: np.asarray(sample_on_unit_simplex(4, 3, random_state=rng)).tobytes()
    from pymoo.util.roulette import RouletteWheelSelection
    f["roulette"] = lambda rng: np.asarray(RouletteWheelSelection(np.array([1.0, 2.0, 3.0, 1.0])).next(3, random_state=rng)).tobytes()
    return f


def u_functions(ctx):
    for name, g in functions().items():
        ref = None
        for fam in range(4):
            with Env(fam=fam) as env:
                s = env.state()
                v = g(np.random.default_rng(11))
                ctx.trans()
                ctx.state()
                if env.state() != s:
                    ctx.viol("function:writes:%s" % name, "%s changes the global random state although it was given a generator" % name)
            if ref is None:
                ref = v
            elif v != ref:
                ctx.viol("function:%s" % name, "%s uses randomness other than the generator it was given" % name, family=fam)
                break
        ctx.outcome(name, ref)


CHILD = """
import sys, json, warnings
warnings.simplefilter("ignore")
from vmc.checks import p15
cs = p15.configs()
out = {}
for n in sys.argv[1:]:
    for k in ("plain", "mixed"):
        out[n + "|" + k] = p15.digest(p15.solo(cs[n], k, n_iter=3)[0])
print("DIGESTS" + json.dumps(out))
"""


def u_process(ctx, names, hashseed):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    r = subprocess.run([sys.executable, "-c", CHILD] + names, capture_output=True, text=True, env=env, timeout=400)
    line = [l for l in r.stdout.splitlines() if l.startswith("DIGESTS")]
    if not line:
        raise RuntimeError(r.stderr[-1500:])
    got = json.loads(line[0][7:])
    for n in names:
        for k in ("plain", "mixed"):
            ctx.trans()
            ctx.state()
            ctx.trace()
            ctx.check(got[n + "|" + k] == reference()[n, k], "process:%s" % n, "%s gives another result in another process (hash seed %s)" % (n, hashseed), kind=k)
            ctx.outcome(n, k, hashseed)


def units(tier):
    from vmc import zoo
    q = tier == "quick"
    names = list(configs())
    U = []
    for h in (1, 2):
        for p in range(4):
            U.append(("u_process", dict(names=names[p::4], hashseed=h)))
    for n in names:
        U.append(("u_env", dict(name=n)))
        U.append(("u_after", dict(first=n)))
        U.append(("u_seedpass", dict(name=n)))
        for s in ((1, 1), (1, 2)):
            U.append(("u_interleave", dict(name=n, partner=n, steps=3 if q else 4, seeds=s)))
        for p in (PARTNERS if q else names):
            if p != n:
                U.append(("u_interleave", dict(name=n, partner=p, steps=3, seeds=(1, 2))))
    U.append(("u_functions", {}))
    return U
