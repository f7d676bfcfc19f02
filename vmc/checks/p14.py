"""P14: nothing that is handed to the library is altered by using it."""

import copy
import itertools
import pickle

import numpy as np

from vmc.fp import diff, fp, solutions
from vmc.rng import MixRNG, ScriptRNG, explore

PROPERTY = "P14"
RULE = ("an execution is one call of one function or operator on one input (or one complete run of one algorithm under one scripted deviation); inputs are fingerprinted before and after; "
        "outcomes are distinct results")
BOUNDS = {
    "quick": "70 functions (sorting, dominance, crowding, scalarisation, indicators, normalisation, decision making, distances, repairs, reference directions) x every 3-point front over {0,1,2}^2 and 4-point front over a "
             "3-objective palette, in C order, F order and as a strided view; 30 variation/selection operators, 25 variation functions on their own and 24 survivals/replacements x random answers of <= 1 deviation; 44 algorithms: every ask of a run of "
             "5 iterations under every single deviating answer of the problem (first 8 rows), every history entry, the objects handed to minimize (fresh, and with every kind of initial sampling)",
    "thorough": "as quick with all 4-point fronts, <= 2 deviations of the generator and deviating answers over the first 20 rows",
}


def warm():
    from vmc.checks import p04
    p04.warm()


def arrays(m, n, limit=None):
    pts = list(itertools.product((0.0, 1.0, 2.0), repeat=m)) if m == 2 else [(0.0, 1.0, 2.0), (1.0, 0.0, 2.0), (2.0, 1.0, 0.0), (1.0, 1.0, 1.0), (2.0, 2.0, 2.0), (0.0, 1.0, 2.5)]
    for c in itertools.product(pts, repeat=n):
        yield np.array(c, float)


def layouts(F):
    yield "C", np.ascontiguousarray(F)
    yield "F", np.asfortranarray(F)
    big = np.zeros((2 * F.shape[0], F.shape[1] + 1))
    big[::2, :-1] = F
    yield "view", big[::2, :-1]


def functions(m):
    """name -> function(F, P) called with two arrays that must stay as they are."""
    from pymoo.decomposition.aasf import AASF
    from pymoo.decomposition.asf import ASF
    from pymoo.decomposition.pbi import PBI
    from pymoo.decomposition.perp_dist import PerpendicularDistance
    from pymoo.decomposition.tchebicheff import Tchebicheff
    from pymoo.decomposition.weighted_sum import WeightedSum
    from pymoo.functions.standard import non_dominated_sorting as std
    from pymoo.indicators.gd import GD
    from pymoo.indicators.gd_plus import GDPlus
    from pymoo.indicators.hv import HV
    from pymoo.indicators.igd import IGD
    from pymoo.indicators.igd_plus import IGDPlus
    from pymoo.mcdm.compromise_programming import CompromiseProgramming
    from pymoo.mcdm.high_tradeoff import HighTradeoffPoints
    from pymoo.mcdm.pseudo_weights import PseudoWeights
    from pymoo.operators.survival.rank_and_crowding.metrics import get_crowding_function
    from pymoo.util import misc
    from pymoo.util.dominator import Dominator
    from pymoo.util.nds.non_dominated_sorting import NonDominatedSorting, find_non_dominated
    from pymoo.util.normalization import ZeroToOneNormalization, denormalize, normalize, standardize
    from pymoo.util.randomized_argsort import randomized_argsort

    ideal, nadir = np.full(m, -0.5), np.full(m, 3.0)
    keep = dict(ideal=ideal, nadir=nadir)
    f = {}
    for meth in ("fast_non_dominated_sort", "efficient_non_dominated_sort", "tree_based_non_dominated_sort", "dominance_degree_non_dominated_sort"):
        f["nds:" + meth] = lambda F, P, meth=meth: NonDominatedSorting(method=meth).do(F, return_rank=True)
        f["nds-first:" + meth] = lambda F, P, meth=meth: NonDominatedSorting(method=meth).do(F, only_non_dominated_front=True)
        if hasattr(std, meth):
            f["nds-std:" + meth] = lambda F, P, meth=meth: getattr(std, meth)(F)
    f["find_non_dominated"] = lambda F, P: find_non_dominated(F)
    f["find_non_dominated2"] = lambda F, P: find_non_dominated(F, P)
    f["domination"] = lambda F, P: Dominator().calc_domination_matrix(F)
    f["domination2"] = lambda F, P: Dominator().calc_domination_matrix(F, P)
    f["relation"] = lambda F, P: Dominator.get_relation(F[0], F[1])
    for c in ("cd", "pcd", "ce", "mnn", "2nn"):
        for k in (0, 1, 2):
            f["crowding:%s:%d" % (c, k)] = lambda F, P, c=c, k=k: get_crowding_function(c).do(F, n_remove=k)
    for D in (AASF, ASF, PBI, PerpendicularDistance, Tchebicheff, WeightedSum):
        mk = (lambda **k: AASF(rho=0.1, **k)) if D is AASF else D
        f["decomp:" + D.__name__] = lambda F, P, mk=mk: mk().do(F, P + 0.25)
        f["decomp1:" + D.__name__] = lambda F, P, mk=mk: mk(eps=0.5).do(F, P + 1.0, _type="one_to_one")
        f["decompz:" + D.__name__] = lambda F, P, mk=mk: mk().do(F, P + 0.25, ideal_point=ideal, utopian_point=ideal, nadir_point=nadir)
    for I in (GD, GDPlus, IGD, IGDPlus):
        f["ind:" + I.__name__] = lambda F, P, I=I: I(P).do(F)
        f["ind01:" + I.__name__] = lambda F, P, I=I: I(P, zero_to_one=True, ideal=ideal, nadir=nadir).do(F)
        f["indn:" + I.__name__] = lambda F, P, I=I: I(P, norm_by_dist=True).do(F)
    f["hv"] = lambda F, P: HV(ref_point=nadir).do(F)
    f["hv-pf"] = lambda F, P: HV(pf=P, zero_to_one=True, ideal=ideal, nadir=nadir).do(F)
    f["hv-nds"] = lambda F, P: HV(ref_point=nadir, nds=False).do(F)
    f["pw"] = lambda F, P: PseudoWeights(np.full(m, 1.0 / m)).do(F + np.eye(len(F), m), return_pseudo_weights=True)
    f["pw0"] = lambda F, P: PseudoWeights(np.full(m, 1.0 / m)).do(F) if np.all(np.ptp(F, axis=0) > 0) else 0
    f["compromise"] = lambda F, P: CompromiseProgramming(ASF()).do(F, weights=np.full(m, 1.0 / m)) if False else ASF().do(F, np.full(m, 1.0 / m)).argmin()
    f["normalize"] = lambda F, P: normalize(F)
    f["normalize-b"] = lambda F, P: normalize(F, ideal, nadir, return_bounds=True)
    f["normalize-l"] = lambda F, P: normalize(F, xl=P.min(axis=0), estimate_bounds_if_none=False)
    f["denormalize"] = lambda F, P: denormalize(F, ideal, nadir)
    f["standardize"] = lambda F, P: standardize(F, return_bounds=True)
    f["z21"] = lambda F, P: ZeroToOneNormalization(ideal, nadir).backward(ZeroToOneNormalization(ideal, nadir).forward(F))
    f["z21-nan"] = lambda F, P: ZeroToOneNormalization(np.where(np.arange(m) == 0, np.nan, ideal), nadir).forward(F)
    f["cdist"] = lambda F, P: misc.cdist(F, P)
    f["vcdist"] = lambda F, P: misc.vectorized_cdist(F, P)
    f["dups"] = lambda F, P: misc.find_duplicates(F)
    f["sort"] = lambda F, P: misc.cdist(F, F)
    f["argsort"] = lambda F, P: randomized_argsort(F[:, 0].copy(), order="descending", method="numpy")
    for nm in ("norm_eucl_dist", "norm_manhatten_dist", "norm_tchebychev_dist", "unique_rows", "crossover_mask", "at_least_2d_array", "to_1d_array_if_possible", "parameter_less"):
        if nm in ("unique_rows", "at_least_2d_array", "to_1d_array_if_possible") and hasattr(misc, nm):
            f["misc:" + nm] = lambda F, P, nm=nm: getattr(misc, nm)(F)
    if m > 2:
        f["tradeoff"] = lambda F, P: HighTradeoffPoints(zero_to_one=True, ideal=ideal, nadir=nadir).do(F)
    else:
        f["tradeoff"] = lambda F, P: HighTradeoffPoints(zero_to_one=True, ideal=ideal, nadir=nadir).do(F + np.arange(len(F))[:, None] * np.array([0.1, -0.1])[:m])
    f["repair-to"] = _rep("to")
    for r in ("bounce-back", "midway", "rand-init", "to-bounds"):
        f["repair-de:" + r] = _rep(r)
    for r in ("clamp", "periodic", "random"):
        f["repair:" + r] = _rep(r)
    return f, keep


def _rep(kind):
    def call(F, P):
        from pymoo.operators.crossover.dex import DE_REPAIRS
        from pymoo.operators.repair import bounds_repair as br
        from pymoo.operators.repair.to_bound import set_to_bounds_if_outside
        m = F.shape[1]
        xl, xu = np.full(m, 0.5), np.full(m, 1.5)
        a, b = xl.copy(), xu.copy()
        rng = np.random.default_rng(1)
        B = np.clip(P, xl, xu)
        c = B.copy()
        if kind == "to":
            set_to_bounds_if_outside(F.copy(), xl, xu)
        elif kind == "clamp":
            br.repair_clamp(F.copy(), xl, xu)
        elif kind == "periodic":
            br.repair_periodic(F.copy(), xl, xu)
        elif kind == "random":
            br.repair_random_init(F.copy(), B, xl, xu, random_state=rng)     # works on its argument by design
        else:
            DE_REPAIRS[kind](F.copy(), B, xl, xu, random_state=rng)
        if not (np.array_equal(xl, a) and np.array_equal(xu, b) and np.array_equal(B, c)):
            raise Touched("bounds or base vectors")
    return call


class Touched(Exception):
    pass


def u_arrays(ctx, m, n, part, parts):
    fs, keep = functions(m)
    kp = fp(keep)
    P0 = np.array([[0.0, 2.0], [1.0, 0.5], [2.0, 0.0]] if m == 2 else [[0.0, 1.0, 2.0], [2.0, 1.0, 0.5], [1.0, 0.0, 1.0], [0.5, 0.5, 2.0]])
    if len(P0) != n:
        P0 = np.vstack([P0, P0[:1] + 0.25])[:n]
    for i, F in enumerate(arrays(m, n)):
        if i % parts != part:
            continue
        ctx.state()
        for lay, A in layouts(F):
            for name, f in fs.items():
                if lay != "C" and i % 7:
                    continue
                A_, P_ = A, P0.copy()
                before = A.copy()
                try:
                    r = f(A_, P_)
                except Touched as e:
                    ctx.viol("array:%s:arg" % name, "%s changes its argument: %s" % (name, e), F=F, layout=lay)
                    continue
                except Exception as e:
                    if name in ("tradeoff",):
                        continue
                    raise
                ctx.trans()
                if not np.array_equal(A, before):
                    ctx.viol("array:" + name, "%s changes the objective values it is given" % name, F=before, after=A, layout=lay)
                    A[:] = before
                if not np.array_equal(P_, P0):
                    ctx.viol("array2:" + name, "%s changes its second argument" % name, F=F, after=P_, layout=lay)
                if fp(keep) != kp:
                    ctx.viol("array3:" + name, "%s changes the ideal or nadir point it is given" % name, F=F, layout=lay)
                    return
        ctx.outcome(F.tobytes())


# -----------------------------------------------------------------------------------------------------
# operators
# -----------------------------------------------------------------------------------------------------

def variation():
    """name -> (arguments, function(args, rng)); no argument may change and no result may share memory with one."""
    from pymoo.algorithms.soo.nonconvex.de import de_differential as de2
    from pymoo.operators.crossover.binx import mut_binomial
    from pymoo.operators.crossover.dex import de_differential
    from pymoo.operators.crossover.erx import erx
    from pymoo.operators.crossover.expx import mut_exp
    from pymoo.operators.crossover.ox import ox
    from pymoo.operators.crossover.pcx import pcx
    from pymoo.operators.crossover.sbx import cross_sbx
    from pymoo.operators.mutation.gauss import mut_gauss
    from pymoo.operators.mutation.inversion import inversion_mutation
    from pymoo.operators.mutation.pm import mut_pm
    from pymoo.operators.sampling.lhs import sampling_lhs
    from pymoo.util.misc import crossover_mask
    xl, xu = np.array([0.0, -5.0]), np.array([1.0, 10.0])
    X = np.array([[0.25, 3.0], [0.75, -4.0], [0.5, 0.5]])
    X3 = np.array([X[:2], X[1:], X[[0, 2]]])
    one, half = np.ones((2, 1)), np.full(2, 0.5)
    f = {}
    for eps in (1e-14, 1.0):
        f["cross_sbx:%g" % eps] = (X3[:2], xl, xu, 15.0 * one, one, one), lambda a, r, eps=eps: cross_sbx(*a, eps=eps, random_state=r)
    f["cross_sbx:none"] = (X3[:2], xl, xu, 15.0 * one, 0 * one, one), lambda a, r: cross_sbx(*a, random_state=r)
    for once in (True, False):
        f["mut_pm:%s" % once] = (X[:2], xl, xu, np.full(2, 20.0), half), lambda a, r, once=once: mut_pm(*a, once, random_state=r)
        f["mut_binomial:%s" % once] = (half,), lambda a, r, once=once: mut_binomial(2, 3, a[0], at_least_once=once, random_state=r)
        f["mut_exp:%s" % once] = (half,), lambda a, r, once=once: mut_exp(2, 3, a[0], at_least_once=once, random_state=r)
    f["mut_gauss"] = (X[:2], xl, xu, np.full(2, 0.5), half), lambda a, r: mut_gauss(*a, random_state=r)
    for dither in (None, "vector", "scalar"):
        f["de_differential:%s" % dither] = (X3, half), lambda a, r, dither=dither: de_differential(*a, dither=dither, jitter=True, random_state=r)
    f["de_differential2"] = (X3, half, np.array([True, False])), lambda a, r: de2(*a, random_state=r)
    f["pcx"] = (X3, 0.1 * one, 0.2 * one), lambda a, r: pcx(*a, 0, random_state=r)
    p, q = np.array([0, 1, 2, 3]), np.array([2, 0, 3, 1])
    for s in (True, False):
        f["ox:%s" % s] = (p, q), lambda a, r, s=s: np.array(ox(*a, shift=s, random_state=r))
        f["ox-seq:%s" % s] = (p, q), lambda a, r, s=s: np.array(ox(*a, seq=(1, 2), shift=s))
    f["erx"] = (p, q), lambda a, r: np.array(erx(*a, random_state=r))
    f["inversion"] = (p,), lambda a, r: np.array(inversion_mutation(a[0], (1, 2), inplace=False))
    f["sampling_lhs"] = (xl, xu), lambda a, r: sampling_lhs(3, 2, *a, n_iter=2, random_state=r)
    f["crossover_mask"] = (X3[:2], np.array([[True, False], [False, False]])), lambda a, r: crossover_mask(*a)
    return f


def u_variation(ctx, dev):
    for name, (args, f) in variation().items():
        args = [np.array(a) for a in args]
        keep = [a.tobytes() for a in args]

        def run(o):
            r = f(args, ScriptRNG(o, levels=[0.625, 0.125, 0.875, 0.0]))
            ctx.trans()
            ctx.outcome(name, np.asarray(r).tobytes())
            for k, a in enumerate(args):
                if a.tobytes() != keep[k]:
                    ctx.viol("variation:%s" % name, "argument %d of %s is changed" % (k, name), after=a)
                    a[...] = np.frombuffer(keep[k], a.dtype).reshape(a.shape)
                if np.shares_memory(a, r):
                    ctx.viol("alias:%s" % name, "the result of %s shares memory with argument %d" % (name, k))
        n, ok = explore(run, max_dev=dev, max_runs=4000)
        ctx.state(n)
    ctx.trace()


def evaluated(X, m, cons, typ=float):
    from pymoo.core.evaluator import Evaluator
    from pymoo.core.population import Population
    from vmc import zoo
    problem = zoo.make_problem(n_var=X.shape[1], n_obj=m, n_ieq=1 if cons else 0, values=lambda x, i, alt, *a: (
        lambda f, g, h: (f, [0.5 if i % 3 == 2 else -0.5] if cons else g, h))(*zoo.base_values(x, i, alt, *a)))
    pop = Population.new(X=X)
    Evaluator().eval(problem, pop)
    return problem, pop


def aliases(off, pop):
    for k, o in enumerate(off):
        for j, p in enumerate(pop):
            if o is p:
                return "offspring %d is parent %d itself" % (k, j)
            if isinstance(o.X, np.ndarray) and isinstance(p.X, np.ndarray) and np.shares_memory(o.X, p.X):
                return "offspring %d shares the design vector of parent %d" % (k, j)
    for k, o in enumerate(off):
        for j in range(k):
            if o is off[j] or (isinstance(o.X, np.ndarray) and np.shares_memory(o.X, off[j].X)):
                return "offspring %d and %d share their design vector" % (j, k)
    return None


def u_operator(ctx, kind, name, dev):
    from vmc.checks import p13
    from pymoo.core.problem import Problem
    mode, mk = {"real": p13.real_ops, "int": p13.int_ops, "bool": p13.bin_ops, "perm": p13.perm_ops}[kind]()[name]
    X = {"real": np.array([[0.0, 0.3, 1.0], [0.5, 0.3, 0.9], [1.0, 0.0, 0.2], [0.1, 0.9, 0.6], [0.7, 0.7, 0.0]]),
         "int": np.array([[0, 1, 2], [2, 1, 0], [1, 1, 2], [0, 0, 0], [2, 2, 2]]),
         "bool": np.array([[True, False, True], [False, False, True], [True, True, True], [False, True, False], [False] * 3]),
         "perm": np.array([[0, 1, 2], [2, 1, 0], [1, 0, 2], [0, 2, 1], [1, 2, 0]])}[kind]
    xl, xu = {"real": (0.0, 1.0), "int": (0, 2), "bool": (0, 1), "perm": (0, 2)}[kind]
    problem = Problem(n_var=3, n_obj=1, xl=np.full(3, xl), xu=np.full(3, xu))
    pb = fp(problem)

    def run(o):
        _, pop = evaluated(X.copy(), 1, False)
        op = mk()
        k = p13.n_parents(op, mode)
        state = lambda: (solutions(pop), [fp(i.data) for i in pop], [id(i) for i in pop])
        before = state()
        rng = ScriptRNG(o)
        if mode == "m":
            out = op(problem, pop, inplace=False, random_state=rng)
        else:
            out = op(problem, pop, parents=np.array([[i % 5 for i in range(s, s + k)] for s in (0, 2)]), random_state=rng)
        ctx.trans()
        d = dict(choices=o.choices[:40], out=[i.X for i in out])
        if state() != before:
            ctx.viol("op:%s" % name, "%s changes its parents" % name, **d)
        a = aliases(out, pop)
        if a:
            ctx.viol("alias:%s" % name, "%s: %s" % (name, a), **d)
        if fp(problem) != pb:
            ctx.viol("problem:%s" % name, "%s changes the problem" % name, **d)
        ctx.outcome(name, np.array([i.X for i in out]).tobytes())

    n, _ = explore(run, max_dev=dev, max_points=40)
    ctx.state(n)
    ctx.trace(n)


def u_select(ctx, dev):
    """Selection and mating leave the population alone, members and attributes included."""
    from pymoo.algorithms.moo.nsga2 import binary_tournament
    from pymoo.algorithms.soo.nonconvex.ga import comp_by_cv_and_fitness
    from pymoo.core.mating import Mating
    from pymoo.core.duplicate import DefaultDuplicateElimination, NoDuplicateElimination
    from pymoo.operators.crossover.sbx import SBX
    from pymoo.operators.crossover.pntx import TwoPointCrossover
    from pymoo.operators.mutation.pm import PM
    from pymoo.operators.mutation.nom import NoMutation
    from pymoo.operators.selection.rnd import RandomSelection
    from pymoo.operators.selection.tournament import TournamentSelection
    from pymoo.operators.survival.rank_and_crowding import RankAndCrowding

    class Alg:
        tournament_type = "comp_by_dom_and_crowding"
        random_state = None

    def state(pop):
        return solutions(pop), [fp(i.data) for i in pop], [id(i) for i in pop]
    X = np.array([[0.0, 0.3], [0.5, 0.3], [1.0, 0.0], [0.1, 0.9]])
    for m, cons, sel in itertools.product((1, 2), (False, True), ("random", "tournament")):
        for cx, mu, dup in itertools.product(("sbx", "2px"), ("pm", "none"), (True, False)):
            def run(o):
                problem, pop = evaluated(X.copy(), m, cons)
                pop = RankAndCrowding().do(problem, pop)
                s = RandomSelection() if sel == "random" else TournamentSelection(func_comp=binary_tournament if m > 1 else comp_by_cv_and_fitness)
                mating = Mating(s, SBX(prob=0.5) if cx == "sbx" else TwoPointCrossover(), PM() if mu == "pm" else NoMutation(),
                                eliminate_duplicates=DefaultDuplicateElimination() if dup else NoDuplicateElimination(), n_max_iterations=3)
                before, pb = state(pop), fp(problem)
                rng = MixRNG(o, 1)
                alg = Alg()
                alg.random_state = rng
                out = mating.do(problem, pop, 3, algorithm=alg, random_state=rng)
                ctx.trans()
                d = dict(choices=o.choices[:40], m=m, cons=cons, cx=cx, mu=mu)
                if state(pop) != before:
                    ctx.viol("mating:pop", "mating changes the population", **d)
                if fp(problem) != pb:
                    ctx.viol("mating:problem", "mating changes the problem", **d)
                a = aliases(out, pop)
                if a:
                    ctx.viol("mating:alias", a, **d)
                ctx.outcome(sel, cx, mu, [i.X.tobytes() for i in out])

            n, _ = explore(run, max_dev=dev, max_points=25)
            ctx.state(n)
            ctx.trace(n)


def u_survival(ctx, part, parts):
    """Environmental selection adds attributes but alters no design, objective or constraint value, nor the order or members of its input."""
    from pymoo.core.replacement import ImprovementReplacement
    from vmc import zoo
    from vmc.checks.p04 import DOM, FRONT, MEMBER, SINGLE
    rows = [np.array([[a, b], [0.5, 0.3], [1.0, 0.0], [c, 0.9], [0.3, 0.6], [0.2, b]]) for a in (0.0, 0.5) for b in (0.1, 0.3) for c in (0.1, 0.5)]
    for name in (FRONT + DOM + MEMBER + SINGLE)[part::parts]:
        z = zoo.by_name(name)
        m = 1 if z.soo else 2
        for X in rows:
            for cons in (False, True):
                for k in (1, 3, 6):
                    problem, pop = evaluated(X.copy(), m, cons)
                    algo = z.make()
                    algo.setup(problem, termination=("n_iter", 10), seed=1)
                    algo.pop, algo.opt, algo.n_iter = pop, pop, 2
                    before, ids = solutions(pop), [id(i) for i in pop]
                    algo.survival.do(problem, pop, n_survive=k, algorithm=algo, random_state=np.random.default_rng(1))
                    ctx.trans()
                    ctx.state()
                    d = dict(X=X, cons=cons, k=k)
                    if [id(i) for i in pop] != ids:
                        ctx.viol("survival:order:%s" % name, "%s reorders or replaces members of the population it is given" % name, **d)
                    elif solutions(pop) != before:
                        ctx.viol("survival:values:%s" % name, "%s changes values of the population it is given" % name, **d)
                    ctx.outcome(name, k, cons)
    if part == 0:
        for X in rows:
            for cons in (False, True):
                problem, pop = evaluated(X.copy(), 1, cons)
                _, off = evaluated(X[::-1] * 0.9, 1, cons)
                b1, b2, i1, i2 = solutions(pop), solutions(off), [id(i) for i in pop], [id(i) for i in off]
                out = ImprovementReplacement().do(problem, pop, off)
                ctx.trans()
                ctx.check((solutions(pop), solutions(off)) == (b1, b2) and [id(i) for i in pop] == i1 and [id(i) for i in off] == i2 and out is not pop,
                          "replacement", "the replacement changes the populations it is given", X=X, cons=cons)


def u_problems(ctx, part, parts):
    """Evaluating a design never changes the design array."""
    from vmc import problems as pl
    for name, p in pl.instances()[part::parts]:
        X = pl.designs(p)
        X = X[:6]
        before = copy.deepcopy(X)
        b0 = (copy.deepcopy(p.xl), copy.deepcopy(p.xu), p.n_obj, p.n_ieq_constr, p.n_eq_constr)
        for A in (X, X[:1], X[0]):
            B = copy.deepcopy(A)
            p.evaluate(B)
            ctx.trans()
            same = np.array_equal(np.asarray(A, dtype=object), np.asarray(B, dtype=object))
            ctx.check(same, "problem:x:%s" % name, "evaluating %s changes the designs it is given" % name, X=A, after=B)
        b1 = (p.xl, p.xu, p.n_obj, p.n_ieq_constr, p.n_eq_constr)
        ctx.check(fp(b0) == fp(b1), "problem:def:%s" % name, "evaluating %s changes its bounds or shape" % name)
        ctx.state()
        ctx.outcome(name)


# -----------------------------------------------------------------------------------------------------
# runs
# -----------------------------------------------------------------------------------------------------

ALTS = ["good", "bad", "tie", "infeas"]


def u_ask(ctx, name, cons, rows):
    """ask() leaves population and optimum alone; offspring are new objects; termination only looks."""
    from pymoo.core.individual import Individual
    from vmc import zoo
    a = zoo.by_name(name)
    if cons and not a.cons:
        return
    m = 1 if a.soo else 2
    for script in zoo.scripts(rows, ALTS if cons else ALTS[:3], 1):
        problem = zoo.make_problem(n_var=2, n_obj=m, n_ieq=1 if cons else 0, script=script)
        algo = a.make()
        algo.setup(problem, termination=("n_iter", 5), seed=1)
        t = algo.termination
        orig = t.update

        def update(alg, orig=orig):
            b = solutions(alg.pop), solutions(alg.opt)
            r = orig(alg)
            if (solutions(alg.pop), solutions(alg.opt)) != b:
                ctx.viol("termination:%s" % name, "the termination criterion changes the population", script=script)
            return r
        t.update = update
        it = 0
        while algo.has_next() and it < 200:
            it += 1
            before = solutions(algo.pop), solutions(algo.opt)
            pop0 = list(algo.pop) if algo.pop is not None else []
            inf = algo.ask()
            ctx.trans()
            if it > 1 and (solutions(algo.pop), solutions(algo.opt)) != before:
                ctx.viol("ask:%s" % name, "%s: asking changes the current population or optimum" % name, script=script, iteration=it)
            if inf is None:
                algo.tell()
                continue
            single = inf if isinstance(inf, Individual) else None
            inf = [inf] if single is not None else inf
            x0 = [np.array(i.X, copy=True) for i in inf]
            if it > 1 and not a.loop:
                al = aliases(inf, pop0)
                if al and "share their" not in al:
                    ctx.viol("alias-run:%s" % name, "%s: %s" % (name, al), script=script, iteration=it)
            algo.evaluator.eval(problem, inf if single is None else single)
            if not all(np.array_equal(p, i.X) for p, i in zip(x0, inf)):
                ctx.viol("eval:%s" % name, "evaluating changes the designs", script=script, iteration=it)
            told = solutions(inf)
            algo.tell(infills=inf if single is None else single)
            if solutions(inf) != told:
                ctx.viol("tell:%s" % name, "%s: telling changes values of the solutions handed over" % name, script=script, iteration=it)
        ctx.state()
        ctx.trace()
        ctx.outcome(name, cons, problem.log[-1][0].tobytes())


def entry(alg):
    return (alg.n_iter, alg.evaluator.n_eval, solutions(alg.pop), solutions(alg.opt), None if alg.archive is None else solutions(alg.archive),
            fp(alg.termination.perc), fp(alg.random_state), solutions(alg.off) if alg.off is not None else None)


def u_history(ctx, name, cons):
    """Every saved entry shows the algorithm as it was in that iteration, for ever."""
    from pymoo.core.callback import Callback
    from pymoo.optimize import minimize
    from pymoo.util.archive import MultiObjectiveArchive
    from vmc import zoo
    a = zoo.by_name(name)
    if cons and not a.cons:
        return
    m = 1 if a.soo else 2
    for arch in (False, True):
        problem = zoo.make_problem(n_var=2, n_obj=m, n_ieq=1 if cons else 0)
        seen = []

        class C(Callback):
            def notify(self, alg):
                seen.append((entry(alg), [entry(h) for h in alg.history]))
        kw = dict(archive=MultiObjectiveArchive()) if arch else {}
        res = minimize(problem, a.make(), ("n_iter", 5), seed=1, save_history=True, callback=C(), **kw)
        ctx.trans(len(seen))
        ctx.state()
        ctx.trace()
        if len(res.history) != len(seen):
            ctx.viol("history:count:%s" % name, "%d entries for %d iterations" % (len(res.history), len(seen)))
            continue
        final = [entry(h) for h in res.history]
        for k, (now, hist) in enumerate(seen):
            if final[k] != now:
                ctx.viol("history:entry:%s" % name, "%s: history entry %d differs from the state of that iteration: %s" % (name, k + 1, diff(now, final[k])), archive=arch, cons=cons)
            if hist != [s[0] for s in seen[:k + 1]]:
                ctx.viol("history:changed:%s" % name, "%s: an earlier history entry changed by iteration %d" % (name, k + 1), archive=arch, cons=cons)
        for k, h in enumerate(res.history):
            for l, g in enumerate(res.history):
                if k < l and h.pop is not None and g.pop is not None and set(map(id, h.pop)) & set(map(id, g.pop)):
                    ctx.viol("history:shared:%s" % name, "%s: entries %d and %d share solutions" % (name, k + 1, l + 1))
            if h.pop is not None and set(map(id, h.pop)) & set(map(id, res.pop)):
                ctx.viol("history:shared:%s" % name, "%s: entry %d shares solutions with the final population" % (name, k + 1))
        ctx.outcome(name, cons, arch, len(seen))


def u_minimize(ctx, name, cons):
    """minimize(...) leaves algorithm, termination, initial sampling, archive and problem definition unchanged."""
    from pymoo.core.population import Population
    from pymoo.optimize import minimize
    from pymoo.termination import get_termination
    from pymoo.termination.default import DefaultMultiObjectiveTermination, DefaultSingleObjectiveTermination
    from pymoo.util.archive import MultiObjectiveArchive
    from vmc import zoo
    a = zoo.by_name(name)
    if cons and not a.cons:
        return
    m = 1 if a.soo else 2
    n = a.size or 4
    X = np.array([[(0.37 * i) % 1.0, (0.61 * i + 0.2) % 1.0] for i in range(1, n + 1)])

    def samplings():
        yield "default", None
        if a.name in ("DIRECT", "RandomSearch", "NRBO", "MOPSO_CD", "CMAES"):
            return
        yield "array", X.copy()
        yield "pop", Population.new(X=X.copy())
        yield "evaluated", evaluated(X.copy(), m, cons)[1]
    terms = [("gen", lambda: get_termination("n_gen", 3)), ("eval", lambda: get_termination("n_eval", 30)),
             ("default", lambda: DefaultSingleObjectiveTermination(n_max_gen=4) if m == 1 else DefaultMultiObjectiveTermination(n_max_gen=4))]
    if name == "RVEA":
        terms = terms[:2]
    for sname, s in samplings():
        for tname, mk in terms:
            for arch in (False, True):
                problem = zoo.make_problem(n_var=2, n_obj=m, n_ieq=1 if cons else 0)
                kw = {} if s is None else dict(sampling=s)
                try:
                    algo = a.make(**kw)
                except TypeError:
                    continue
                t = mk()
                archive = MultiObjectiveArchive() if arch else None
                if arch:
                    archive = archive.add(evaluated(X.copy(), m, cons)[1])
                obj = dict(algorithm=algo, termination=t, archive=archive, sampling=s)
                before = {k: fp(v) for k, v in obj.items()}
                pb = fp((problem.xl, problem.xu, problem.n_var, problem.n_obj, problem.n_ieq_constr))
                res = minimize(problem, algo, t, seed=1, **(dict(archive=archive) if arch else {}))
                ctx.trans()
                ctx.state()
                ctx.trace()
                for k, v in obj.items():
                    if fp(v) != before[k]:
                        ctx.viol("minimize:%s:%s" % (k, name), "minimize changes the %s object it is given (%s): %s" % (k, name, diff(before[k], fp(v))), sampling=sname, termination=tname, archive=arch)
                if fp((problem.xl, problem.xu, problem.n_var, problem.n_obj, problem.n_ieq_constr)) != pb:
                    ctx.viol("minimize:problem:%s" % name, "minimize changes the problem", sampling=sname)
                if res.algorithm is algo:
                    ctx.viol("minimize:copy:%s" % name, "minimize works on the object it is given")
                ctx.outcome(name, sname, tname, arch)


def units(tier):
    from vmc import zoo
    q = tier == "quick"
    U = [("u_variation", dict(dev=2 if q else 3))]
    for p in range(4):
        U.append(("u_arrays", dict(m=2, n=3, part=p, parts=4)))
        U.append(("u_arrays", dict(m=3, n=4 if not q else 3, part=p, parts=4)))
    from vmc.checks import p13
    for kind, ops in (("real", p13.real_ops()), ("int", p13.int_ops()), ("bool", p13.bin_ops()), ("perm", p13.perm_ops())):
        for name in ops:
            U.append(("u_operator", dict(kind=kind, name=name, dev=1 if q else 2)))
    U.append(("u_select", dict(dev=1 if q else 2)))
    for p in range(4):
        U.append(("u_survival", dict(part=p, parts=4)))
        U.append(("u_problems", dict(part=p, parts=4)))
    for a in zoo.all_algorithms():
        for cons in (False, True):
            U.append(("u_ask", dict(name=a.name, cons=cons, rows=8 if q else 20)))
            U.append(("u_history", dict(name=a.name, cons=cons)))
            U.append(("u_minimize", dict(name=a.name, cons=cons)))
    return U
