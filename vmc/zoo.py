"""Every shipped algorithm with tiny settings, plus instrumented problems.

Only public constructors are used, so that a refactoring of the inside of an algorithm is invisible
here.  Traits are the documented characteristics an algorithm has:
  cons     accepts constraints
  uniq     eliminates duplicate designs by default (so a population never holds two equal rows)
  elite    its reported optimum is the best feasible solution of everything it evaluated
  mono     the reported optimum never gets worse from one iteration to the next
  loop     asks through a generator (cannot be deep-copied between ask and tell)
"""

import numpy as np


class A:
    def __init__(self, name, make, soo, cons=True, uniq=False, elite=True, mono=True, loop=False, bounded=True,
                 size=None, cost=1, n_var=2, pop=None, own_eval=False):
        self.name, self.make, self.soo, self.cons, self.uniq = name, make, soo, cons, uniq
        self.elite, self.mono, self.loop, self.bounded, self.size = elite, mono, loop, bounded, size
        self.cost, self.n_var, self.pop, self.own_eval = cost, n_var, pop, own_eval

    def __repr__(self):
        return self.name


def ref_dirs(m=2):
    if m == 2:
        return np.array([[1.0, 0.0], [0.75, 0.25], [0.5, 0.5], [0.25, 0.75], [0.0, 1.0]])
    from pymoo.util.ref_dirs import get_reference_directions
    return get_reference_directions("das-dennis", m, n_partitions=2)


def soo():
    from pymoo.algorithms.soo.nonconvex.ga import GA
    from pymoo.algorithms.soo.nonconvex.de import DE
    from pymoo.algorithms.soo.nonconvex.pso import PSO
    from pymoo.algorithms.soo.nonconvex.pso_ep import EPPSO
    from pymoo.algorithms.soo.nonconvex.es import ES
    from pymoo.algorithms.soo.nonconvex.sres import SRES
    from pymoo.algorithms.soo.nonconvex.isres import ISRES
    from pymoo.algorithms.soo.nonconvex.ga_niching import NicheGA
    from pymoo.algorithms.soo.nonconvex.brkga import BRKGA
    from pymoo.algorithms.soo.nonconvex.g3pcx import G3PCX
    from pymoo.algorithms.soo.nonconvex.nelder import NelderMead
    from pymoo.algorithms.soo.nonconvex.pattern import PatternSearch
    from pymoo.algorithms.soo.nonconvex.direct import DIRECT
    from pymoo.algorithms.soo.nonconvex.random_search import RandomSearch
    from pymoo.algorithms.soo.nonconvex.cmaes import CMAES
    from pymoo.algorithms.soo.nonconvex.nrbo import NRBO

    return [
        A("GA", lambda **k: GA(**k, pop_size=4), True, uniq=True, size=4),
        A("GA-ss", lambda **k: GA(**k, pop_size=4, n_offsprings=1), True, uniq=True, size=4),
        A("DE", lambda **k: DE(**k, pop_size=5), True, size=5),
        A("DE-best", lambda **k: DE(**k, pop_size=5, variant="DE/best/1/bin"), True, size=5),
        A("PSO", lambda **k: PSO(**k, pop_size=4), True, size=4),
        A("PSO-na", lambda **k: PSO(**k, pop_size=4, adaptive=False, pertube_best=False), True, size=4),
        A("EPPSO", lambda **k: EPPSO(**k, pop_size=4), True, size=4),
        A("ES", lambda **k: ES(**k, n_offsprings=8, rule=1.0 / 4.0), True, elite=False, mono=False, size=2),
        A("SRES", lambda **k: SRES(**k, n_offsprings=8, rule=1.0 / 4.0), True, elite=False, mono=False, size=2),
        A("ISRES", lambda **k: ISRES(**k, n_offsprings=8, rule=1.0 / 4.0), True, elite=False, mono=False, size=2),
        A("NicheGA", lambda **k: NicheGA(**k, pop_size=4), True, uniq=True, size=4),
        A("BRKGA", lambda **k: BRKGA(**k, n_elites=2, n_offsprings=3, n_mutants=2), True, size=7),
        A("G3PCX", lambda **k: G3PCX(**k, pop_size=6), True, size=6, loop=True),
        A("NelderMead", lambda **k: NelderMead(**k, n_sample_points=3), True, cons=True, loop=True),
        A("PatternSearch", lambda **k: PatternSearch(**k, n_sample_points=3), True, cons=True, loop=True),
        A("DIRECT", lambda **k: DIRECT(**k), True, cons=True, elite=True),
        A("RandomSearch", lambda **k: RandomSearch(**k, n_points_per_iteration=4), True),
        A("CMAES", lambda **k: CMAES(**k, pop_size=4), True, loop=True, elite=False, mono=False, cost=4),
        A("NRBO", lambda **k: NRBO(**k, pop_size=4), True, size=4),
    ]


def moo(m=2):
    from pymoo.algorithms.moo.nsga2 import NSGA2
    from pymoo.algorithms.moo.nsga3 import NSGA3
    from pymoo.algorithms.moo.unsga3 import UNSGA3
    from pymoo.algorithms.moo.rnsga2 import RNSGA2
    from pymoo.algorithms.moo.rnsga3 import RNSGA3
    from pymoo.algorithms.moo.age import AGEMOEA
    from pymoo.algorithms.moo.age2 import AGEMOEA2
    from pymoo.algorithms.moo.sms import SMSEMOA
    from pymoo.algorithms.moo.spea2 import SPEA2, SPEA2Survival
    from pymoo.algorithms.moo.rvea import RVEA
    from pymoo.algorithms.moo.moead import MOEAD, ParallelMOEAD
    from pymoo.algorithms.moo.ctaea import CTAEA
    from pymoo.algorithms.moo.cmopso import CMOPSO
    from pymoo.algorithms.moo.mopso_cd import MOPSO_CD
    from pymoo.algorithms.moo.omni import OmniOptimizer
    from pymoo.algorithms.moo.dnsga2 import DNSGA2
    from pymoo.algorithms.moo.gde3 import GDE3, GDE3MNN, GDE32NN, GDE3PCD
    from pymoo.algorithms.moo.nsde import NSDE
    from pymoo.algorithms.moo.nsder import NSDER
    from pymoo.operators.survival.rank_and_crowding import RankAndCrowding, ConstrRankAndCrowding

    rd = ref_dirs(m)
    rp = np.array([[0.3] * m, [0.1] + [0.8] * (m - 1)])
    n = len(rd)
    L = [
        A("NSGA2", lambda **k: NSGA2(**k, pop_size=4), False, uniq=True, size=4),
        A("NSGA2-ss", lambda **k: NSGA2(**k, pop_size=4, n_offsprings=1), False, uniq=True, size=4),
        A("NSGA2-pcd", lambda **k: NSGA2(**k, pop_size=4, survival=RankAndCrowding(crowding_func="pcd")), False, uniq=True, size=4),
        A("NSGA2-constr", lambda **k: NSGA2(**k, pop_size=4, survival=ConstrRankAndCrowding()), False, uniq=True, size=4),
        A("NSGA3", lambda **k: NSGA3(**k, ref_dirs=rd, pop_size=n), False, uniq=True, size=n),
        A("UNSGA3", lambda **k: UNSGA3(**k, ref_dirs=rd, pop_size=n), False, uniq=True, size=n),
        A("RNSGA2", lambda **k: RNSGA2(**k, ref_points=rp, pop_size=4), False, uniq=True, size=4),
        A("RNSGA3", lambda **k: RNSGA3(**k, ref_points=rp, pop_per_ref_point=2), False, uniq=True),
        A("AGEMOEA", lambda **k: AGEMOEA(**k, pop_size=4), False, uniq=True, size=4),
        A("AGEMOEA2", lambda **k: AGEMOEA2(**k, pop_size=4), False, uniq=True, size=4),
        A("SMSEMOA", lambda **k: SMSEMOA(**k, pop_size=4), False, uniq=True, size=4),
        A("SPEA2", lambda **k: SPEA2(**k, pop_size=4, survival=SPEA2Survival(normalize=True)), False, uniq=True, size=4),
        A("RVEA", lambda **k: RVEA(**k, ref_dirs=rd, pop_size=n), False, uniq=True),
        A("MOEAD", lambda **k: MOEAD(**k, ref_dirs=rd, n_neighbors=3), False, cons=False, loop=True, size=n),
        A("ParallelMOEAD", lambda **k: ParallelMOEAD(**k, ref_dirs=rd, n_neighbors=3), False, cons=False, size=n),
        A("CTAEA", lambda **k: CTAEA(**k, ref_dirs=rd), False, uniq=True),
        A("CMOPSO", lambda **k: CMOPSO(**k, pop_size=4, elite_size=2), False, size=4),
        A("MOPSO_CD", lambda **k: MOPSO_CD(**k, pop_size=4, archive_size=6), False, size=4),
        A("Omni", lambda **k: OmniOptimizer(**k, pop_size=4), False, uniq=True, size=4),
        A("DNSGA2", lambda **k: DNSGA2(**k, pop_size=4), False, cons=False, uniq=True, size=4),
        A("GDE3", lambda **k: GDE3(**k, pop_size=5, CR=0.5, F=(0.0, 0.9)), False, size=5),
        A("GDE3MNN", lambda **k: GDE3MNN(**k, pop_size=5, CR=0.5, F=(0.0, 0.9)), False, size=5),
        A("GDE32NN", lambda **k: GDE32NN(**k, pop_size=5, CR=0.5, F=(0.0, 0.9)), False, size=5),
        A("GDE3PCD", lambda **k: GDE3PCD(**k, pop_size=5, CR=0.5, F=(0.0, 0.9)), False, size=5),
        A("NSDE", lambda **k: NSDE(**k, pop_size=5, CR=0.5, F=(0.0, 0.9)), False, size=5),
        A("NSDER", lambda **k: NSDER(**k, ref_dirs=rd, pop_size=n, CR=0.5, F=(0.0, 0.9)), False, size=n),
    ]
    return L


def all_algorithms():
    return soo() + moo()


def by_name(name, m=2):
    for a in soo() + moo(m):
        if a.name == name:
            return a
    raise KeyError(name)


# ---------------------------------------------------------------------------------------------------
# instrumented problems
# ---------------------------------------------------------------------------------------------------

def _problem_base():
    from pymoo.core.problem import Problem
    return Problem


def make_problem(n_var=2, n_obj=1, n_ieq=0, n_eq=0, xl=0.0, xu=1.0, script=None, values=None, **kw):
    """A vectorised problem that records every row it is asked for and every answer it gives.

    Row number i (global order of requests) gets values(x, i, script.get(i)) -> (F, G, H)."""
    Problem = _problem_base()

    class Logged(Problem):
        def __init__(self):
            super().__init__(n_var=n_var, n_obj=n_obj, n_ieq_constr=n_ieq, n_eq_constr=n_eq,
                             xl=np.full(n_var, float(xl)) if np.ndim(xl) == 0 else np.array(xl, float),
                             xu=np.full(n_var, float(xu)) if np.ndim(xu) == 0 else np.array(xu, float), **kw)
            self.log = []   # (x, F, G, H)
            self.memo = {}  # the environment is a function: the same x always gets the same answer

        def _evaluate(self, X, out, *args, **kwargs):
            Fs, Gs, Hs = [], [], []
            for x in X:
                i = len(self.log)
                kx = np.asarray(x, float).tobytes()
                if kx not in self.memo:
                    self.memo[kx] = (values or base_values)(np.asarray(x, float), i, (script or {}).get(i), n_obj, n_ieq, n_eq)
                f, g, h = self.memo[kx]
                self.log.append((np.array(x, copy=True), np.array(f, float), np.array(g, float), np.array(h, float)))
                Fs.append(f)
                Gs.append(g)
                Hs.append(h)
            out["F"] = np.array(Fs, float).reshape(len(X), n_obj)
            if n_ieq:
                out["G"] = np.array(Gs, float).reshape(len(X), n_ieq)
            if n_eq:
                out["H"] = np.array(Hs, float).reshape(len(X), n_eq)

        def __deepcopy__(self, memo):
            return self

    return Logged()


def base_values(x, i, alt, n_obj, n_ieq, n_eq):
    """Deterministic defaults; alt (the explored deviation) overrides this row's answer."""
    if n_obj == 1:
        f = [float(np.sum((x - 0.3) ** 2)) + 0.1]
    else:
        f = [float(np.sum((x - 0.5 * k / max(1, n_obj - 1)) ** 2)) + 0.1 * k for k in range(n_obj)]
    g = [-0.5] * n_ieq
    h = [0.0] * n_eq
    if alt == "good":
        f = [-100.0 - i] * n_obj
    elif alt == "bad":
        f = [100.0 + i] * n_obj
    elif alt == "tie":
        f = [0.25] * n_obj
    elif alt == "best0":
        f = [-1000.0] + [1000.0] * (n_obj - 1)
    elif alt == "inf":
        f = [float("inf")] * n_obj
    elif alt == "infeas":       # attractive objective but infeasible
        f = [-500.0 - i] * n_obj
        g = [0.5] + [-1.0] * (n_ieq - 1) if n_ieq else g
        h = h if n_ieq else [0.5] + [0.0] * (n_eq - 1)
    elif alt == "slight":       # barely infeasible
        f = [-500.0 - i] * n_obj
        g = [1e-9] + [-1.0] * (n_ieq - 1) if n_ieq else g
        h = h if n_ieq else [1e-3] + [0.0] * (n_eq - 1)
    elif alt == "feas":         # feasible, unattractive objective
        f = [50.0 + i] * n_obj
        g = [-1.0] * n_ieq
        h = [0.0] * n_eq
    elif alt == "hair":         # better than everything, but only by a hair than an earlier one
        f = [-100.0 - 1e-8 * i] * n_obj
        g = [-0.5 - i] * n_ieq
    elif alt == "deep":         # more violated than anything although the sum of the raw constraints is small
        f = [-500.0 - i] * n_obj
        g = [5.0] + [-1000.0] * (n_ieq - 1) if n_ieq else g
        h = [0.0] * n_eq if n_ieq else [5.0] + [-1e-5] * (n_eq - 1)
    elif alt == "split":        # several small violations add up
        f = [-500.0 - i] * n_obj
        g = [0.6 / max(1, n_ieq)] * n_ieq
        h = [0.6 / max(1, n_eq)] * n_eq
    elif alt == "close":        # violations that differ only a little
        f = [-400.0 + i] * n_obj
        g = [0.2 + 0.01 * ((7 * i) % 5)] + [-1.0] * (n_ieq - 1) if n_ieq else g
        h = h if n_ieq else [0.2 + 0.01 * ((7 * i) % 5)] + [0.0] * (n_eq - 1)
    elif alt == "edge":         # active constraint: feasible
        f = [-10.0 - i] * n_obj
        g = [0.0] * n_ieq
        h = [0.0] * n_eq
    return f, g, h


def infeasible_values(x, i, alt, n_obj, n_ieq, n_eq):
    """Default rows infeasible, alternatives as above."""
    f, g, h = base_values(x, i, alt, n_obj, n_ieq, n_eq)
    if alt is None or alt in ("tie", "bad", "good"):
        v = 1.0 + float(np.sum(np.abs(x - 0.7)))
        g = [v] + [-1.0] * (n_ieq - 1) if n_ieq else g
        h = h if n_ieq else [v] + [0.0] * (n_eq - 1)
    return f, g, h


def cv_ref(g, h):
    """Aggregated violation by definition (defaults): sum of positive G + sum of (|H| - 1e-4)+ ."""
    return float(sum(max(0.0, v) for v in g) + sum(max(0.0, abs(v) - 1e-4) for v in h))


def drive(a, problem, n_iter, on_step=None, seed=1, max_evals=None, **kw):
    """Set the algorithm up and advance it iteration by iteration with the public interface."""
    algo = a.make() if isinstance(a, A) else a
    term = ("n_eval", max_evals) if max_evals else ("n_iter", n_iter)
    algo.setup(problem, termination=term, seed=seed, **kw)
    it = 0
    while algo.has_next():
        algo.next()
        it += 1
        if on_step is not None:
            on_step(algo, it)
        if it > 50 * n_iter + 400:
            raise RuntimeError("algorithm does not reach its budget")
    return algo


def scripts(n_rows, alts, depth):
    """All assignments of at most `depth` deviations to rows, fewest first."""
    import itertools
    yield {}
    for d in range(1, depth + 1):
        for rows in itertools.combinations(range(n_rows), d):
            for vals in itertools.product(alts, repeat=d):
                yield dict(zip(rows, vals))
