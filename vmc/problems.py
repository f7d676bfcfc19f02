"""Every shipped benchmark problem with small settings, created through the public entry points."""

import itertools

import numpy as np

DYNAMIC = ["df%d" % i for i in range(1, 15)]
REGISTRY = (["ackley", "bnh", "carside"] + ["ctp%d" % i for i in range(1, 9)] + ["dascmop%d" % i for i in range(1, 10)] + ["mw%d" % i for i in range(1, 15)] +
            ["dtlz1^-1"] + ["dtlz%d" % i for i in range(1, 8)] + ["convex_dtlz2", "convex_dtlz4", "sdtlz1", "c1dtlz1", "c1dtlz3", "c2dtlz2", "c3dtlz1", "c3dtlz4", "dc1dtlz1", "dc1dtlz3",
            "dc2dtlz1", "dc2dtlz3", "dc3dtlz1", "dc3dtlz3", "cantilevered_beam", "griewank", "himmelblau", "kursawe", "osy", "pressure_vessel", "rastrigin", "rosenbrock", "schwefel", "sphere",
            "srn", "tnk", "truss2d", "welded_beam", "zakharov"] + ["zdt%d" % i for i in range(1, 7)] + ["g%d" % i for i in range(1, 25)] + ["wfg%d" % i for i in range(1, 10)] +
            ["zcat%d" % i for i in range(1, 21)] + DYNAMIC)


def make(name):
    from pymoo.problems import get_problem
    if name.startswith("dascmop"):
        return get_problem(name, 1)
    if name.startswith("wfg"):
        return get_problem(name, n_var=6, n_obj=2)
    if name.startswith(("dtlz", "convex_dtlz", "c1dtlz", "c2dtlz", "c3dtlz", "dc1", "dc2", "dc3", "sdtlz")):
        return get_problem(name, n_var=6, n_obj=3)
    if name.startswith("zcat"):
        return get_problem(name, n_obj=2, n_var=6)
    return get_problem(name)


def extra():
    """Shipped problems that get_problem does not know."""
    out = []

    def add(name, f):
        out.append((name, f))
    from pymoo.problems.multi import omnitest, sympart
    add("omnitest", lambda: omnitest.OmniTest())
    add("sympart", lambda: sympart.SYMPART())
    add("sympart-rot", lambda: sympart.SYMPARTRotated())
    from pymoo.problems.single import multimodal, simple
    add("multimodal1", lambda: multimodal.MultiModalSimple1())
    add("multimodal2", lambda: multimodal.MultiModalSimple2())
    add("simple01", lambda: simple.SimpleMultiModal01())
    from pymoo.problems.multi import clutch, csi, wrm
    add("clutch", lambda: clutch.Clutch())
    add("csi", lambda: csi.CSI())
    add("wrm", lambda: wrm.WRM())
    from pymoo.problems.single.flowshop_scheduling import FlowshopScheduling
    from pymoo.problems.single.knapsack import Knapsack, MultiObjectiveKnapsack
    from pymoo.problems.single.traveling_salesman import TravelingSalesman
    add("flowshop", lambda: FlowshopScheduling(np.array([[3, 1, 2, 4], [2, 5, 1, 1], [4, 2, 3, 2]])))
    add("tsp", lambda: TravelingSalesman(np.array([[0.0, 0.0], [1.0, 0.0], [1.0, 2.0], [0.0, 2.0], [0.5, 0.7]])))
    W, V = np.array([3, 5, 2, 7, 4]), np.array([4, 6, 3, 8, 5])
    add("knapsack", lambda: Knapsack(5, W, V, 10))
    add("moknapsack", lambda: MultiObjectiveKnapsack(5, W, V, 10))
    from pymoo.problems.dynamic import cec2015
    for c in ("FDA2DEB", "FDA4", "FDA5", "DIMP2", "dMOP2", "HE2", "HE7", "HE9"):
        if hasattr(cec2015, c):
            add(c.lower(), lambda c=c: getattr(cec2015, c)(n_var=6))
    return out


_INST = None


def instances():
    global _INST
    if _INST is None:
        _INST = []
        for n in REGISTRY:
            _INST.append((n, make(n)))
        for n, f in extra():
            _INST.append((n, f()))
    return _INST


def designs(p, levels=(0.0, 0.5, 1.0)):
    """A few deterministic designs in the problem's own type."""
    xl, xu = np.asarray(p.xl, float), np.asarray(p.xu, float)
    n = p.n_var
    rows = [np.zeros(n), np.ones(n), np.full(n, 0.5), np.linspace(0, 1, n), np.linspace(1, 0, n), np.array([((i * 37) % 10) / 10.0 for i in range(n)]),
            np.array([((i * 53 + 3) % 10) / 10.0 for i in range(n)])]
    X = np.array([xl + r * (xu - xl) for r in rows])
    if type(p).__name__ in ("FlowshopScheduling", "TravelingSalesman"):
        return np.array([np.roll(np.arange(n), k) for k in range(n)] + [np.arange(n)[::-1]])
    if p.vtype is bool:
        X = X > 0.5
    elif p.vtype is int:
        X = np.round(X).astype(int)
    return X
