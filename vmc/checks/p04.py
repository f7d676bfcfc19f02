"""P04: environmental selection on every small population."""

import itertools

import numpy as np

from vmc import refs, zoo
from vmc.rng import ScriptRNG, explore

PROPERTY = "P04"
RULE = ("an execution is one call of one survival operator on one population for one survivor count; outcomes are distinct "
        "(operator, multiset of surviving kinds) results")
BOUNDS = {
    "quick": "multi-objective: all multisets of 5 points over {0,1,2}^2 and of 3 over {0,1,2}^3 (unconstrained), all multisets of 3 over "
             "({0,1,2}^2 x CV{0,1,2}) and of 4 over ({0,1}^2 x CV{0,1,2}); single objective: all sequences of 4 over ({0,1,2} x CV{0,1,2}); in given and "
             "reversed row order; the same with values that differ by 1e-9 and 0.01; every survivor count 1..n; 17 survival operators; every single deviation of the random generator for the randomised ones on "
             "all multisets of 4 over {0,1}^2",
    "thorough": "as quick with one more point in every class and 2 deviations of the random generator",
}

FRONT = ["NSGA2", "NSGA2-pcd", "NSGA2-constr", "NSGA3", "RNSGA2", "RNSGA3", "AGEMOEA", "AGEMOEA2", "SMSEMOA", "GDE3", "GDE3MNN", "GDE32NN", "NSDE", "NSDER"]
DOM = ["SPEA2"]
MEMBER = ["RVEA", "Omni"]
SINGLE = ["GA", "NicheGA", "SRES"]


def warm():
    for n in ("AGEMOEA", "AGEMOEA2"):
        a = zoo.by_name(n)
        zoo.drive(a, zoo.make_problem(2, 2), 3)
        zoo.drive(zoo.by_name(n, 3), zoo.make_problem(2, 3), 3)


def make_pop(kinds, m, con):
    from pymoo.core.population import Population
    n = len(kinds)
    X = np.column_stack([np.arange(n) / 10.0 + 0.05, np.full(n, 0.5)])
    F = np.array([k[0] for k in kinds], float).reshape(n, m)
    kw = {"X": X, "F": F}
    if con:
        # the second constraint is satisfied, the more the worse the first one is: only the positive part may count
        kw["G"] = np.array([[k[1], -10.0 * k[1]] if k[1] > 0 else [-0.5, -0.1 * i] for i, k in enumerate(kinds)], float)
    pop = Population.new(**kw)
    return pop


def make_pop_like(inds):
    from pymoo.core.population import Population
    return Population(individuals=list(inds))


_PROB = {}
_MAKE = {}


def problem(m, con):
    if (m, con) not in _PROB:
        _PROB[(m, con)] = zoo.make_problem(2, m, 2 if con else 0)
    return _PROB[(m, con)]


def survive(name, m, pop, con, n, rng, **kw):
    prob = problem(m, con)
    if (name, m) not in _MAKE:
        _MAKE[(name, m)] = zoo.by_name(name, m).make
    algo = _MAKE[(name, m)]()
    algo.setup(prob, termination=("n_iter", 10), seed=1)
    algo.pop, algo.opt = pop, pop
    algo.random_state = rng
    algo.n_iter = 2
    return algo.survival.do(prob, pop, n_survive=n, algorithm=algo, random_state=rng, **kw)


def check_one(ctx, name, m, con, kinds, n, rng, fronts_of, cls):
    pop = make_pop(kinds, m, con)
    inds = list(pop)
    before = [(i.X.tobytes(), i.F.tobytes(), i.G.tobytes()) for i in inds]
    ids = {id(i): k for k, i in enumerate(inds)}
    s = survive(name, m, pop, con, n, rng)
    ctx.trans()
    bad = lambda k, t: ctx.viol("%s:%s" % (name, k), t, kinds=kinds, n_survive=n)
    got = []
    for ind in s:
        if id(ind) not in ids:
            return bad("member", "a survivor is not a member of the population")
        got.append(ids[id(ind)])
    if [(i.X.tobytes(), i.F.tobytes(), i.G.tobytes()) for i in inds] != before:
        return bad("altered", "selection altered the values of a solution")
    if len(pop) != len(kinds) or any(a is not b for a, b in zip(pop, inds)):
        bad("reordered", "selection changed the population it was given")
    if len(set(got)) != len(got):
        return bad("twice", "a solution survives twice: %s" % got)
    if isinstance(rng, np.random.Generator) and n == (len(kinds) + 1) // 2:
        r1, r2 = np.random.default_rng(5), np.random.default_rng(5)
        a = [ids[id(i)] for i in survive(name, m, make_pop_like(inds), con, n, r1)]
        b = list(survive(name, m, make_pop_like(inds), con, n, r2, return_indices=True))
        ctx.trans(2)
        if a != [int(k) for k in b]:
            return bad("indices", "the indices of the survivors %s are not those of the survivors %s" % (b, a))
    if len(got) != min(n, len(kinds)) and not (cls == "member" and name == "RVEA"):
        return bad("count", "%d survivors instead of %d" % (len(got), min(n, len(kinds))))
    ctx.outcome(name, m, n, sorted(kinds[i] for i in got))
    gs = set(got)
    drop = [i for i in range(len(kinds)) if i not in gs]
    if name == "SRES":
        return
    if name == "NicheGA":
        best = min((k[1], k[0]) for k in kinds)
        if not any((kinds[i][1], kinds[i][0]) == best for i in got):
            bad("best", "the best solution is dropped: survivors %s" % got)
        return
    sv, dv = [kinds[i] for i in got], [kinds[i] for i in drop]
    if name == "RVEA":
        return      # keeps at most one solution per reference vector, by design
    if any(k[1] > 0 for k in sv) and any(k[1] <= 0 for k in dv):
        return bad("feasfirst", "an infeasible solution survives while a feasible one is dropped: survivors %s" % got)
    cvs, cvd = [k[1] for k in sv if k[1] > 0], [k[1] for k in dv if k[1] > 0]
    if cvs and cvd and max(cvs) > min(cvd):
        return bad("leastcv", "survivor with violation %s although %s is dropped" % (max(cvs), min(cvd)))
    feas = [i for i in range(len(kinds)) if kinds[i][1] <= 0]
    if cls == "front":
        rank = {}
        for r, fr in enumerate(fronts_of([kinds[i][0] for i in feas])):
            for j in fr:
                rank[feas[j]] = r
        rs = [rank[i] for i in got if i in rank]
        rd = [rank[i] for i in drop if i in rank]
        if rs and rd and min(rd) < max(rs):
            return bad("fronts", "front %d survives while a member of front %d is dropped" % (max(rs), min(rd)))
        for i in got:
            if i in rank and inds[i].get("rank") is not None and inds[i].get("rank") != rank[i]:
                return bad("rank", "survivor carries rank %r, its front is %d" % (inds[i].get("rank"), rank[i]))
        if name in ("NSGA2", "GDE3") and rs and rd and min(rd) == max(rs):
            r = max(rs)
            cs = [float(inds[i].get("crowding")) for i in got if rank.get(i) == r]
            cd = [float(inds[i].get("crowding")) for i in drop if rank.get(i) == r]
            if min(cs) < max(cd):
                bad("crowding", "crowding %s survives while %s is dropped" % (min(cs), max(cd)))
    elif cls == "dom":
        for i in drop:
            for j in got:
                if i in feas and j in feas and refs.dominates(kinds[i][0], kinds[j][0]):
                    return bad("dominated", "dropped %s dominates survivor %s" % (kinds[i], kinds[j]))
    elif cls == "single":
        key = lambda k: (k[1], k[0])
        if sorted(map(key, sv)) != sorted(map(key, kinds))[:len(sv)]:
            return bad("best", "survivors %s are not the best of %s" % (sv, kinds))
        if [key(k) for k in sv] != sorted(key(k) for k in sv) and name == "GA":
            bad("order", "survivors are not in order: %s" % sv)


def kinds_of(levels, m, cvs):
    return [(p, c) for p in itertools.product(levels, repeat=m) for c in cvs]


_FR = {}


def fronts_cached(pts):
    k = tuple(pts)
    if k not in _FR:
        if len(_FR) > 50000:
            _FR.clear()
        _FR[k] = refs.fronts(pts)
    return _FR[k]


def u_multi(ctx, name, cls, m, levels, cvs, size, part, parts):
    con = len(cvs) > 1
    K = kinds_of(levels, m, cvs)
    for i, ks in enumerate(itertools.combinations_with_replacement(K, size)):
        if i % parts != part:
            continue
        ctx.state()
        for kinds in ((ks, ks[::-1]) if i % 2 == 0 or size <= 3 else (ks[::-1],)):
            for n in range(1, size + 1):
                check_one(ctx, name, m, con, kinds, n, np.random.default_rng(i % 3), fronts_cached, cls)
        if i == part:
            ctx.sample({"kinds": ks})
    ctx.trace()


def u_rng(ctx, name, cls, size, dev):
    """The order of ties is decided by the generator: every deviation of its answers."""
    K = kinds_of((0.0, 1.0), 2, (0.0,))
    for ks in itertools.combinations_with_replacement(K, size):
        for n in range(1, size):
            ctx.state()
            explore(lambda o: check_one(ctx, name, 2, False, ks, n, ScriptRNG(o), fronts_cached, cls), max_dev=dev, max_runs=4000)
    ctx.trace()


def u_single(ctx, name, size, part, parts, fs=(0.0, 1.0, 2.0), cvs=(0.0, 1.0, 2.0)):
    K = [(f, c) for f in fs for c in cvs]
    for i, ks in enumerate(itertools.product(K, repeat=size)):
        if i % parts != part:
            continue
        ctx.state()
        for n in range(1, size + 1):
            check_one(ctx, name, 1, True, ks, n, np.random.default_rng(i % 3), None, "single")
    ctx.trace()


def units(tier):
    T = tier == "thorough"
    x = 1 if T else 0
    U = []
    for cls, names in (("front", FRONT), ("dom", DOM), ("member", MEMBER)):
        for name in names:
            parts = 8 if T else 2
            for p in range(parts):
                U.append(("u_multi", dict(name=name, cls=cls, m=2, levels=(0.0, 1.0, 2.0), cvs=(0.0,), size=5 + x, part=p, parts=parts)))
                if name != "RNSGA3":
                    U.append(("u_multi", dict(name=name, cls=cls, m=3, levels=(0.0, 1.0, 2.0), cvs=(0.0,), size=3, part=p, parts=parts)))
                if zoo.by_name(name).cons:
                    U.append(("u_multi", dict(name=name, cls=cls, m=2, levels=(0.0, 1.0, 2.0), cvs=(0.0, 1.0, 2.0), size=3 + x, part=p, parts=parts)))
                    U.append(("u_multi", dict(name=name, cls=cls, m=2, levels=(0.0, 1.0), cvs=(0.0, 1.0, 2.0), size=4 + x, part=p, parts=parts)))
    for name in ("NSGA2", "NSGA3", "NSGA2-pcd", "Omni", "RNSGA3"):
        U.append(("u_rng", dict(name=name, cls="member" if name == "Omni" else "front", size=4, dev=2 if T else 1)))
    # values that differ by very little
    fine, cfine = (1.0, 1.0 + 1e-9, 1.0 + 2e-9), (0.0, 0.02, 0.03)
    for cls, names in (("front", FRONT), ("dom", DOM), ("member", MEMBER)):
        for name in names:
            U.append(("u_multi", dict(name=name, cls=cls, m=2, levels=fine, cvs=(0.0,), size=4 + x, part=0, parts=1)))
            if zoo.by_name(name).cons:
                U.append(("u_multi", dict(name=name, cls=cls, m=2, levels=fine[:2], cvs=cfine, size=3 + x, part=0, parts=1)))
    for name in SINGLE:
        U.append(("u_single", dict(name=name, size=3 + x, part=0, parts=1, fs=fine, cvs=cfine)))
    for name in SINGLE:
        for p in range(2):
            U.append(("u_single", dict(name=name, size=4 + x, part=p, parts=2)))
    return U
