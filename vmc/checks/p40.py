"""P40: the survival steps based on archives, estimated geometry, loose dominance and preferred points, on every small population."""

import itertools
import math

import numpy as np

from vmc import refs, zoo
from vmc.rng import ScriptRNG, explore
from vmc.checks.p33 import make_pop, problem

PROPERTY = "P40"
RULE = ("an execution is one selection step on one population (two consecutive ones where there is a memory); the oracle computes every outcome the rule allows (all resolutions of ties); "
        "outcomes are distinct (algorithm, survivors) results")
BOUNDS = {
    "quick": "all populations of 5 and 6 of 8-9 points (2 objectives) and 5 of 8 (3 objectives), every survivor count: Omni-optimizer (3 margins x spaces), R-NSGA-II (3 normalisations x clearing distances x weights x extreme points), R-NSGA-III (3 sets of points x 2 sizes, two steps), "
             "AGE-MOEA and AGE-MOEA-II, C-TAEA (both archives, 3 constraint patterns, two steps); all orders for the neighbour tournaments of 4-5 solutions",
    "thorough": "all populations of 4 to 7 of the points, C-TAEA up to 8",
}
TOL = 1e-9

P2 = [(0.0, 10.0), (1.0, 6.1), (2.3, 4.2), (4.1, 2.9), (6.2, 1.3), (10.0, 0.2), (3.7, 7.4), (7.3, 5.2), (8.6, 8.8)]
P3 = [(0.0, 9.0, 8.1), (8.2, 0.3, 7.7), (9.1, 8.4, 0.1), (3.0, 3.3, 3.9), (1.2, 5.4, 6.6), (5.5, 1.7, 6.1), (6.3, 5.9, 1.4), (7.9, 7.2, 6.9)]


def fronts_of(n, dom):
    out, left = [], list(range(n))
    while left:
        cur = [i for i in left if not any(dom(j, i) for j in left)]
        out.append(cur)
        left = [i for i in left if i not in cur]
    return out


def populations(pts, size):
    for c in itertools.combinations(range(len(pts)), size):
        r = sum(c) % 3
        order = c if r == 0 else c[::-1] if r == 1 else c[1::2] + c[0::2]
        yield [pts[i] for i in order]


def split(fr, n):
    keep = []
    for k, f in enumerate(fr):
        if len(keep) + len(f) <= n:
            keep += f
            if len(keep) == n:
                return keep, None, k
        else:
            return keep, f, k
    return keep, None, len(fr) - 1


def indices(pop, got):
    m = {id(p): i for i, p in enumerate(pop)}
    return [m.get(id(g), -1) for g in got]


def check_best(ctx, key, F, n, got, keep, last, score, what, tol=TOL):
    """The complete fronts and, of the front to split, those with the largest score."""
    need = n - len(keep)
    g = set(got)
    ctx.outcome(key, tuple(sorted(map(tuple, (F[i] for i in got if i >= 0)))), n)
    if len(got) != n or len(g) != n or -1 in g:
        ctx.viol("%s:count" % key, "%d survivors of %d wanted, or foreign ones" % (len(got), n), F=F, **what)
        return False
    if not set(keep) <= g or (last is None and need) or (last is not None and not g <= set(keep) | set(last)):
        ctx.viol("%s:fronts" % key, "survivors %s of %s are not of the best fronts" % (sorted(g), F), n=n, **what)
        return False
    if last is not None and score is not None:
        a, b = [score[i] for i in last if i in g], [score[i] for i in last if i not in g]
        if a and b and min(a) < max(b) and (math.isinf(max(b)) or math.isinf(min(a)) or max(b) - min(a) > tol * max(1.0, abs(max(b)))):
            ctx.viol("%s:last" % key, "of the front %s with %s the members %s are kept" % (last, [score[i] for i in last], [i for i in last if i in g]), F=F, n=n, **what)
            return False
    return True


# ---------------------------------------------------------------- Omni-optimizer

def crowding(Y, space):
    n, d = len(Y), len(Y[0])
    if n <= 2:
        return [10.0] * n
    cd, edge = [0.0] * n, set()
    for j in range(d):
        o = sorted(range(n), key=lambda i: Y[i][j])
        span = Y[o[-1]][j] - Y[o[0]][j]
        edge.add(o[0])
        if span == 0:
            continue
        for a in range(1, n - 1):
            cd[o[a]] += (Y[o[a + 1]][j] - Y[o[a - 1]][j]) / span / d
        if space == "variable":
            cd[o[0]] += 2 * (Y[o[1]][j] - Y[o[0]][j]) / span / d
            cd[o[-1]] += 2 * (Y[o[-1]][j] - Y[o[-2]][j]) / span / d
    if space == "objective":
        for i in edge:
            cd[i] = 10.0
    return cd


def combined(F, X, obj, var):
    a = crowding(F, "objective") if obj else None
    b = crowding(X, "variable") if var else None
    if not var:
        return a
    if not obj:
        return b
    n = len(F)
    ma = sum(v for v in a if v != 10.0) / n / len(F[0])
    mb = sum(b) / n / len(X[0])
    return [max(u, v) if u > ma or v > mb else min(u, v) for u, v in zip(a, b)]


def unique_columns(Y):
    return all(len(set(c)) == len(c) for c in zip(*Y))


VARS = [(0.13, 0.92), (0.21, 0.11), (0.27, 0.55), (0.48, 0.83), (0.52, 0.31), (0.77, 0.68), (0.91, 0.05), (0.35, 0.97), (0.64, 0.44)]


def u_omni(ctx, m, size, delta, obj, var, cv, n_var=2, scale=1.0, power=1):
    from pymoo.algorithms.moo.omni import LooseDominator, OmniOptimizerSurvival
    pts = P2 if m == 2 else P3
    for k, F in enumerate(populations(pts, size)):
        X = [(VARS[(i * 4 + k) % 9] + tuple(reversed(VARS[(i * 2 + k) % 9])))[:n_var] for i in range(size)]
        X = [tuple(v ** power for v in x) for x in X]
        F = [tuple(v ** (1 + power // 2) * scale for v in f) for f in F]
        eps = [delta * (max(c) - min(c)) for c in zip(*F)]

        def dom(i, j, F=F, eps=eps):
            return refs.dominates(F[i], F[j]) and any(a + e < b for a, b, e in zip(F[i], F[j], eps))
        M = LooseDominator(delta=delta).calc_domination_matrix(np.array(F))
        want = [[1 if dom(i, j) else -1 if dom(j, i) else 0 for j in range(size)] for i in range(size)]
        ctx.state()
        if np.asarray(M).tolist() != want:
            ctx.viol("omni:dominance", "the relation of %s with margin %s is %s instead of %s" % (F, eps, np.asarray(M).tolist(), want))
            continue
        bad = [i for i in range(size) if cv and i % cv == 1]
        for n in range(1, size):
            pop = make_pop(F, [1.0 + i if i in bad else -1.0 for i in range(size)]) if cv else make_pop(F)
            pop.set("X", np.array(X))
            pop = list(pop)
            from pymoo.core.population import Population
            p = Population.create(*pop)
            prob = problem(m) if not cv else con_problem(m)
            r = OmniOptimizerSurvival(delta=delta, obj_crowding=obj, var_crowding=var).do(prob, p, n_survive=n, random_state=np.random.default_rng(k))
            ctx.trans()
            got = indices(pop, r)
            feas = [i for i in range(size) if i not in bad]
            if n >= len(feas):
                exp = set(feas + bad[:n - len(feas)])
                if set(got) != exp:
                    ctx.viol("omni:constraints", "survivors %s of feasible %s and infeasible %s" % (got, feas, bad), n=n)
                continue
            # margins are those of the feasible ones
            e2 = [delta * (max(c) - min(c)) for c in zip(*[F[i] for i in feas])]
            fr = fronts_of(len(feas), lambda a, b: refs.dominates(F[feas[a]], F[feas[b]]) and any(x + e < y for x, y, e in zip(F[feas[a]], F[feas[b]], e2)))
            fr = [[feas[a] for a in f] for f in fr]
            keep, last, kk = split(fr, n)
            score = None
            if last is not None:
                s = combined([F[i] for i in last], [X[i] for i in last], obj, var)
                score = dict(zip(last, s))
            if check_best(ctx, "omni", F, n, got, keep, last, score, dict(delta=delta, X=X)):
                for rank, f in enumerate(fr[:kk + 1]):
                    c = combined([F[i] for i in f], [X[i] for i in f], obj, var)
                    for i, v in zip(f, c):
                        if i in got and (pop[i].get("rank") != rank or abs(pop[i].get("crowding") - v) > TOL):
                            ctx.viol("omni:attributes", "solution %s carries rank %s and crowding %s instead of %s and %s" % (F[i], pop[i].get("rank"), pop[i].get("crowding"), rank, v))
    ctx.trace()


_C = {}


def con_problem(m):
    if m not in _C:
        _C[m] = zoo.make_problem(2, m, 1)
    return _C[m]


def u_neighbours(ctx, n, n_select, dup):
    """Tournaments between a drawn solution and its nearest neighbour: all orders of drawing."""
    from pymoo.algorithms.moo.omni import NeighborBasedTournamentSelection
    X = [VARS[i] for i in range(n)]
    if dup:
        X[1] = X[0]
    scale = (1.0, 10.0) if not dup else (1.0, 0.1)
    X = [(x[0] * scale[0], x[1] * scale[1]) for x in X]
    lo, hi = [min(c) for c in zip(*X)], [max(c) for c in zip(*X)]
    N = [[(v - a) / (b - a) for v, a, b in zip(x, lo, hi)] for x in X]
    D = [[sum((u - v) ** 2 for u, v in zip(a, b)) for b in N] for a in N]
    pop = make_pop([(float(i), float(-i)) for i in range(n)])
    pop.set("X", np.array(X))
    seen = set()

    def run(o):
        rec = []

        def comp(pop, P, **kwargs):
            rec.append(np.array(P).tolist())
            return np.array(P)[:, [0]]
        rng = ScriptRNG(o)
        S = NeighborBasedTournamentSelection(func_comp=comp).do(problem(2), pop, n_select, 2, to_pop=False, random_state=rng)
        ctx.trans()
        pairs = [tuple(int(v) for v in p) for r in rec for p in r]
        seen.add(tuple(pairs))
        if len(pairs) != 2 * n_select or np.asarray(S).shape != (n_select, 2):
            ctx.viol("neighbours:count", "%d tournaments for %d pairs of parents" % (len(pairs), n_select))
            return
        left = []
        for p, q in pairs:
            if len(left) < 2:
                left = list(range(n))
            if p == q or p not in left or q not in left:
                ctx.viol("neighbours:twice", "in %s a solution takes part twice in a pass" % (pairs,))
                return
            if D[p][q] > max(min(D[p][r] for r in left if r != p), min(D[q][r] for r in left if r != q)) + 1e-12:
                ctx.viol("neighbours:nearest", "%d meets %d in %s and neither is the nearest of the other" % (p, q, pairs), X=X)
            left = [r for r in left if r not in (p, q)]
    explore(run, max_dev=3 if n <= 5 else 2)
    ctx.state()
    ctx.outcome("neighbours", n, len(seen))
    if len(set(p[0] for p in (s[0] for s in seen))) < n:
        ctx.viol("neighbours:drawn", "only %d of %d solutions are ever drawn first" % (len(set(s[0][0] for s in seen)), n))
    ctx.trace()


# ---------------------------------------------------------------- R-NSGA-II

def extremes(F, ideal):
    m = len(F[0])
    out = []
    for j in range(m):
        def asf(f):
            d = [0.0 if a - z < 1e-3 else a - z for a, z in zip(f, ideal)]
            return max(v * (1.0 if k == j else 1e6) for k, v in enumerate(d))
        out.append(min(F, key=asf))
    return out


def orders(vals):
    """All stable and unstable ascending orders."""
    groups = [[i for i in range(len(vals)) if vals[i] == v] for v in sorted(set(vals))]
    for combo in itertools.product(*[list(itertools.permutations(g)) for g in groups]):
        yield [i for g in combo for i in g]


def u_rnsga2(ctx, m, size, normalization, epsilon, weights, ext):
    from pymoo.algorithms.moo.rnsga2 import RankAndModifiedCrowdingSurvival
    from pymoo.core.population import Population
    pts = P2 if m == 2 else P3
    R = [[2.2, 3.1], [7.7, 0.4]] if m == 2 else [[2.2, 3.1, 4.3], [8.7, 0.4, 5.0]]
    w = weights[:m] if weights else [1.0 / m] * m
    P = list(populations(pts, size))
    for k, F1 in enumerate(P):
        F2 = P[(k * 7 + 3) % len(P)]
        for n in range(1, size):
            if normalization == "ever" and n % 2 == 0:
                continue
            ref = np.array(R) * (0.1 if normalization == "no" else 1.0)
            ref0 = ref.copy()
            s = RankAndModifiedCrowdingSurvival(ref, epsilon, None if not weights else np.array(w), normalization, ext)
            ideal, nadir = [math.inf] * m, [-math.inf] * m
            ctx.state()
            for F in (F1, F2):
                if normalization == "no":
                    F = [tuple(v / 10 for v in f) for f in F]
                pop = list(make_pop(F))
                r = s.do(problem(m), Population.create(*pop), n_survive=n, random_state=np.random.default_rng(1))
                ctx.trans()
                got = indices(pop, r)
                fr = fronts_of(size, lambda a, b: refs.dominates(F[a], F[b]))
                if normalization == "ever":
                    ideal, nadir = [min(a, min(c)) for a, c in zip(ideal, zip(*F))], [max(a, max(c)) for a, c in zip(nadir, zip(*F))]
                elif normalization == "front":
                    if len(fr[0]) > 1:
                        ideal, nadir = [min(c) for c in zip(*[F[i] for i in fr[0]])], [max(c) for c in zip(*[F[i] for i in fr[0]])]
                else:
                    ideal, nadir = [0.0] * m, [1.0] * m
                if any(math.isinf(v) for v in ideal) or any(a == b for a, b in zip(ideal, nadir)):
                    continue
                refp = [tuple(p) for p in ref0] + (extremes(F, ideal) if ext else [])

                def dist(a, b):
                    return math.sqrt(sum(q * ((x - y) / (hi - lo)) ** 2 for q, x, y, lo, hi in zip(w, a, b, ideal, nadir)) * m)
                keep, last, kk = split(fr, n)
                if not check_best(ctx, "rnsga2", F, n, got, keep, last, None, dict(normalization=normalization)):
                    return
                for q, f in enumerate(fr):
                    D = [[dist(F[i], p) for p in refp] for i in f]
                    if not set(f) <= set(keep) or any(abs(a - b) < 1e-7 for c in zip(*D) for a, b in itertools.combinations(c, 2)):
                        continue
                    wants = [-min(sorted(c).index(c[i]) for c in zip(*D)) for i in range(len(f))]
                    if [pop[i].get("rank") for i in f] != [q] * len(f) or [float(pop[i].get("crowding")) for i in f] != wants:
                        ctx.viol("rnsga2:attributes", "the front %s has ranks %s and crowding %s instead of %s" % ([F[i] for i in f], [pop[i].get("rank") for i in f], [pop[i].get("crowding") for i in f], wants), n=n)
                if last is None:
                    continue
                D = [[dist(F[i], p) for p in refp] for i in last]
                if any(abs(a - b) < 1e-7 for c in zip(*D) for a, b in itertools.combinations(c, 2)):
                    continue
                rank = [min(sorted(c).index(c[i]) for c in zip(*D)) for i in range(len(last))]
                need, ok = n - len(keep), set()
                for o in orders(rank):
                    left, crowd = list(o), {}
                    while left:
                        i = left[0]
                        grp = [j for j in left if j != i and dist(F[last[i]], F[last[j]]) < epsilon]
                        crowd[i] = rank[i]
                        for j in grp:
                            crowd[j] = rank[j] + round(len(last) / 2)
                        left = [j for j in left if j != i and j not in grp]
                    for c in itertools.combinations(range(len(last)), need):
                        rest = [crowd[i] for i in range(len(last)) if i not in c]
                        if max(crowd[i] for i in c) <= min(rest):
                            ok.add(frozenset(last[i] for i in c))
                sel = frozenset(i for i in got if i in last)
                if sel not in ok:
                    ctx.viol("rnsga2:last", "of the front %s the members %s are kept, allowed are %s" % ([F[i] for i in last], sorted(sel), [sorted(x) for x in ok][:4]),
                             F=F, n=n, normalization=normalization, epsilon=epsilon, refs=refp, ext=ext)
            if not np.array_equal(ref, ref0):
                ctx.viol("rnsga2:input", "the reference points given are changed")
    ctx.trace()


# ---------------------------------------------------------------- AGE-MOEA

def line_distance(p, b):
    t = sum(x * y for x, y in zip(p, b)) / sum(y * y for y in b)
    return sum((x - t * y) ** 2 for x, y in zip(p, b))


def tie(vals):
    return any(abs(a - b) < 1e-9 for a, b in itertools.combinations(vals, 2))


class Tie(Exception):
    pass


def least(cand, val):
    v = {i: val(i) for i in cand}
    m = min(v.values())
    if sum(1 for x in v.values() if x < m + 1e-10) > 1:
        raise Tie()
    return min(cand, key=lambda i: v[i])


def unit_power(point):
    """The exponent p with sum x^p = 1 (bisection)."""
    def f(p):
        return sum(math.exp(min(p * math.log(x), 500.0)) for x in point if x > 0) - 1.0
    lo, hi = 1e-3, 1e3
    if not (f(lo) > 0 > f(hi)):
        raise Tie()
    for _ in range(200):
        mid = (lo + hi) / 2
        lo, hi = (mid, hi) if f(mid) > 0 else (lo, mid)
    return lo


def age_scores(front, version):
    """(scores, p, normalization) of the first front by the published rule."""
    m, n = len(front), len(front[0])
    ideal = [min(c) for c in zip(*front)]
    if m < n:
        return [0.0] * m, 1.0, [max(c) for c in zip(*front)]
    G = [[a - z for a, z in zip(f, ideal)] for f in front]
    if m <= n:
        ext = list(range(m))
    else:
        ext = []
        for j in range(n):
            ax = [1e-6 + (1.0 if k == j else 0.0) for k in range(n)]
            ext.append(least([i for i in range(m) if i not in ext], lambda i: line_distance(G[i], ax)))
    norm = [max(c) for c in zip(*G)]
    A = np.array([G[i] for i in ext])
    if abs(np.linalg.det(A)) > 1e-9:
        h = np.linalg.solve(A, np.ones(n))
        if np.all(h > 0):
            norm = [float(1.0 / v) for v in h]
    norm = [v if v != 0 else 1.0 for v in norm]
    N = [[a / b for a, b in zip(g, norm)] for g in G]
    rest = [i for i in range(m) if i not in ext]
    score = [math.inf] * m
    if not rest:
        p = None
    else:
        if version == 1:
            i = least(rest, lambda i: line_distance(N[i], [1.0] * n))
            mean = sum(N[i]) / n
            p = math.log(n) / math.log(1.0 / mean) if 0 < mean != 1.0 else 1.0
            tol = 0.0
        else:
            i = least(rest, lambda i: math.sqrt(sum(v * v for v in N[i])))
            p = unit_power(N[i])
        p = 1.0 if p <= 0.1 else 20.0 if p > 20 else p
    return N, ext, rest, score, p, norm, ideal


def age_pick(N, ext, rest, p, version, own=True):
    """Scores of the others: in the order they are added, the distance to the two nearest selected ones by the own norm (or that of the neighbours)."""
    m = len(N)
    nn = [sum(abs(v) ** p for v in x) ** (1 / p) for x in N]
    nn = [v if v >= 1e-8 else 1.0 for v in nn]

    def project(x):
        d = sum(v ** p for v in x if v > 0) ** (1 / p)
        return [v / d for v in x] if d else list(x)

    def dist(a, b):
        if version == 1:
            return sum(abs(x - y) ** p for x, y in zip(a, b)) ** (1 / p)
        a, b = project(a), project(b)
        if 0.95 < p < 1.05:
            return math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b)))
        c = project([0.5 * x + 0.5 * y for x, y in zip(a, b)])
        return math.sqrt(sum((x - y) ** 2 for x, y in zip(a, c))) + math.sqrt(sum((x - y) ** 2 for x, y in zip(b, c)))
    D = [[max(dist(a, b), 1e-8) for b in N] for a in N]
    sel, left, out = list(ext), list(rest), {}
    while left:
        val = {}
        for i in left:
            d = sorted(D[i][j] / (nn[i] if own else nn[j]) for j in sel)
            val[i] = sum(d[:2])
        best = least(left, lambda i: -val[i])
        out[best] = val[best]
        sel.append(best)
        left.remove(best)
    return out


def u_age(ctx, version, m, size):
    from pymoo.algorithms.moo.age import AGEMOEASurvival
    from pymoo.algorithms.moo.age2 import AGEMOEA2Survival
    from pymoo.core.population import Population
    pts = P2 if m == 2 else P3
    name = "AGE-MOEA" if version == 1 else "AGE-MOEA-II"
    for F in populations(pts, size):
        fr = fronts_of(size, lambda a, b: refs.dominates(F[a], F[b]))
        for n in range(1, size + 1):
            pop = list(make_pop(F))
            surv = (AGEMOEASurvival if version == 1 else AGEMOEA2Survival)()
            r = surv.do(problem(m), Population.create(*pop), n_survive=n, random_state=np.random.default_rng(1))
            ctx.state()
            ctx.trans()
            got = indices(pop, r)
            keep, last, kk = split(fr, n)
            tol = 1e-9 if version == 1 else 2e-2
            have = [float(p.get("crowding")) if p.get("crowding") is not None else math.nan for p in pop]

            def agree(i, v):
                return have[i] == v or (math.isfinite(v) and math.isfinite(have[i]) and abs(have[i] - v) <= tol * max(1.0, abs(v)))
            score = None
            try:
                f0 = [F[i] for i in fr[0]]
                if len(f0) < m:
                    p, norm, ideal, sc = 1.0, [max(c) for c in zip(*f0)], [min(c) for c in zip(*f0)], [0.0] * len(f0)
                    score = dict(zip(fr[0], sc))
                else:
                    N, ext, rest, sc, p, norm, ideal = age_scores(f0, version)
                    for own in (True, False):
                        score = dict(zip(fr[0], sc))
                        try:
                            if rest:
                                for i, v in age_pick(N, ext, rest, p, version, own).items():
                                    score[fr[0][i]] = v
                        except Tie:
                            score = None
                            break
                        if all(agree(i, score[i]) for i in fr[0]):
                            if not own:
                                ctx.viol("%s:norm" % name, "the scores %s of the front %s are related to the proximity of the neighbours, not of the solution itself" % ([have[i] for i in fr[0]], f0), n=n)
                            break
                    else:
                        ctx.viol("%s:score:first" % name, "the front %s has the scores %s" % (f0, [have[i] for i in fr[0]]), expect=[score[i] for i in fr[0]], n=n)
                        score = None
                if score is not None and p is not None:
                    for k, f in enumerate(fr[1:kk + 1]):
                        later = {}
                        for i in f:
                            d = sum(abs(a / b - z) ** p for a, b, z in zip(F[i], norm, ideal)) ** (1 / p) if all(norm) else None
                            later[i] = 1.0 / d if d else None
                        if any(v is None for v in later.values()):
                            continue
                        if all(agree(i, later[i]) for i in f):
                            score.update(later)
                        elif k + 1 == kk and all(have[i] == 0 for i in f):
                            ctx.viol("%s:zero" % name, "the last front %s taken has no scores" % ([F[i] for i in f],), n=n)
                            score.update({i: 0.0 for i in f})
                        else:
                            ctx.viol("%s:score:later" % name, "the front %s has the scores %s instead of %s" % ([F[i] for i in f], [have[i] for i in f], later), n=n)
            except Tie:
                score = None
            use = None
            if last is not None and score is not None and all(score.get(i) is not None for i in last):
                use = {i: score[i] for i in last}
            if check_best(ctx, name, F, n, got, keep, last, use, {}, tol):
                for k, f in enumerate(fr[:kk + 1]):
                    for i in f:
                        if pop[i].get("rank") != k:
                            ctx.viol("%s:rank" % name, "solution %s has rank %s instead of %d" % (F[i], pop[i].get("rank"), k))
    ctx.trace()


# ---------------------------------------------------------------- C-TAEA

def tche(f, w, z):
    return max((a - b) / (c if c != 0 else 1e-4) for a, b, c in zip(f, z, w))


def niche(f, R, z):
    g = [a - b for a, b in zip(f, z)]
    d = [math.sqrt(max(line_distance(g, r), 0.0)) for r in R]
    o = sorted(d)
    if len(o) > 1 and o[1] - o[0] < 1e-9:
        raise Tie()
    return d.index(o[0])


def edist(a, b):
    return math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b)))


def ca_outcomes(F, cv, n, R, z):
    feas = [i for i in range(len(F)) if cv[i] <= 0]
    if len(feas) == n:
        return {frozenset(feas)}
    if len(feas) < n:
        inf = [i for i in range(len(F)) if cv[i] > 0]
        fv = {i: tche(F[i], R[niche(F[i], R, z)], z) for i in inf}
        fr = fronts_of(len(inf), lambda a, b: refs.dominates((cv[inf[a]], fv[inf[a]]), (cv[inf[b]], fv[inf[b]])))
        keep, last, _ = split([[inf[a] for a in f] for f in fr], min(n - len(feas), len(inf)))
        if last is None:
            return {frozenset(feas + keep)}
        need = n - len(feas) - len(keep)
        out = set()
        for c in itertools.combinations(last, need):
            rest = [cv[i] for i in last if i not in c]
            if max(cv[i] for i in c) <= min(rest) + 1e-12:
                out.add(frozenset(feas + keep + list(c)))
        return out
    fr = fronts_of(len(feas), lambda a, b: refs.dominates(F[feas[a]], F[feas[b]]))
    S = []
    for f in fr:
        S += [feas[a] for a in f]
        if len(S) >= n:
            break
    nic = {i: niche(F[i], R, z) for i in S}
    fv = {i: tche(F[i], R[nic[i]], z) for i in S}
    if tie(list(fv.values())):
        raise Tie()
    level = {frozenset(S)}
    while len(next(iter(level))) > n:
        nxt = set()
        for A in level:
            count = {}
            for i in A:
                count[nic[i]] = count.get(nic[i], 0) + 1
            top = max(count.values())
            cands = []
            for q in [q for q in count if count[q] == top]:
                mem = [i for i in A if nic[i] == q]
                w = max(mem, key=lambda i: fv[i])
                dw = min([edist(F[w], F[j]) for j in A if j != w])
                opts = {w}
                pr = [(edist(F[a], F[b]), a, b) for a, b in itertools.combinations(mem, 2)]
                if pr:
                    dm = min(pr)[0]
                    if dm < dw - 1e-12:
                        opts = set(max((a, b), key=lambda i: fv[i]) for d, a, b in pr if d <= dm + 1e-12)
                    elif dm <= dw + 1e-12:
                        opts |= set(max((a, b), key=lambda i: fv[i]) for d, a, b in pr if d <= dm + 1e-12)
                cands.append(opts)
            for pick in itertools.product(*cands):
                nxt.add(A - {max(pick, key=lambda i: fv[i])})
        level = nxt
    return level


def da_outcome(CA, H, n, R, z):
    """Indices into H (generic values: no ties)."""
    nic = [niche(f, R, z) for f in H]
    fv = [tche(f, R[q], z) for f, q in zip(H, nic)]
    ca = [niche(f, R, z) for f in CA]
    left, S, it = set(range(len(H))), [], 1
    while len(S) < min(n, len(H)):
        for q in range(len(R)):
            for _ in range(it - ca.count(q)):
                cur = [i for i in left if nic[i] == q]
                if not cur or len(S) >= n:
                    break
                nd = [i for i in cur if not any(refs.dominates(H[j], H[i]) for j in cur)]
                v = min(fv[i] for i in nd)
                o = [i for i in nd if fv[i] <= v + 1e-10]
                if len(set(H[i] for i in o)) > 1:
                    raise Tie()
                S.append(o[0])
                left.discard(o[0])
        it += 1
    return S


def u_ctaea(ctx, m, size, pattern, part, parts):
    """Population and offspring merged, and a diversity archive; then a second step with new offspring."""
    from pymoo.algorithms.moo.ctaea import CADASurvival
    from pymoo.core.population import Population
    pts = P2 if m == 2 else P3 + [(4.4, 6.8, 3.1), (2.6, 7.7, 5.2)]
    R = [[1.0, 0.0], [0.5, 0.5], [0.0, 1.0]] if m == 2 else [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [1 / 3, 1 / 3, 1 / 3]]
    n = len(R)
    prob = con_problem(m)
    for k, F in enumerate(populations(pts, size)):
        if k % parts != part:
            continue
        for shift in range(3):
            F = F[shift:] + F[:shift]
            s = CADASurvival(np.array(R))
            z = [math.inf] * m
            cv = [0.0 if pattern[(i + k) % len(pattern)] == 0 else pattern[(i + k) % len(pattern)] + 0.1 * ((i * 5) % 7) for i in range(size)]
            pop = list(make_pop(F, [c if c > 0 else -1.0 for c in cv]))
            first, off = pop[:n], pop[n:]
            ctx.state()
            state, prev = None, []
            steps = [(first, None), (off[:n], state)]
            ca, da = Population(), Population()
            try:
                for new, _ in steps:
                    if not len(new):
                        continue
                    merged = list(ca) + list(new)
                    oldda = list(da)
                    nd = len(new)
                    vals = {id(p): (tuple(map(float, p.F)), max(float(p.CV[0]), 0.0)) for p in pop}
                    z = [min(a, min(c)) for a, c in zip(z, zip(*[vals[id(p)][0] for p in merged[-n:]]))]
                    ca, da = s.do(prob, Population.create(*merged), Population.create(*oldda), n, random_state=np.random.default_rng(3))
                    ctx.trans()
                    MF, MC = [vals[id(p)][0] for p in merged], [vals[id(p)][1] for p in merged]
                    got = frozenset(indices(merged, ca))
                    ok = ca_outcomes(MF, MC, n, R, z)
                    ctx.outcome("C-TAEA", tuple(sorted(MF[i] for i in got if i >= 0)), len(da))
                    if len(ca) != len(got) or got not in ok:
                        ctx.viol("C-TAEA:convergence", "of %s with violations %s the convergence archive keeps %s, allowed are %s" % (MF, MC, sorted(got), [sorted(o) for o in ok][:3]), ideal=z)
                        break
                    H = oldda + merged[-n:]
                    HF = [vals[id(p)][0] for p in H]
                    want = da_outcome([vals[id(p)][0] for p in ca], HF, n, R, z)
                    gd = [tuple(map(float, p.F)) for p in da]
                    if sorted(gd) != sorted(HF[i] for i in want):
                        ctx.viol("C-TAEA:diversity", "of %s with convergence archive %s the diversity archive keeps %s instead of %s" % (HF, [vals[id(p)][0] for p in ca], gd, [HF[i] for i in want]), ideal=z)
                        break
                    if [float(v) for v in s.ideal_point] != z:
                        ctx.viol("C-TAEA:ideal", "the ideal point is %s instead of %s" % (s.ideal_point, z))
                    fe = [i for i in got if MC[i] <= 0]
            except Tie:
                continue
    ctx.trace()


def u_mating(ctx):
    """Restricted mating of C-TAEA: the first parent is of the archive with the larger share of non-dominated solutions, feasible and dominating candidates win."""
    from pymoo.algorithms.moo.ctaea import comp_by_cv_dom_then_random
    vals = [((f1, f2), c) for f1 in (0.0, 1.0) for f2 in (0.0, 1.0) for c in (0.0, 1.0, 2.0)]
    for a, b in itertools.product(vals, repeat=2):
        pop = make_pop([a[0], b[0]], [a[1] or -1.0, b[1] or -1.0])
        wins = set()

        def run(o):
            S = comp_by_cv_dom_then_random(pop, np.array([[0, 1]]), random_state=ScriptRNG(o))
            wins.add(int(np.asarray(S).ravel()[0]))
            ctx.trans()
        explore(run, max_dev=5)
        ctx.state()
        if a[1] <= 0 and b[1] <= 0:
            want = {0} if refs.dominates(a[0], b[0]) else {1} if refs.dominates(b[0], a[0]) else {0, 1}
        else:
            want = {0} if a[1] <= 0 else {1} if b[1] <= 0 else {0, 1}
        if wins != want:
            ctx.viol("C-TAEA:mating", "the winners of %s against %s are %s" % (a, b, sorted(wins)))
    ctx.trace()


def u_restricted(ctx, n, vals, parts, part):
    """Which archive the candidates for the parents come from."""
    from pymoo.algorithms.moo.ctaea import RestrictedMating
    grid = [(0.0, 2.0), (2.0, 0.0), (2.0, 2.0), (1.0, 1.0)][:vals]
    for k, F in enumerate(itertools.product(grid, repeat=2 * n)):
        if k % parts != part:
            continue
        ctx.state()
        nd = [not any(refs.dominates(g, f) for g in F) for f in F]
        pc, pd = sum(nd[:n]) / (2 * n), sum(nd[n:]) / (2 * n)
        pop = make_pop(list(F))
        for n_select in (1, 2, 3):
            for u in (0.0, 0.2, 0.26, 0.4, 0.6, 0.9):
                seen = []

                def comp(pop, P, **kwargs):
                    seen.append(np.array(P))
                    return P[:, [0]]

                class R:
                    def __init__(self):
                        self.g = np.random.default_rng(k + n_select)

                    def random(self, size=None, **kw):
                        return u if size is None else np.full(size, u)

                    def __getattr__(self, name):
                        return getattr(self.g, name)
                res = RestrictedMating(func_comp=comp).do(problem(2), pop, n_select, 2, to_pop=False, random_state=R())
                ctx.trans()
                P = np.vstack(seen)
                if P.shape != (2 * n_select, 2) or np.asarray(res).tolist() != P[:, 0].reshape(n_select, 2).tolist():
                    ctx.viol("C-TAEA:restricted:shape", "the tournaments are %s, the parents %s" % (P.tolist(), np.asarray(res).tolist()), F=F)
                    return
                want = [[pc > pd, u < pc][r % 2] for r in range(2 * n_select)]
                have = [[bool(i < n) for i in row] for row in P]
                if have != [[w, w] for w in want]:
                    ctx.viol("C-TAEA:restricted", "candidates %s for %s, %s of the convergence and %s of the diversity archive are non-dominated, the answer of the generator is %s" % (P.tolist(), F, pc, pd, u))
                    return
                cnt = np.bincount(P.ravel() % n, minlength=n)
                if cnt.max() - cnt.min() > 1:
                    ctx.viol("C-TAEA:restricted:share", "the candidates %s are not drawn evenly" % P.tolist(), F=F)
                    return
                ctx.outcome("restricted", pc, pd, u)
    ctx.trace()


# ---------------------------------------------------------------- R-NSGA-III

ASPIRE = {(2, "one"): [[3.0, 4.0]], (2, "two"): [[0.5, 8.0], [6.0, 2.0]], (2, "out"): [[-1.0, 3.0]],
          (3, "one"): [[3.0, 2.0, 4.0]], (3, "two"): [[1.0, 5.0, 5.0], [6.0, 2.0, 1.5]], (3, "out"): [[4.0, -1.0, 11.0]]}


def aspiration_dirs(unit, base, mu):
    """The shrunken simplex around the point where the ray through the aspiration point meets the unit simplex, and the axes."""
    out, m = [], len(base[0])
    cent = [mu * sum(b[j] for b in base) / len(base) for j in range(m)]
    for p in unit:
        t = sum(p)
        hit = [x / t for x in p]
        D = [[mu * b[j] + hit[j] - cent[j] for j in range(m)] for b in base]
        for d in D:
            d = [max(x, 0.0) for x in d]
            out.append([x / sum(d) for x in d])
    return out + [[1.0 if i == j else 0.0 for j in range(m)] for i in range(m)]


def u_rnsga3(ctx, m, size, which, mu):
    from pymoo.algorithms.moo.rnsga3 import AspirationPointSurvival
    from vmc.checks.p33 import niching_outcomes, perp
    pts = P2 if m == 2 else P3
    ref = np.array(ASPIRE[m, which])
    base = np.array([[1.0, 0.0], [0.5, 0.5], [0.0, 1.0]]) if m == 2 else np.array([[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0], [0.5, 0.5, 0.0], [0.0, 0.5, 0.5], [0.5, 0, 0.5]])
    for F in populations(pts, size):
        for n in range(1, size + 1):
            surv = AspirationPointSurvival(ref.copy(), base.copy(), mu=mu)
            hist, old = [np.array(ref)], None
            for stage in range(2):
                G = np.array(F) if stage == 0 else np.array(F)[:, ::-1] * 0.8 + 1.5
                hist.append(G)
                pop = list(make_pop(G))
                from pymoo.core.population import Population
                r = surv.do(problem(m), Population.create(*pop), n_survive=n, random_state=np.random.default_rng(n))
                ctx.state()
                ctx.trans()
                got = indices(pop, r)
                what = dict(F=G, n=n, points=ref, mu=mu)
                fr = fronts_of(size, lambda a, b: refs.dominates(tuple(G[a]), tuple(G[b])))
                ideal, worst = np.min(np.vstack(hist), axis=0), np.max(np.vstack(hist), axis=0)
                if not np.array_equal(surv.ideal_point, ideal) or not np.array_equal(surv.worst_point, worst):
                    ctx.viol("rnsga3:ideal", "the ideal and worst points are %s, %s instead of %s, %s" % (surv.ideal_point, surv.worst_point, ideal, worst), **what)
                    break
                if not np.array_equal(surv.ref_points, ref) or not np.array_equal(surv.aspiration_ref_dirs, base):
                    ctx.viol("rnsga3:input", "the points or directions given are changed", **what)
                    break
                cand = np.vstack([G[fr[0]], ref] + ([old] if old is not None else []))
                ex = np.asarray(surv.extreme_points)

                def asf(p, j):
                    d = np.where(p - ideal < 1e-3, 0.0, p - ideal) * np.where(np.arange(m) == j, 1.0, 1e6)
                    return float(d.max())
                if any(not any(np.array_equal(ex[j], c) for c in cand) or asf(ex[j], j) > min(asf(c, j) for c in cand) + TOL for j in range(m)):
                    ctx.viol("rnsga3:extreme", "the extreme points are %s" % ex.tolist(), **what)
                    break
                old = ex.copy()
                M = ex - ideal
                allowed, back = [], True
                if abs(np.linalg.det(M)) > 1e-9:
                    plane = np.linalg.solve(M, np.ones(m))
                    if np.all(plane > -1e-12):
                        back = bool(np.any(plane < 1e-12))      # parallel to an axis: either
                        allowed.append(np.minimum(ideal + 1.0 / np.maximum(plane, 1e-12), worst))
                if back:
                    allowed.append(G[fr[0]].max(axis=0))
                allowed = [np.where(a - ideal <= 1e-6, G.max(axis=0), a) for a in allowed]
                want = next((a for a in allowed if np.allclose(surv.nadir_point, a, atol=1e-9)), None)
                if want is None and abs(np.linalg.det(M)) <= 1e-9:      # singular up to rounding: any plane
                    h = np.asarray(surv.nadir_point, float)
                    if np.all(h > ideal) and np.all(h <= worst):
                        want, back = h.copy(), None
                if want is None:
                    want = allowed[0]
                    ctx.viol("rnsga3:nadir" + (":fallback" if back else ""), "the nadir point is %s instead of %s" % (surv.nadir_point, want), **what)
                    break
                if np.any(want - ideal <= 1e-6):
                    break
                if np.any(np.all(ref <= ideal, axis=1)):
                    break       # no ray through the ideal point itself
                D = np.array(aspiration_dirs(((ref - ideal) / (want - ideal)).tolist(), base.tolist(), mu))
                have = (np.asarray(surv.ref_dirs) - ideal) / (want - ideal)
                if have.shape != D.shape or not np.allclose(have, D, atol=1e-9):
                    ctx.viol("rnsga3:directions", "the directions are %s instead of %s" % (have.tolist(), D.tolist()), **what)
                    break
                N = (G - ideal) / (want - ideal)
                dist = [[perp(p, w) for w in D] for p in N]
                keep, last, kk = split(fr, n)
                ranked = keep + (list(last) if last is not None else [])
                niche, dd, bad = {}, {}, False
                for i in ranked:
                    k = pop[i].get("niche")
                    if k is None or dist[i][int(k)] > min(dist[i]) + 1e-9 or abs(float(pop[i].get("dist_to_niche")) - dist[i][int(k)]) > 1e-9:
                        bad = True
                        break
                    niche[i], dd[i] = int(k), dist[i][int(k)]
                if bad:
                    ctx.viol("rnsga3:niche", "%s belongs to direction %s" % (G[i], k), **what)
                    break
                ok = {frozenset(keep)} if last is None else {frozenset(keep) | S for S in niching_outcomes(G, n, keep, last, niche, dd, len(D))}
                if len(got) != n or frozenset(got) not in ok:
                    ctx.viol("rnsga3:survivors", "the survivors are %s, allowed are %s" % (sorted(got), [sorted(o) for o in ok][:3]), **what)
                    break
                opt = set(indices(pop, surv.opt))
                near = {i for i in fr[0] if any(dist[i][k] <= min(dist[q][k] for q in ranked) + 1e-9 for k in set(niche.values()))}
                if not opt or not opt <= (near or set(fr[0])):
                    ctx.viol("rnsga3:optimum", "the optimum is %s, the first front %s" % (sorted(opt), fr[0]), **what)
                    break
                ctx.outcome("rnsga3", which, tuple(sorted(got)), back)
    ctx.trace()


def units(tier):
    q = tier == "quick"
    U = []
    for m, sizes in ((2, (5, 6) if q else (4, 5, 6, 7)), (3, (5,) if q else (4, 5, 6, 7))):
        for size in sizes:
            for obj, var in ((True, True), (True, False), (False, True)):
                for delta in (0.0, 0.05, 0.3):
                    U.append(("u_omni", dict(m=m, size=size, delta=delta, obj=obj, var=var, cv=0)))
            U.append(("u_omni", dict(m=m, size=size, delta=0.05, obj=True, var=True, cv=2)))
            U.append(("u_omni", dict(m=m, size=size, delta=0.2, obj=True, var=True, cv=3)))
            U.append(("u_omni", dict(m=m, size=size, delta=0.0, obj=True, var=True, cv=0, n_var=4)))
            U.append(("u_omni", dict(m=m, size=size, delta=0.05, obj=True, var=True, cv=0, n_var=1, scale=0.05)))
            # clustered variables: the two averages decide differently
            U.append(("u_omni", dict(m=m, size=size, delta=0.0, obj=True, var=True, cv=0, n_var=4, power=6)))
            U.append(("u_omni", dict(m=m, size=size, delta=0.0, obj=True, var=True, cv=0, n_var=1, power=6)))
            for nz in ("front", "ever", "no"):
                for eps in (0.001, 0.3, 0.6):
                    U.append(("u_rnsga2", dict(m=m, size=size, normalization=nz, epsilon=eps, weights=None, ext=False)))
                U.append(("u_rnsga2", dict(m=m, size=size, normalization=nz, epsilon=0.3, weights=[0.8, 0.15, 0.05], ext=False)))
                U.append(("u_rnsga2", dict(m=m, size=size, normalization=nz, epsilon=0.01, weights=None, ext=True)))
            for which in ("one", "two", "out"):
                for mu in (0.1, 0.5):
                    U.append(("u_rnsga3", dict(m=m, size=size, which=which, mu=mu)))
            for v in (1, 2):
                U.append(("u_age", dict(version=v, m=m, size=size)))
    U += [("u_neighbours", dict(n=n, n_select=k, dup=d)) for n, k in ((4, 1), (4, 2), (5, 1), (5, 2)) for d in (False, True)]
    for p in range(4):
        for pat in ([0], [0, 0, 2.0], [0, 1.0, 0.5], [1.0, 2.0, 0.5, 3.0]):
            U.append(("u_ctaea", dict(m=2, size=6, pattern=pat, part=p, parts=4)))
            U.append(("u_ctaea", dict(m=3, size=7, pattern=pat, part=p, parts=4)))
            if not q:
                U += [("u_ctaea", dict(m=m, size=s, pattern=pat, part=p, parts=4)) for m, s in ((2, 7), (2, 8), (3, 6), (3, 8))]
    U.append(("u_mating", {}))
    U += [("u_restricted", dict(n=2, vals=4, parts=1, part=0))] + [("u_restricted", dict(n=3, vals=3 if q else 4, parts=2 if q else 8, part=p)) for p in range(2 if q else 8)]
    return U
