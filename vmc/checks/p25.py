"""P25: mating selection obeys its rules for every random outcome."""

import copy
import itertools
import random
from collections import Counter
from types import SimpleNamespace

import numpy as np

from vmc.refs import dominates
from vmc.rng import MixRNG, ScriptRNG, explore

PROPERTY = "P25"
RULE = "every state is one population, selection and sequence of answers of the generator; outcomes are distinct selected parents"
BOUNDS = {
    "quick": "11 tournament rules x every ordered pair of solutions over the grid of everything the rule may look at (violation {0,1e-9,1}, 5 objective vectors, rank, crowding, niche, distance, age) x every answer for ties; "
             "tournament and random selection with populations of 1..4, 1..3 selections, 1..3 parents, pressure 1..3 under every 3 deviations of the generator (all permutations); "
             "neighbour based, restricted, neighbourhood, elite biased and 5 differential evolution selections with 2 deviations; every selection made in 4 iterations of 20 algorithms",
    "thorough": "as quick with 4 deviations, populations up to 5 and 8 iterations",
}


def population(rows, cons=True):
    from pymoo.core.population import Population
    F = np.array([r.get("F", (0.0, 0.0)) for r in rows], dtype=float)
    pop = Population.new(X=np.array([r.get("X", (float(i),)) for i, r in enumerate(rows)]), F=F)
    if cons:
        pop.set("G", np.array([[r.get("cv", 0.0)] for r in rows]))
    else:
        pop.set("G", np.zeros((len(rows), 0)))
    for k in rows[0]:
        if k not in ("F", "X", "cv"):
            for ind, r in zip(pop, rows):
                ind.set(k, r[k])
    return pop


def key(v):
    return (v < 0) - (v > 0)


def by_cv(a, b):
    if a["cv"] > 0 or b["cv"] > 0:
        return "cv", key(a["cv"] - b["cv"])
    return None, 0


def smaller(a, b, k):
    return 1 if a[k] < b[k] else -1 if b[k] < a[k] else 0


def dom(a, b):
    return 1 if dominates(a["F"], b["F"]) else -1 if dominates(b["F"], a["F"]) else 0


# rule(a, b) -> 1 if a must win, -1 if b must win, 0 if either may

def cv_then(*keys):
    def rule(a, b):
        if a["cv"] > 0 or b["cv"] > 0:
            return smaller(a, b, "cv")
        for k in keys:
            r = k(a, b)
            if r:
                return r
        return 0
    return rule


crowding = lambda a, b: -smaller(a, b, "crowding")
rank = lambda a, b: smaller(a, b, "rank")


def ctaea(a, b):
    if a["cv"] > 0 and b["cv"] > 0:
        return 0
    if a["cv"] > 0 or b["cv"] > 0:
        return -1 if a["cv"] > 0 else 1
    return dom(a, b)


def unsga3(a, b):
    if a["niche"] != b["niche"]:
        return 0
    return rank(a, b) or smaller(a, b, "dist_to_niche")


def rules():
    """name -> (selection, spec, attributes, single objective, what the algorithm provides)"""
    from pymoo.algorithms.moo.ctaea import comp_by_cv_dom_then_random
    from pymoo.algorithms.moo.nsga2 import binary_tournament
    from pymoo.algorithms.moo.nsga3 import comp_by_cv_then_random
    from pymoo.algorithms.moo.sms import cv_and_dom_tournament
    from pymoo.algorithms.moo.spea2 import spea_binary_tournament
    from pymoo.algorithms.moo.unsga3 import comp_by_rank_and_ref_line_dist
    from pymoo.algorithms.soo.nonconvex.ga import comp_by_cv_and_fitness
    from pymoo.algorithms.soo.nonconvex.ga_niching import comp_by_cv_and_clearing_fitness
    from pymoo.operators.control import age_binary_tournament
    inf = float("inf")
    CV = [0.0, 1e-9, 1.0]
    F2 = [(0.0, 0.0), (0.0, 1.0), (1.0, 0.0), (1.0, 1.0), (0.5, 0.5)]
    F1 = [(0.0,), (1.0,), (1.0 + 1e-12,), (-1.0,)]
    R, CD = [0, 1], [0.0, 0.5, inf]
    return {
        "nsga2-dom": (binary_tournament, cv_then(dom, crowding), dict(cv=CV, F=F2, rank=R, crowding=CD), "comp_by_dom_and_crowding"),
        "nsga2-rank": (binary_tournament, cv_then(rank, crowding), dict(cv=CV, F=F2[:2], rank=R + [2], crowding=CD), "comp_by_rank_and_crowding"),
        "ga": (comp_by_cv_and_fitness, cv_then(lambda a, b: smaller(a, b, "F")), dict(cv=CV + [2.0], F=F1), None),
        "nsga3": (comp_by_cv_then_random, cv_then(), dict(cv=CV + [2.0], F=F2), None),
        "unsga3": (comp_by_rank_and_ref_line_dist, cv_then(unsga3), dict(cv=CV, niche=[0, 1], rank=R + [2], dist_to_niche=[0.0, 0.25, 2.0]), None),
        "ctaea": (comp_by_cv_dom_then_random, ctaea, dict(cv=CV + [2.0], F=F2), None),
        "sms": (cv_and_dom_tournament, cv_then(dom), dict(cv=CV + [2.0], F=F2), None),
        "spea2": (spea_binary_tournament, cv_then(lambda a, b: smaller(a, b, "SPEA_F")), dict(cv=CV, F=F2[:2], SPEA_F=[0.0, 0.5, 1.0, 7.25]), None),
        "clearing": (comp_by_cv_and_clearing_fitness, cv_then(lambda a, b: smaller(a, b, "iter"), rank), dict(cv=CV, iter=[0, 1, 2], rank=R + [5]), None),
        "age": (age_binary_tournament, lambda a, b: -smaller(a, b, "n_gen"), dict(n_gen=[1, 2, 10]), None),
    }


def outside():
    s = np.random.get_state()
    return (s[1].tobytes(), s[2], random.getstate())


def u_rule(ctx, name):
    from pymoo.operators.selection.tournament import TournamentSelection
    func, spec, attrs, ttype = rules()[name]
    grid = [dict(zip(attrs, v)) for v in itertools.product(*attrs.values())]
    for a, b in itertools.product(grid, repeat=2):
        pop = population([a, b])
        want = spec(dict(dict(cv=0.0), **a), dict(dict(cv=0.0), **b))
        won = set()

        def run(o):
            rng = ScriptRNG(o)
            # the algorithm's own generator is the generator of the run
            algo = SimpleNamespace(tournament_type=ttype, random_state=rng)
            before = outside()
            w = TournamentSelection(func_comp=func).do(None, pop, 1, 1, to_pop=False, algorithm=algo, random_state=rng)
            ctx.trans()
            ctx.state()
            ctx.check(outside() == before, "generator", "a tournament draws from another generator", rule=name, a=a, b=b)
            if ctx.check(np.shape(w) == (1, 1) and int(w[0, 0]) in (0, 1), "member", "the winner takes no part in the tournament", rule=name, winner=w, a=a, b=b):
                won.add(int(w[0, 0]))
        explore(run, max_dev=3)
        expect = {0} if want == 1 else {1} if want == -1 else {0, 1}
        ctx.check(won == expect, "winner", "a tournament between %s and %s is won by %s instead of %s" % (a, b, sorted(won), sorted(expect)), rule=name)
        ctx.outcome(name, want)


def counts_ok(idx, n):
    c = Counter(int(i) for i in idx)
    k, r = divmod(len(idx), n)
    # every solution equally often, in an unfinished last pass at most once more
    return all(0 <= i < n for i in c) and all(c[i] in ((k, k + 1) if r else (k,)) for i in range(n)) and all(len(set(idx[j:j + n])) == len(idx[j:j + n]) for j in range(0, len(idx), n))


def u_tournament(ctx, n_pop, dev):
    from pymoo.operators.selection.tournament import TournamentSelection
    pop = population([dict(F=(float(i),)) for i in range(n_pop)])
    for n_select, n_parents, pressure in itertools.product((1, 2, 3), (1, 2, 3), (1, 2, 3)):
        seen = set()
        total = n_select * n_parents * pressure

        def run(o):
            asked = []

            def first(pop_, P, **kw):
                asked.append((pop_, np.array(P)))
                return P[:, :1] if pressure == 1 else P.min(axis=1)[:, None]
            rng = ScriptRNG(o)
            before = outside()
            sel = TournamentSelection(func_comp=first, pressure=pressure)
            to_pop = len(o.prefix) % 2 == 1
            S = sel(None, pop, n_select, n_parents, to_pop=to_pop, random_state=rng)
            ctx.trans()
            ctx.state()
            d = dict(n_pop=n_pop, n_select=n_select, n_parents=n_parents, pressure=pressure, choices=o.choices)
            ctx.check(outside() == before, "generator", "selection draws from another generator", **d)
            if not ctx.check(np.shape(S) == (n_select, n_parents), "shape", "%s parents are selected instead of %s" % (np.shape(S), (n_select, n_parents)), **d):
                return
            P = np.concatenate([a[1] for a in asked])
            ctx.check(all(a[0] is pop for a in asked) and P.shape == (n_select * n_parents, pressure), "tournaments", "%s tournaments are held" % (P.shape,), **d)
            flat = [int(i) for i in P.ravel()]
            ctx.check(counts_ok(flat, n_pop), "passes", "the solutions do not take part equally often: %s" % flat, **d)
            winners = [int(i) for i in P.min(axis=1)]
            if to_pop:
                ctx.check(all(a is pop[w] for a, w in zip(S.ravel(), winners)), "winners", "the parents are not the winners of the tournaments", **d)
            else:
                ctx.check([int(i) for i in S.ravel()] == winners, "winners", "the parents are not the winners of the tournaments", **d)
            seen.add(tuple(flat))
            ctx.outcome(n_select, n_parents, pressure, flat)
        explore(run, max_dev=dev)
        if total <= 3 and n_pop <= 4:
            want = set(itertools.permutations(range(n_pop), total)) if total <= n_pop else None
            if want is not None:
                ctx.check(seen == want, "reachable", "%d of %d orders of the solutions can be drawn" % (len(seen), len(want)), n_pop=n_pop, n_select=n_select, n_parents=n_parents, pressure=pressure)
        ctx.trace()


def u_random(ctx, n_pop, dev):
    from pymoo.operators.selection.rnd import RandomSelection
    pop = population([dict(F=(float(i),)) for i in range(n_pop)])
    for n_select, n_parents in itertools.product((1, 2, 3, 5), (1, 2, 3, 4)):
        seen = set()

        def run(o):
            rng = ScriptRNG(o)
            before = outside()
            S = RandomSelection()(None, pop, n_select, n_parents, to_pop=False, random_state=rng)
            ctx.trans()
            ctx.state()
            d = dict(n_pop=n_pop, n_select=n_select, n_parents=n_parents, choices=o.choices)
            ctx.check(outside() == before, "generator", "selection draws from another generator", **d)
            if not ctx.check(np.shape(S) == (n_select, n_parents), "shape", "%s parents are selected instead of %s" % (np.shape(S), (n_select, n_parents)), **d):
                return
            flat = [int(i) for i in np.ravel(S)]
            ctx.check(counts_ok(flat, n_pop), "passes", "the solutions are not used equally often: %s" % flat, **d)
            seen.add(tuple(flat))
            ctx.outcome(n_select, n_parents, flat)
        explore(run, max_dev=dev)
        total = n_select * n_parents
        if total <= min(3, n_pop) and n_pop <= 4:
            ctx.check(len(seen) == len(list(itertools.permutations(range(n_pop), total))), "reachable", "only %d sets of parents can be drawn" % len(seen), n_pop=n_pop, n_select=n_select, n_parents=n_parents)


def u_des(ctx, variant, dev, n_pop, n_diffs):
    from pymoo.operators.selection.des import DES
    if True:
        ranks = [(3 * i) % n_pop // 2 for i in range(n_pop)]
        for with_rank in (True, False):
            pop = population([dict(F=(float(i),), **(dict(rank=ranks[i]) if with_rank else {})) for i in range(n_pop)])
            n_parents = 2 + 2 * n_diffs
            rk = ranks if with_rank else list(range(n_pop))
            for seed in range(4):
                def run(o):
                    rng = MixRNG(o, seed)
                    before = outside()
                    P = np.asarray(DES(variant)(None, pop, n_pop, n_parents, to_pop=False, random_state=rng))
                    ctx.trans()
                    ctx.state()
                    d = dict(variant=variant, n_pop=n_pop, n_parents=n_parents, seed=seed, choices=o.choices[:40], parents=P)
                    ctx.check(outside() == before, "generator", "selection draws from another generator", **d)
                    if not ctx.check(P.shape == (n_pop, n_parents) and np.issubdtype(P.dtype, np.integer) and P.min() >= 0 and P.max() < n_pop, "de:valid", "the parents are no indices of solutions", **d):
                        return
                    ctx.check(P[:, 0].tolist() == list(range(n_pop)), "de:target", "the first parents are not all solutions in order", **d)
                    for i, row in enumerate(P.tolist()):
                        if variant in ("rand", "ranked"):
                            fresh, other = row[1:], [row[0]]
                        elif variant == "best":
                            ctx.check(row[1] == 0, "de:best", "the base is not the best solution", **d)
                            fresh, other = row[2:], row[:2]
                        else:
                            ctx.check(row[1] == i and row[3] == i, "de:current", "the base is not the current solution", **d)
                            if variant == "current-to-best":
                                ctx.check(row[2] == 0, "de:best", "the direction does not lead to the best solution", **d)
                                fresh, other = row[4:], row[:4]
                            else:
                                fresh, other = [row[2]] + row[4:], [i]
                        ctx.check(len(set(fresh)) == len(fresh) and not set(fresh) & set(other), "de:distinct", "solutions are used twice", **d)
                        if variant == "ranked":
                            r = [rk[j] for j in row[1:]]
                            ctx.check(r[0] == min(r) and all(r[j] <= r[j + 1] for j in range(1, len(r), 2)), "de:ranked", "the solutions are not arranged by rank: %s" % r, **d)
                    ctx.outcome(variant, P.tolist())
                explore(run, max_dev=dev, max_points=18)


def u_others(ctx, dev):
    from pymoo.algorithms.moo.moead import NeighborhoodSelection
    from pymoo.algorithms.soo.nonconvex.brkga import EliteBiasedSelection
    # neighbourhoods
    nb = [[0, 1, 2], [1, 0, 3], [2, 4, 3], [3, 1, 4]]
    pop = population([dict(F=(float(i),)) for i in range(5)])
    for prob, n_sel, n_par in itertools.product((0.0, 0.5, 1.0), (1, 2), (1, 2, 3)):
        def run(o):
            rng = ScriptRNG(o, levels=[0.5 - 1e-9, 0.5, 0.999999, 0.0])
            P = np.asarray(NeighborhoodSelection(prob=prob)(None, pop, n_sel, n_par, to_pop=False, neighbors=nb[:n_sel], random_state=rng))
            ctx.trans()
            ctx.state()
            d = dict(prob=prob, n_select=n_sel, n_parents=n_par, choices=o.choices, parents=P)
            if not ctx.check(P.shape == (n_sel, n_par) and P.min() >= 0 and P.max() < 5, "nb:valid", "the parents are no indices of solutions", **d):
                return
            ctx.check(all(len(set(r)) == n_par for r in P.tolist()), "nb:distinct", "a parent is used twice", **d)
            if prob == 1.0:
                ctx.check(all(set(r) <= set(nb[i]) for i, r in enumerate(P.tolist())), "nb:inside", "parents come from outside of the neighbourhood", **d)
            seen.update((i, tuple(r)) for i, r in enumerate(P.tolist()))
            ctx.outcome("neighbourhood", prob, P.tolist())
        seen = set()
        explore(run, max_dev=4)
        for i in range(n_sel):
            got = {r for k, r in seen if k == i}
            want = set(itertools.permutations(nb[i] if prob == 1.0 else range(5), n_par))
            ctx.check(got == want, "nb:reachable", "%d of %d sets of parents can be drawn" % (len(got), len(want)), prob=prob, n_select=n_sel, n_parents=n_par)
    # one elite and one other
    for types in itertools.product(("elite", "non_elite"), repeat=4):
        if "elite" not in types:
            continue
        pop = population([dict(F=(float(i),), type=t) for i, t in enumerate(types)])
        E = [i for i, t in enumerate(types) if t == "elite"]
        N = [i for i, t in enumerate(types) if t != "elite"] or E
        for n_sel in (1, 2, 3):
            seen = set()

            def run(o):
                P = np.asarray(EliteBiasedSelection()(None, pop, n_sel, 2, to_pop=False, random_state=ScriptRNG(o)))
                ctx.trans()
                ctx.state()
                ctx.check(P.shape == (n_sel, 2) and all(a in E and b in N for a, b in P.tolist()), "elite", "the parents are not one elite and one other solution: %s" % P.tolist(), types=types)
                seen.update(map(tuple, P.tolist()))
                ctx.outcome("elite", types, P.tolist())
            explore(run, max_dev=3)
            ctx.check(seen == set(itertools.product(E, N)), "elite:reachable", "not every pair can be drawn", types=types)


def u_restricted(ctx, part, parts, dev):
    """C-TAEA mates the convergence and the diversity archive."""
    from pymoo.algorithms.moo.ctaea import RestrictedMating
    from pymoo.core.population import Population
    G = [(0.0, 2.0), (1.0, 1.0), (2.0, 0.0), (2.0, 2.0)]
    for j, Fs in enumerate(itertools.product(range(4), repeat=4)):
        if j % parts != part:
            continue
        F = [G[i] for i in Fs]
        n = 2
        pop = population([dict(F=f) for f in F])
        nd = [not any(dominates(g, f) for g in F) for f in F]
        Pc, Pd = sum(nd[:n]) / len(F), sum(nd[n:]) / len(F)
        for n_sel in (1, 2):
            def run(o):
                asked = []

                def first(pop_, P, **kw):
                    asked.append(np.array(P))
                    return P[:, :1]
                rng = ScriptRNG(o, levels=[0.3, 0.6, 0.1, 0.5, 0.25, 0.999])
                drawn = []
                orig = rng.random

                def spy(*a, **k):
                    r = orig(*a, **k)
                    drawn.append(np.array(r))
                    return r
                rng.random = spy
                S = np.asarray(RestrictedMating(func_comp=first)(None, pop, n_sel, 2, to_pop=False, random_state=rng))
                ctx.trans()
                ctx.state()
                P = asked[0]
                d = dict(F=F, n_select=n_sel, choices=o.choices, tournaments=P)
                if not ctx.check(S.shape == (n_sel, 2) and P.min() >= 0 and P.max() < len(F), "ctaea:valid", "the parents are no indices of solutions", **d):
                    return
                same = (P < n).all(axis=1) | (P >= n).all(axis=1)
                ctx.check(same.all(), "ctaea:mixed", "a tournament is held between different archives", **d)
                da = (P >= n).all(axis=1)
                ctx.check((da[0::2] == (Pc <= Pd)).all(), "ctaea:first", "the first parent does not come from the better converged archive", shares=(Pc, Pd), **d)
                pf = np.ravel(drawn[-1]) if drawn else np.zeros(0)
                if len(pf) == n_sel:
                    ctx.check((da[1::2] == (pf >= Pc)).all(), "ctaea:second", "the second parent does not come from the archive drawn", share=Pc, drawn=pf, **d)
                ctx.outcome(Fs, da.tolist())
            explore(run, max_dev=dev)


def u_omni(ctx, n, part, parts):
    from pymoo.algorithms.moo.omni import NeighborBasedTournamentSelection
    for j, xs in enumerate(itertools.product((0.0, 0.4, 1.0), (0.0, 20.0), repeat=n)):
        if j % parts != part:
            continue
        X = np.array(xs).reshape(n, 2)
        pop = population([dict(F=(float(i),), X=X[i]) for i in range(n)])
        span = X.max(axis=0) - X.min(axis=0)
        Z = (X - X.min(axis=0)) / np.where(span == 0, 1, span)
        for n_sel, n_par in ((1, 2), (2, 2)):
            def run(o):
                asked = []

                def first(pop_, P, **kw):
                    asked.append(np.array(P))
                    return P[:, 1:]
                S = np.asarray(NeighborBasedTournamentSelection(func_comp=first)(None, pop, n_sel, n_par, to_pop=False, random_state=ScriptRNG(o)))
                ctx.trans()
                ctx.state()
                d = dict(X=X, n_select=n_sel, choices=o.choices)
                if not ctx.check(S.shape == (n_sel, n_par) and S.min() >= 0 and S.max() < n, "omni:valid", "the parents are no indices of solutions", **d):
                    return
                if n == 1:
                    return
                P = asked[0]
                per = n // 2
                ctx.check(P[:, 1].tolist() == S.ravel().tolist(), "omni:winner", "the parents are not the winners", **d)
                for s in range(0, len(P), per):
                    chunk = P[s:s + per]
                    ctx.check(len(set(chunk.ravel().tolist())) == chunk.size, "omni:passes", "a solution takes part twice in one pass: %s" % chunk.tolist(), **d)
                    left = set(range(n))
                    for p, q in chunk.tolist():
                        left.discard(p)
                        dist = {r: float(((Z[r] - Z[p]) ** 2).sum()) for r in left}
                        ctx.check(q in dist and dist[q] <= min(dist.values()) + 1e-12, "omni:nearest", "the rival is not the nearest solution left", tournament=(p, q), **d)
                        left.discard(q)
                ctx.outcome(n, xs, S.tolist())
            explore(run, max_dev=2)


# --- complete runs -----------------------------------------------------------------------------------

def u_runs(ctx, names, n_iter):
    """Every selection of a run sees what really holds for the current population."""
    from vmc import zoo
    from vmc.checks.p15 import values_of
    from vmc.refs import fronts
    for name in names:
        for kind in ("plain", "tied", "infeasible", "mixed"):
            a = zoo.by_name(name)
            m = 1 if a.soo else 2
            if kind in ("infeasible", "mixed") and not a.cons:
                continue
            algo = a.make()
            sel = getattr(getattr(algo, "mating", None), "selection", None)
            if sel is None or not hasattr(sel, "func_comp"):
                ctx.outcome(name, "no tournament")
                continue
            # the selection may be the default shared between objects
            sel = algo.mating.selection = copy.copy(sel)
            log = []

            def spy(pop, P, *args, func=sel.func_comp, log=log, **kw):
                S = func(pop, P, *args, **kw)
                log.append((pop, np.array(P), np.array(S)))
                return S
            sel.func_comp = spy
            p = zoo.make_problem(n_var=2, n_obj=m, n_ieq=1 if kind in ("infeasible", "mixed") else 0, values=values_of(kind))
            algo.setup(p, termination=("n_iter", n_iter), seed=1, copy_algorithm=False)
            truth = lambda: {tuple(r[0].tolist()): r for r in p.log}
            while algo.has_next():
                del log[:]
                algo.next()
                ctx.trans()
                T = truth()
                for pop, P, S in log:
                    ctx.state()
                    P2, S2 = P.reshape(len(P), -1), S.ravel().astype(int)
                    d = dict(algorithm=name, kind=kind, iteration=algo.n_iter)
                    ctx.check(len(P2) == len(S2) and all(s in r for s, r in zip(S2.tolist(), P2.tolist())), "run:member", "a winner takes no part in its tournament", **d)
                    F = np.array([np.ravel(i.F) for i in pop], dtype=float)
                    cv = [float(np.ravel(i.CV)[0]) for i in pop]
                    stale = [i for i, ind in enumerate(pop) if tuple(np.asarray(ind.X).tolist()) in T and not np.array_equal(np.ravel(T[tuple(np.asarray(ind.X).tolist())][1]), F[i])]
                    ctx.check(not stale, "run:stale", "a tournament compares values the solutions do not have", **d)
                    ranks = None
                    if all(c <= 0 for c in cv) and name.startswith("NSGA2") and m > 1:
                        fr = fronts(F)
                        ranks = {i: k for k, f in enumerate(fr) for i in f}
                        got = [i.get("rank") for i in pop]
                        ctx.check(got == [ranks[i] for i in range(len(pop))], "run:rank", "the ranks compared are not those of the population", got=got, **d)
                    for s, r in zip(S2.tolist(), P2.tolist()):
                        for o in r:
                            if o != s:
                                bad = cv[o] <= 0 < cv[s] or (name != "CTAEA" and cv[o] < cv[s] and cv[s] > 0)
                                ctx.check(not bad, "run:feasible", "a solution with violation %g beats one with %g" % (cv[s], cv[o]), **d)
                                if cv[o] <= 0 and cv[s] <= 0 and m == 1 and name in ("GA", "GA-ss"):
                                    ctx.check(not F[o][0] < F[s][0], "run:fitness", "a solution with %g beats one with %g" % (F[s][0], F[o][0]), **d)
                                if cv[o] <= 0 and cv[s] <= 0 and name in ("NSGA2", "NSGA2-ss", "CTAEA", "SMSEMOA"):
                                    ctx.check(not dominates(F[o], F[s]), "run:dominated", "a dominated solution wins", **d)
                    ctx.outcome(name, kind, algo.n_iter, P2.tolist(), S2.tolist())
            ctx.trace()


def units(tier):
    deep = tier == "thorough"
    U = [("u_rule", dict(name=n)) for n in rules()]
    U += [("u_tournament", dict(n_pop=n, dev=4 if deep else 3)) for n in range(1, 6 if deep else 5)]
    U += [("u_random", dict(n_pop=n, dev=4 if deep else 3)) for n in range(1, 6 if deep else 5)]
    U += [("u_des", dict(variant=v, dev=3 if deep and n == 6 else 2, n_pop=n, n_diffs=k)) for v in ("rand", "best", "ranked", "current-to-best", "current-to-rand") for n, k in ((6, 1), (7, 2), (9, 2)) if k > 1 or "-to-" not in v]
    U += [("u_others", dict(dev=4 if deep else 3))]
    U += [("u_restricted", dict(part=i, parts=8, dev=4 if deep else 3)) for i in range(8)]
    U += [("u_omni", dict(n=n, part=i, parts=4)) for n in ((1, 2, 3, 4) if deep else (1, 2, 3)) for i in range(4)]
    from vmc import zoo
    names = [a.name for a in zoo.all_algorithms()]
    U += [("u_runs", dict(names=names[i::8], n_iter=8 if deep else 4)) for i in range(8)]
    return U


def warm():
    from vmc.checks.p04 import warm as w
    w()
