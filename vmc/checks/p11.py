"""P11: archives as a state machine: every sequence of additions; complete runs with an archive."""

import itertools

import numpy as np

PROPERTY = "P11"
RULE = ("an execution is one addition to an archive (or one complete run with an archive), judged against the definition applied to everything added; outcomes are distinct "
        "archive contents")
BOUNDS = {
    "quick": "every sequence of 4 additions from 16 batches (single solutions, pairs, whole sets, empty) of 9 solutions (dominating, incomparable, tied in F, equal designs, infeasible) x two- and three-objective and "
             "single-objective archives x capacities {unlimited,1,2,3} x truncation (random, crowding, first) ; default archives; 44 algorithms x feasible/constrained problem x every script of one deviating answer (first 10 rows)",
    "thorough": "as quick with sequences of 5 additions and scripts over 20 rows",
}

# name -> (x, f, cv)
SOLS2 = {
    "a": (1.0, (0.0, 2.0), 0.0), "b": (2.0, (2.0, 0.0), 0.0), "c": (3.0, (1.0, 1.0), 0.0), "d": (4.0, (2.0, 2.0), 0.0), "e": (5.0, (1.0, 1.0), 0.0),
    "A": (1.0, (0.0, 2.0), 0.0), "i": (7.0, (-5.0, -5.0), 2.0), "j": (8.0, (-5.0, -5.0), 1.0), "k": (9.0, (3.0, 3.0), 1.0),
}
SOLS3 = {
    "a": (1.0, (0.0, 2.0, 1.0), 0.0), "b": (2.0, (2.0, 0.0, 1.0), 0.0), "c": (3.0, (1.0, 1.0, 0.0), 0.0), "d": (4.0, (2.0, 2.0, 1.0), 0.0), "e": (5.0, (1.0, 1.0, 0.0), 0.0),
    "A": (1.0, (0.0, 2.0, 1.0), 0.0), "i": (7.0, (-5.0, -5.0, -5.0), 2.0), "j": (8.0, (-5.0, -5.0, -5.0), 1.0), "k": (9.0, (3.0, 3.0, 3.0), 1.0),
}
SOLS1 = {
    "a": (1.0, (1.0,), 0.0), "b": (2.0, (0.5,), 0.0), "c": (3.0, (0.5,), 0.0), "d": (4.0, (2.0,), 0.0), "e": (5.0, (0.25,), 0.0),
    "A": (2.0, (0.5,), 0.0), "i": (7.0, (-5.0,), 2.0), "j": (8.0, (-5.0,), 1.0), "k": (9.0, (3.0,), 1.0),
}
TABLE = {1: SOLS1, 2: SOLS2, 3: SOLS3}
BATCHES = ["", "a", "b", "c", "d", "e", "A", "i", "j", "k", "ab", "aA", "ce", "ij", "jk", "abcdeijk"]


def ind_of(sol):
    from pymoo.core.individual import Individual
    x, f, cv = sol
    ind = Individual(X=np.array([x]), F=np.array(f, float), G=np.array([cv if cv > 0 else -1.0]))
    ind.evaluated.update({"F", "G", "H"})
    return ind


def pop_of(names, m):
    from pymoo.core.population import Population
    return Population.create(*[ind_of(TABLE[m][n]) for n in names])


def dominates(a, b):
    return all(x <= y for x, y in zip(a, b)) and any(x < y for x, y in zip(a, b))


def best(sols):
    """Definition: the distinct, feasible, mutually non-dominated ones; the least violating ones if nothing is feasible."""
    feas = [s for s in sols if s[2] <= 0]
    if feas:
        keep = [s for s in feas if not any(dominates(t[1], s[1]) for t in feas)]
    elif sols:
        m = min(s[2] for s in sols)
        keep = [s for s in sols if s[2] == m]
    else:
        keep = []
    return {s[0]: s for s in keep}       # distinct designs


def contents(arch):
    out = []
    for ind in arch:
        out.append((float(ind.X[0]), tuple(float(v) for v in ind.F), max(0.0, float(ind.CV[0]))))
    return out


class First:
    def __call__(self, sols, k, **kw):
        return sols[:k]


def make_archive(m, cap, trunc):
    from pymoo.operators.survival.rank_and_crowding import RankAndCrowding
    from pymoo.core.problem import Problem
    from pymoo.util.archive import MultiObjectiveArchive, RandomTruncation, SingleObjectiveArchive, SurvivalTruncation
    kw = {}
    if trunc == "first":
        kw["truncation"] = First()
    elif trunc == "crowding":
        kw["truncation"] = SurvivalTruncation(RankAndCrowding(), problem=Problem(n_var=1, n_obj=m, n_ieq_constr=1, xl=0.0, xu=10.0))
    size, tsize = cap
    if m == 1:
        if tsize is not None:
            kw["truncate_size"] = tsize
        return SingleObjectiveArchive(max_size=size, **kw)
    if tsize == "default":
        return MultiObjectiveArchive(max_size=size, **kw)
    return MultiObjectiveArchive(max_size=size, truncate_size=tsize, **kw)


def u_add(ctx, m, cap, trunc, depth, first):
    size, tsize = cap
    lim = size if tsize in (None, "default") or size is None else min(size, tsize)
    seen = {}
    for tail in itertools.product(BATCHES, repeat=depth - 1):
        seq = (first,) + tail
        arch = make_archive(m, cap, trunc)
        every, truncated = [], False
        d = dict(sequence=seq, objectives=m, capacity=size, truncation=trunc)
        ctx.state()
        for k, b in enumerate(seq):
            before = contents(arch)
            batch = pop_of(b, m)
            frozen = contents(batch)
            old = arch
            new = arch.add(batch)
            ctx.trans()
            got = contents(new)
            added = [TABLE[m][n] for n in b]
            every += added
            ref = best(before + added)
            if contents(old) != before or contents(batch) != frozen:
                ctx.viol("add:mutated", "adding to an archive changed the previous archive or the added population", step=k, **d)
            xs = [g[0] for g in got]
            if len(set(xs)) != len(xs):
                ctx.viol("add:distinct", "an archive holds two equal designs", step=k, got=got, **d)
            if any(g not in ref.values() for g in got):
                ctx.viol("add:foreign", "an archive holds a solution that is infeasible, dominated or was never added", step=k, got=got, expect=sorted(ref), **d)
            if size is None or len(ref) <= size:
                if set(xs) != set(ref):
                    ctx.viol("add:lost", "the archive lost a solution although it is not full", step=k, got=got, expect=sorted(ref), **d)
                if not truncated and set(xs) != set(best(every)):
                    ctx.viol("add:global", "the archive is not the non-dominated set of everything added", step=k, got=got, expect=sorted(best(every)), **d)
            else:
                truncated = True
                if len(got) != lim or len(got) > size:
                    ctx.viol("add:capacity", "a full archive keeps %d of at most %d solutions" % (len(got), lim), step=k, got=got, **d)
            if new.max_size != size or type(new) is not type(old):
                ctx.viol("add:settings", "the archive lost its settings", step=k, **d)
            arch = new
        ctx.trace()
        ctx.outcome(m, size, tuple(sorted(contents(arch))))
    ctx.sample({"m": m, "capacity": size, "first": first})


def u_default(ctx, m):
    """The archives built by default_archive obey the same definition and their capacity."""
    from pymoo.core.population import Population
    from pymoo.core.problem import Problem
    from pymoo.util.archive import default_archive
    problem = Problem(n_var=1, n_obj=m, n_ieq_constr=1, xl=0.0, xu=10.0)
    rows = [s for s in TABLE[m].values()]
    for cap, tr in ((1, 1), (2, 2), (2, 1), (3, 3), (10, 10)):
        for seq in itertools.product(BATCHES[1:], repeat=2):
            kw = dict(max_size=cap)
            kw["truncate_size"] = tr
            arch = default_archive(problem, **kw)
            ctx.state()
            for b in seq:
                before = contents(arch)
                new = arch.add(pop_of(b, m))
                ctx.trans()
                ref = best(before + [TABLE[m][n] for n in b])
                got = contents(new)
                xs = [g[0] for g in got]
                n = len(ref) if len(ref) <= cap else tr
                if len(set(xs)) != len(xs) or not set(xs) <= set(ref) or len(got) != n:
                    ctx.viol("default:%d" % m, "a default archive does not hold the non-dominated set within its capacity", sequence=seq, capacity=cap, got=got, expect=sorted(ref))
                arch = new
            ctx.trace()
            ctx.outcome(m, tuple(sorted(contents(arch))))


def u_run(ctx, name, cons, rows, mode):
    from pymoo.optimize import minimize
    from pymoo.util.archive import MultiObjectiveArchive, SingleObjectiveArchive
    from vmc import zoo
    a = zoo.by_name(name)
    m = 1 if a.soo else 2
    if name == "MOPSO_CD":      # keeps its own archive; give it room for everything
        from pymoo.algorithms.moo.mopso_cd import MOPSO_CD
        a.make = lambda **k: MOPSO_CD(**k, pop_size=4, archive_size=200)
    for script in zoo.scripts(rows, ["good", "tie", "best0"] + (["infeas", "feas"] if cons else []), 1):
        problem = zoo.make_problem(n_var=a.n_var, n_obj=m, n_ieq=1 if cons else 0, script=script, values=zoo.infeasible_values if cons else zoo.base_values)
        arch = SingleObjectiveArchive(max_size=1000) if m == 1 else MultiObjectiveArchive(max_size=1000)
        d = dict(algorithm=name, script=script, constrained=cons)
        if mode == "minimize":
            res = minimize(problem, a.make(), ("n_iter", 4), seed=1, archive=arch)
            final = res.archive
        else:
            algo = a.make()
            seen, told = [], None

            def look(algorithm):
                seen.append((len(problem.log), ["callback", algorithm.archive]))
            algo.setup(problem, termination=("n_iter", 4), seed=1, archive=arch, callback=look, save_history=True)
            while algo.has_next():
                infills = algo.ask()
                if infills is not None:
                    algo.evaluator.eval(problem, infills, algorithm=algo)
                    told = algo.tell(infills=infills)
                else:
                    told = algo.tell()
            final = algo.archive
            # what an observer of an iteration sees contains the solutions of that iteration
            views = seen + [(n, ["history", h.archive]) for (n, _), h in zip(seen, algo.history)]
            if hasattr(told, "archive"):
                views.append((len(problem.log), ["result", told.archive]))
            for n, (where, view) in views:
                sofar = {x.tobytes(): (x.tobytes(), tuple(f), max(0.0, float(g[0])) if cons else 0.0) for x, f, g, h in problem.log[:n]}
                want = set(best(list(sofar.values())))
                have = [np.asarray(i.X, float).tobytes() for i in view]
                ctx.trans()
                if set(have) != want or len(set(have)) != len(have):
                    ctx.viol("run:%s:%s" % (where, name), "the archive seen in an iteration (%s) holds %d solutions, %d of them wrong, and misses %d" % (
                        where, len(have), len(set(have) - want), len(want - set(have))), evaluated=n, **d)
                    break
        ctx.state()
        ctx.trace()
        ctx.trans(4)
        if len(arch) != 0:
            ctx.viol("run:passed:%s" % name, "the archive that was passed in has been changed", **d)
        every = {}
        for x, f, g, h in problem.log:
            every[x.tobytes()] = (x.tobytes(), tuple(f), max(0.0, float(g[0])) if cons else 0.0)
        ref = best(list(every.values()))
        got = [np.asarray(ind.X, float).tobytes() for ind in final]
        ctx.outcome(name, len(got))
        if set(got) != set(ref) or len(set(got)) != len(got):
            ctx.viol("run:%s" % name, "after a run the archive holds %d solutions, %d of them wrong, and misses %d of the non-dominated set of all evaluated solutions" % (
                len(got), len(set(got) - set(ref)), len(set(ref) - set(got))), **d)
        for ind in final:
            k = np.asarray(ind.X, float).tobytes()
            if k in every and tuple(np.asarray(ind.F)) != every[k][1]:
                ctx.viol("run:values:%s" % name, "an archived solution does not carry its evaluated values", **d)


def units(tier):
    from vmc import zoo
    q = tier == "quick"
    U = []
    d = 4 if q else 5
    for m in (1, 2):
        for cap in ((None, None), (1, 1), (2, 2), (3, 2)):
            for trunc in ("random", "first"):
                if cap[0] is None and trunc == "first":
                    continue
                for b in BATCHES[1:]:
                    U.append(("u_add", dict(m=m, cap=list(cap), trunc=trunc, depth=d - 1 if (m == 1 or cap[0] == 1) else d, first=b)))
    for b in BATCHES[1:]:
        U.append(("u_add", dict(m=3, cap=[None, None], trunc="first", depth=3, first=b)))
        U.append(("u_add", dict(m=2, cap=[2, "default"], trunc="crowding", depth=3, first=b)))
        U.append(("u_add", dict(m=2, cap=[None, "default"], trunc="first", depth=2, first=b)))
    for m in (1, 2, 3):
        U.append(("u_default", dict(m=m)))
    for a in zoo.all_algorithms():
        if a.name in ("CMAES", "DNSGA2"):   # re-samples values / evaluates internally for changing problems
            continue
        for cons in ((False, True) if a.cons else (False,)):
            U.append(("u_run", dict(name=a.name, cons=cons, rows=10 if q else 20, mode="minimize" if cons else "setup")))
    return U
