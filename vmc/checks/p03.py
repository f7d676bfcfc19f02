"""P03: a single-objective search never forgets the best solution it has evaluated."""

import numpy as np

from vmc import zoo
from vmc.monitor import score

PROPERTY = "P03"
RULE = ("an execution is one iteration of one run of one elitist single-objective algorithm against one scripted "
        "environment, judged against the best of ALL rows answered so far; outcomes are distinct (algorithm, best-so-far trace)")
BOUNDS = {
    "quick": "15 single-objective configurations, populations 2-7, 4 iterations, no, one or two inequality, one equality, one inequality and two equality constraints, feasible or "
             "infeasible by default; every placement of <=1 deviation of 8 answer classes (incl. improvements by 1e-8 and violations that differ by 0.01) over all rows and of 2 deviations of 3 classes over the first 14 rows",
    "thorough": "as quick with every placement of <=2 deviations of all classes over all rows, seeds 1-2",
}
ALTS0 = ["good", "bad", "tie", "inf", "hair"]
ALTS1 = ["infeas", "slight", "feas", "edge", "good", "deep", "split", "close"]


def opt_score(algo):
    return min(score(i.F, i.G if i.G is not None else [], i.H if i.H is not None else []) for i in algo.opt)


def worse(a, b):
    return a[0] > b[0] or (a[0] == b[0] and a[1] > b[1] + 1e-12 * max(1.0, abs(b[1])))


def run_one(ctx, a, ieq, eq, vals, script, n_iter, seed):
    p = zoo.make_problem(a.n_var, 1, ieq, eq, script=script, values=vals)
    ctx.state()
    st = {"it": 0, "trace": []}

    def on_step(al, i):
        if a.loop and al.n_iter == st["it"]:
            return
        st["it"] = al.n_iter
        ctx.trans()
        if al.opt is None or len(al.opt) == 0:
            ctx.viol("%s:noopt" % a.name, "no optimum after an iteration", script=script)
            return
        got, best = opt_score(al), min(score(*r[1:]) for r in p.log)
        if worse(got, best):
            ctx.viol("%s:lost" % a.name, "best evaluated so far is %s, the algorithm reports %s (iteration %d)" % (best, got, al.n_iter - 1),
                     script=script, ieq=ieq, eq=eq, seed=seed)
        if st["trace"] and worse(got, st["trace"][-1]):
            ctx.viol("%s:monotone" % a.name, "the reported optimum got worse: %s -> %s" % (st["trace"][-1], got), script=script)
        st["trace"].append(got)

    algo = zoo.drive(a, p, n_iter, on_step=on_step, seed=seed, return_least_infeasible=True)
    res = algo.result()
    best = min(score(*r[1:]) for r in p.log)
    F = np.atleast_2d(res.F)
    CV = np.atleast_1d(res.CV)
    got = min((0, float(f[0])) if np.all(np.atleast_1d(c) <= 0) else (1, float(np.atleast_1d(c)[0])) for f, c in zip(F, np.atleast_2d(CV).reshape(len(F), -1)))
    if worse(got, best) and not a.loop:
        ctx.viol("%s:result" % a.name, "the result reports %s although %s was evaluated" % (got, best), script=script)
    ctx.trace()
    ctx.outcome(a.name, st["trace"])
    return len(p.log)


def u_run(ctx, name, ieq, eq, infeasible, n_iter, d1, d2, rows2, seed):
    a = zoo.by_name(name)
    vals = zoo.infeasible_values if infeasible else None
    n = run_one(ctx, a, ieq, eq, vals, {}, n_iter, seed)
    for s in list(zoo.scripts(n, d1, 1))[1:]:
        run_one(ctx, a, ieq, eq, vals, s, n_iter, seed)
    for s in zoo.scripts(min(n, rows2), d2, 2):
        if len(s) == 2:
            run_one(ctx, a, ieq, eq, vals, s, n_iter, seed)


def units(tier):
    T = tier == "thorough"
    U = []
    for a in zoo.soo():
        if not a.elite:
            continue
        for ieq, eq, inf in ((0, 0, False), (1, 0, False), (1, 0, True), (0, 1, True), (2, 0, True), (1, 2, True)):
            if (ieq or eq) and not a.cons:
                continue
            d1 = ALTS1 if (ieq or eq) else ALTS0
            d2 = d1 if T else (["deep", "close", "split"] if ieq + eq > 1 else ["infeas", "feas", "good"] if (ieq or eq) else ["good", "hair", "tie"])
            for seed in ((1, 2) if T else (1,)):
                U.append(("u_run", dict(name=a.name, ieq=ieq, eq=eq, infeasible=inf, n_iter=4, d1=d1, d2=d2,
                                        rows2=99 if T else 14, seed=seed)))
    return U
