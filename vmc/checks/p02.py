"""P02: whatever the problem answers, the reported optimum is honest."""

import itertools

import numpy as np

from vmc import monitor, zoo

PROPERTY = "P02"
RULE = ("an execution is one complete run of one algorithm against one scripted environment (an answer deviation "
        "assigned to <=depth of the evaluated rows); outcomes are distinct (algorithm, success flag, optimum) results")
BOUNDS = {
    "quick": "every shipped algorithm (45 configurations), populations of 2-7, 3 iterations (<=30 evaluations), 0/1/2 constraints, "
             "feasible or infeasible by default; every placement of <=1 deviation from 10 answer classes over the whole run, every "
             "placement of 2 deviations from 2 classes over the first rows, every pair of answers that differ by a hair in objectives or violation; return_least_infeasible on/off",
    "thorough": "as quick with every placement of <=2 deviations from 10 answer classes and 4 iterations",
}

ALTS0 = ["good", "bad", "tie", "best0", "hair"]
ALTS1 = ["infeas", "slight", "feas", "edge", "good", "bad", "tie", "deep", "split"]


def warm():
    for n in ("AGEMOEA", "AGEMOEA2"):
        a = zoo.by_name(n)
        zoo.drive(a, zoo.make_problem(2, 2), 3)


def check_pop(ctx, a, what, pop, keys, script):
    if pop is None:
        return
    for ind in pop:
        k = monitor.ind_key(ind)
        if k not in keys:
            ctx.viol("%s:%s-values" % (a.name, what), "%s holds a solution whose values the problem never returned for it" % what,
                     script=script, solution=k)
        cv = zoo.cv_ref(k[2], k[3])
        if not np.isclose(float(ind.CV[0]), cv, rtol=1e-12, atol=0) or bool(ind.feas) != (cv <= 0):
            ctx.viol("%s:%s-cv" % (a.name, what), "constraint violation %r / feasibility %r disagrees with the constraint values" % (ind.CV, ind.feas),
                     script=script, solution=k)


def step_check(ctx, a, algo, problem, script, n_obj):
    keys = monitor.log_keys(problem)
    check_pop(ctx, a, "population", algo.pop, keys, script)
    check_pop(ctx, a, "optimum", algo.opt, keys, script)
    ctx.trans()
    opt = algo.opt
    if opt is None or len(opt) == 0:
        ctx.viol("%s:noopt" % a.name, "no optimum is available after an iteration", script=script)
        return
    feas = [bool(i.feas) for i in opt]
    popfeas = any(bool(i.feas) for i in algo.pop)
    if popfeas and not any(feas):
        ctx.viol("%s:feasfirst" % a.name, "the population holds a feasible solution but the optimum has none", script=script)
    if any(feas) and not all(feas):
        ctx.viol("%s:mixed" % a.name, "the optimum mixes feasible and infeasible solutions", script=script)
    F = np.array([i.F for i in opt])
    if any(feas) and a.name == "Omni":
        return      # works, as documented, with a loose (delta-) dominance
    if any(feas) and a.name == "NicheGA":
        # multi-modal by design: reports one solution per niche, the best one must be among them
        best = min(float(p.F[0]) for p in algo.pop if p.feas)
        if F.min() > best:
            ctx.viol("%s:best" % a.name, "the best feasible member of the population is not reported", script=script)
        return
    if any(feas):
        for i in range(len(F)):
            for j in range(len(F)):
                if i != j and monitor.dom(F[i], F[j]):
                    ctx.viol("%s:dominated" % a.name, "the optimum contains a solution dominated by another of its members", script=script, F=F)
        # nothing feasible in the population dominates a member of the optimum
        for p in algo.pop:
            if p.feas:
                for f in F:
                    if monitor.dom(p.F, f):
                        ctx.viol("%s:popdom" % a.name, "a feasible member of the population dominates a reported optimum", script=script,
                                 member=p.F, opt=f)
    else:
        best = min(float(i.CV[0]) for i in algo.pop)
        got = min(float(i.CV[0]) for i in opt)
        if got > best + 1e-12:
            ctx.viol("%s:leastcv" % a.name, "no feasible solution: optimum has violation %r, the population offers %r" % (got, best), script=script)


def final_check(ctx, a, algo, problem, script, n_obj, least):
    res = algo.result()
    ctx.trans()
    opt = algo.opt
    feas = opt is not None and len(opt) > 0 and any(bool(i.feas) for i in opt)
    if bool(res.success) != feas:
        ctx.viol("%s:success" % a.name, "success=%r although the optimum is %sfeasible" % (res.success, "" if feas else "not "), script=script)
    if not isinstance(res.message, str) or not res.message:
        ctx.viol("%s:message" % a.name, "a finished run has no message", script=script)
    if not feas and not least:
        if any(v is not None for v in (res.X, res.F, res.G, res.H, res.CV, res.opt)):
            ctx.viol("%s:reported" % a.name, "nothing feasible was found but the result reports a solution", script=script)
        return
    if res.opt is None or res.X is None or res.F is None:
        ctx.viol("%s:unreported" % a.name, "a solution should be reported but the result is empty", script=script)
        return
    X = np.atleast_2d(np.asarray(res.X, float)).reshape(-1, problem.n_var)
    F = np.asarray(res.F, float).reshape(-1, n_obj)
    G = np.asarray(res.G, float).reshape(len(X), -1) if res.G is not None else np.zeros((len(X), 0))
    CV = np.asarray(res.CV, float).reshape(-1)
    if not (len(X) == len(F) == len(CV) == len(res.opt)):
        ctx.viol("%s:shape" % a.name, "X, F, CV and opt of the result disagree in length: %d %d %d %d" % (len(X), len(F), len(CV), len(res.opt)), script=script)
        return
    keys = {(k[0], k[1], k[2]) for k in monitor.log_keys(problem)}
    for x, f, g, cv, ind in zip(X, F, G, CV, res.opt):
        if (tuple(x), tuple(f), tuple(g)) not in keys:
            ctx.viol("%s:values" % a.name, "the reported X/F/G do not belong to one evaluation of the problem", script=script, x=x, f=f, g=g)
        if not np.array_equal(x, ind.X) or not np.array_equal(f, ind.F) or cv != ind.CV[0]:
            ctx.viol("%s:optrow" % a.name, "X, F, CV of the result differ from the optimum it lists", script=script)
    if problem.n_obj == 1 and len(res.opt) == 1 and np.ndim(res.X) != 1:
        ctx.viol("%s:ndim" % a.name, "a single solution of a single-objective problem is reported as a matrix", script=script)
    if problem.n_obj > 1 and (np.ndim(res.X) != 2 or np.ndim(res.F) != 2):
        ctx.viol("%s:ndim" % a.name, "the solutions of a multi-objective problem are not reported as a matrix", script=script)
    if feas and np.any(CV > 0):
        ctx.viol("%s:infeasible-reported" % a.name, "an infeasible solution is reported although the run succeeded", script=script)
    if not feas:
        best = min(float(i.CV[0]) for i in algo.pop)
        if CV.min() > best + 1e-12:
            ctx.viol("%s:least" % a.name, "the reported least-infeasible solution has violation %r, the population offers %r" % (CV.min(), best), script=script)
    return res


def run_one(ctx, a, ncon, vals, script, n_iter, least, seed=1):
    n_obj = 1 if a.soo else 2
    p = zoo.make_problem(a.n_var, n_obj, ncon, 0, script=script, values=vals)
    ctx.state()
    seen = {"it": 0}

    def on_step(al, i):
        # generator based algorithms publish their optimum at the end of an iteration
        if not a.loop or al.n_iter != seen["it"]:
            step_check(ctx, a, al, p, script, n_obj)
        seen["it"] = al.n_iter

    algo = zoo.drive(a, p, n_iter, on_step=on_step, seed=seed,
                     return_least_infeasible=least)
    final_check(ctx, a, algo, p, script, n_obj, least)
    ctx.trace()
    ctx.outcome(a.name, ncon, len(algo.opt), np.round(algo.opt.get("F"), 6).tolist())
    return len(p.log)


def u_pairs(ctx, name, ncon, infeasible, n_iter, pairs, rows):
    """Two deviations of the same kind (values that differ by a hair, close violations)."""
    a = zoo.by_name(name)
    vals = zoo.infeasible_values if infeasible else None
    for alts in pairs:
        for i, j in itertools.combinations(range(rows), 2):
            run_one(ctx, a, ncon, vals, {i: alts[0], j: alts[1]}, n_iter, True)


def u_run(ctx, name, ncon, infeasible, n_iter, d1, d2, rows2, part=0, parts=1):
    a = zoo.by_name(name)
    vals = zoo.infeasible_values if infeasible else None
    n = run_one(ctx, a, ncon, vals, {}, n_iter, False)
    run_one(ctx, a, ncon, vals, {}, n_iter, True)
    S = list(zoo.scripts(n, d1, 1))[1:] + [s for s in zoo.scripts(min(n, rows2), d2, 2) if len(s) == 2]
    for i, s in enumerate(S):
        if i % parts == part:
            run_one(ctx, a, ncon, vals, s, n_iter, bool(i % 2))


def u_result_all_infeasible(ctx):
    """Every violation pattern of a 3-member optimum through the public result()."""
    import itertools
    from pymoo.core.population import Population
    from pymoo.util.optimum import filter_optimum
    lv = [-1.0, 0.0, 1e-12, 0.5, 2.0]
    for n in (1, 2, 3):
        for gs in itertools.product(lv, repeat=n):
            for fs in itertools.product([0.0, 1.0], repeat=n):
                for m in (1, 2):
                    pop = Population.new(X=np.arange(n, dtype=float)[:, None],
                                         F=np.array([[f] if m == 1 else [f, 1 - f + i % 2] for i, f in enumerate(fs)], float),
                                         G=np.array(gs, float)[:, None])
                    ctx.state()
                    ctx.trans(2)
                    feas = [i for i, g in enumerate(gs) if g <= 0]
                    r = filter_optimum(pop, least_infeasible=True)
                    r2 = filter_optimum(pop)
                    got = sorted(int(v) for v in r.get("X")[:, 0])
                    if not feas:
                        ok = len(got) == 1 and gs[got[0]] == min(gs) and r2 is None
                    elif m == 1:
                        ok = len(got) == 1 and got[0] in feas and fs[got[0]] == min(fs[i] for i in feas)
                    else:
                        Fm = pop.get("F")
                        exp = [i for i in feas if not any(monitor.dom(Fm[j], Fm[i]) for j in feas)]
                        ok = got == exp
                    if feas and sorted(int(v) for v in r2.get("X")[:, 0]) != got:
                        ok = False
                    if not ok:
                        ctx.viol("filter", "optimum of violations %s, objectives %s: %s" % (gs, fs, got))
                    ctx.outcome(len(got), bool(feas), m)


def units(tier):
    U = [("u_result_all_infeasible", {})]
    T = tier == "thorough"
    for a in zoo.soo() + zoo.moo():
        U.append(("u_pairs", dict(name=a.name, ncon=0, infeasible=False, n_iter=3, pairs=[("hair", "hair")], rows=20 if T else 12)))
        if a.cons:
            U.append(("u_pairs", dict(name=a.name, ncon=2, infeasible=True, n_iter=3, pairs=[("deep", "close"), ("close", "close"), ("split", "close")], rows=20 if T else 10)))
        for ncon, inf in ((0, False), (1, False), (1, True), (2, True)):
            if ncon and not a.cons:
                continue
            d1 = ALTS1 if ncon else ALTS0
            d2 = (d1 if T else (["deep", "split"] if ncon == 2 else ["infeas", "feas"] if ncon else ["good", "tie"]))
            parts = 8 if T else 1
            for p in range(parts):
                U.append(("u_run", dict(name=a.name, ncon=ncon, infeasible=inf, n_iter=4 if T else 3, d1=d1, d2=d2,
                                        rows2=99 if T else 14, part=p, parts=parts)))
    return U
