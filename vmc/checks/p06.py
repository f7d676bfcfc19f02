"""P06: constraint violation and feasibility, by definition and under every short history of operations."""

import copy
import itertools

import numpy as np

PROPERTY = "P06"
RULE = ("an execution is one aggregation of one constraint vector, or one history of operations on a solution judged against a record of its current "
        "values; outcomes are distinct (violation, feasibility) results")
BOUNDS = {
    "quick": "all inequality vectors of length 0-3 over {-inf,-1,0,1e-5,0.5,2,inf} x equality vectors of length 0-2 over {-1,-1e-4,0,5e-5,1e-4,2e-4,0.5} with default settings; "
             "all pairs over a reduced grid x eps x scale x pow x aggregate x feasibility limit; every history of 4 operations from an alphabet of 17 "
             "(set, population set, explicit violation, read, copy, switch, reset, move, evaluate, re-evaluate) with and without cache; "
             "an adaptive-epsilon run of GA, DE and NSGA2 for every script of one deviating answer",
    "thorough": "as quick with histories of 5 operations",
}
ASSUMPTIONS = ["constraint arrays are replaced, never modified in place behind the solution's back"]


def ref_part(c, eps=0.0, scale=None, pow=None, func="sum"):
    if len(c) == 0:
        return 0.0
    v = []
    for k, e in enumerate(c):
        d = max(0.0, e - eps)
        if scale is not None:
            d = d / (scale[k] if np.ndim(scale) else scale)
        if pow is not None:
            d = d ** pow
        v.append(d)
    return {"sum": sum(v), "mean": sum(v) / len(v), "max": max(v)}[func]


def ref_cv(g, h, ieq=None, eq=None):
    ieq = ieq or {}
    eq = eq or {"eps": 1e-4}
    return ref_part(list(g), **ieq) + ref_part([abs(v) for v in h], **eq)


def same(a, b):
    a, b = float(a), float(b)
    return a == b or abs(a - b) <= 1e-12 * max(1.0, abs(a), abs(b))


FUNCS = {"sum": np.sum, "mean": np.mean, "max": np.max}
INF = float("inf")


def to_config(ieq, eq, cv_eps, cache=True):
    def conv(d):
        return dict(scale=np.array(d["scale"]) if np.ndim(d.get("scale")) else d.get("scale"), eps=d.get("eps", 0.0), pow=d.get("pow"),
                    func=FUNCS[d.get("func", "sum")])
    return dict(cache=cache, cv_eps=cv_eps, cv_ieq=conv(ieq), cv_eq=conv(eq))


def u_default(ctx, ng, nh):
    from pymoo.core.individual import Individual, calc_cv
    from pymoo.core.population import Population, calc_cv as pop_cv
    GV = (-INF, -1.0, 0.0, 1e-5, 0.5, 2.0, INF)
    HV = (-1.0, -1e-4, 0.0, 5e-5, 1e-4, 2e-4, 0.5)
    Gs, Hs, refs = [], [], []
    for g in itertools.product(GV, repeat=ng):
        for h in itertools.product(HV, repeat=nh):
            ctx.state()
            ref = ref_cv(g, h)
            G, H = np.array(g), np.array(h)
            ind = Individual(X=np.zeros(1), G=G, H=H)
            b = (G.tobytes(), H.tobytes())
            ctx.trans(2)
            ctx.outcome(ref, ref <= 0)
            if not (same(ind.CV[0], ref) and same(calc_cv(G=G, H=H), ref) and same(ind.cv, ref)):
                ctx.viol("default:cv", "the aggregated violation differs from its definition", g=g, h=h, expect=ref, got=ind.cv)
            if bool(ind.FEAS[0]) != (ref <= 0) or bool(ind.feas) != (ref <= 0):
                ctx.viol("default:feas", "feasibility differs from 'violation is zero'", g=g, h=h, cv=ref, got=bool(ind.feas))
            if (G.tobytes(), H.tobytes()) != b:
                ctx.viol("default:mutated", "computing the violation changed the constraint values", g=g, h=h)
            Gs.append(G)
            Hs.append(H)
            refs.append(ref)
    # whole matrices and whole populations
    GM, HM = np.array(Gs).reshape(len(Gs), ng), np.array(Hs).reshape(len(Hs), nh)
    M = calc_cv(G=GM, H=HM)
    pop = Population.new(X=np.zeros((len(Gs), 1)), G=GM, H=HM)
    P = pop_cv(pop)
    Q = pop.get("CV")
    Z = pop.get("FEAS")
    ctx.trans(3)
    for nm, V in (("matrix", M), ("population", P), ("get", Q)):
        V = np.asarray(V, float).reshape(-1)
        if V.shape != (len(refs),):
            if nm == "matrix" and V.size == 1 and ng == 0 and nh == 0:
                continue
            ctx.viol("batch:%s:shape" % nm, "the violations of a whole population have the wrong shape", shape=V.shape, n=len(refs))
            continue
        bad = [i for i in range(len(refs)) if not same(V[i], refs[i])]
        if bad:
            ctx.viol("batch:%s" % nm, "the violation computed for a whole population differs from the one of the single solution",
                     g=Gs[bad[0]], h=Hs[bad[0]], expect=refs[bad[0]], got=V[bad[0]])
    if [bool(z) for z in np.asarray(Z).reshape(-1)] != [r <= 0 for r in refs]:
        ctx.viol("batch:feas", "feasibility of a whole population differs from the definition")
    ctx.sample({"ng": ng, "nh": nh, "n": len(refs), "distinct": len(set(refs))})


def u_config(ctx, func, pw):
    from pymoo.core.individual import Individual, calc_cv
    from pymoo.core.population import Population, calc_cv as pop_cv
    vecs = [()] + [(a,) for a in (-1.0, 0.25, 2.0)] + [(a, b) for a in (-1.0, 0.0, 2.0) for b in (-1.0, 0.25, 2.0)]
    hs = [()] + [(a,) for a in (-2.0, 0.0, 0.25)] + [(a, b) for a in (-2.0, 0.05) for b in (0.0, 0.3)]
    for eps_g, eps_h in itertools.product((0.0, 0.25, 1.0), (0.0, 1e-4, 0.3)):
        for scale in (None, 2.0, "vec"):
            for cv_eps in (0.0, 0.5):
                for g in vecs:
                    for h in hs:
                        sg = scale if scale != "vec" else [0.5 + k for k in range(len(g))]
                        sh = scale if scale != "vec" else [2.0 + k for k in range(len(h))]
                        ieq = dict(eps=eps_g, scale=sg, pow=pw, func=func)
                        eq = dict(eps=eps_h, scale=sh, pow=pw, func=func)
                        ref = ref_cv(g, h, ieq, eq)
                        cfg = to_config(ieq, eq, cv_eps)
                        ctx.state()
                        ind = Individual(config=cfg, X=np.zeros(1), G=np.array(g), H=np.array(h))
                        got = float(ind.CV[0])
                        ctx.trans()
                        ctx.outcome(round(ref, 9), ref <= cv_eps)
                        if not same(got, ref):
                            ctx.viol("config:cv:%s" % func, "the violation differs from the configured aggregate", g=g, h=h, ieq=ieq, eq=eq, expect=ref, got=got)
                        if bool(ind.FEAS[0]) != (ref <= cv_eps):
                            ctx.viol("config:feas", "feasibility is not 'violation within the configured limit'", cv=ref, limit=cv_eps)
                        if not same(float(np.asarray(calc_cv(G=np.array(g), H=np.array(h), config=cfg))), ref):
                            ctx.viol("config:calc_cv", "calc_cv differs from the configured aggregate", g=g, h=h)
                    if g:
                        for n in (1, 2):
                            pop = Population.new(X=np.zeros((n, 1)), G=np.array([g] * n))
                            if not all(same(v, ref_part(g, **dict(eps=eps_g, scale=sg if np.ndim(sg) == 0 else [0.5 + k for k in range(len(g))], pow=pw, func=func)))
                                       for v in np.asarray(pop_cv(pop, to_config(dict(eps=eps_g, scale=sg, pow=pw, func=func), dict(eps=0.0), 0.0))).reshape(-1)):
                                ctx.viol("config:pop", "calc_cv of a population ignores its configuration", g=g, n=n)


# ---------------------------------------------------------------- histories on one solution

G_VALS = {"lo": [-1.0], "hi": [2.0], "two": [0.5, -3.0]}
H_VALS = {"z": [0.0], "e": [0.5]}


def make_eval_problem():
    from pymoo.core.problem import Problem

    class P(Problem):
        def __init__(self):
            super().__init__(n_var=1, n_obj=1, n_ieq_constr=1, n_eq_constr=1, xl=-5.0, xu=5.0)

        def _evaluate(self, X, out, *args, **kwargs):
            out["F"] = X ** 2
            out["G"] = X - 1.0
            out["H"] = 0.5 * X
    return P()


class Model:
    """What the solution should currently report."""

    def __init__(self):
        self.x, self.g, self.h, self.cv, self.ev = None, [], [], None, False

    def clone(self):
        return copy.deepcopy(self)

    def expect(self):
        return self.cv if self.cv is not None else ref_cv(self.g, self.h)


OPS = ["G=lo", "G=hi", "set:G=hi", "pop:G=two", "H=e", "set:H=z", "pop:H=e", "CV=7", "read", "copy", "shallow", "switch", "reset", "reset:keep", "move", "eval", "re-eval"]


def apply(op, S, problem, evaluator):
    """S = dict(ind, model, other, other_model)."""
    from pymoo.core.population import Population
    ind, m = S["ind"], S["model"]
    if op in ("G=lo", "G=hi"):
        v = G_VALS[op[2:]]
        ind.G = np.array(v)
        m.g, m.cv = v, None
    elif op == "set:G=hi":
        ind.set("G", np.array(G_VALS["hi"]))
        m.g, m.cv = G_VALS["hi"], None
    elif op == "pop:G=two":
        Population.create(ind).set("G", np.array([G_VALS["two"]]))
        m.g, m.cv = G_VALS["two"], None
    elif op == "H=e":
        ind.H = np.array(H_VALS["e"])
        m.h, m.cv = H_VALS["e"], None
    elif op == "set:H=z":
        ind.set("H", np.array(H_VALS["z"]))
        m.h, m.cv = H_VALS["z"], None
    elif op == "pop:H=e":
        Population.create(ind).set("H", [np.array(H_VALS["e"])])
        m.h, m.cv = H_VALS["e"], None
    elif op == "CV=7":
        if not ind.config["cache"]:
            return
        ind.CV = np.array([7.0])
        m.cv = 7.0
    elif op == "read":
        ind.CV, ind.FEAS
    elif op == "copy":
        S["other"], S["other_model"] = ind.copy(), m.clone()
    elif op == "shallow":
        S["other"], S["other_model"] = ind.copy(deep=False), m.clone()
    elif op == "switch":
        if S["other"] is not None:
            S["ind"], S["other"] = S["other"], S["ind"]
            S["model"], S["other_model"] = S["other_model"], S["model"]
    elif op in ("reset", "reset:keep"):
        ind.reset(data=(op == "reset"))
        ind.X = np.array([0.0])
        m.x, m.g, m.h, m.cv, m.ev = 0.0, [], [], None, False
    elif op == "move":
        m.x = 3.0 if m.x in (None, 0.0) else 0.0
        ind.X = np.array([m.x])
    elif op in ("eval", "re-eval"):
        evaluator.eval(problem, ind, skip_already_evaluated=(op == "eval"))
        x = m.x if m.x is not None else 0.0
        if op == "re-eval" or not m.ev:
            m.g, m.h, m.cv, m.ev = [x - 1.0], [0.5 * x], None, True


def u_history(ctx, first, depth, cache):
    from pymoo.core.evaluator import Evaluator
    from pymoo.core.individual import Individual
    from pymoo.core.population import Population
    problem = make_eval_problem()
    for seq in itertools.product(OPS, repeat=depth - 1):
        seq = (first,) + seq
        if "shallow" in seq and any(o in ("eval", "re-eval", "reset", "reset:keep") for o in seq[seq.index("shallow") + 1:]):
            continue  # a shallow copy shares its bookkeeping by definition
        cfg = Individual.default_config()
        cfg["cache"] = cache
        S = dict(ind=Individual(config=cfg, X=np.array([0.0])), model=Model(), other=None, other_model=None)
        S["model"].x = 0.0
        ev = Evaluator()
        for op in seq:
            apply(op, S, problem, ev)
            ctx.trans()
        ctx.state()
        ctx.trace()
        for w in ("", "other"):
            ind, m = (S["ind"], S["model"]) if w == "" else (S["other"], S["other_model"])
            if ind is None:
                continue
            e = m.expect()
            got = ind.CV
            ctx.outcome(w, e)
            if not same(got[0], e) or not same(ind.cv, e):
                ctx.viol("history:stale", "after %s the solution reports violation %r although its current values give %r" % (" ; ".join(seq), float(got[0]), e),
                         history=seq, G=ind.G, H=ind.H, cache=cache)
            if bool(ind.FEAS[0]) != (e <= 0.0):
                ctx.viol("history:feas", "after %s the feasibility does not match the violation" % " ; ".join(seq), history=seq, cv=e)
            if not same(Population.create(ind).get("CV")[0, 0], e):
                ctx.viol("history:pop", "a population reports a different violation than its member", history=seq)
    ctx.sample({"first": first, "depth": depth, "cache": cache})


# ---------------------------------------------------------------- adaptive epsilon handling

def u_adaptive(ctx, name, base):
    from pymoo.constraints.eps import AdaptiveEpsilonConstraintHandling
    from pymoo.algorithms.soo.nonconvex.de import DE
    from pymoo.algorithms.soo.nonconvex.ga import GA
    from pymoo.algorithms.moo.nsga2 import NSGA2
    from pymoo.optimize import minimize
    from vmc import zoo
    mk = {"GA": lambda: GA(pop_size=4), "DE": lambda: DE(pop_size=5), "NSGA2": lambda: NSGA2(pop_size=4)}[name]
    m = 2 if name == "NSGA2" else 1
    n_gen, rows = 4, 20
    for script in zoo.scripts(rows, ["good", "infeas", "slight", "feas", "edge"], 1):
        problem = zoo.make_problem(n_var=2, n_obj=m, n_ieq=1, n_eq=1, script=script,
                                   values=zoo.infeasible_values if base == "infeasible" else zoo.base_values)
        res = minimize(problem, AdaptiveEpsilonConstraintHandling(mk()), ("n_gen", n_gen), seed=1)
        ctx.state()
        ctx.trace()
        ctx.trans(n_gen)
        table = {np.asarray(x).tobytes(): (f, g, h) for x, f, g, h in problem.log}
        for ind in res.pop:
            row = table.get(np.asarray(ind.X, float).tobytes())
            if row is None:
                ctx.viol("adaptive:foreign", "the final population holds a solution the problem was never asked for", algorithm=name, script=script)
                continue
            e = zoo.cv_ref(row[1], row[2])
            ctx.outcome(e > 0)
            if not same(ind.CV[0], e):
                ctx.viol("adaptive:cv", "after an adaptive-epsilon run a solution reports a violation that is not the one of its constraint values",
                         algorithm=name, script=script, expect=e, got=ind.CV[0])
            if bool(ind.FEAS[0]) != (e <= 0):
                ctx.viol("adaptive:feas", "after the run the relaxed limit still decides feasibility", algorithm=name, script=script, cv=e)
        if res.X is not None:
            for x in np.atleast_2d(res.X):
                row = table.get(np.asarray(x, float).tobytes())
                if row is None or zoo.cv_ref(row[1], row[2]) > 0:
                    ctx.viol("adaptive:result", "the result of an adaptive-epsilon run is infeasible by the unrelaxed definition", algorithm=name, script=script, x=x)
        if res.algorithm.evaluator.n_eval != len(problem.log):
            ctx.viol("adaptive:count", "the evaluation counter of an adaptive-epsilon run is wrong", algorithm=name,
                     counter=res.algorithm.evaluator.n_eval, asked=len(problem.log))


def u_schedule(ctx, until, n_gen):
    """The tolerance during a run is the published schedule, is shared by all solutions, decides the selection and is gone outside of it."""
    from pymoo.algorithms.moo.nsga2 import NSGA2
    from pymoo.constraints.eps import AdaptiveEpsilonConstraintHandling
    from pymoo.core.survival import Survival
    from pymoo.operators.survival.rank_and_crowding import RankAndCrowding
    from vmc import refs, zoo
    for script in zoo.scripts(16, ["good", "infeas", "slight", "feas", "edge"], 1):
        seen = []

        class Watch(Survival):
            def __init__(self):
                super().__init__(filter_infeasible=False)
                self.inner = RankAndCrowding()

            def do(self, problem, pop, *args, **kwargs):
                seen.append(([float(i.config.get("cv_eps", 0.0)) for i in pop], pop.get("CV")[:, 0].tolist(), pop.get("FEAS")[:, 0].tolist(), pop.get("G"), pop.get("H"), pop.get("F").tolist()))
                r = self.inner.do(problem, pop, *args, **kwargs)
                keep.append(([float(i.CV[0]) for i in r], [bool(i.FEAS[0]) for i in r], r.get("F").tolist()))
                return r

        keep = []
        problem = zoo.make_problem(n_var=2, n_obj=2, n_ieq=1, n_eq=1, script=script, values=zoo.infeasible_values)
        a = AdaptiveEpsilonConstraintHandling(NSGA2(pop_size=4, survival=Watch()), perc_eps_until=until)
        a.setup(problem, termination=("n_gen", n_gen), seed=1)
        perc, first = [0.0, 0.0], None
        ctx.state()
        ctx.trace()
        last = None
        for g in range(1, n_gen + 1):
            before = len(seen)
            a.next()
            ctx.trans()
            out = [float(i.config.get("cv_eps", 0.0)) for i in a.pop] + [float(i.config.get("cv_eps", 0.0)) for i in (a.opt if a.opt is not None else [])]
            ctx.check(not any(out), "schedule:outside", "the tolerance is still in effect after a generation", generation=g, tolerance=out)
            d = dict(generation=g, until=until, n_gen=n_gen, script=script)
            perc.append(float(a.termination.perc))
            for eps, cv, feas, G, H, F in seen[before:]:
                ref = [zoo.cv_ref(x, y) for x, y in zip(G, H)]
                ctx.check(all(abs(x - y) <= 1e-9 for x, y in zip(cv, ref)), "schedule:cv", "the tolerance changes the violations themselves", cv=cv, expected=ref, **d)
                if first is None:
                    first = sum(ref) / len(ref)
                ctx.check(len(set(eps)) == 1, "schedule:shared", "solutions are judged by different tolerances", tolerances=eps, **d)
                e = eps[0]
                ctx.outcome(g, round(e, 6))
                ctx.check(feas == [c <= e for c in cv], "schedule:feasible", "feasibility during the selection is not the violation within the tolerance", tolerance=e, cv=cv, feasible=feas, **d)
                # the first two generations have no tolerance yet; a tolerance may be set before or after the progress is updated
                want = [max(0.0, 1 - p / until) * first for p in perc[-4:]] if g > 2 else [0.0, first]
                ctx.check(any(abs(e - w) <= 1e-9 * max(1.0, first) for w in want), "schedule:value", "the tolerance is not the average violation of the first generation, reduced by the progress of the run", tolerance=e, expected=want, **d)
                if last is not None and g > 3:
                    ctx.check(e <= last + 1e-12, "schedule:grows", "the tolerance grows", tolerance=e, before=last, **d)
                last = e
            for (eps, cv, feas, G, H, F), (kcv, kfeas, kF) in zip(seen[before:], keep[before:]):
                ok = [i for i in range(len(cv)) if feas[i]]
                n = len(kcv)
                ctx.check(n == min(4, len(cv)), "schedule:number", "the number of survivors changes", n=n, **d)
                k = min(n, len(ok))
                ctx.check(sum(kfeas) == k, "schedule:selection", "a solution beyond the tolerance survives instead of one within", tolerance=eps[0], cv=cv, survivors=kcv, **d)
                rest = sorted(c for c, q in zip(cv, feas) if not q)
                ctx.check(sorted(c for c, q in zip(kcv, kfeas) if not q) == rest[:n - k], "schedule:selection", "the survivors beyond the tolerance are not those with the smallest violation", survivors=kcv, **d)
                level = {}
                for r_, front in enumerate(refs.fronts([F[i] for i in ok]) if ok else []):
                    for i in front:
                        level[tuple(F[ok[i]])] = r_
                got = sorted(level.get(tuple(f), -1) for f, q in zip(kF, kfeas) if q)
                want = sorted(level[tuple(F[i])] for i in ok)[:k]
                ctx.check(got == want, "schedule:selection", "the survivors within the tolerance are not the best fronts", got=got, expected=want, tolerance=eps[0], **d)


def units(tier):
    U = []
    for ng in range(4):
        for nh in range(3):
            U.append(("u_default", dict(ng=ng, nh=nh)))
    for f in ("sum", "mean", "max"):
        for pw in (None, 2, 0.5, 3):
            U.append(("u_config", dict(func=f, pw=pw)))
    d = 4 if tier == "quick" else 5
    for op in OPS:
        for c in (True, False):
            U.append(("u_history", dict(first=op, depth=d, cache=c)))
    for n in ("GA", "DE", "NSGA2"):
        for b in ("feasible", "infeasible"):
            U.append(("u_adaptive", dict(name=n, base=b)))
    for until in (0.25, 0.5, 1.0):
        for n in (5, 9):
            U.append(("u_schedule", dict(until=until, n_gen=n)))
    return U
