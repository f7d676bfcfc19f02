"""P10: tolerance-based and composed terminations on every short trajectory."""

import itertools
from types import SimpleNamespace

import numpy as np

PROPERTY = "P10"
RULE = ("an execution is one update of one termination on one trajectory, judged against the definition written here; outcomes are distinct "
        "(criterion, settings, stopping iteration) results")
BOUNDS = {
    "quick": "single objective: every trajectory of 5 optima over {infeasible,0,0.25,1,3} x tolerances {0,0.25,1} x skips 0-2; bare and robust with periods 1-3; design space: every trajectory of 5 of 5 "
             "optima (two points, moved, scaled) with and without bounds; multi-objective: every trajectory of 4 of 7 fronts; constraint violation and until-feasible: every trajectory of 5 over 4 violations; "
             "minimum value: every trajectory of 4 over {-2..2,infeasible} x 5 goals; indicator: every trajectory of 4 over 5 values x thresholds x goals; scripted progress of the parts: every sequence of 5 "
             "over {0,0.5,1,2} for robust / all / any / collection / nested, with a manual stop at every moment; default criteria with a short period; complete runs stopped manually at every iteration",
    "thorough": "as quick with trajectories one or two steps longer",
}
INF = float("inf")
ASSUMPTIONS = ["a change within tolerance does not replace the reference point the next change is measured from (documented behaviour of the delta criterion)"]


def algo(X=None, F=None, CV=None, problem=None, n_gen=1, n_eval=1):
    from pymoo.core.individual import Individual
    from pymoo.core.population import Population
    n = len(F if F is not None else X)
    inds = []
    for i in range(n):
        ind = Individual(X=np.atleast_1d(np.array(X[i], dtype=float)) if X is not None else np.zeros(1))
        if F is not None:
            ind.F = np.atleast_1d(np.array(F[i], dtype=float))
        cv = CV[i] if CV is not None else 0.0
        ind.G = np.array([cv if cv > 0 else -1.0])
        inds.append(ind)
    return SimpleNamespace(opt=Population.create(*inds), pop=Population.create(*inds), problem=problem, n_gen=n_gen, n_iter=n_gen,
                           evaluator=SimpleNamespace(n_eval=n_eval), start_time=0.0)


class Delta:
    """Definition of a tolerance criterion: which updates fire."""

    def __init__(self, tol, skip, delta):
        self.tol, self.skip, self.delta = tol, skip, delta
        self.prev, self.count, self.last = None, 0, False

    def update(self, cur):
        if self.prev is None:
            fire = False
        elif self.count > 0 and self.count % (self.skip + 1) != 0:
            fire = self.last
        else:
            fire = self.delta(self.prev, cur) <= self.tol
            if fire:
                self.last = True
                return True
        self.prev, self.count, self.last = cur, self.count + 1, fire
        return fire


class Robust:
    def __init__(self, inner, period):
        self.inner, self.h, self.period = inner, [], period

    def update(self, cur):
        self.h = (self.h + [self.inner.update(cur)])[-self.period:]
        return all(self.h)


def follow(ctx, tag, term, ref, steps, make_algo, d, stop=True):
    """Drive a termination along a trajectory and compare the moment it fires."""
    for k, s in enumerate(steps):
        try:
            p = term.update(make_algo(s, k))
        except Exception as e:
            ctx.viol("%s:error" % tag, "updating the termination fails: %r" % (e,), steps=steps, at=k, **d)
            return
        fire = ref.update(s)
        ctx.trans()
        if term.has_terminated() != fire:
            ctx.viol("%s:moment" % tag, "the criterion %s at iteration %d although its definition says otherwise" % (
                "fires" if term.has_terminated() else "does not fire", k + 1), steps=steps, at=k, progress=p, **d)
            return
        if not fire and not (0.0 <= p < 1.0):
            ctx.viol("%s:progress" % tag, "progress of an unfinished run is outside of [0, 1)", steps=steps, at=k, progress=p, **d)
            return
        if fire and stop:
            ctx.outcome(tag, tuple(sorted((k2, str(v)) for k2, v in d.items())), k)
            break
    ctx.state()
    ctx.trace()


def robustify(term, ref, period):
    from pymoo.termination.robust import RobustTermination
    if period is None:
        return term, ref
    return RobustTermination(term, period=period), Robust(ref, period)


def u_soo(ctx, tol, skip, depth):
    from pymoo.termination.ftol import SingleObjectiveSpaceTermination
    vals = (None, 0.0, 0.25, 1.0, 3.0)

    def delta(a, b):
        if a is None or b is None:
            return INF
        return max(0.0, a - b)
    for steps in itertools.product(vals, repeat=depth):
        for period in (None, 1, 2, 3):
            t, r = robustify(SingleObjectiveSpaceTermination(tol, n_skip=skip), Delta(tol, skip, delta), period)
            follow(ctx, "soo", t, r, steps, lambda s, k: algo(F=[[7.0 if s is None else s]], CV=[1.0 if s is None else 0.0]), dict(tol=tol, skip=skip, period=period))
    # infeasible values count as well if asked for
    for steps in itertools.product((0.0, 0.25, 1.0), repeat=4):
        follow(ctx, "soo-all", SingleObjectiveSpaceTermination(tol, only_feas=False, n_skip=skip), Delta(tol, skip, delta), steps,
               lambda s, k: algo(F=[[s]], CV=[1.0]), dict(tol=tol, skip=skip))


def u_cv(ctx, tol, skip, depth):
    from pymoo.termination.cv import ConstraintViolationTermination, UntilFeasibleTermination
    cons = SimpleNamespace(has_constraints=lambda: True)
    free = SimpleNamespace(has_constraints=lambda: False)
    vals = (0.0, 0.5, 1.0, 4.0)

    class Ref:
        def __init__(self, stop_feasible):
            self.d, self.s = Delta(tol, skip, lambda a, b: max(0.0, a - b)), stop_feasible

        def update(self, cv):
            if cv <= 0:
                return self.s
            return self.d.update(cv)
    for steps in itertools.product(vals, repeat=depth):
        for stop in (True, False):
            follow(ctx, "cv", ConstraintViolationTermination(tol, terminate_when_feasible=stop, n_skip=skip), Ref(stop), steps,
                   lambda s, k: algo(F=[[1.0]], CV=[s], problem=cons), dict(tol=tol, skip=skip, stop_when_feasible=stop))
        if tol == 0.0 and skip == 0:
            class Until:
                def update(self, cv):
                    return cv <= 0
            follow(ctx, "until-feasible", UntilFeasibleTermination(), Until(), steps, lambda s, k: algo(F=[[1.0]], CV=[s], problem=cons), {})
    class Never:
        def update(self, cv):
            return False
    for steps in itertools.product((0.0,), repeat=3):
        follow(ctx, "cv-unconstrained", ConstraintViolationTermination(tol, n_skip=skip), Never(), steps, lambda s, k: algo(F=[[1.0]], CV=[0.0], problem=free), dict(tol=tol))


def u_fmin(ctx, goal, depth):
    from pymoo.termination import get_termination
    vals = (None, -2.0, -1.0, 0.0, 1.0, 2.0)

    class Ref:
        def update(self, s):
            return s is not None and s <= goal
    for steps in itertools.product(vals, repeat=depth):
        follow(ctx, "fmin", get_termination("fmin", goal), Ref(), steps, lambda s, k: algo(F=[[-50.0 if s is None else s]], CV=[1.0 if s is None else 0.0]), dict(goal=goal))


def u_indicator(ctx, goal, threshold, depth):
    from pymoo.termination.indicator import IndicatorTermination
    vals = (0.0, 0.25, 0.5, 1.0, 2.0)

    class Ref:
        def update(self, v):
            return v <= threshold if goal == "minimize" else v >= threshold
    for steps in itertools.product(vals, repeat=depth):
        ind = SimpleNamespace(do=lambda F, **kw: float(np.atleast_2d(F)[0, 0]))
        follow(ctx, "indicator:%s" % goal, IndicatorTermination(ind, threshold, goal), Ref(), steps, lambda s, k: algo(F=[[s, s]]), dict(goal=goal, threshold=threshold))


def ref_igd(front, pts):
    """Mean distance of each point of the reference front to its closest point."""
    return float(np.mean([min(np.sqrt(sum((a - b) ** 2 for a, b in zip(f, p))) for p in pts) for f in front]))


FRONTS = [
    [[0.0, 1.0], [1.0, 0.0]], [[0.0, 1.0], [0.5, 0.5], [1.0, 0.0]], [[0.0, 1.5], [1.5, 0.0]], [[0.05, 1.0], [1.0, 0.05]], [[0.5, 0.5]], [[0.0, 1.0], [0.0, 1.0]], None,
]


def moo_delta(a, b):
    """Largest normalised change of ideal, nadir and the front itself."""
    if a is None or b is None:
        return INF
    A, B = np.array(a, float), np.array(b, float)
    ia, na, ib, nb = A.min(0), A.max(0), B.min(0), B.max(0)
    norm = nb - ib
    norm[norm < 1e-32] = 1.0
    di, dn = np.max(np.abs((ib - ia) / norm)), np.max(np.abs((nb - na) / norm))
    rng = np.where(nb - ib == 0, 1.0, nb - ib)
    cn, pn = (B - ib) / rng, (A - ib) / rng
    return max(di, dn, ref_igd(cn, pn))


def u_moo(ctx, tol, skip, depth):
    from pymoo.termination.ftol import MultiObjectiveSpaceTermination
    for steps in itertools.product(range(len(FRONTS)), repeat=depth):
        for period in (None, 2):
            t, r = robustify(MultiObjectiveSpaceTermination(tol, n_skip=skip), Delta(tol, skip, lambda a, b: moo_delta(FRONTS[a], FRONTS[b])), period)
            follow(ctx, "moo", t, r, steps,
                   lambda s, k: algo(F=FRONTS[s] if FRONTS[s] else [[0.0, 0.0]], CV=[0.0] * len(FRONTS[s]) if FRONTS[s] else [2.0]), dict(tol=tol, skip=skip, period=period))


SETS = [[[0.0, 0.0]], [[0.5, 0.0]], [[0.0, 0.0], [0.5, 0.5]], [[0.0, 0.01]], [[1.0, 1.0], [0.0, 0.0]]]


def u_xtol(ctx, tol, skip, depth, bounded):
    from pymoo.termination.xtol import DesignSpaceTermination
    scale = np.array([4.0, 2.0]) if bounded else np.ones(2)
    prob = SimpleNamespace(has_bounds=lambda: bounded, xl=np.zeros(2) if bounded else None, xu=scale if bounded else None,
                           bounds=lambda: (np.zeros(2), scale) if bounded else (None, None))

    def delta(a, b):
        return ref_igd(np.array(SETS[b]) / scale, np.array(SETS[a]) / scale)
    for steps in itertools.product(range(len(SETS)), repeat=depth):
        for period in (None, 2):
            t, r = robustify(DesignSpaceTermination(tol, n_skip=skip), Delta(tol, skip, delta), period)
            follow(ctx, "xtol", t, r, steps, lambda s, k: algo(X=SETS[s], F=[[0.0]] * len(SETS[s]), problem=prob), dict(tol=tol, skip=skip, bounded=bounded, period=period))


EDGE = FRONTS[:-1] + [[[0.0, 10.0], [0.5, 4.0], [2.0, 0.0]], [[0.0, 10.0], [2.0, 1.0]], [[1.0, 3.0], [1.0, 5.0]], [[-1.0, 3.0], [1.0, 3.0], [0.0, 3.0]], [[100.0, 0.25]]]
EDGE3 = [[[0.0, 0.0, 1.0], [1.0, 0.0, 0.0]], [[0.0, 1.0, 8.0], [3.0, 0.0, 2.0], [1.0, 1.0, 1.0]], [[0.5, 0.5, 0.5]], [[0.0, 2.0, 5.0], [4.0, 0.0, 5.0]]]
EDGEX = SETS + [[[0.25, 1.5], [3.0, 0.5]], [[0.0, 2.0], [4.0, 0.0], [1.0, 1.0]]]


def u_edge(ctx, kind):
    """The change is pinned from both sides: just below the tolerance the criterion fires, just above it does not."""
    from pymoo.termination.ftol import MultiObjectiveSpaceTermination, SingleObjectiveSpaceTermination
    from pymoo.termination.xtol import DesignSpaceTermination
    for bounded in (True, False) if kind == "xtol" else (True,):
        scale = np.array([4.0, 2.0]) if bounded else np.ones(2)
        lo = np.array([-1.0, 0.5]) if bounded else np.zeros(2)
        prob = SimpleNamespace(has_bounds=lambda: bounded, xl=lo if bounded else None, xu=lo + scale if bounded else None,
                               bounds=lambda: (lo, lo + scale) if bounded else (None, None))
        for pool in {"moo": (EDGE, EDGE3), "xtol": (EDGEX,), "soo": ([-5.0, 0.0, 1e-3, 2.0, 1e4],)}[kind]:
            def change(A, B):
                if kind == "moo":
                    return moo_delta(A, B)
                return ref_igd(np.array(B) / scale, np.array(A) / scale) if kind == "xtol" else max(0.0, A - B)
            for a, b in itertools.permutations(range(len(pool)), 2):
                A, B = pool[a], pool[b]
                for before in [None] + list(range(len(pool))):
                    delta = change(A, B)
                    for f, fires in ((1 + 1e-6, True), (1 - 1e-6, False)):
                        if delta == 0.0 and not fires:
                            continue
                        tol = delta * f
                        if before is not None and change(pool[before], A) <= tol:
                            continue
                        T = {"moo": MultiObjectiveSpaceTermination, "xtol": DesignSpaceTermination, "soo": SingleObjectiveSpaceTermination}[kind](tol)
                        for k, s in enumerate(([] if before is None else [pool[before]]) + [A, B]):
                            F, X = (s, None) if kind == "moo" else ([[0.0]] * len(s), s) if kind == "xtol" else ([[s]], None)
                            T.update(algo(X=X, F=F, CV=[0.0] * len(F), problem=prob))
                        ctx.trans()
                        ctx.outcome(kind, a, b)
                        if T.has_terminated() != fires:
                            ctx.viol("edge:%s" % kind, "the change from %s to %s is %r, but with a tolerance of %r the criterion %s" % (A, B, delta, tol, "does not fire" if fires else "fires"), before=before)
                    ctx.state()
                    ctx.trace()


# ---------------------------------------------------------------- composition

def scripted(seq):
    from pymoo.core.termination import Termination

    class S(Termination):
        def __init__(self):
            super().__init__()
            self.k = -1

        def _update(self, algorithm):
            self.k += 1
            return seq[self.k]
    return S()


PROG = (0.0, 0.5, 1.0, 2.0)


def u_compose(ctx, kind, depth):
    from pymoo.core.termination import NoTermination, TerminateIfAll, TerminateIfAny
    from pymoo.termination.collection import TerminationCollection
    from pymoo.termination.robust import RobustTermination
    if kind == "robust":
        for period in (1, 2, 3, 5):
            for seq in itertools.product(PROG, repeat=depth + 1):
                t, h = RobustTermination(scripted(seq), period=period), []
                for k, p in enumerate(seq):
                    t.update(None)
                    h = (h + [p])[-period:]
                    ctx.trans()
                    if t.has_terminated() != (min(h) >= 1) or abs(t.perc - min(h)) > 1e-12:
                        ctx.viol("robust:window", "a robust criterion is not the minimum of its last %d progress values" % period, seq=seq, at=k, got=t.perc)
                ctx.state()
                ctx.trace()
                ctx.outcome("robust", period, min(h))
        return
    comb = {"any": TerminateIfAny, "all": TerminateIfAll, "collection": TerminationCollection}
    agg = {"any": max, "all": min, "collection": max}
    for seqs in itertools.product(itertools.product(PROG[:3], repeat=depth - 2), repeat=2):
        if kind in comb:
            t = comb[kind](scripted(seqs[0]), scripted(seqs[1]))
            f = lambda a, b: agg[kind](a, b)
        elif kind == "nested":
            t = TerminateIfAll(TerminateIfAny(scripted(seqs[0]), NoTermination()), scripted(seqs[1]))
            f = lambda a, b: min(max(a, 0.0), b)
        else:
            t = TerminateIfAny(TerminateIfAll(scripted(seqs[0]), NoTermination()), scripted(seqs[1]))
            f = lambda a, b: max(min(a, 0.0), b)
        for k in range(depth - 2):
            t.update(None)
            e = f(seqs[0][k], seqs[1][k])
            ctx.trans()
            if t.has_terminated() != (e >= 1) or abs(t.perc - e) > 1e-12:
                ctx.viol("compose:%s" % kind, "a combination of criteria gives %r instead of %r" % (t.perc, e), parts=seqs, at=k)
        ctx.state()
        ctx.trace()
        ctx.outcome(kind, e)
    # a manual stop at every moment, of the whole or of a part
    for seq in itertools.product((0.0, 0.5), repeat=3):
        for when in range(4):
            for which in ("whole", "part"):
                part = scripted(seq + (0.0, 0.0))
                t = comb[kind](part, scripted((0.0,) * 6)) if kind in comb else RobustTermination(part, period=1)
                for k in range(4):
                    if k == when:
                        (t if which == "whole" else part).terminate()
                    t.update(None)
                    ctx.trans()
                    e = k >= when and (which == "whole" or kind != "all")
                    if t.has_terminated() != e or t.do_continue() == e:
                        ctx.viol("manual:%s" % kind, "a manual stop of the %s at update %d is %s at update %d" % (which, when, "not honoured" if e else "honoured", k), kind=kind)
                ctx.state()


def u_default(ctx, m):
    """The default criteria are the any-combination of robust design, violation and objective criteria."""
    from pymoo.termination.default import DefaultMultiObjectiveTermination, DefaultSingleObjectiveTermination
    prob = SimpleNamespace(has_bounds=lambda: True, xl=np.zeros(1), xu=np.ones(1), bounds=lambda: (np.zeros(1), np.ones(1)), has_constraints=lambda: True)
    states = [(0.0, 1.0, 0.0), (0.5, 1.0, 0.0), (0.5, 0.5, 0.0), (0.0, 2.0, 1.0), (0.5, 2.0, 0.5), (0.25, 0.5, 0.5)]   # x, f, cv
    for period in (1, 2):
        for steps in itertools.product(range(len(states)), repeat=4):
            if m == 1:
                t = DefaultSingleObjectiveTermination(xtol=1e-8, cvtol=1e-8, ftol=1e-6, period=period, n_max_gen=100)
                dx, df, dc, skip = 1e-8, 1e-6, 1e-8, 0
            else:
                t = DefaultMultiObjectiveTermination(xtol=1e-3, cvtol=1e-8, ftol=1e-3, n_skip=0, period=period, n_max_gen=100)
                dx, df, dc, skip = 1e-3, 1e-3, 1e-8, 0
            rx = Robust(Delta(dx, skip, lambda a, b: abs(states[a][0] - states[b][0])), period)

            def fd(a, b):
                (xa, fa, ca), (xb, fb, cb) = states[a], states[b]
                if ca > 0 or cb > 0:
                    return INF
                return max(0.0, fa - fb) if m == 1 else moo_delta([[fa, -fa]], [[fb, -fb]])
            rf = Robust(Delta(df, skip, fd), period)

            class C:
                def __init__(self):
                    self.d = Delta(dc, skip, lambda a, b: max(0.0, states[a][2] - states[b][2]))

                def update(self, s):
                    return False if states[s][2] <= 0 else self.d.update(s)
            rc = Robust(C(), period)

            class Any:
                def update(self, s):
                    return any([rx.update(s), rf.update(s), rc.update(s)])
            follow(ctx, "default", t, Any(), steps, lambda s, k: algo(X=[[states[s][0]]], F=[[states[s][1]] if m == 1 else [states[s][1], -states[s][1]]], CV=[states[s][2]], problem=prob, n_gen=k + 1, n_eval=k + 1),
                   dict(m=m, period=period))


def u_manual(ctx, name):
    """Stopping a complete run by hand at every iteration ends it at the next update."""
    from pymoo.core.callback import Callback
    from vmc import zoo
    a = zoo.by_name(name)
    for when in range(1, 5):
        for how in ("callback", "between"):
            for style in ("flag", "method"):
                rows = []

                class CB(Callback):
                    def notify(self, algorithm):
                        rows.append(algorithm.n_iter)
                        if how == "callback" and algorithm.n_iter == when:
                            stop(algorithm)

                def stop(algorithm):
                    if style == "flag":
                        algorithm.termination.force_termination = True
                    else:
                        algorithm.termination.terminate()
                p = zoo.make_problem(n_var=a.n_var, n_obj=1 if a.soo else 2)
                al = a.make()
                al.setup(p, termination=("n_iter", 30), seed=1, callback=CB())
                stopped = False
                while al.has_next() and len(rows) < 40:
                    al.next()
                    if how == "between" and rows and rows[-1] == when and not stopped:
                        stop(al)
                        stopped = True
                ctx.state()
                ctx.trace()
                ctx.trans(len(rows))
                ctx.outcome(name, when, how)
                if len(rows) > when + 1 or len(rows) < when:
                    ctx.viol("manual:run:%s" % name, "a run stopped by hand at iteration %d continued until iteration %d" % (when, len(rows)), how=how, style=style)


def units(tier):
    q = tier == "quick"
    U = []
    for tol in (0.0, 0.25, 1.0):
        for skip in (0, 1, 2):
            U.append(("u_soo", dict(tol=tol, skip=skip, depth=5 if q else 6)))
            U.append(("u_cv", dict(tol=tol, skip=skip, depth=5 if q else 6)))
    for g in (-1.0, -0.5, 0.0, 1.0, 1.5):
        U.append(("u_fmin", dict(goal=g, depth=4 if q else 5)))
    for goal in ("minimize", "maximize"):
        for th in (0.25, 0.5, 1.0):
            U.append(("u_indicator", dict(goal=goal, threshold=th, depth=4 if q else 6)))
    for tol in (0.0, 0.06, 0.3):
        for skip in (0, 1):
            U.append(("u_moo", dict(tol=tol, skip=skip, depth=4 if q else 5)))
            for b in (True, False):
                U.append(("u_xtol", dict(tol=tol, skip=skip, depth=5 if q else 6, bounded=b)))
    for k in ("robust", "any", "all", "collection", "nested", "nested2"):
        U.append(("u_compose", dict(kind=k, depth=5 if q else 6)))
    U += [("u_edge", dict(kind=k)) for k in ("soo", "moo", "xtol")]
    U += [("u_default", dict(m=1)), ("u_default", dict(m=2))]
    for n in ("GA", "DE", "PSO", "NelderMead", "PatternSearch", "NSGA2", "MOEAD", "CMAES", "G3PCX", "SMSEMOA", "ES", "DIRECT"):
        U.append(("u_manual", dict(name=n)))
    return U
