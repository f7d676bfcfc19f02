"""P37: the preference of a decision maker is asked for, modelled and used as it was given."""

import contextlib
import io
import itertools
import math
from unittest import mock

import numpy as np

from vmc import zoo  # noqa: F401  (sets up the import path)
from vmc.rng import ScriptRNG, explore

PROPERTY = "P37"
RULE = ("an execution is one dialogue with a decision maker, one fitted model, one set of compared solutions or one run; outcomes are distinct (ranking, relation, model, question) results")
BOUNDS = {
    "quick": "dialogues: all weak orders of up to 4 solutions x all signs x one invalid answer at every question; all typed rankings of 3 solutions with values 0..4 and 2..4 entries; "
             "value functions: all parameters out of 3 levels in 2 objectives; fits: all triples of non-dominated points of a 4 x 4 grid x all 13 weak orders x 2 models x 2 solvers; "
             "dominance: all ordered triples of a 3 x 3 grid x 5 models x 5 thresholds; use of the ranking: all rankings of 4 solutions x all sequences of successful and failed fits; "
             "runs: 4 decision makers x 3 intervals x 3 numbers of solutions x all first choices",
    "thorough": "as quick with 5 solutions in dialogues, quadruples of points for the fits and all ordered quadruples for the dominance",
}
TOL = 1e-6


# ---- weak orders ------------------------------------------------------------------------------------

def weak_orders(n):
    """All rankings of n solutions with ranks 1, 2, ... without gaps."""
    for r in itertools.product(range(1, n + 1), repeat=n):
        if set(r) == set(range(1, max(r) + 1)):
            yield r


def points(n):
    return np.array([[1.0 + i, 10.0 - i * i / 4] for i in range(n)])


def same_point(a, b):
    return np.array_equal(np.asarray(a, float), np.asarray(b, float))


def u_pairwise(ctx, n):
    from pymoo.algorithms.moo.pinsga2 import PINSGA2, AutomatedDM

    F = points(n)
    answer = {-1: "a", 1: "b", 0: "c"}

    def consult(ranks, signs, bad, raw=None):
        asked = []

        def dm(two):
            two = np.asarray(two)
            if two.shape != (2, 2):
                ctx.viol("question", "the decision maker is not shown two solutions", shown=two)
            who = []
            for q in two:
                idx = [k for k in range(n) if same_point(F[k] * signs, q)]
                if not idx:
                    ctx.viol("question", "the decision maker is shown something which is no solution", shown=two, solutions=F, signs=signs)
                    idx = [0]
                who.append(idx[0])
            asked.append(tuple(who))
            if len(asked) - 1 == bad:
                return raw
            c = (ranks[who[0]] > ranks[who[1]]) - (ranks[who[0]] < ranks[who[1]])
            a = answer[c]
            return (" %s " % a.upper()) if len(asked) % 2 == 0 else a

        with contextlib.redirect_stdout(io.StringIO()):
            out = PINSGA2._get_pairwise_ranks(F.copy(), signs, dm=dm)
        return np.asarray(out).tolist(), asked

    for ranks in weak_orders(n):
        for signs in [1] + [np.array(s) for s in itertools.product([1, -1], repeat=2)]:
            ctx.state()
            out, asked = consult(ranks, signs, None)
            ctx.trans(max(len(asked), 1))
            ctx.outcome("rank", tuple(out))
            ctx.check(out == list(ranks), "pairwise", "the ranking is not the one of the answers", preference=ranks, ranking=out)
            ctx.check(len(set(map(frozenset, asked))) == len(asked), "pairwise:twice", "the same two solutions are compared twice", asked=asked)
            ctx.check(all(a != b for a, b in asked), "pairwise:self", "a solution is compared with itself", asked=asked)
            if not np.ndim(signs):
                for k in range(len(asked)):
                    for raw in ["", "d", "ab", "1"]:
                        got, again = consult(ranks, signs, k, raw)
                        ctx.trans(len(again))
                        ctx.check(got == list(ranks), "pairwise:invalid", "an invalid answer changes the ranking", preference=ranks, ranking=got, question=k, answer=raw)
                        ctx.check(len(again) == len(asked) + 1 and again[k] == again[k + 1], "pairwise:again", "the question is not asked again after an invalid answer", asked=again)
        # an automated decision maker and a person at the keyboard are asked the same way

        class DM(AutomatedDM):
            def makeDecision(self, G):
                a, b = (int(np.where((F == g).all(axis=1))[0][0]) for g in G)
                return answer[(ranks[a] > ranks[b]) - (ranks[a] < ranks[b])]

        d = DM()
        PINSGA2(automated_dm=d)
        out = np.asarray(d.makePairwiseDecision(F.copy())).tolist()
        ctx.check(out == list(ranks), "pairwise:automated", "the ranking of an automated decision maker is not the one of its answers", preference=ranks, ranking=out)
        shown = []

        def key(text):
            shown.append(text)
            who = []
            for tag in ("[a]", "[b]"):
                line = [s for s in text.splitlines() if s.startswith(tag)][0]
                v = np.array([float(s) for s in line[3:].strip().strip("[]").split()])
                who.append([k for k in range(n) if np.allclose(F[k] * [1, -1], v)][0])
            return answer[(ranks[who[0]] > ranks[who[1]]) - (ranks[who[0]] < ranks[who[1]])]

        with mock.patch("builtins.input", key), contextlib.redirect_stdout(io.StringIO()):
            out = np.asarray(PINSGA2._get_pairwise_ranks(F.copy(), np.array([1, -1]))).tolist()
        ctx.check(out == list(ranks), "pairwise:keyboard", "the ranking is not the one typed in", preference=ranks, ranking=out)
        ctx.trace()


def u_absolute(ctx, sep):
    from pymoo.algorithms.moo.pinsga2 import PINSGA2

    n = 3
    F = points(n)
    entries = [r for k in (0, 2, 3, 4) for r in itertools.product(range(0, n + 2), repeat=k)]
    final = (2, 3, 1)
    for r in entries + ["x", "1" + sep + "two" + sep + "3", "1.5" + sep + "2" + sep + "3"]:
        first = r if isinstance(r, str) else sep.join(map(str, r))
        ok = not isinstance(r, str) and len(r) == n and all(1 <= v <= n for v in r)
        typed = iter([first] if ok else [first, sep.join(map(str, final))])
        count = [0]

        def key(text):
            count[0] += 1
            try:
                return next(typed)
            except StopIteration:
                raise AssertionError("asked once more")

        ctx.state()
        ctx.trans()
        try:
            with mock.patch("builtins.input", key), contextlib.redirect_stdout(io.StringIO()):
                out = np.asarray(PINSGA2._get_ranks(F.copy(), np.ones(2))).tolist()
        except Exception as e:
            ctx.viol("absolute:fails", "typing a ranking fails", typed=first, error=repr(e))
            continue
        want = list(r) if ok else list(final)
        ctx.outcome("absolute", ok, tuple(out))
        ctx.check(out == want, "absolute", "the ranking is not the one typed in, or one which does not rank all solutions is accepted", typed=first, ranking=out, expected=want)
        ctx.check(count[0] == (1 if ok else 2), "absolute:again", "it is not asked again after an invalid ranking", typed=first, questions=count[0])


# ---- value functions --------------------------------------------------------------------------------

def v_linear(p, x):
    return sum(a * b for a, b in zip(p, x))


def s_terms(p, x, M):
    """Term j: weights x[j*M + i], the i-th of which belongs to the objective (i + j) mod M, and twice the offset."""
    return [sum(x[j * M + i] * p[(i + j) % M] for i in range(M)) + 2 * x[M * M + j] for j in range(M)]


def v_poly(p, x, M):
    return math.prod(s_terms(p, x, M))


def near(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all((a == b) | (np.abs(a - b) <= tol * np.maximum(1.0, np.abs(b)))))


def u_values(ctx, M):
    from pymoo.util import value_functions as v

    P = np.array([[3.0, -1.0, 2.0], [0.5, 2.0, -4.0], [1.0, 1.0, 1.0], [-2.0, 0.0, 7.0]])[:, :M]
    deltas = [0.1, 0.5]
    ties = [(1, 2, 3, 4), (1, 1, 2, 3), (1, 2, 2, 2), (1, 1, 2, 2)]
    # linear
    rows = []
    for w in itertools.product([0.0, 0.25, 1.0], repeat=M):
        for eps in [-2.0, 0.0, 3.0]:
            x = np.array(list(w) + [eps])
            rows.append(x)
            ctx.state()
            ctx.trans()
            ctx.check(near(v.linear_vf(P, np.array(w)), [v_linear(p, w) for p in P]), "value:linear", "the linear value function is not the weighted sum", x=w, P=P)
            ctx.check(near(v._obj_func(x), -eps), "value:objective", "the objective of the fit is not the margin", x=x)
            ctx.check(near(v._eq_constr_linear(x), sum(w) - 1), "value:sum", "the weights do not have to add up to one", x=x)
            vals = [v_linear(p, w) for p in P]
            for d in deltas:
                for r in ties:
                    want = [abs(vals[i] - vals[i + 1]) - d * eps if r[i] == r[i + 1] else vals[i + 1] - vals[i] + eps for i in range(len(P) - 1)]
                    got = np.asarray(v._ineq_constr_linear(x, P, v.linear_vf, list(r), d)).ravel()
                    ctx.check(near(got, want), "value:order-linear", "the constraints of the fit are not the order of the values", x=x, ranks=r, delta=d, got=got, expected=want)
    X = np.array(rows)
    for r in ties:
        one = np.array([np.ravel(v._ineq_constr_linear(x, P, v.linear_vf, list(r), 0.1)) for x in X])
        ctx.check(near(v._ineq_constr_linear(X, P, v.linear_vf, list(r), 0.1), one), "value:rows-linear", "many parameters at once give other constraints than one by one", ranks=r)
    ctx.check(near(v._eq_constr_linear(X).ravel(), [v._eq_constr_linear(x) for x in X]), "value:rows-linear", "many parameters at once give other constraints than one by one")
    ctx.check(near(np.ravel(v._obj_func(X)), [v._obj_func(x) for x in X]), "value:rows-linear", "many parameters at once give another objective than one by one")
    # polynomial: all single and pairs of changes of the parameters
    base = [0.5] * (M * M) + [1.0] * M + [0.25]
    rows = []
    for k in range(len(base)):
        for j in range(k, len(base)):
            for a, b in itertools.product([0.0, 1.0], [-1.0, 2.0]):
                x = list(base)
                x[k] = a
                x[j] = b if j != k else x[j]
                rows.append(x)
    X = np.array(rows)
    ctx.state(len(X))
    ctx.trans(len(X))
    for x in X:
        y = x[:-1]
        vals = [v_poly(p, y, M) for p in P]
        ctx.check(near(v.poly_vf(P, y), vals), "value:poly", "the polynomial value function is not the product of its terms", x=y, got=v.poly_vf(P, y), expected=vals)
        ctx.check(near(v.poly_vf(P[[1]], y), vals[1]), "value:poly-one", "the value of one solution depends on the others", x=y)
        S = np.array([s_terms(p, y, M) for p in P])
        ctx.check(near(v._calc_S(P, y), S), "value:terms", "the terms of the polynomial are wrong", x=y)
        want_eq = [1 - sum(x[m * M:(m + 1) * M]) for m in range(M)]
        ctx.check(near(np.ravel(v._eq_constr_poly(x, M)), want_eq), "value:sum-poly", "the weights of a term do not have to add up to one", x=x)
        for d in deltas[:1]:
            for r in ties:
                want = [-s for s in S.ravel()] + [abs(vals[i] - vals[i + 1]) - d * x[-1] if r[i] == r[i + 1] else vals[i + 1] - vals[i] + x[-1] for i in range(len(P) - 1)]
                got = np.ravel(v._ineq_constr_poly(x, P, v.poly_vf, list(r), d))
                ctx.check(near(got, want), "value:order-poly", "the constraints of the fit are not the order of the values", x=x, ranks=r, got=got, expected=want)
    Z = X[:: max(1, len(X) // 12)]
    for r in ties:
        one = np.array([np.ravel(v._ineq_constr_poly(x, P, v.poly_vf, list(r), 0.1)) for x in Z])
        ctx.check(near(v._ineq_constr_poly(Z, P, v.poly_vf, list(r), 0.1), one), "value:rows-poly", "many parameters at once give other constraints than one by one", ranks=r)
    ctx.check(near(v._eq_constr_poly(Z, M), [v._eq_constr_poly(x, M) for x in Z]), "value:rows-poly", "many parameters at once give other constraints than one by one")
    # comparison with the second best
    for w in itertools.product([0.0, 0.5, 1.0], repeat=M):
        f = lambda p, w=w: v.linear_vf(np.asarray(p), np.array(w))  # noqa: E731
        for a, b in itertools.product(range(len(P)), repeat=2):
            c = v.make_vf_comparator(f, P[a])(P[b])
            va, vb = v_linear(P[a], w), v_linear(P[b], w)
            if abs(va - vb) > 1e-12 or va == vb:
                ctx.check(c == int(vb > va) - int(vb < va), "value:compare", "a solution is not compared by its value", reference=P[a], solution=P[b], x=w, got=c)
            ctx.trans()


# ---- fits -------------------------------------------------------------------------------------------

def u_fit(ctx, vf, method, n, part, parts):
    from pymoo.util import value_functions as v

    grid = list(itertools.product(range(4), repeat=2))
    sets = [c for c in itertools.combinations(grid, n) if all((a[0] - b[0]) * (a[1] - b[1]) < 0 for a, b in itertools.combinations(c, 2))]
    create = v.create_linear_vf if vf == "linear" else v.create_poly_vf
    M = 2
    k = -1
    for c in sets:
        for ranks in weak_orders(n):
            k += 1
            if k % parts != part:
                continue
            P = -np.array(c, float)
            P0, given = P.copy(), list(ranks)
            ctx.state()
            try:
                with contextlib.redirect_stderr(io.StringIO()):
                    res = create(P, given, max_iter=400, method=method) if method != "ES" else create(P, given, method=method)
            except Exception as e:
                ctx.viol("fit:fails:%s:%s" % (vf, method), "fitting a value function fails", P=P0, ranks=ranks, error=repr(e))
                continue
            ctx.trans()
            ctx.check(np.array_equal(P, P0) and given == list(ranks), "fit:input", "fitting a value function changes the points or the ranks it is given", ranks=ranks, after=given)
            ctx.outcome(vf, bool(res.fit))
            if not res.fit:
                continue
            ctx.trace()
            x = np.asarray(res.params, float)
            eps = float(res.epsilon)
            want = [v_linear(p, x) if vf == "linear" else v_poly(p, x, M) for p in P0]
            ctx.check(near(np.ravel(res.vf(P0)), want, 1e-7), "fit:function:%s" % vf, "the fitted value function is not the one of its parameters", P=P0, params=x)
            big = max(1.0, max(map(abs, want)))
            tol = TOL * big * 10 if method != "ES" else 1e-6 * big
            ctx.check(-TOL <= eps <= 1000 + TOL, "fit:margin", "the margin of the fit is outside of its bounds", epsilon=eps)
            htol = 1e-4 + TOL if method == "ES" else TOL
            if vf == "linear":
                ctx.check(np.all(x >= -TOL) and abs(x.sum() - 1) <= htol, "fit:weights", "the fitted weights are not a convex combination", params=x)
            else:
                ctx.check(all(abs(x[m * M:(m + 1) * M].sum() - 1) <= htol for m in range(M)) and np.all(x[: M * M] >= -TOL), "fit:weights", "the fitted weights are not convex combinations", params=x)
                ctx.check(all(s >= -tol for p in P0 for s in s_terms(p, x, M)), "fit:terms", "a term of the fitted value function is negative at a ranked solution", P=P0, params=x)
            order = sorted(range(n), key=lambda i: ranks[i])
            for a, b in zip(order, order[1:]):
                d = want[a] - want[b]
                if ranks[a] < ranks[b]:
                    ctx.check(d >= eps - tol, "fit:order:%s" % vf, "the fitted value function does not reproduce the ranking", P=P0, ranks=ranks, values=want, epsilon=eps)
                elif sum(r == ranks[a] for r in ranks) == 2:
                    ctx.check(abs(d) <= 0.1 * eps + tol, "fit:tie:%s" % vf, "the fitted value function does not reproduce a tie", P=P0, ranks=ranks, values=want, epsilon=eps)


def u_fitperm(ctx, vf):
    """The model depends on the ranked solutions, not on the order in which they are listed; create_vf is the same as the two functions."""
    from pymoo.util import value_functions as v

    P = -np.array([[0.0, 4.0], [1.0, 2.5], [3.0, 0.5], [4.0, 0.0]])
    for ranks in itertools.permutations((1, 2, 3, 4)):
        base = None
        for perm in [(0, 1, 2, 3), (3, 2, 1, 0), (1, 3, 0, 2), (2, 0, 3, 1)]:
            p = list(perm)
            create = v.create_linear_vf if vf == "linear" else v.create_poly_vf
            res = create(P[p].copy(), [ranks[i] for i in p], method="SLSQP", max_iter=200)
            if base is None:
                base = res
            ctx.state()
            ctx.trans()
            ctx.check(bool(res.fit) == bool(base.fit) and near(res.params, base.params, 1e-7), "fit:listing:%s" % vf, "the fitted value function depends on the order in which the solutions are listed",
                      ranks=ranks, listed=p)
            ctx.outcome(vf, ranks, bool(res.fit))
        try:
            other = v.create_vf(P.copy(), list(ranks), None, vf=vf, method="SLSQP")
            ref = create(P.copy(), list(ranks), method="SLSQP")
            ctx.check(bool(other.fit) == bool(ref.fit) and near(other.params, ref.params, 1e-7), "fit:create:%s" % vf, "create_vf does not return the value function of its kind", ranks=ranks)
        except Exception as e:
            ctx.viol("fit:create:%s" % vf, "create_vf fails", ranks=ranks, error=repr(e))
    for bad in ["cubic", "lin"]:
        try:
            v.create_vf(P, [1, 2, 3, 4], None, vf=bad)
            ctx.viol("fit:unknown", "an unknown kind of value function is accepted", kind=bad)
        except ValueError:
            pass
        except Exception as e:
            ctx.viol("fit:unknown", "an unknown kind of value function is not refused by a ValueError", kind=bad, error=repr(e))


def u_unfit(ctx):
    """Rankings which no value function can have are reported as such (a solution is ranked before one which is better in everything)."""
    from pymoo.util import value_functions as v

    P = -np.array([[0.0, 0.0], [1.0, 1.0], [2.0, 3.0]])
    for vf, method in itertools.product(["linear", "poly"], ["SLSQP", "trust-constr", "ES"]):
        create = v.create_linear_vf if vf == "linear" else v.create_poly_vf
        for ranks in [(3, 2, 1), (2, 1, 3), (2, 3, 1), (3, 1, 2), (1, 3, 2)] if method != "ES" else [(3, 2, 1)]:
            ctx.state()
            ctx.trans()
            try:
                with contextlib.redirect_stderr(io.StringIO()):
                    res = create(P.copy(), list(ranks), method=method, **({} if method == "ES" else dict(max_iter=200)))
            except Exception as e:
                ctx.viol("unfit:fails:%s:%s" % (vf, method), "fitting a value function fails if there is none", ranks=ranks, error=repr(e))
                continue
            ctx.outcome(vf, method, bool(res.fit))
            if vf == "linear":
                ctx.check(not res.fit or float(res.epsilon) <= TOL, "unfit:%s" % vf, "a monotone value function is reported to have a ranking against the dominance", ranks=ranks, epsilon=res.epsilon)


# ---- dominance with a value function ----------------------------------------------------------------

class _Model:
    def __init__(self, vf):
        self.vf = vf


class _Alg:
    def __init__(self, vf=None, v2=None):
        self.vf_res = None if vf is None else _Model(vf)
        self.v2 = v2


def relation(f, g, val, v2):
    """1: f is preferred, -1: g is, 0: neither."""
    s = (all(a <= b for a, b in zip(f, g)) and any(a < b for a, b in zip(f, g))) - (all(a >= b for a, b in zip(f, g)) and any(a > b for a, b in zip(f, g)))
    if val is None:
        return s
    a, b = val(f), val(g)
    t = (a > v2 > b) - (b > v2 > a)
    if s and t and s != t:
        return 0
    return s or t


def peel(F, rel):
    left = list(range(len(F)))
    fronts = []
    while left:
        front = [i for i in left if not any(rel[j][i] == 1 for j in left)]
        if not front:
            return None
        fronts.append(front)
        left = [i for i in left if i not in front]
    return fronts


MODELS = {
    "none": None,
    "sum": lambda f: -(f[0] + f[1]),
    "first": lambda f: -f[0],
    "weighted": lambda f: -(0.25 * f[0] + 0.75 * f[1]),
    "product": lambda f: (4 - f[0]) * (3 - f[1]),
    # preference against the objectives, as a badly extrapolating model may have
    "odd": lambda f: float(f[0]),
}


def u_dominance(ctx, model, n):
    from pymoo.util.nds.non_dominated_sorting import NonDominatedSorting
    from pymoo.util.vf_dominator import VFDominator

    val = MODELS[model]
    grid = [tuple(map(float, p)) for p in itertools.product(range(3), repeat=2)]
    allv = sorted({val(g) for g in grid}) if val else [None]
    if val:
        mid = [(a + b) / 2 for a, b in zip(allv, allv[1:])]
        cuts = sorted(set([allv[0] - 1, allv[-1] + 1, allv[len(allv) // 2], mid[0], mid[-1], mid[len(mid) // 2]]))
    else:
        cuts = [None]

    def vec(X):
        X = np.asarray(X)
        return np.array([val(-x) for x in X])

    for v2 in cuts:
        dom = VFDominator(_Alg(vec if val else None, v2))
        nds = NonDominatedSorting(dominator=dom)
        for c in itertools.product(grid, repeat=n):
            F = np.array(c)
            ctx.state()
            ctx.trans()
            M = np.asarray(dom.calc_domination_matrix(F))
            want = [[relation(f, g, val, v2) for g in c] for f in c]
            if not ctx.check(np.array_equal(M, want), "dominance:matrix", "a solution does not dominate exactly those which are worse in all objectives or which it is preferred to",
                             F=F, model=model, threshold=v2, got=M, expected=want):
                return
            if model == "odd":
                continue
            fronts = [sorted(map(int, f)) for f in nds.do(F)]
            ref = peel(c, want)
            ctx.outcome(model, tuple(map(tuple, fronts)))
            ctx.check(fronts == ref, "dominance:fronts", "the fronts are not those of the relation with the preference", F=F, model=model, threshold=v2, got=fronts, expected=ref)
        # against another set
        for c in itertools.product(grid, repeat=2):
            A = np.array(c)
            B = np.array(grid)
            M = np.asarray(dom.calc_domination_matrix(A, B))
            want = [[relation(f, g, val, v2) for g in grid] for f in c]
            ctx.check(np.array_equal(M, want), "dominance:sets", "two sets are not compared like the solutions in them", A=A, model=model, threshold=v2)
    if n == 3 and model == "none":
        for f, g in itertools.product(grid, repeat=2):
            for a, b in [(None, None), (0.0, 0.0), (0.0, 1.0), (2.0, 1.0)]:
                w = (a < b) - (b < a) if a is not None and a != b else relation(f, g, None, None)
                ctx.check(VFDominator.get_relation(np.array(f), np.array(g), a, b) == w, "dominance:pair", "two solutions are not compared by violation and dominance", f=f, g=g, cv=(a, b))
                ctx.trans()


# ---- use of the ranking in the algorithm ------------------------------------------------------------

def make_algorithm(dm, X, F, G=None, bad=False, **kw):
    """An algorithm in front of its first generation; the solutions X are sampled and have the objectives F."""
    from pymoo.algorithms.moo.pinsga2 import PINSGA2
    from pymoo.core.problem import Problem

    class Prob(Problem):
        def __init__(self):
            super().__init__(n_var=2, n_obj=2, n_ieq_constr=0 if G is None else 1, xl=0.0, xu=1.0)

        def _evaluate(self, x, out, *args, **kwargs):
            f, g = [], []
            for row in x:
                k = [i for i in range(len(X)) if np.array_equal(X[i], row)]
                if k:
                    f.append(F[k[0]])
                    g.append(G[k[0]] if G is not None else 0)
                else:
                    f.append([100.0, 100.0 + row[0]] if bad else [row[0] * 4, (1 - row[0]) * 4 + row[1]])
                    g.append(1.0 if G is not None and row[0] < 0.9 else -1.0)
            out["F"] = np.array(f)
            if G is not None:
                out["G"] = np.array(g)[:, None]

    a = PINSGA2(pop_size=len(X), sampling=np.array(X), automated_dm=dm, **kw)
    a.setup(Prob(), termination=("n_gen", 10), seed=1)
    return a


def step(a, rng=None):
    infills = a.ask()
    if rng is not None:
        a.random_state = rng
    a.evaluator.eval(a.problem, infills)
    a.tell(infills=infills)


def u_ranking(ctx, n):
    """All rankings of n solutions x all outcomes of the fits: the models are fitted to the right solutions, and the threshold is the second best."""
    from pymoo.algorithms.moo.pinsga2 import AutomatedDM
    from pymoo.util import value_functions as v

    X = np.array([[i / (n - 1), 0.5] for i in range(n)])
    F = np.array([[float(i), float((n - 1 - i) ** 2) / 2] for i in range(n)])

    for ranks in weak_orders(n):
        for fails in range(n):
            calls = []

            class DM(AutomatedDM):
                def makeDecision(self, G):
                    shown.append(np.array(G))
                    return np.array([ranks[int(g[0])] for g in G])

            def fake(P, r, **kw):
                calls.append((np.array(P), list(r), kw))
                return v.vfResults(lambda p: np.atleast_2d(p)[:, 0] * 1000 + np.atleast_2d(p)[:, 1], None, 1.0, len(calls) > fails)

            shown = []
            for vf_type in ["linear", "poly"]:
                calls.clear()
                shown.clear()
                a = make_algorithm(DM(), X, F, bad=True, tau=2, eta=n, vf_type=vf_type, ranking_type="absolute", opt_method="SLSQP")
                with mock.patch.object(v, "create_%s_vf" % vf_type, fake):
                    try:
                        step(a)
                        step(a)
                    except Exception as e:
                        ctx.viol("use:fails", "using the ranking fails", ranks=ranks, failed_fits=fails, error=repr(e))
                        continue
                ctx.state()
                ctx.trans(len(calls) + 1)
                if not ctx.check(len(shown) == 1 and np.array_equal(shown[0], F), "use:shown", "the decision maker is not shown the front in order", shown=shown):
                    continue
                # reference: drop the second best until the fit works
                left = list(range(n))
                want = []
                ok = None
                if len(set(ranks)) > 1:
                    while len(left) > 1:
                        want.append(list(left))
                        if len(want) > fails:
                            ok = sorted(left, key=lambda i: ranks[i])[1]
                            break
                        if len(left) == 2:
                            break
                        second = sorted(left, key=lambda i: ranks[i])[1]
                        # any of those which are second best may be left out
                        cand = [i for i in left if ranks[i] == ranks[second]]
                        now = [[int(-p[0]) for p in c[0]] for c in calls]
                        nxt = now[len(want)] if len(now) > len(want) else None
                        gone = [i for i in left if nxt is not None and i not in nxt]
                        left.remove(gone[0] if len(gone) == 1 and gone[0] in cand else second)
                got = [[int(-p[0]) for p in c[0]] for c in calls]
                ctx.outcome(ranks, fails, tuple(map(tuple, got)))
                ctx.check(got == want, "use:solutions", "the model is not fitted to the solutions shown without the second best of those tried before", ranks=ranks, failed_fits=fails, got=got, expected=want)
                if got == want:
                    for idx, (P, r, kw) in zip(got, calls):
                        rel = [(r[i] > r[j]) - (r[i] < r[j]) for i in range(len(r)) for j in range(len(r))]
                        ref = [(ranks[i] > ranks[j]) - (ranks[i] < ranks[j]) for i in idx for j in idx]
                        ctx.check(len(r) == len(idx) and rel == ref, "use:ranks", "the model is fitted to other preferences than the decision maker has", ranks=ranks, solutions=idx, fitted=r)
                        ctx.check(np.allclose(P, -F[idx]), "use:points", "the model is not fitted to the objectives", P=P)
                        ctx.check(kw.get("method") == "SLSQP" and kw.get("eps_max") == a.eps_max, "use:options", "the options of the fit are not those of the algorithm", options=kw)
                if ok is None:
                    ctx.check(a.vf_res is None and a.v2 is None, "use:none", "there is a preference although none could be modelled", ranks=ranks, failed_fits=fails, threshold=a.v2)
                else:
                    cand = [-F[i][0] * 1000 - F[i][1] for i in want[-1] if ranks[i] == ranks[ok]]
                    ctx.check(a.vf_res is not None and a.v2 in cand, "use:threshold", "the threshold is not the value of the second best solution", ranks=ranks, failed_fits=fails, threshold=a.v2, expected=cand)


def u_run(ctx, dm_kind, tau):
    """Real runs: when the decision maker is asked, what is shown, and what the survivors are sorted by."""
    from pymoo.algorithms.moo.pinsga2 import AutomatedDM

    prefer = {"first": lambda f: f[0], "sum": lambda f: f[0] + 2 * f[1], "ideal": lambda f: (f[0] - 2) ** 2 + (f[1] - 2) ** 2, "equal": lambda f: 0}[dm_kind]
    n = 5
    X = np.array([[0.0, 0.5], [0.25, 0.5], [0.5, 0.5], [0.75, 0.5], [1.0, 0.5]])
    F = np.array([[0.0, 4.0], [1.0, 2.5], [2.0, 1.5], [3.0, 0.5], [4.0, 0.0]])

    for eta in (2, 3, 4):
        for infeasible in (False, True):
            def once(o):
                asked = []
                G = [1.0] * n if infeasible else None

                class DM(AutomatedDM):
                    def makePairwiseDecision(self, Z):
                        asked.append(np.array(Z))
                        return super().makePairwiseDecision(Z)

                    def makeDecision(self, two):
                        p, q = prefer(two[0]), prefer(two[1])
                        return "a" if p < q else "b" if q < p else "c"

                a = make_algorithm(DM(), X, F, G, tau=tau, eta=eta, vf_type="linear", ranking_type="pairwise", opt_method="SLSQP")
                rng = ScriptRNG(o, levels=[0.5])
                for g in range(4):
                    ctx.trans()
                    vf_before, v2_before = a.vf_res, a.v2
                    before = len(asked)
                    real = a.random_state
                    gen_now = g + 1
                    try:
                        # only the first solution shown is drawn by the explorer
                        step(a, rng if g == tau - 1 or (g == 1 and tau == 1) else None)
                    except Exception as e:
                        ctx.viol("run:fails", "the run fails", infeasible=infeasible, generation=g + 1, error=repr(e))
                        return
                    a.random_state = real
                    PF = a.pop.get("F")
                    rank = a.pop.get("rank")
                    feas = a.pop.get("feas")
                    # the fronts are those of the preference which was known when they were sorted
                    idx = [i for i in range(len(PF)) if feas[i]]
                    val = None if vf_before is None else (lambda f: float(np.ravel(vf_before.vf(-np.array([f])))[0]))
                    if idx:
                        c = [tuple(PF[i]) for i in idx]
                        # survivors are the best fronts, hence their order is the one among themselves
                        ref = peel(c, [[relation(f, h, val, v2_before) for h in c] for f in c])
                        if ref is not None:
                            got = {i: int(rank[idx[i]]) for i in range(len(idx))}
                            want = {i: r for r, front in enumerate(ref) for i in front}
                            if not near_ties(c, val, v2_before):
                                ctx.check(got == want, "run:rank", "the solutions are not ranked by dominance and preference", F=c, got=got, expected=want, threshold=v2_before, generation=g + 1)
                    first = [tuple(PF[i]) for i in idx if rank[i] == 0]
                    due = g > 0 and gen_now % tau == 0 and len(set(first)) > 1 and eta > 1
                    if len(set(first)) != len(first):
                        due = None
                    new = asked[before:]
                    if due is not None:
                        ctx.check(len(new) == (1 if due else 0), "run:asked", "the decision maker is not asked exactly every tau generations if there is a choice", asked=len(new), generation=gen_now, tau=tau, front=first)
                    for Z in new:
                        rows = [tuple(z) for z in Z]
                        ctx.outcome(dm_kind, len(rows))
                        ctx.check(all(r in first for r in rows), "run:shown", "a solution is shown which is not in the first front", shown=rows, front=first)
                        ctx.check(len(set(rows)) == len(rows) and len(rows) == (min(eta, len(first)) if len(set(first)) == len(first) else len(rows)), "run:number", "not eta different solutions are shown",
                                  shown=rows, eta=eta, front=first)
                        ext = sorted(set(first))
                        if len(rows) == len(ext):
                            ctx.check(sorted(rows) == ext, "run:all", "not all solutions of a small front are shown", shown=rows)
                        order = sorted(rows, key=prefer)
                        if dm_kind == "equal":
                            ctx.check(a.vf_res is None and a.v2 is None, "run:equal", "there is a preference although the decision maker has none", threshold=a.v2)
                        elif a.vf_res is not None and a.vf_res is not vf_before:
                            cand = [float(np.ravel(a.vf_res.vf(-np.array([r])))[0]) for r in order[1:]]
                            if len(rows) <= 3:
                                cand = cand[:1] if len(rows) == 2 else cand
                            ctx.check(any(abs(a.v2 - w) <= 1e-9 * max(1, abs(w)) for w in cand), "run:threshold", "the threshold is not the value of a solution which is not the best", threshold=a.v2, values=cand)
                            ctx.trace()
                    if (g == 0 or gen_now % tau) and due is not None:
                        ctx.check(a.vf_res is vf_before and a.v2 == v2_before, "run:keep", "the preference changes without the decision maker being asked", generation=gen_now)
                ctx.state()

            n_runs, ok = explore(once, max_dev=1, max_runs=60)
            if not ok:
                ctx.cap("runs per configuration limited to 60")


def near_ties(c, val, v2):
    return val is not None and any(abs(val(f) - v2) <= 1e-9 * max(1.0, abs(v2)) for f in c)


def units(tier):
    big = tier == "thorough"
    out = [("u_pairwise", dict(n=n)) for n in range(1, 6 if big else 5)]
    out += [("u_absolute", dict(sep=s)) for s in (" ", ",", ", ")]
    out += [("u_values", dict(M=m)) for m in (2, 3)]
    for vf in ("linear", "poly"):
        for method in ("SLSQP", "trust-constr"):
            parts = 4 if vf == "poly" or method == "trust-constr" else 1
            for p in range(parts):
                out.append(("u_fit", dict(vf=vf, method=method, n=3, part=p, parts=parts)))
                if big:
                    out.append(("u_fit", dict(vf=vf, method=method, n=4, part=p, parts=parts)))
        if big:
            out += [("u_fit", dict(vf=vf, method="ES", n=3, part=p, parts=8)) for p in range(8)]
        out.append(("u_fitperm", dict(vf=vf)))
    out.append(("u_unfit", {}))
    for m in MODELS:
        out.append(("u_dominance", dict(model=m, n=3)))
        if big:
            out.append(("u_dominance", dict(model=m, n=4)))
    out += [("u_ranking", dict(n=n)) for n in (2, 3, 4)]
    for d in ("first", "sum", "ideal", "equal"):
        for t in (1, 2, 3):
            out.append(("u_run", dict(dm_kind=d, tau=t)))
    return out
