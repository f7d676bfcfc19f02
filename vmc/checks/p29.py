"""P29: benchmark problems are functions that agree with their formulas and documented optima."""

import itertools
import math
import warnings

import numpy as np

from vmc import formulas, formulas2, problems

PROPERTY = "P29"
RULE = "every state is one benchmark with one design or batch; outcomes are distinct benchmark/value-sign patterns"
BOUNDS = {
    "quick": "every registered static benchmark and 60+ settings of the scalable ones x all corners (2^n up to n=10, single flips beyond), a 6^k grid on the first three variables over 4 backgrounds, "
             "alone, in one batch, reversed, and in every ordered subset of 5 designs; documented fronts and sets against grid, corner, structured-optimal and neighbouring designs",
    "thorough": "corners up to 2^13, an 8^4 grid over 6 backgrounds, every ordered subset of 6 designs",
}


def get(name, **kw):
    from pymoo.problems import get_problem
    return get_problem(name, **kw)


def cases():
    """(label, registered name, factory)."""
    out = []
    for n in problems.REGISTRY:
        if n not in problems.DYNAMIC:
            out.append((n, n, lambda n=n: problems.make(n)))
    for n, f in problems.extra():
        if not hasattr(f(), "tic"):
            out.append((n, n, f))

    def add(name, **kw):
        out.append(("%s(%s)" % (name, ",".join("%s=%s" % q for q in kw.items())), name, lambda: get(name, **kw)))
    for n in ("ackley", "griewank", "rastrigin", "schwefel", "zakharov", "sphere"):
        for k in (1, 5):
            add(n, n_var=k)
    add("rosenbrock", n_var=5)
    for k in (1, 2, 3, 4, 6):
        for v in (2, 5):
            add("zdt%d" % k, n_var=v)
    add("zdt5", m=3, n=3)
    add("zdt5", normalize=False)
    for n in ["dtlz%d" % i for i in range(1, 8)] + ["dtlz1^-1", "sdtlz1", "convex_dtlz2", "convex_dtlz4"]:
        add(n, n_var=3, n_obj=2)
        add(n, n_var=7, n_obj=4)
    for n in ("c1dtlz1", "c1dtlz3", "c2dtlz2", "c3dtlz1", "c3dtlz4", "dc1dtlz1", "dc1dtlz3", "dc2dtlz1", "dc2dtlz3", "dc3dtlz1", "dc3dtlz3"):
        add(n, n_var=3, n_obj=2)
        add(n, n_var=7, n_obj=4)
    for i in range(1, 10):
        add("wfg%d" % i, n_var=8, n_obj=3, k=4)
    for i in range(1, 15):
        add("mw%d" % i, n_var=6)
    for i in range(2, 9):
        add("ctp%d" % i, n_var=4, option="multimodal")
    for d in range(2, 17):
        for i in (1, 4, 7):
            out.append(("dascmop%d(%d)" % (i, d), "dascmop%d" % i, lambda i=i, d=d: problem_dascmop(i, d)))
    for i in range(1, 21):
        add("zcat%d" % i, n_var=7, n_obj=3)
    for i in (1, 6, 11, 16, 19):
        add("zcat%d" % i, n_var=6, n_obj=2, complicated_pareto_set=True, level=4, bias=True, imbalance=True)
    return out


def problem_dascmop(i, d):
    from pymoo.problems import get_problem
    return get_problem("dascmop%d" % i, d)


def unit_designs(n, deep):
    R = []
    if n <= (13 if deep else 10):
        R += [np.array(c, float) for c in itertools.product((0, 1), repeat=n)]
    else:
        for k in range(n):
            v = np.zeros(n)
            v[k] = 1
            R += [v, 1 - v]
        R += [np.zeros(n), np.ones(n)]
    k = min(n, 4 if deep else 3)
    levels = (0, .1, .25, .5, .75, 1) if not deep else (0, .1, .25, .4, .5, .6, .75, 1)
    for c in itertools.product(levels, repeat=k):
        for base in ((0, .5, 1, .37) if not deep else (0, .2, .5, .8, 1, .37)):
            v = np.full(n, float(base))
            v[:k] = c
            R.append(v)
    return np.unique(np.array(R), axis=0)


def designs(p, deep=False):
    kind = type(p).__name__
    if kind in ("FlowshopScheduling", "TravelingSalesman"):
        return np.array(list(itertools.permutations(range(p.n_var))))
    R = unit_designs(p.n_var, deep)
    xl, xu = np.asarray(p.xl, float), np.asarray(p.xu, float)
    if kind == "ZDT5":
        return np.unique(R > 0.5, axis=0)
    X = np.where(R == 0, xl, np.where(R == 1, xu, xl + R * (xu - xl)))
    if p.vtype is bool:
        X = np.unique(X > 0.5, axis=0)
    elif p.vtype is int:
        X = np.unique(np.round(X).astype(int), axis=0)
    return X


def values(p, X):
    with np.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return p.evaluate(X, return_values_of=["F", "G", "H"], return_as_dictionary=True)


def same(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    with np.errstate(all="ignore"):
        return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= 1e-12 * np.maximum(1, np.abs(a)))))


def u_function(ctx, part, parts):
    """Same values alone and in any batch, finite, declared shapes, arguments untouched."""
    deep = ctx.tier == "thorough"
    for label, name, make in cases()[part::parts]:
        p = make()
        X = designs(p, deep)
        keep = X.copy()
        o = values(p, X)
        ctx.check((X == keep).all(), "function:argument:" + name, "evaluating changed the designs", problem=label)
        dims = dict(F=p.n_obj, G=p.n_ieq_constr, H=p.n_eq_constr)
        for k, n in dims.items():
            ctx.check(o[k].shape == (len(X), n), "function:shape:" + name, "%s has shape %s instead of %s" % (k, o[k].shape, (len(X), n)), problem=label)
        A = np.column_stack([o[k] for k in "FGH"]).astype(float)
        bad = np.where(~np.isfinite(A).all(axis=1))[0]
        if len(bad):
            ctx.viol("function:finite:" + name, "the values are not finite", problem=label, x=X[bad[0]], values=A[bad[0]], count=len(bad))
        r = values(p, X[::-1])
        ctx.check(all(same(r[k][::-1], o[k]) for k in "FGH"), "function:order:" + name, "the values depend on the order of the designs", problem=label)
        again = values(make(), X)
        ctx.check(all(same(again[k], o[k]) for k in "FGH"), "function:repeat:" + name, "a new instance evaluates differently", problem=label)
        for i in range(len(X)):
            one = values(p, X[i])
            ctx.state()
            if not ctx.check(all(same(np.ravel(one[k]), o[k][i]) for k in "FGH"), "function:alone:" + name, "a design evaluated alone has other values than in a batch", problem=label, x=X[i]):
                break
        pick = [int(q) for q in np.linspace(0, len(X) - 1, 6 if deep else 5)]
        for size in range(1, len(pick) + 1):
            for sub in itertools.permutations(pick, size):
                s = list(sub)
                b = values(p, X[s])
                ctx.trans()
                if not ctx.check(all(same(b[k], o[k][s]) for k in "FGH"), "function:batch:" + name, "the values depend on the batch", problem=label, X=X[s]):
                    break
        ctx.outcome(label, tuple(np.sign(A[len(A) // 2])) if np.isfinite(A[len(A) // 2]).all() else None)


def u_formula(ctx, part, parts):
    """The classical suites evaluate to their published formulas."""
    deep = ctx.tier == "thorough"
    for label, name, make in cases()[part::parts]:
        p = make()
        ref = formulas.reference(name, p) or formulas2.reference(name, p)
        if ref is None:
            continue
        X = designs(p, deep)
        o = values(p, X)
        undefined = 0
        for i, x in enumerate(X):
            try:
                want = ref([float(v) for v in x])
                a = np.array(sum((list(v) for v in want), []), float)
            except (ZeroDivisionError, ValueError, TypeError, OverflowError):
                # not defined at this design (a pole, a root of a negative number): u_function judges the values there
                undefined += 1
                continue
            ctx.state()
            b = np.concatenate([o[v][i] for v in "FGH"]).astype(float)
            if not ctx.check(a.shape == b.shape and np.all(np.abs(a - b) <= 1e-8 * np.maximum(1, np.abs(a))), "formula:" + name, "the values are %s instead of %s" % (b, a), problem=label, x=x):
                break
        ctx.outcome("formula", label, undefined)
        assert undefined < len(X) / 2, "the formula of %s is undefined at most designs" % label
    if part == 0:
        from pymoo.problems.single.flowshop_scheduling import FlowshopScheduling, create_random_flowshop_problem
        from pymoo.problems.single.knapsack import Knapsack, MultiObjectiveKnapsack, create_random_knapsack_problem
        from pymoo.problems.single.traveling_salesman import TravelingSalesman, create_random_tsp_problem
        for n in (1, 2, 3, 4, 5):
            for seed in range(3):
                C = np.array([[(7 * i + 3 * seed) % 5, (3 * i * i + seed) % 7] for i in range(n)], float)
                p = TravelingSalesman(C)
                D = [[math.dist(a, b) for b in C] for a in C]
                for x in itertools.permutations(range(n)):
                    ctx.check(abs(p.evaluate(np.array(x), return_values_of=["F"])[0] - formulas.tour(x, D)) <= 1e-9, "formula:tsp", "the length of the tour is wrong", cities=C, x=x)
                    ctx.trans()
                for m in (1, 2, 3):
                    T = np.array([[(5 * i + 3 * j + i * j + seed * (j + 1)) % 7 + 1 for j in range(n)] for i in range(m)])
                    p = FlowshopScheduling(T)
                    for x in itertools.permutations(range(n)):
                        ctx.check(p.evaluate(np.array(x), return_values_of=["F"])[0] == formulas.makespan(x, T), "formula:flowshop", "the makespan is wrong", times=T, x=x)
                        ctx.check(min(x) >= p.xl.min() and max(x) <= p.xu.min(), "bounds:flowshop", "a permutation lies outside the bounds", times=T, x=x)
                        ctx.trans()
                W, P = np.array([(3 * i + seed) % 5 + 1 for i in range(n)]), np.array([(7 * i + 2 * seed) % 6 + 1 for i in range(n)])
                p, q = Knapsack(n, W, P, 7), MultiObjectiveKnapsack(n, W, P, 7)
                for x in itertools.product((False, True), repeat=n):
                    w, v = sum(W[i] for i in range(n) if x[i]), sum(P[i] for i in range(n) if x[i])
                    a, b = values(p, np.array([x])), values(q, np.array([x]))
                    ctx.check(a["F"].tolist() == [[-v]] and a["G"].tolist() == [[w - 7]], "formula:knapsack", "the knapsack is evaluated wrongly", x=x)
                    ctx.check(b["F"].tolist() == [[-v, sum(x)]] and b["G"].tolist() == [[w - 7]], "formula:knapsack", "the knapsack is evaluated wrongly", x=x)
                    ctx.trans()
        for f in (lambda s: create_random_tsp_problem(4, random_state=np.random.default_rng(s)).D, lambda s: create_random_flowshop_problem(2, 3, random_state=np.random.default_rng(s)).records,
                  lambda s: create_random_knapsack_problem(4, random_state=np.random.default_rng(s)).W):
            for s in range(4):
                ctx.check(np.array_equal(f(s), f(s)), "formula:random", "the same generator creates another problem")
                ctx.trans()


# --- documented optima ------------------------------------------------------------------------------------

# best known values from the literature (CEC 2006 for g1..g24) for the settings registered
BEST = dict(g1=-15, g2=-0.8036191, g3=-1.0, g4=-30665.5386718, g5=5126.4981, g6=-6961.8138756, g7=24.3062091, g8=-0.0958250, g9=680.6300574, g10=7049.2480206, g11=0.75, g12=-1.0,
            g13=0.0539498, g14=-47.7648885, g15=961.7150223, g16=-1.9051553, g17=8853.5339, g18=-0.8660254, g19=32.6555930, g21=193.7245101, g22=236.4309755, g23=-400.0, g24=-5.5080133)


def viol(o):
    v = np.zeros(len(o["F"]))
    if o["G"].shape[1]:
        v = v + np.maximum(0, o["G"]).max(axis=1)
    if o["H"].shape[1]:
        v = v + np.abs(o["H"]).max(axis=1)
    return v


def front(p, **kw):
    from pymoo.util.ref_dirs import get_reference_directions
    try:
        return p.pareto_front(**kw)
    except OSError:
        return None
    except Exception as e:
        if "could not download" in str(e) or "Reference front for" in str(e):
            return None
        if "provide reference directions" in str(e):        # documented: needed for more than three objectives
            return p.pareto_front(get_reference_directions("das-dennis", p.n_obj, n_partitions=6))
        raise


def neighbours(p, x, deep):
    n = len(x)
    step = np.asarray(p.xu, float) - np.asarray(p.xl, float)
    D = []
    for k in range(n):
        for d in (1e-7, 1e-5, 1e-3, 1e-2, 0.1, 0.5):
            for s in (1, -1):
                y = np.array(x, float)
                y[k] += s * d * step[k]
                D.append(y)
    for i, j in itertools.combinations(range(n), 2):
        for d in (1e-5, 1e-3, 1e-2) if deep else (1e-3,):
            for s, t in itertools.product((1, -1), repeat=2):
                y = np.array(x, float)
                y[i] += s * d * step[i]
                y[j] += t * d * step[j]
                D.append(y)
    return np.clip(np.array(D), p.xl, p.xu)


def u_single(ctx, part, parts):
    deep = ctx.tier == "thorough"
    for label, name, make in cases()[part::parts]:
        p = make()
        if p.n_obj != 1:
            continue
        try:
            pf, ps = p.pareto_front(), p.pareto_set()
        except Exception as e:
            ctx.viol("optimum:raised:" + name, "asking for the optimum raised %s: %s" % (type(e).__name__, e), problem=label)
            continue
        ctx.check((p.pareto_front() is None) == (pf is None) and np.array_equal(make().pareto_front(), pf), "optimum:repeat:" + name, "the documented optimum differs from call to call", problem=label)
        if pf is None:
            continue
        pf = np.asarray(pf, float)
        if not ctx.check(pf.ndim == 2 and pf.shape == (1, 1), "optimum:shape:" + name, "the documented optimum has shape %s" % (pf.shape,), problem=label):
            continue
        best = pf[0, 0]
        ctx.check(p.ideal_point().tolist() == [best] and p.nadir_point().tolist() == [best], "optimum:ideal:" + name, "the ideal point is not the optimum", problem=label)
        if name in BEST:
            ctx.check(abs(best - BEST[name]) <= 1e-6 * max(1, abs(best)), "optimum:literature:" + name, "the documented optimum is %.8g, the literature has %.8g" % (best, BEST[name]), problem=label)
        tol = 1e-4 * max(1, abs(best))
        cand = [designs(p, deep)]
        if ps is not None:
            ps = np.asarray(ps, float)
            if not ctx.check(ps.ndim == 2 and ps.shape[1] == p.n_var, "optimum:set:" + name, "the documented optimal designs have shape %s" % (ps.shape,), problem=label):
                continue
            ctx.check(bool((ps >= p.xl).all() and (ps <= p.xu).all()), "optimum:bounds:" + name, "the documented optimum lies outside the bounds", problem=label, x=ps)
            o = values(p, ps)
            ctx.check(bool((np.abs(o["F"][:, 0] - best) <= tol).all()), "optimum:value:" + name, "the documented optimal designs evaluate to %s instead of %s" % (o["F"][:, 0], best), problem=label, x=ps)
            if name != "g20":       # no feasible solution of g20 is known
                ctx.check(bool((viol(o) <= 1.001e-4).all()), "optimum:feasible:" + name, "the documented optimum violates a constraint by %s" % viol(o), problem=label, x=ps)
            for x in ps:
                cand.append(neighbours(p, x, deep))
        X = np.vstack(cand)
        o = values(p, X)
        ok = np.isfinite(o["F"][:, 0]) & (viol(o) <= 1e-9)
        ctx.state(len(X))
        ctx.trans(int(ok.sum()))
        better = np.where(ok & (o["F"][:, 0] < best - tol))[0]
        ctx.check(not len(better), "optimum:better:" + name, "a feasible design is better than the documented optimum %s" % best, problem=label, x=X[better[:1]], F=o["F"][better[:1]])
        ctx.outcome("single", label, int(ok.sum()) > 0)


def line(n):
    return np.linspace(0, 1, n)


def optimal(name, p, deep):
    """Designs known to be Pareto-optimal (from the construction of the benchmark), or None."""
    n, M = p.n_var, p.n_obj
    T = line(201 if deep else 101)
    if name in ("zdt1", "zdt2", "zdt4", "zdt6"):
        X = np.zeros((len(T), n))
        X[:, 0] = T
        return X
    if name == "zdt5":
        out = []
        for k in range(31):
            v = np.ones(n, bool)
            v[k:30] = False
            out.append(v)
        return np.array(out)
    if name == "bnh":
        t = T * 5
        return np.column_stack([t, np.minimum(t, 3)])
    if name == "srn":
        return np.column_stack([np.full(len(T), -2.5), 2.5 + T * (14.790199457749041 - 2.5)])
    if name == "omnitest":
        return np.vstack([np.full((len(T), n), 2 * m + 1.0) + 0.5 * T[:, None] for m in range(3)])
    if name.startswith("sympart"):
        return None
    if name in ("dtlz1", "dtlz2", "dtlz3", "dtlz4", "dtlz1^-1", "sdtlz1", "convex_dtlz2", "convex_dtlz4", "c1dtlz1", "c1dtlz3", "c2dtlz2", "dc1dtlz1", "dc1dtlz3", "dc2dtlz1", "dc2dtlz3", "dc3dtlz1", "dc3dtlz3"):
        k = {1: 101, 2: 16, 3: 7}.get(M - 1, 5)
        P = np.array(list(itertools.product(line(k), repeat=M - 1)))
        if name.endswith("dtlz4"):
            P = P ** 0.01
        return np.hstack([P, np.full((len(P), n - M + 1), 0.5)])
    if name.startswith("mw"):
        m = p.n_obj
        k = {1: 101, 2: 16}.get(m - 1, 7)
        P = np.array(list(itertools.product(line(k), repeat=m - 1))) * np.asarray(p.xu)[0]
        i = np.arange(m - 1, n)
        num = int(name[2:])
        if num in (1, 4, 5, 8, 9, 12):
            tail = np.tile((0.5 + i / (2 * n)) ** (1 / (n - m)), (len(P), 1)) if num != 8 else np.tile(i / n, (len(P), 1))
        elif num in (2, 6, 10, 13):
            tail = np.tile(i / n, (len(P), 1))
        else:
            tail = np.empty((len(P), len(i)))
            prev = P[:, -1]
            for j in range(len(i)):
                tail[:, j] = 1 - (prev - 0.5) ** 2
                prev = tail[:, j]
        return np.hstack([P, tail])
    return None


def invert(name, p, F):
    """Designs of the DTLZ family that must evaluate to the given front points."""
    M, n = p.n_obj, p.n_var
    k = n - M + 1
    F = np.array(F, float)
    if name.startswith("convex"):
        F = np.column_stack([np.maximum(F[:, :-1], 0) ** 0.25, np.maximum(F[:, -1], 0) ** 0.5])
    if name == "sdtlz1":
        F = F / 10.0 ** np.arange(M)
    if name == "dtlz1^-1":
        F = 0.5 - F
    lin = name.endswith("dtlz1") or name == "dtlz1^-1"
    out = []
    for f in F:
        if lin:
            r = f.sum()
            g = r / 0.5 - 1
            x, rest = [], r
            for i in range(M - 1):
                q = f[M - 1 - i] / rest if rest > 1e-9 else 1       # without influence: zero
                x.append(1 - q)
                rest *= 1 - q
        else:
            r = math.sqrt((f ** 2).sum())
            g = r - 1
            x, rest = [], r
            for i in range(M - 1):
                q = 0 if rest <= 1e-12 else math.asin(min(1, max(0, f[M - 1 - i] / rest)))
                x.append(q * 2 / math.pi)
                rest *= math.cos(q)
        if name.endswith("dtlz4"):
            x = [v ** 0.01 for v in x]
        tail = np.full(k, 0.5)
        if g > 1e-9:
            if name.endswith(("dtlz2", "dtlz4")):
                tail = tail + math.sqrt(g / k)
            else:
                h = lambda t: 100 * (t * t + 1 - math.cos(20 * math.pi * t))
                lo, hi = 0.0, 0.05
                for _ in range(200):
                    mid = (lo + hi) / 2
                    lo, hi = (mid, hi) if h(mid) < g else (lo, mid)
                tail[0] += lo
        out.append(np.concatenate([x, tail]))
    return np.array(out)


DTLZ_LIKE = ("dtlz1", "dtlz2", "dtlz3", "dtlz4", "dtlz1^-1", "sdtlz1", "convex_dtlz2", "convex_dtlz4", "c1dtlz1", "c1dtlz3", "c2dtlz2", "c3dtlz1", "c3dtlz4", "dc1dtlz1", "dc1dtlz3", "dc2dtlz1", "dc2dtlz3",
             "dc3dtlz1", "dc3dtlz3")


def margin(A, B):
    """Largest margin by which some row of A is smaller than a row of B in every objective, and where."""
    w, at = -np.inf, (0, 0)
    for j, b in enumerate(B):
        m = (b - A).min(axis=1)
        i = int(np.argmax(m))
        if m[i] > w:
            w, at = float(m[i]), (i, j)
    return w, at


def u_front(ctx, part, parts):
    deep = ctx.tier == "thorough"
    for label, name, make in cases()[part::parts]:
        p = make()
        if p.n_obj == 1:
            continue
        try:
            pf = front(p)
            ps = None if pf is None else p.pareto_set()
        except Exception as e:
            ctx.viol("front:raised:" + name, "asking for the front raised %s: %s" % (type(e).__name__, e), problem=label)
            continue
        if pf is None:
            continue
        pf = np.asarray(pf, float)
        if not ctx.check(pf.ndim == 2 and len(pf) > 0 and pf.shape[1] == p.n_obj and bool(np.isfinite(pf).all()), "front:shape:" + name, "the front has shape %s" % (pf.shape,), problem=label):
            continue
        ctx.check(np.array_equal(p.pareto_front(), pf), "front:repeat:" + name, "asking twice gives another front", problem=label)
        if not name.startswith("wfg"):
            ctx.check(np.array_equal(front(make()), pf), "front:repeat:" + name, "a new instance has another front", problem=label)
        ctx.check(np.array_equal(p.ideal_point(), pf.min(axis=0)) and np.array_equal(p.nadir_point(), pf.max(axis=0)), "front:ideal:" + name, "ideal and nadir do not bound the front", problem=label)
        if p.n_obj == 2:
            ctx.check(bool((np.diff(pf[:, 0]) >= 0).all()), "front:sorted:" + name, "the two-dimensional front is not sorted", problem=label)
        span = np.maximum(pf.max(axis=0) - pf.min(axis=0), 1e-9)
        tol = 2e-3 if name in ("mw3", "truss2d") else 0.06 if name == "wfg2" else 1e-6     # fronts made by small steps or from random optimal designs
        w, (i, j) = margin(pf / span, pf / span)
        ctx.state(len(pf))
        ctx.check(w <= tol, "front:dominated:" + name, "a point of the front is dominated by another one", problem=label, a=pf[i], b=pf[j])
        X = designs(p, deep)
        opt = optimal(name, p, deep)
        if opt is not None:
            X = np.vstack([X, opt])
        o = values(p, X)
        ok = np.isfinite(o["F"]).all(axis=1) & (viol(o) <= 0)
        ctx.trans(int(ok.sum()))
        if ok.any():
            w, (i, j) = margin(o["F"][ok] / span, pf / span)
            ctx.check(w <= tol, "front:beaten:" + name, "a feasible design dominates the documented front", problem=label, x=X[ok][i], F=o["F"][ok][i], front=pf[j])
        if opt is not None:
            oo = values(p, opt)
            good = viol(oo) <= 1e-9
            if good.any():
                w, (i, j) = margin(pf / span, oo["F"][good] / span)
                ctx.check(w <= tol, "front:unreachable:" + name, "the documented front claims better values than the optimal designs reach", problem=label, x=opt[good][j], F=oo["F"][good][j], front=pf[i])
        if name in DTLZ_LIKE:
            Y = invert(name, p, pf)
            oo = values(p, Y)
            d = np.abs(oo["F"] - pf).max(axis=1)
            ctx.check(bool((d <= 1e-6 * max(1, pf.max())).all()), "front:reached:" + name, "a point of the front is not reached by the design constructed for it", problem=label, front=pf[int(np.argmax(d))],
                      x=Y[int(np.argmax(d))], F=oo["F"][int(np.argmax(d))])
            v = viol(oo)
            ctx.check(bool((v <= 1e-6).all()), "front:feasible:" + name, "a point of the documented front is infeasible", problem=label, front=pf[int(np.argmax(v))], x=Y[int(np.argmax(v))], violation=float(v.max()))
        if ps is not None:
            ps = np.asarray(ps, float)
            ctx.check(bool((ps >= p.xl - 1e-9).all() and (ps <= p.xu + 1e-9).all()), "set:bounds:" + name, "documented optimal designs lie outside the bounds", problem=label)
            oo = values(p, ps)
            ctx.check(bool((viol(oo) <= 1e-6 * max(1, float(np.abs(pf).max()))).all()), "set:feasible:" + name, "a documented optimal design is infeasible", problem=label)
            stol = 0.06 if name == "wfg2" else 0.02 if name.startswith("wfg") else 1e-6
            for a, b, what in ((oo["F"], pf, "dominates the documented front"),) + (((pf, oo["F"], "is dominated by the documented front"),) if name != "wfg2" else ()):
                w, (i, j) = margin(a / span, b / span)
                ctx.check(w <= stol, "set:front:" + name, "a documented optimal design %s" % what, problem=label, margin=w, x=ps[i if a is oo["F"] else j])
        ctx.outcome("front", label, len(pf), int(ok.any()))


def u_refdirs(ctx):
    """A front asked for along given reference directions has one point per direction and leaves them unchanged."""
    from pymoo.util.ref_dirs import get_reference_directions
    for name in ("dtlz1", "dtlz2", "dtlz3", "dtlz4", "dtlz1^-1", "sdtlz1", "convex_dtlz2", "convex_dtlz4", "c1dtlz1", "c1dtlz3", "c2dtlz2", "c3dtlz1", "c3dtlz4", "mw1", "mw2", "mw3", "mw4", "mw6", "mw8", "mw12",
                 "dc2dtlz1", "dc2dtlz3", "dc1dtlz1", "dc3dtlz3", "wfg4", "wfg9"):
        for parts in (1, 2, 4, 7):
            kw = dict(n_var=6, n_obj=2) if name.startswith("wfg") else {}
            if "dtlz" in name:
                kw = dict(n_var=6, n_obj=3)
            p = get(name, **kw)
            R = get_reference_directions("das-dennis", p.n_obj, n_partitions=parts)
            keep = R.copy()
            d = dict(problem=name, n_partitions=parts)
            try:
                pf = p.pareto_front(ref_dirs=R)
            except Exception as e:
                ctx.viol("refdirs:raised:" + name, "asking for the front along reference directions raised %s: %s" % (type(e).__name__, e), **d)
                continue
            ctx.state()
            ctx.check(np.array_equal(R, keep), "refdirs:argument:" + name, "asking for the front changed the reference directions", **d)
            ctx.check(pf.ndim == 2 and pf.shape[1] == p.n_obj and len(pf) <= max(len(R), 1), "refdirs:shape:" + name, "the front has shape %s for %d directions" % (pf.shape, len(R)), **d)
            if name in ("dtlz1", "dtlz2", "dtlz3", "dtlz4", "c1dtlz1", "c1dtlz3", "c3dtlz1", "c3dtlz4", "dc2dtlz1", "dc2dtlz3"):
                ok = len(pf) == len(R) and all(np.allclose(f / f.sum(), r, atol=1e-9) if name.endswith("1") else np.allclose(f / np.linalg.norm(f), r / np.linalg.norm(r), atol=1e-9) for f, r in zip(pf, R))
                ctx.check(ok, "refdirs:direction:" + name, "a point of the front does not lie on its direction", **d)
            if not name.startswith("wfg"):
                q = get(name, **kw)
                if q.n_obj <= 3:
                    q.pareto_front()
                ctx.check(np.array_equal(q.pareto_front(ref_dirs=R.copy(), use_cache=False), pf), "refdirs:cache:" + name, "without the cache an earlier front is returned", **d)
            ctx.trans()
            ctx.outcome(name, parts)
    for name in ("zdt1", "zdt2", "zdt4", "zdt6", "srn", "bnh", "zdt3", "zdt5", "omnitest", "sympart"):
        for k in (5, 20, 50, 450):
            p = get(name) if name not in ("omnitest", "sympart") else dict(problems.extra())[name]()
            arg = {"zdt3": "n_points", "bnh": "n_points", "srn": "n_points"}.get(name, "n_pareto_points")
            if name in ("omnitest", "sympart") and k < 450:
                continue
            pf = p.pareto_front(**{arg: k})
            if name not in ("omnitest", "sympart"):
                q = get(name)
                q.pareto_front()
                ctx.check(np.array_equal(q.pareto_front(use_cache=False, **{arg: k}), pf), "refdirs:cache:" + name, "without the cache an earlier front is returned", problem=name)
            ctx.check(len(pf) == k, "refdirs:number:" + name, "the front has %d points instead of %d" % (len(pf), k), problem=name)
            ctx.trans()


def u_names(ctx):
    """get_problem knows every name, ignores case, and passes the settings on."""
    from pymoo.problems import get_problem
    for n in problems.REGISTRY:
        args = (1,) if n.startswith("dascmop") else ()
        kw = dict(n_var=6, n_obj=2) if n.startswith("wfg") else {}
        a, b = get_problem(n, *args, **kw), get_problem(n.upper(), *args, **kw)
        ctx.check(type(a) is type(b), "names:case", "the upper case name gives another problem", name=n)
        ctx.check(a.n_var == b.n_var and a.n_obj == b.n_obj and a.n_var == len(a.xl) == len(a.xu) and bool((np.asarray(a.xl) <= np.asarray(a.xu)).all()), "names:bounds", "the bounds do not fit", name=n)
        want = n.replace("dtlz1^-1", "inverteddtlz1").replace("sdtlz1", "scaleddtlz1").replace("_", "")
        ctx.check(type(a).__name__.lower() == want, "names:class", "%s gives %s" % (n, type(a).__name__), name=n)
        ctx.trans()
        ctx.state()
        ctx.outcome(n)
    try:
        get_problem("no-such-problem")
        ctx.viol("names:unknown", "an unknown name is accepted")
    except Exception:
        pass


def units(tier):
    U = [("u_names", {}), ("u_refdirs", {})]
    U += [("u_function", dict(part=i, parts=24)) for i in range(24)]
    U += [("u_formula", dict(part=i, parts=8)) for i in range(8)]
    U += [("u_single", dict(part=i, parts=6)) for i in range(6)]
    U += [("u_front", dict(part=i, parts=24)) for i in range(24)]
    return U
