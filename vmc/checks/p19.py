"""P19: performance indicators equal brute-force evaluation of their definition."""

import itertools

import numpy as np

PROPERTY = "P19"
RULE = "every state is one (indicator, reference set, options, point set, representation) evaluated by the implementation and by brute force; outcomes are distinct values"
BOUNDS = {
    "quick": "2 objectives: all sets of 1-2 points and all 3-subsets over a 4x4 grid x 9 reference fronts x normalisation options x hypervolume, GD, GD+, IGD, IGD+, additive and multiplicative epsilon, spacing; 1, 3 and 4 objectives on a 3-valued grid; "
             "all orders and all duplications of every set of up to 3 points; integer, strided, column-major and 1-d inputs; all pairs of consecutive calls; every added point for the hypervolume; all add/delete histories "
             "of up to 4 steps of the incremental hypervolume with contributions",
    "thorough": "as quick with a 5x5 grid, all sets of up to 4 points, 3 objectives with up to 3 points, histories of 5 steps",
}
TOL = 1e-9


# --- definitions -------------------------------------------------------------------------------

def hv(P, ref):
    """Volume of the union of the boxes between the points and the reference point."""
    m = len(ref)
    P = [p for p in P if all(a < b for a, b in zip(p, ref))]
    if not P:
        return 0.0
    cuts = [sorted({p[j] for p in P} | {ref[j]}) for j in range(m)]
    total = 0.0
    for cell in itertools.product(*[range(len(c) - 1) for c in cuts]):
        low = [cuts[j][i] for j, i in enumerate(cell)]
        if any(all(p[j] <= low[j] for j in range(m)) for p in P):
            v = 1.0
            for j, i in enumerate(cell):
                v *= cuts[j][i + 1] - cuts[j][i]
            total += v
    return total


def euclid(z, a, n):
    return sum(((x - y) / s) ** 2 for x, y, s in zip(z, a, n)) ** 0.5


def plus(z, a, n):
    return sum((max(y - x, 0.0) / s) ** 2 for x, y, s in zip(z, a, n)) ** 0.5


def gd(F, R, n, d):
    return sum(min(d(r, f, n) for r in R) for f in F) / len(F)


def igd(F, R, n, d):
    return sum(min(d(r, f, n) for f in F) for r in R) / len(R)


def eps_add(F, R):
    return max(min(max(a - b for a, b in zip(f, r)) for f in F) for r in R)


def eps_mult(F, R):
    return max(min(max(a / b for a, b in zip(f, r)) for f in F) for r in R)


def spacing(F):
    d = [min(sum(abs(a - b) for a, b in zip(f, g)) for j, g in enumerate(F) if j != i) for i, f in enumerate(F)]
    mean = sum(d) / len(d)
    return (sum((x - mean) ** 2 for x in d) / len(d)) ** 0.5


def scale(P, ideal, nadir):
    return [[(x - a) if a == b else (x - a) / (b - a) for x, a, b in zip(p, ideal, nadir)] for p in P]


# --- configurations ----------------------------------------------------------------------------

def fronts(m):
    base = [
        [[0.0, 1.0, 0.5, 1.0], [1.0, 0.0, 0.5, 0.0]],
        [[0.5, 0.5, 0.5, 0.5]],
        [[0.0, 1.0, 1.0, 2.0], [0.5, 0.5, 0.0, 1.0], [1.0, 0.0, 2.0, 0.0]],
        [[0.25, 2.0, 1.0, 1.0], [0.25, 2.0, 1.0, 1.0], [1.5, 0.5, 0.0, 3.0]],
        [[-1.0, 3.0, 1.0, -1.0], [0.0, 1.0, 0.5, 0.0], [2.0, -2.0, 4.0, 1.0]],
        [[0.5, 1.0, 0.25, 1.0], [0.5, 2.0, 0.5, 2.0]],
        [[1.0, 0.5, 2.0, 1.0], [0.5, 1.0, 2.0, 0.5]],
        [[1.0, 1.0, 1.0, 1.0], [0.25, 0.25, 0.25, 0.25], [2.0, 0.125, 1.0, 1.0], [0.125, 2.0, 1.0, 1.0]],
        [[2.0, 0.0, 3.0, 1.0], [0.0, 3.0, 1.0, 2.0], [1.0, 1.0, 0.0, 3.0]],
    ]
    return [[r[:m] for r in f] for f in base]


OPTS = [dict(), dict(zero_to_one=True), dict(norm_by_dist=True), dict(zero_to_one=True, norm_by_dist=True), dict(zero_to_one=True, bounds=True), dict(norm_by_dist=True, bounds=True)]


def bounds(m):
    return [-0.5, 0.25, 0.0, -1.0][:m], [2.0, 1.25, 4.0, 3.0][:m]


def normalise(R, opt, m):
    ideal, nadir = ([min(c) for c in zip(*R)], [max(c) for c in zip(*R)])
    if opt.get("bounds"):
        ideal, nadir = bounds(m)
    n = [1.0] * m
    f = lambda P: P
    if opt.get("zero_to_one"):
        f = lambda P: scale(P, ideal, nadir)
    elif opt.get("norm_by_dist"):
        n = [b - a for a, b in zip(ideal, nadir)]
    return f, n


def make(name, R, opt, m, pf=None):
    """(indicator on the implementation, brute-force function of the points) or None where the definition is void."""
    from pymoo.indicators.epsilon import Epsilon, EpsilonMultiplicative
    from pymoo.indicators.gd import GD
    from pymoo.indicators.gd_plus import GDPlus
    from pymoo.indicators.hv import HV, Hypervolume
    from pymoo.indicators.igd import IGD
    from pymoo.indicators.igd_plus import IGDPlus
    from pymoo.indicators.spacing import SpacingIndicator
    f, n = normalise(R, opt, m)
    if 0.0 in n:
        return None
    kw = {k: v for k, v in opt.items() if k != "bounds"}
    if opt.get("bounds"):
        lo, hi = bounds(m)
        kw.update(ideal=np.array(lo), nadir=np.array(hi))
    pf = np.array(R) if pf is None else pf
    if name in ("gd", "gd+", "igd", "igd+"):
        cls = dict(zip(("gd", "gd+", "igd", "igd+"), (GD, GDPlus, IGD, IGDPlus)))[name]
        d = plus if name.endswith("+") else euclid
        g = igd if name.startswith("i") else gd
        return cls(pf, **kw), lambda F: g(f(F), f(R), n, d)
    kw.pop("norm_by_dist", None)
    if opt.get("norm_by_dist"):
        return None
    if name == "spacing":
        return SpacingIndicator(pf=pf, **kw), lambda F: spacing(f(F))
    if name in ("hv-pf", "hv-alias"):
        ref = [max(c) for c in zip(*R)]
        return (HV if name == "hv-alias" else Hypervolume)(pf=pf, **kw), lambda F: hv(f(F), f([ref])[0])
    if name == "hv-bare":
        # a reference point and maybe bounds, but no front
        if opt.get("zero_to_one") and not opt.get("bounds"):
            return None
        ref = [1.5, 1.25, 2.0, 1.75][:m]
        return Hypervolume(ref_point=np.array(ref), **kw), lambda F: hv(f(F), f([ref])[0])
    if name.startswith("hv-ref"):
        ref = [1.5, 1.25, 2.0, 1.75][:m]
        if name == "hv-ref-raw":
            return Hypervolume(ref_point=np.array(ref), pf=pf, norm_ref_point=False, **kw), lambda F: hv(f(F), ref)
        return Hypervolume(ref_point=np.array(ref), pf=pf, **kw), lambda F: hv(f(F), f([ref])[0])
    if opt.get("bounds"):
        return None
    if name == "eps":
        return Epsilon(pf, **kw), lambda F: eps_add(f(F), f(R))
    if name == "eps*":
        if opt.get("zero_to_one"):
            return None
        return EpsilonMultiplicative(pf, **kw), lambda F: eps_mult(F, R) if min(min(r) for r in R) > 0 and min(min(x) for x in F) > 0 else None
    raise KeyError(name)


NAMES = ("gd", "gd+", "igd", "igd+", "eps", "eps*", "spacing", "hv-pf", "hv-alias", "hv-ref", "hv-ref-raw", "hv-bare")


def grid(vals, m):
    return [list(p) for p in itertools.product(vals, repeat=m)]


def point_sets(P, n, full):
    yield from ([p] for p in P)
    if n >= 2:
        yield from (list(s) for s in (itertools.product(P, repeat=2) if full else itertools.combinations(P, 2)))
    for k in range(3, n + 1):
        yield from (list(s) for s in itertools.combinations(P, k))


def close(a, b):
    return abs(a - b) <= TOL * max(1.0, abs(a), abs(b))


def u_values(ctx, name, m, vals, n, full):
    P = grid(vals, m)
    for k, R in enumerate(fronts(m)):
        if name == "eps*" and min(min(r) for r in R) <= 0:
            continue
        for opt in OPTS:
            mk = make(name, R, opt, m)
            if mk is None:
                continue
            ind, brute = mk
            for F in point_sets(P, n, full):
                if name == "spacing" and len(F) < 2:
                    continue
                e = brute(F)
                if e is None:
                    continue
                A = np.array(F)
                A0 = A.copy()
                v = ind(A)
                ctx.state()
                ctx.trans()
                if not (np.ndim(v) == 0 and close(float(v), e)):
                    ctx.viol("value:%s" % name, "%s is %r instead of %r" % (name, float(v), e), points=F, front=R, options=str(opt))
                    break
                if not np.array_equal(A, A0):
                    ctx.viol("inputs:%s" % name, "%s changes the points it is given" % name, points=F)
                ctx.outcome(name, m, k, round(e, 9))


DUP_F = {"igd", "igd+", "eps", "eps*", "hv-pf", "hv-alias", "hv-ref", "hv-ref-raw"}


def u_order(ctx, name, m, vals):
    """All orders and duplications of every set, rows of the reference front in any order, all representations."""
    P = grid(vals, m)
    R = fronts(m)[2]
    R2 = fronts(m)[7]
    for front, opt in itertools.product((R, R2), (OPTS[0], OPTS[1])):
        if name == "eps*" and min(min(r) for r in front) <= 0:
            continue
        mk = make(name, front, opt, m)
        if mk is None:
            continue
        ind, brute = mk
        inds = [make(name, list(r), opt, m)[0] for r in itertools.permutations(front)][:6]
        for F in point_sets(P, 3, False):
            if (name == "spacing" and len(F) < 2) or brute(F) is None:
                continue
            v = float(ind.do(np.array(F)))
            ctx.state()
            for p in itertools.permutations(F):
                w = float(ind.do(np.array(p)))
                ctx.trans()
                ctx.check(close(v, w), "order:%s" % name, "%s depends on the order of the points" % name, points=F, permuted=p, values=(v, w))
            if name in DUP_F:
                for j in range(len(F)):
                    for F2 in (F + [F[j]], [F[j]] + F, F[:j + 1] + [F[j]] * 2 + F[j + 1:]):
                        ctx.trans()
                        w = float(ind.do(np.array(F2)))
                        ctx.check(close(v, w), "duplicate:%s" % name, "%s changes when a point is repeated" % name, points=F, repeated=F[j], values=(v, w))
            for k, i2 in enumerate(inds):
                ctx.trans()
                ctx.check(close(v, float(i2.do(np.array(F)))), "front-order:%s" % name, "%s depends on the order of the reference front" % name, points=F, order=k)
            A = np.array(F)
            forms = {"fortran": np.asfortranarray(A), "strided": strided(A), "readonly": ro(A)}
            if np.array_equal(A, np.round(A)):
                forms["int"] = A.astype(int)
            if len(F) == 1:
                forms["1-d"] = A[0]
            for kind, B in forms.items():
                ctx.trans()
                try:
                    w = float(ind.do(B))
                except Exception as e:
                    ctx.viol("raises:%s:%s" % (name, kind), "%s fails for a valid array: %r" % (name, e), points=F)
                    continue
                ctx.check(close(v, w), "form:%s:%s" % (name, kind), "%s of the same points as %s array is %r instead of %r" % (name, kind, w, v), points=F)
            ctx.outcome(name, m, round(v, 9))
        ctx.check(ind.do(np.zeros((0, m))) == 0.0, "empty:%s" % name, "%s of nothing is not the default" % name)
        # representations of the reference front
        for kind in ("int", "fortran", "readonly"):
            if kind == "int" and not all(float(x).is_integer() for r in front for x in r):
                continue
            A = np.array(front)
            B = {"int": lambda: A.astype(int), "fortran": lambda: np.asfortranarray(A), "readonly": lambda: ro(A)}[kind]()
            i2 = make(name, front, opt, m, B)[0]
            for F in point_sets(P, 2, False):
                if (name == "spacing" and len(F) < 2) or brute(F) is None:
                    continue
                ctx.trans()
                ctx.check(close(float(i2.do(np.array(F))), float(ind.do(np.array(F)))), "front-form:%s:%s" % (name, kind), "%s differs for the same front as %s array" % (name, kind), points=F)


def ro(a):
    b = a.copy()
    b.flags.writeable = False
    return b


def strided(a):
    b = np.zeros((2 * a.shape[0], 2 * a.shape[1]))
    b[::2, ::2] = a
    return b[::2, ::2]


def u_sequence(ctx, name, m, vals):
    """An indicator remembers nothing: every pair of consecutive calls on one object."""
    sets = [F for F in point_sets(grid(vals, m), 2, False)][:40]
    for opt in OPTS:
        R = fronts(m)[7]
        if make(name, R, opt, m) is None:
            continue
        ok = [F for F in sets if not (name == "spacing" and len(F) < 2) and make(name, R, opt, m)[1](F) is not None]
        fresh = [float(make(name, R, opt, m)[0].do(np.array(F))) for F in ok]
        for i, j in itertools.product(range(len(ok)), repeat=2):
            ind = make(name, R, opt, m)[0]
            ind.do(np.array(ok[i]))
            ctx.trans(2)
            ctx.trace()
            ctx.check(float(ind.do(np.array(ok[j]))) == fresh[j], "sequence:%s" % name, "%s depends on the call before" % name, first=ok[i], second=ok[j], options=str(opt))
        ctx.state(len(ok))


def u_outside(ctx, m, vals, n):
    """Adding a point never lowers the hypervolume; one that is not inside the reference box changes nothing."""
    from pymoo.indicators.hv import Hypervolume
    P = grid(vals, m)
    for ref in ([1.0] * m, [1.5, 0.75, 1.25, 1.0][:m]):
        ind = Hypervolume(ref_point=np.array(ref))
        for F in point_sets(P, n, False):
            v = float(ind.do(np.array(F)))
            ctx.state()
            for p in P:
                w = float(ind.do(np.array(F + [p])))
                ctx.trans()
                ctx.check(w >= v - 1e-12, "hv:monotone", "the hypervolume drops from %r to %r when a point is added" % (v, w), points=F, added=p, ref=ref)
                if any(a >= b for a, b in zip(p, ref)):
                    ctx.check(close(v, w), "hv:outside", "a point outside the reference box changes the hypervolume", points=F, added=p, ref=ref)
                elif not any(all(a <= b for a, b in zip(f, p)) for f in F):
                    ctx.check(w > v, "hv:inside", "a new non-dominated point inside the reference box adds nothing", points=F, added=p, ref=ref)


def u_incremental(ctx, m, vals, depth):
    """All histories of additions and deletions of the incremental hypervolume."""
    from pymoo.indicators.hv.approximate import ApproximateHypervolume
    from vmc.refs import dominates
    ref = [1.0, 1.25, 1.5][:m]
    batches = [np.array(grid(vals, m))[[i]] for i in range(0, len(vals) ** m, 2)] + [np.array(grid(vals, m))[[1, 3]], np.array(grid(vals, m))[[2, 2]]]

    def judge(h, model, hist):
        ctx.state()
        ctx.check(np.array_equal(h.F, np.array(model).reshape(len(model), m)), "incremental:points", "the points kept differ from what was added and deleted", history=hist)
        if not model:
            ctx.check(h.hv == 0.0 and len(h.hvc) == 0, "incremental:empty", "an empty set has hypervolume", history=hist)
            return
        e = hv(model, ref)
        ctx.check(abs(h.hv - e) <= 0.1 * e + 1e-9, "incremental:hv", "the approximated hypervolume is %r, exactly it is %r" % (h.hv, e), history=hist)
        if not ctx.check(len(h.hvc) == len(model), "incremental:shape", "not one contribution per point", history=hist):
            return
        nd = [i for i, f in enumerate(model) if not any(dominates(g, f) for g in model)]
        for i, f in enumerate(model):
            c = hv([model[k] for k in nd], ref) - hv([model[k] for k in nd if k != i], ref) if i in nd else 0.0
            ctx.check(close(c, h.hvc[i]), "incremental:contribution", "contribution %r instead of %r" % (float(h.hvc[i]), c), history=hist, point=f)
        ctx.outcome(len(model), round(e, 6))

    def step(hist, model):
        h = ApproximateHypervolume(np.array(ref), n_samples=2000, seed=1)
        for op, a in hist:
            ctx.trans()
            h.add(batches[a]) if op == "add" else h.delete(a)
        ctx.trace()
        judge(h, model, hist)
        if len(hist) == depth:
            return
        for b in range(len(batches)):
            if len(hist) < depth - 1 or b % 2 == 0:
                step(hist + [("add", b)], model + batches[b].tolist())
        for k in range(len(model)):
            step(hist + [("del", k)], model[:k] + model[k + 1:])

    step([], [])


def u_errors(ctx):
    """A hypervolume without reference point and a normalisation without bounds are refused; the given objects stay as they are."""
    from pymoo.indicators.gd import GD
    from pymoo.indicators.hv import Hypervolume
    from pymoo.indicators.igd import IGD
    for f in (lambda: Hypervolume(), lambda: Hypervolume(ref_point=np.ones(2), zero_to_one=True)):
        ctx.trans()
        try:
            f()
            ctx.viol("refuse", "a hypervolume without the points it needs is accepted")
        except Exception:
            pass
    for cls in (GD, IGD):
        for opt in (dict(), dict(zero_to_one=True), dict(norm_by_dist=True)):
            pf, lo, hi = np.array([[0.0, 1.0], [2.0, 0.0]]), np.array([-1.0, -1.0]), np.array([3.0, 4.0])
            k = [a.copy() for a in (pf, lo, hi)]
            ind = cls(pf, ideal=lo, nadir=hi, **opt)
            a = ind.do(np.array([[0.5, 0.5]]))
            ctx.state()
            ctx.check(all(np.array_equal(x, y) for x, y in zip(k, (pf, lo, hi))), "inputs:front", "the reference front or bounds are changed")
            ctx.check(ind.do(np.array([[0.5, 0.5]])) == a, "repeat", "the same call gives another value")
    ctx.trace()


def u_pure(ctx):
    """KKTPM and R-metric: the same points give the same value alone, in any batch, order and repetition; nothing given is changed."""
    from pymoo.core.problem import Problem
    from pymoo.indicators.kktpm import KKTPM
    from pymoo.indicators.rmetric import RMetric

    class Quad(Problem):
        def __init__(self, g):
            super().__init__(n_var=2, n_obj=2, n_ieq_constr=g, xl=0.0, xu=1.0)

        def _evaluate(self, x, out, *args, **kwargs):
            out["F"] = np.column_stack([1 + x[:, 0] ** 2 + x[:, 1], 1 + (x[:, 0] - 1) ** 2 + x[:, 1]])
            out["dF"] = np.stack([np.column_stack([2 * x[:, 0], np.ones(len(x))]), np.column_stack([2 * (x[:, 0] - 1), np.ones(len(x))])], axis=1)
            if self.n_ieq_constr:
                out["G"] = (x[:, 0] - 0.75 + 0.1 * x[:, 1])[:, None]
                out["dG"] = np.repeat(np.array([[[1.0, 0.1]]]), len(x), axis=0)

        def _calc_pareto_front(self):
            t = np.linspace(0, 1, 5)
            return np.column_stack([1 + t ** 2, 1 + (t - 1) ** 2])

    pts = [[a, b] for a in (0.0, 0.25, 0.5, 1.0) for b in (0.0, 0.5)]
    for g in (0, 1):
        for ideal in (None, np.array([0.9, 0.95])):
            problem = Quad(g)
            want = problem.ideal_point().copy()
            k0 = None if ideal is None else ideal.copy()
            single = [float(KKTPM().calc(np.array([p]), Quad(g), ideal=None if k0 is None else k0.copy())[0]) for p in pts]
            for n in (1, 2, 3):
                for idx in itertools.permutations(range(len(pts)), n):
                    X = np.array([pts[i] for i in idx])
                    X0 = X.copy()
                    v = KKTPM().calc(X, problem, ideal=ideal)
                    ctx.trans()
                    ctx.state()
                    ctx.check(np.allclose(v, [single[i] for i in idx], rtol=1e-9, atol=1e-12, equal_nan=True), "batch:kktpm", "KKTPM of a point depends on the points and calls around it", points=X, values=v, alone=[single[i] for i in idx])
                    ctx.check(np.array_equal(X, X0) and (ideal is None or np.array_equal(ideal, k0)), "inputs:kktpm", "KKTPM changes what it is given", ideal=ideal)
                    ctx.check(np.array_equal(problem.ideal_point(), want), "inputs:kktpm", "KKTPM changes the ideal point of the problem", ideal=problem.ideal_point())
            ctx.outcome(g, ideal is None, tuple(round(x, 9) for x in single))
    problem = Quad(0)
    rp = np.array([[1.2, 1.5], [1.6, 1.1]])
    P = np.array([[1.1, 1.6], [1.3, 1.4], [1.5, 1.2], [1.7, 1.05], [1.25, 1.3]])
    other = np.array([[1.2, 1.25], [1.6, 1.0]])
    for oth in (None, other):
        ind = RMetric(problem, rp.copy())
        base = None
        for n in (5, 4):
            for idx in itertools.permutations(range(5), n):
                if n == 5:
                    F = P[list(idx)]
                    F0 = F.copy()
                    v = np.array(ind.do(F, others=None if oth is None else oth.copy()), dtype=float)
                    base = v if base is None else base
                    ctx.trans()
                    ctx.state()
                    ctx.check(np.allclose(v, base, rtol=1e-9), "order:r-metric", "the R-metric depends on the order of the points or the call before", values=v, first=base)
                    ctx.check(np.array_equal(F, F0) and np.array_equal(ind.ref_points, rp), "inputs:r-metric", "the R-metric changes what it is given")
    ctx.trace()


def units(tier):
    q = tier == "quick"
    U = []
    g2 = (0.0, 0.5, 1.0, 2.0) if q else (0.0, 0.25, 0.5, 1.0, 2.0)
    for name in NAMES:
        gm = (0.25, 0.5, 1.0, 2.0) if name == "eps*" else g2
        g3 = (0.25, 0.5, 1.5) if name == "eps*" else (0.0, 0.5, 1.5)
        U.append(("u_values", dict(name=name, m=2, vals=gm, n=3 if q else 4, full=True)))
        U.append(("u_values", dict(name=name, m=3, vals=g3, n=2 if q else 3, full=False)))
        U.append(("u_values", dict(name=name, m=4, vals=g3[1:], n=2 if q else 3, full=False)))
        if not name.startswith("hv"):
            U.append(("u_values", dict(name=name, m=1, vals=gm, n=3, full=True)))
        U.append(("u_order", dict(name=name, m=2, vals=(0.0, 1.0, 2.0) if name != "eps*" else (0.5, 1.0, 2.0))))
        U.append(("u_order", dict(name=name, m=3, vals=(0.0, 1.0) if name != "eps*" else (1.0, 2.0))))
        U.append(("u_sequence", dict(name=name, m=2, vals=gm)))
    U.append(("u_outside", dict(m=2, vals=g2, n=2 if q else 3)))
    U.append(("u_outside", dict(m=3, vals=(0.0, 0.5, 1.5), n=2)))
    U.append(("u_incremental", dict(m=2, vals=(0.0, 0.5, 1.5), depth=3 if q else 4)))
    U.append(("u_incremental", dict(m=3, vals=(0.0, 1.25), depth=3 if q else 4)))
    U.append(("u_errors", {}))
    U.append(("u_pure", {}))
    return U
