"""P21: normalisation maps bounds to 0 and 1 and back; adaptive ideal and nadir points bound what was seen."""

import itertools
import warnings
from fractions import Fraction

import numpy as np

PROPERTY = "P21"
RULE = "every state is one bound pattern with its inputs, one history of fronts, or one iteration of one run; outcomes are distinct normalised matrices and points"
BOUNDS = {
    "quick": "all bound patterns (missing, NaN, value) of 1-2 columns over 4 values each side plus all 3-column patterns over 5 kinds, given as arrays, lists of integers, scalars or left out, applied to 1-, 2- and 3-dimensional float, integer, "
             "strided and column-major inputs; estimated bounds of all small matrices; all histories of up to 3 fronts out of 14 (2 objectives) and 10 (3 objectives) with all or the non-dominated points; "
             "9 algorithms keeping an ideal point x every placement of one deviation (4 iterations)",
    "thorough": "as quick with all histories of up to 4 fronts and every placement of two deviations over the first 14 rows",
}
NAN = float("nan")


def fwd(x, lo, hi):
    """One value; None stands for a missing bound."""
    if lo is not None and hi is not None:
        return x - lo if lo == hi else (x - lo) / (hi - lo)
    if lo is not None:
        return x - lo
    if hi is not None:
        return 1.0 - (hi - x)
    return x


def close(a, b):
    return np.shape(a) == np.shape(b) and bool(np.all(np.abs(np.asarray(a, float) - np.asarray(b, float)) <= 1e-12 * np.maximum(1.0, np.abs(np.asarray(b, float)))))


def bounds_of(pattern):
    lo = np.array([NAN if p[0] is None else p[0] for p in pattern])
    hi = np.array([NAN if p[1] is None else p[1] for p in pattern])
    return lo, hi


def judge(ctx, pattern, lo, hi, form):
    from pymoo.util.normalization import ZeroToOneNormalization, denormalize, normalize
    l0, h0 = np.copy(lo) if lo is not None else None, np.copy(hi) if hi is not None else None
    z = ZeroToOneNormalization(lo, hi)
    m = len(pattern)
    vals = [-3.0, -1.0, 0.0, 0.25, 1.0, 2.0, 5.0, 7.5]
    rows = [[vals[(i + 3 * j) % len(vals)] for j in range(m)] for i in range(len(vals))]
    # the bounds themselves are part of the input
    rows.append([0.5 if p[0] is None else p[0] for p in pattern])
    rows.append([0.5 if p[1] is None else p[1] for p in pattern])
    E = np.array([[fwd(x, *p) for x, p in zip(r, pattern)] for r in rows])
    A = np.array(rows)
    wide = np.zeros((2 * len(rows), 2 * m))
    wide[::2, ::2] = A
    d = dict(bounds=pattern, form=form)
    for kind, X, e in (("plain", A, E), ("strided", wide[::2, ::2], E), ("fortran", np.asfortranarray(A), E), ("1-d", A[0], E[0]), ("3-d", A[None], E[None])):
        X0 = X.copy()
        N = z.forward(X)
        ctx.trans()
        ctx.state()
        if not ctx.check(close(N, e), "forward:%s" % kind, "normalising gives %s instead of %s" % (np.asarray(N).tolist(), e.tolist()), **d):
            continue
        B = z.backward(N)
        ctx.check(close(B, X), "backward:%s" % kind, "denormalising does not give back the original", back=B, original=X, **d)
        ctx.check(np.array_equal(X, X0) and not np.shares_memory(N, X) or (lo is None and hi is None), "inputs:%s" % kind, "the input is changed or shared", **d)
        ctx.check(np.array_equal(N, z.forward(X)), "repeat:%s" % kind, "normalising again differs", **d)
        if kind in ("plain", "1-d") and (lo is not None or hi is not None):
            ctx.check(close(denormalize(N, lo, hi), X), "denormalize", "denormalize does not give back the original", **d)
            ctx.check(close(normalize(X, lo, hi, estimate_bounds_if_none=False), e), "normalize", "normalize differs from its definition", **d)
    ints = np.array([[-3, 0, 2], [1, 5, -1], [7, 2, 4]])[:, :m]
    e = np.array([[fwd(float(x), *p) for x, p in zip(r, pattern)] for r in ints])
    N = z.forward(ints)
    ctx.trans()
    ctx.check(close(N, e), "forward:int", "normalising integers gives %s instead of %s" % (N.tolist(), e.tolist()), **d)
    nb = np.array([[0] * m, [1] * m])
    b = np.array([[x + (0 if p[0] is None and p[1] is None else 0) if p == (None, None) else
                   (p[0] + x * (p[1] - p[0]) if None not in p and p[0] != p[1] else p[0] + x if p[0] is not None else p[1] - (1 - x)) for x, p in zip(r, pattern)] for r in nb.astype(float)])
    ctx.check(close(z.backward(nb), b), "backward:int", "denormalising integers gives %s instead of %s" % (np.asarray(z.backward(nb)).tolist(), b.tolist()), **d)
    ctx.check((lo is None or np.array_equal(lo, l0, equal_nan=True)) and (hi is None or np.array_equal(hi, h0, equal_nan=True)), "inputs:bounds", "the bounds given are changed", **d)
    ctx.check(z.forward(None) is None and z.backward(None) is None, "none", "nothing does not stay nothing", **d)
    ctx.outcome(pattern, form)


def u_bounds(ctx, m, los, his):
    cols = [(a, b) for a in los for b in his if a is None or b is None or a <= b]
    for pattern in itertools.product(cols, repeat=m):
        lo, hi = bounds_of(pattern)
        judge(ctx, pattern, lo, hi, "array")
        if all(p[0] is None for p in pattern):
            judge(ctx, pattern, None, hi if not all(p[1] is None for p in pattern) else None, "no lower")
        if all(p[1] is None for p in pattern):
            judge(ctx, pattern, lo if not all(p[0] is None for p in pattern) else None, None, "no upper")
        if all(p[0] is not None and p[1] is not None and float(p[0]).is_integer() and float(p[1]).is_integer() for p in pattern):
            judge(ctx, pattern, lo.astype(int), hi.astype(int), "integer bounds")
        ctx.trace()
    # an upper bound below the lower one is refused
    from pymoo.util.normalization import ZeroToOneNormalization
    for a, b in itertools.product([v for v in los if v is not None], [v for v in his if v is not None]):
        if b < a:
            ctx.trans()
            try:
                ZeroToOneNormalization(np.array([a]), np.array([b]))
                ctx.viol("refuse", "an upper bound %r below the lower bound %r is accepted" % (b, a))
            except Exception:
                pass


def u_estimate(ctx, m, vals, n):
    from pymoo.util.normalization import SimpleZeroToOneNormalization, normalize
    for rows in itertools.product(list(itertools.product(vals, repeat=m)), repeat=n):
        for dt in (float, int):
            if dt is int and not all(float(v).is_integer() for r in rows for v in r):
                continue
            X = np.array(rows, dtype=dt)
            X0 = X.copy()
            lo, hi = [min(c) for c in zip(*rows)], [max(c) for c in zip(*rows)]
            E = np.array([[fwd(x, a, b) for x, a, b in zip(r, lo, hi)] for r in rows])
            N, a, b = normalize(X, return_bounds=True)
            ctx.trans()
            ctx.state()
            d = dict(matrix=rows, dtype=str(dt))
            ctx.check(close(N, E) and np.array_equal(X, X0), "estimate", "normalising with estimated bounds gives %s instead of %s" % (N.tolist(), E.tolist()), **d)
            ctx.check(close(a, lo) and all(np.isnan(y) if p == q else y == q for p, q, y in zip(lo, hi, b)), "estimate:bounds", "the estimated bounds are not minimum and maximum", lower=a, upper=b, **d)
            ctx.check(close(normalize(X, xl=-1), [[fwd(x, -1.0, max(q, -1.0)) if q >= -1 else x for x, q in zip(r, hi)] for r in rows]), "estimate:scalar", "a scalar lower bound is not used for every column", **d)
            ctx.check(close(normalize(X, xl=-2.0, xu=6), [[fwd(x, -2.0, 6.0) for x in r] for r in rows]), "estimate:scalars", "scalar bounds are not used for every column", **d)
            ctx.check(np.array_equal(normalize(X, estimate_bounds_if_none=False), X), "estimate:off", "without bounds and estimation values change", **d)
            s = SimpleZeroToOneNormalization()
            if all(p < q for p, q in zip(lo, hi)):
                ctx.check(close(s.forward(X), E) and close(s.backward(s.forward(X)), X), "simple", "the simple normalisation differs from its definition", **d)
                Y = X + 1
                ctx.check(close(s.forward(Y), [[fwd(x + 1, p, q) for x, p, q in zip(r, lo, hi)] for r in rows]), "simple:kept", "estimated bounds change from call to call", **d)
            else:
                ctx.check(bool(np.all(np.isfinite(s.forward(X)))) and close(s.backward(s.forward(X)), X), "simple:equal", "equal bounds give values that are no numbers", **d)
            ctx.outcome(E.tolist())


# --- adaptive ideal and nadir point ------------------------------------------------------------

def catalogue(m):
    if m == 2:
        return [[[0, 4], [2, 2], [4, 0]], [[1, 3], [3, 1]], [[2, 2]], [[0, 0]], [[5, 1], [1, 5]], [[0, 3], [3, 3]], [[1, 1], [1, 1]], [[-1, 6], [6, -1]], [[2, 5], [2.5, 5]], [[4, 4], [2, 6], [6, 2]],
                [[0, 1], [1, 0]], [[1e-4, 1e-4], [0, 0]], [[10, 0], [0, 0.5]], [[3, 7], [8, 2], [2, 9]], [[0.05, 3], [3, 0.05], [0.0004, 4], [0.5, 0.02]]]
    return [[[4, 0, 0], [0, 4, 0], [0, 0, 4]], [[1, 1, 1]], [[0, 0, 0], [1, 2, 3]], [[1, 3, 2], [2, 1, 3], [3, 2, 1]], [[1, 1, 0], [2, 2, 0]], [[5, 0, 1], [0, 5, 1], [1, 1, 1]], [[-1, 2, 2], [2, -1, 2], [2, 2, -1]],
            [[0, 0, 9], [0, 9, 0]], [[2, 2, 2], [2, 2, 2]], [[6, 1, 1], [1, 6, 1], [1, 1, 6], [3, 3, 3]]]


def solve(M):
    """Exact solution of M x = 1 or None if singular."""
    n = len(M)
    A = [[Fraction(v) for v in r] + [Fraction(1)] for r in M]
    for i in range(n):
        p = next((r for r in range(i, n) if A[r][i] != 0), None)
        if p is None:
            return None
        A[i], A[p] = A[p], A[i]
        A[i] = [v / A[i][i] for v in A[i]]
        for r in range(n):
            if r != i:
                A[r] = [a - A[r][i] * b for a, b in zip(A[r], A[i])]
    return [r[-1] for r in A]


def asf(f, ideal, j):
    g = [x - i if x - i >= 1e-3 else 0.0 for x, i in zip(f, ideal)]
    return max(v * (1.0 if k == j else 1e6) for k, v in enumerate(g))


def nds(F):
    from vmc.refs import fronts
    return fronts(F)[0]


def u_ideal(ctx, m, vals):
    """The ideal point follows everything seen, with and without infeasible solutions; standardising is undone by its inverse."""
    from pymoo.core.population import Population
    from pymoo.util.normalization import ObjectiveSpaceNormalization, destandardize, find_ideal, standardize
    P = list(itertools.product(vals, repeat=m))
    for a in P:
        for b in itertools.combinations_with_replacement(P, 2):
            F = np.array(b)
            got = find_ideal(F)
            ctx.check(list(got) == [min(c) for c in zip(*b)], "ideal:first", "the ideal point is not the minimum", F=b)
            got = find_ideal(F, current=np.array(a))
            ctx.check(list(got) == [min(c) for c in zip(a, *b)], "ideal:current", "the ideal point is not the minimum of all seen", F=b, before=a, got=got)
            ctx.trans()
            ctx.state()
            for cv in itertools.product([0.0, 1.0], repeat=3):
                o = ObjectiveSpaceNormalization()
                seen = []
                for rows, g in (([a], cv[:1]), (b, cv[1:])):
                    pop = Population.new(F=np.array(rows), G=np.array(g)[:, None])
                    o.update(pop)
                    seen += list(zip(rows, g))
                    feas = [r for r, v in seen if v <= 0]
                    want = [min(c) for c in zip(*feas)] if feas else None
                    i = o.ideal()
                    ctx.check((i is None) if want is None else i is not None and list(i) == want, "ideal:feasible", "the ideal point is not the minimum of the feasible solutions", seen=seen, got=i)
                    ctx.check(list(o.ideal(only_feas=False)) == [min(c) for c in zip(*[r for r, _ in seen])], "ideal:all", "the ideal point of all solutions is not their minimum", seen=seen)
            X = np.array([a] + list(b)) + np.arange(3)[:, None] * 0.5
            if np.all(X.std(axis=0) > 0):
                Z, mu, sd = standardize(X, return_bounds=True)
                ctx.check(np.allclose(Z.mean(axis=0), 0) and np.allclose(Z.std(axis=0), 1) and np.allclose(Z, standardize(X)), "standardize", "standardised values have not mean 0 and deviation 1", X=X)
                ctx.check(np.allclose(destandardize(Z, mu, sd), X), "destandardize", "standardising is not undone", X=X)
    ctx.trace()


def u_hyperplane(ctx, m, first, depth, only_nd):
    """All histories of fronts starting with one front."""
    from pymoo.algorithms.moo.nsga3 import HyperplaneNormalization
    from pymoo.util import normalization as alt
    C = catalogue(m)

    def step(hist):
        h = HyperplaneNormalization(m)
        seen = []
        ext = None
        with warnings.catch_warnings():
            for k in hist:
                F = np.array(C[k], dtype=float)
                F0 = F.copy()
                before = None if ext is None else np.array(ext)
                nd = nds(C[k]) if only_nd else list(range(len(F)))
                h.update(F, nds=np.array(nd) if only_nd else None)
                ctx.trans()
                seen += F.tolist()
                ctx.check(np.array_equal(F, F0), "hyper:inputs", "updating the normalisation changes the objective values", history=hist)
                ideal, worst = [min(c) for c in zip(*seen)], [max(c) for c in zip(*seen)]
                ctx.check(np.array_equal(h.ideal_point, ideal), "hyper:ideal", "the ideal point is not the minimum of everything seen", history=hist, ideal=h.ideal_point)
                ctx.check(np.array_equal(h.worst_point, worst), "hyper:worst", "the worst point is not the maximum of everything seen", history=hist, worst=h.worst_point)
                pool = ([] if ext is None else ext) + F[nd].tolist()
                E = [list(r) for r in h.extreme_points]
                for j, e in enumerate(E):
                    ctx.check(e in pool, "hyper:extreme", "an extreme point is no point seen", history=hist)
                    ctx.check(asf(e, ideal, j) <= min(asf(p, ideal, j) for p in pool) + 1e-9, "hyper:extreme", "an extreme point is not the most extreme one of its axis", history=hist, point=e, axis=j)
                ext = E
                nadir = list(h.nadir_point)
                wf, wp = [max(c) for c in zip(*F[nd].tolist())], [max(c) for c in zip(*F.tolist())]
                ctx.check(all(np.isfinite(v) for v in nadir), "hyper:finite", "the nadir point is not finite", history=hist, nadir=nadir)
                x = solve([[a - b for a, b in zip(e, ideal)] for e in E])
                if x is not None and all(v != 0 for v in x):
                    ic = [1 / v for v in x]
                    want = [float(min(i + c, w)) for i, c, w in zip(ideal, ic, worst)] if all(c > Fraction(1, 10 ** 6) for c in ic) else list(wf)
                    want = [p if v - i <= 1e-6 else v for v, i, p in zip(want, ideal, wp)]
                    ctx.check(all(abs(a - b) <= 1e-6 * max(1, abs(b)) for a, b in zip(nadir, want)), "hyper:nadir", "the nadir point is %s instead of %s" % (nadir, want), history=hist)
                ctx.check(all(v <= w + 1e-9 for v, w in zip(nadir, worst)), "hyper:bound", "the nadir point is above everything seen", history=hist, nadir=nadir)
                ctx.check(all(v - i > 1e-6 or p - i <= 1e-6 or v == p for v, i, p in zip(nadir, ideal, wp)), "hyper:range", "the nadir point leaves no range although the population has one", history=hist, nadir=nadir)
                if True:
                    e2 = alt.get_extreme_points_c(F[nd], np.array(ideal), extreme_points=before)
                    ctx.check(np.array_equal(e2, h.extreme_points), "hyper:copies", "the two implementations of the extreme points differ", history=hist)
                    n2 = alt.get_nadir_point(e2, np.array(ideal), np.array(worst), np.array(wf), np.array(wp))
                    ctx.check(np.allclose(n2, nadir), "hyper:copies", "the two implementations of the nadir point differ", history=hist)
        ctx.state()
        ctx.trace()
        ctx.outcome(m, [round(v, 6) for v in nadir], ideal)
        if len(hist) < depth:
            for k in range(len(C)):
                step(hist + [k])

    step([first])


# --- algorithms --------------------------------------------------------------------------------

def ideal_of(algo, name):
    s = getattr(algo, "survival", None)
    if name in ("NSGA3", "UNSGA3", "NSDER", "SPEA2"):
        n = getattr(s, "norm", None)
        return None if n is None else n.ideal_point
    if name in ("RNSGA3", "CTAEA"):
        return s.ideal_point
    if name == "RVEA":
        return s.ideal
    return algo.ideal


def u_run(ctx, name, ieq, m, d2, seed):
    from vmc import zoo
    a = zoo.by_name(name, m)
    alts = ["infeas", "feas", "best0", "tie"] if ieq else ["good", "best0", "bad", "tie"]

    def one(script):
        p = zoo.make_problem(2, m, ieq, 0, script=script, values=None)
        st = {"it": -1}
        ctx.state()

        def on_step(al, i):
            if a.loop and al.n_iter == st["it"]:
                return
            st["it"] = al.n_iter
            ctx.trans()
            rows = [r for r in p.log if name == "CTAEA" or zoo.cv_ref(r[2], r[3]) <= 0]
            F = [r[1].tolist() for r in rows]
            if name == "RNSGA3":
                F = F + a_ref.tolist()
            I = ideal_of(al, name)
            if I is None or not F or (al.n_iter == 2 and not np.any(np.isfinite(I))):
                return
            ctx.check(np.array_equal(I, [min(c) for c in zip(*F)]), "run:%s" % name, "the ideal point %s is not the minimum %s of everything evaluated" % (np.asarray(I).tolist(), [min(c) for c in zip(*F)]), script=script, iteration=al.n_iter - 1)
            ctx.outcome(name, np.asarray(I).tolist())

        a_ref = np.array([[0.3] * m, [0.1] + [0.8] * (m - 1)])
        zoo.drive(a, p, 4, on_step=on_step, seed=seed)
        ctx.trace()
        return len(p.log)

    n = one({})
    for s in list(zoo.scripts(n, alts, 1))[1:]:
        one(s)
    if d2:
        for s in zoo.scripts(min(n, 14), alts, 2):
            if len(s) == 2:
                one(s)


def units(tier):
    q = tier == "quick"
    U = []
    los, his = (None, -1.0, 0.0, 2.0), (None, -1.0, 1.0, 2.0)
    U.append(("u_bounds", dict(m=1, los=los + (0.5,), his=his + (5.0,))))
    U.append(("u_bounds", dict(m=2, los=los, his=his)))
    U.append(("u_bounds", dict(m=3, los=(None, 0.0), his=(None, 0.0, 4.0))))
    U.append(("u_estimate", dict(m=1, vals=(-1.0, 0.0, 0.5, 2.0), n=3)))
    U.append(("u_estimate", dict(m=2, vals=(0.0, 1.0, 3.0), n=2)))
    U.append(("u_estimate", dict(m=2, vals=(0.0, 2.0), n=3)))
    U.append(("u_ideal", dict(m=2, vals=(-1.0, 0.0, 2.0))))
    U.append(("u_ideal", dict(m=3, vals=(0.0, 1.5))))
    for m in (2, 3):
        for first in range(len(catalogue(m))):
            for nd in (False, True):
                U.append(("u_hyperplane", dict(m=m, first=first, depth=3 if q else 4, only_nd=nd)))
    for name in ("NSGA3", "UNSGA3", "NSDER", "SPEA2", "RNSGA3", "CTAEA", "RVEA", "MOEAD", "ParallelMOEAD"):
        for ieq in (0, 1):
            if ieq and "MOEAD" in name:
                continue
            U.append(("u_run", dict(name=name, ieq=ieq, m=2, d2=not q, seed=1)))
        if name != "RNSGA3":
            U.append(("u_run", dict(name=name, ieq=0, m=3, d2=False, seed=2)))
    return U
