"""P28: decision-making picks the solution its definition names."""

import itertools
import math
from fractions import Fraction

import numpy as np

from vmc.refs import dominates

PROPERTY = "P28"
RULE = "every state is one front with one preference; outcomes are distinct selections"
BOUNDS = {
    "quick": "every non-empty set of up to 4 mutually non-dominated points over a 4x4 and up to 3 over a 3x3x3 grid (in 3 orders, 3 scales and with duplicates), arbitrary sets of up to 3 points, 9 curved fronts of 5..12 points, "
             "x 10..21 preferences x 6 scalarisations, pseudo-weights with estimated and given bounds, trade-off with 4 radii, neighbours by radius, number and along the front",
    "thorough": "sets of up to 5 points over a 5x5 grid and up to 4 over the 3x3x3 grid",
}


def antichains(points, k):
    out = []

    def rec(i, cur):
        if cur:
            out.append(tuple(cur))
        if len(cur) == k:
            return
        for j in range(i, len(points)):
            p = points[j]
            if all(not dominates(p, q) and not dominates(q, p) for q in cur):
                rec(j + 1, cur + [p])
    rec(0, [])
    return out


def fronts(tier, m):
    deep = tier == "thorough"
    if m == 2:
        g = 5 if deep else 4
        pts = list(itertools.product(range(g), repeat=2))
        return antichains(pts, 5 if deep else 4)
    pts = list(itertools.product(range(3), repeat=3))
    return antichains(pts, 4 if deep else 3)


def curved():
    out = []
    for n in (5, 8, 12):
        t = [i / (n - 1) for i in range(n)]
        out.append([(x, 1 - x) for x in t])
        out.append([(x, (1 - x) ** 3) for x in t])
        out.append([(math.sin(x * math.pi / 2), math.cos(x * math.pi / 2)) for x in t])
        out.append([(x, 1 - x * 5 if x < 0.18 else 0.1 * (1 - x)) for x in t])
        out.append([(x * 10, -x - (0.3 if i == n // 2 else 0)) for i, x in enumerate(t)])
        out.append([(x, y, max(0, 1 - x - y)) for x in t[::2] for y in t[::3]])
    return out


def variants(F):
    A = np.array(F, dtype=float)
    yield A
    yield A[::-1] * 0.1 - 0.7
    if A.shape[1] == 2:
        yield A[np.argsort((np.arange(len(A)) * 7) % 5, kind="stable")] * np.array([1000.0, 1e-3])
    if len(A) > 1:
        yield np.vstack([A, A[:1]])


def weights(m):
    W = [w for w in itertools.product((0, 1, 2, 4), repeat=m) if sum(w) == 4]
    W += [tuple([1] * m), (3,) + (1,) * (m - 1)]
    return [np.array(w, float) / sum(w) for w in W]


def call(ctx, key, f, **d):
    try:
        return True, f()
    except Exception as e:
        ctx.viol(key + ":raises", "fails with %r" % (e,), **d)
        return False, None


# --- scalarisations ----------------------------------------------------------------------------------

def u_compromise(ctx, m, part, parts):
    from pymoo.decomposition.aasf import AASF
    from pymoo.decomposition.asf import ASF
    from pymoo.decomposition.pbi import PBI
    from pymoo.decomposition.tchebicheff import Tchebicheff
    from pymoo.decomposition.weighted_sum import WeightedSum

    def asf(f, w, z):
        return max((a - c) / (b if b != 0 else 1e-10) for a, b, c in zip(f, w, z))

    def pbi(f, w, z, theta=5):
        n = math.sqrt(sum(b * b for b in w))
        d1 = abs(sum((a - c) * b for a, b, c in zip(f, w, z))) / n
        d2 = math.sqrt(sum((a - c - d1 * b / n) ** 2 for a, b, c in zip(f, w, z)))
        return d1 + theta * d2
    S = {
        "asf": (ASF, asf, 0),
        "aasf": (lambda: AASF(eps=0.0, rho=0.05), lambda f, w, z: asf(f, w, z) + 0.05 * sum((a - c) / min(max(b, 1e-12), math.inf) for a, b, c in zip(f, w, z)), 0),
        "tch": (Tchebicheff, lambda f, w, z: max(abs(a - c) * b for a, b, c in zip(f, w, z)), 0),
        "ws": (WeightedSum, lambda f, w, z: sum(a * b for a, b in zip(f, w)), 0),
        "pbi": (PBI, pbi, 0),
        "pbi2": (lambda: PBI(theta=0.5), lambda f, w, z: pbi(f, w, z, 0.5), 0),
    }
    FR = fronts(ctx.tier, m) + [f for f in curved() if len(f[0]) == m]
    FR += [c for c in itertools.combinations(list(itertools.product(range(3), repeat=m))[::2], 2)]
    for j, F in enumerate(FR):
        if j % parts != part:
            continue
        for A in itertools.islice(variants(F), 2):
            for w in weights(m):
                for name, (mk, ref, _) in S.items():
                    for ideal in (None, A.min(axis=0)):
                        if name.startswith("pbi") and ideal is None and A.min() < 0:
                            # the distance along the weights is only defined beyond the ideal point
                            continue
                        d = dict(F=A, weights=w, scalarisation=name, ideal=ideal)
                        kw = {} if ideal is None else dict(ideal_point=ideal)
                        ok, D = call(ctx, "compromise", lambda: np.ravel(mk().do(A, w, **kw)), **d)
                        ctx.trans()
                        if not ok:
                            return
                        z = np.zeros(m) if ideal is None else ideal
                        R = [ref(f.tolist(), w.tolist(), z.tolist()) for f in A]
                        I = int(D.argmin())
                        tol = 1e-9 * max(1.0, max(abs(r) for r in R))
                        ctx.state()
                        ctx.check(len(D) == len(A) and R[I] <= min(R) + tol, "compromise", "solution %d is chosen although it is no minimiser" % I, values=D, reference=R, **d)
                        ctx.check(all(abs(a - b) <= tol for a, b in zip(D, R)), "compromise:value", "a scalarised value differs from its definition", values=D, reference=R, **d)
                        if len(A) > 1:
                            k = len(A) // 2
                            one = float(np.ravel(mk().do(A[k], w, **kw))[0])
                            ctx.check(abs(one - D[k]) <= tol, "compromise:alone", "a solution alone has another value", **d)
                        ctx.outcome(name, I, len(A))


def u_class(ctx):
    """Compromise programming as a decision maker."""
    from pymoo.mcdm.compromise_programming import CompromiseProgramming
    for F in fronts("quick", 2)[:50]:
        A = np.array(F, float)
        ctx.trans()
        ctx.state()
        try:
            I = CompromiseProgramming()(A)
        except Exception as e:
            I = repr(e)
        if not isinstance(I, (int, np.integer)):
            ctx.viol("compromise:class", "the decision maker CompromiseProgramming selects nothing: %s" % (I,), F=A)
            return
        Z = (A - A.min(axis=0)) / np.where(np.ptp(A, axis=0) == 0, 1, np.ptp(A, axis=0))
        dist = np.sqrt((Z ** 2).sum(axis=1))
        ctx.check(dist[I] <= dist.min() + 1e-12, "compromise:distance", "the solution selected is not the closest to the ideal point", F=A)


# --- pseudo weights ----------------------------------------------------------------------------------

def u_pseudo(ctx, m, part, parts):
    from pymoo.mcdm.pseudo_weights import PseudoWeights
    FR = fronts(ctx.tier, m) + [f for f in curved() if len(f[0]) == m]
    for j, F in enumerate(FR):
        if j % parts != part:
            continue
        for A in variants(F):
            before = A.copy()
            for mode in ("estimated", "given", "normalised"):
                lo, hi = A.min(axis=0), A.max(axis=0)
                if mode != "estimated":
                    lo, hi = lo - 0.25 * (1 + hi - lo), hi + 0.5
                kw = {} if mode == "estimated" else dict(ideal=lo.copy(), nadir=hi.copy())
                if mode == "normalised":
                    kw["zero_to_one"] = True
                L, H = [Fraction(float(v)) for v in lo], [Fraction(float(v)) for v in hi]
                ref = []
                for f in A:
                    r = [(h - Fraction(float(v))) / (h - l) if h != l else Fraction(0) for v, l, h in zip(f, L, H)]
                    s = sum(r)
                    ref.append([float(x / s) if s else 1.0 / m for x in r])
                ref = np.array(ref)
                for w in weights(m):
                    d = dict(F=A, weights=w, bounds=mode)
                    ok, out = call(ctx, "pseudo", lambda: PseudoWeights(w, **kw).do(A, return_pseudo_weights=True), **d)
                    ctx.trans()
                    if not ok:
                        return
                    ctx.state()
                    I, P = out
                    ok = np.shape(P) == A.shape and np.all(np.isfinite(P))
                    if not ctx.check(ok, "pseudo:finite", "pseudo-weights are not defined", found=P, **d):
                        return
                    ctx.check(np.all(P >= -1e-12) and np.allclose(P.sum(axis=1), 1.0, atol=1e-9), "pseudo:sum", "pseudo-weights are negative or do not sum to one", found=P, **d)
                    ctx.check(np.allclose(P, ref, atol=1e-9), "pseudo:formula", "pseudo-weights differ from their formula", found=P, reference=ref, **d)
                    dist = np.abs(ref - w).sum(axis=1)
                    ctx.check(dist[I] <= dist.min() + 1e-9, "pseudo:closest", "the solution chosen is not the closest one", chosen=int(I), distances=dist, **d)
                    ctx.check(PseudoWeights(w, **kw)(A) == I, "pseudo:index", "the index alone differs", **d)
                    ctx.check(np.array_equal(A, before), "pseudo:input", "the front is changed", **d)
                    ctx.outcome(m, mode, int(I), len(A))


# --- trade-off -----------------------------------------------------------------------------------------

def neighbours(A, i, eps, n_min):
    D = np.sqrt(((A - A[i]) ** 2).sum(axis=1))
    near = [j for j in range(len(A)) if D[j] <= eps]
    unsure = bool(np.any(np.abs(D - eps) < 1e-9))
    if len(near) < n_min:
        k = n_min + 1
        order = np.argsort(D, kind="stable")
        near = order[:k].tolist()
        unsure = unsure or (k < len(A) and abs(D[order[k]] - D[order[k - 1]]) < 1e-9)
    return near, unsure


def tradeoff(A, eps):
    """Least sacrifice per gain over the neighbourhood of every solution."""
    n, m = A.shape
    mu, unsure = [], False
    for i in range(n):
        near, u = neighbours(A, i, eps, min(2 * m, n - 1))
        unsure = unsure or u
        vals = []
        for j in near:
            s = sum(max(0.0, b - a) for a, b in zip(A[i], A[j]))
            g = sum(max(0.0, a - b) for a, b in zip(A[i], A[j]))
            if s == 0 and g == 0:
                continue
            vals.append(s / g if g > 0 else math.inf)
        mu.append(min(vals) if vals else math.nan)
    return mu, unsure


def outliers(mu):
    """(certain, possible) indices"""
    I = [i for i, v in enumerate(mu) if math.isfinite(v)]
    if not I:
        return set(), set()
    v = [mu[i] for i in I]
    mean = sum(v) / len(v)
    sigma = math.sqrt(sum((x - mean) ** 2 for x in v) / len(v))
    if sigma <= 1e-12 * max(1.0, abs(mean)):
        return set(), set(I) if sigma > 0 else set()
    dev = {i: (mu[i] - mean) / sigma for i in I}
    sure = {i for i in I if dev[i] >= 2 + 1e-9}
    maybe = {i for i in I if dev[i] >= 2 - 1e-9}
    if not sure:
        best = max(dev.values())
        top = {i for i in I if dev[i] >= best - 1e-9}
        if best > 1 + 1e-9 and not maybe:
            return top if len(top) == 1 else set(), top
        if best > 1 - 1e-9:
            maybe |= top
    return sure, maybe


def as_set(S):
    return set() if S is None else set(int(i) for i in np.ravel(S))


def u_tradeoff(ctx, m, part, parts):
    from pymoo.core.decision_making import find_outliers_upper_tail
    from pymoo.mcdm.high_tradeoff import HighTradeoffPoints
    FR = fronts(ctx.tier, m) + [f for f in curved() if len(f[0]) == m]
    for j, F in enumerate(FR):
        if j % parts != part:
            continue
        for A in variants(F):
            before = A.copy()
            for eps in (None, 0.01, 0.3, 1.2):
                d = dict(F=A, epsilon=eps)
                kw = {} if eps is None else dict(epsilon=eps)
                ok, S = call(ctx, "tradeoff", lambda: HighTradeoffPoints(**kw)(A), **d)
                ctx.trans()
                if not ok:
                    return
                ctx.state()
                ctx.check(np.array_equal(A, before), "tradeoff:input", "the front is changed", **d)
                mu, unsure = tradeoff(A, 0.125 if eps is None else eps)
                if unsure:
                    # a solution lies exactly on the edge of a neighbourhood
                    continue
                sure, maybe = outliers(mu)
                got = as_set(S)
                ctx.check(sure <= got <= maybe and (S is None or len(np.ravel(S)) == len(got)), "tradeoff", "the points %s are returned instead of %s" % (sorted(got), sorted(sure)), tradeoff=mu, **d)
                ctx.outcome(m, sorted(got), len(A))
                # normalisation beforehand is the same as normalising by hand
                lo, hi = A.min(axis=0) - 0.5, A.max(axis=0) + 0.25
                Z = (A - lo) / (hi - lo)
                mu, unsure = tradeoff(Z, 0.125 if eps is None else eps)
                if not unsure:
                    sure, maybe = outliers(mu)
                    got = as_set(HighTradeoffPoints(zero_to_one=True, ideal=lo, nadir=hi, **kw)(A))
                    ctx.check(sure <= got <= maybe, "tradeoff:normalised", "the points %s are returned instead of %s" % (sorted(got), sorted(sure)), tradeoff=mu, **d)


def u_outliers(ctx):
    from pymoo.core.decision_making import find_outliers_upper_tail
    V = [0.0, 1.0, 5.0, math.inf, math.nan, -math.inf]
    sets = [v for n in range(1, 5) for v in itertools.product(V, repeat=n)]
    sets += [tuple([1.0] * n + list(t)) for n in range(3, 9) for t in itertools.product((0.5, 2.0, 9.0, 9.5, math.nan), repeat=2)]
    for v in sets:
        ok, S = call(ctx, "outliers", lambda: find_outliers_upper_tail(np.array(v)), values=v)
        ctx.trans()
        ctx.state()
        if not ok:
            return
        sure, maybe = outliers(list(v))
        got = as_set(S)
        ctx.check(sure <= got <= maybe, "outliers", "the outliers of %s are %s instead of %s" % (v, sorted(got), sorted(sure)))
        ctx.outcome(sorted(got), len(v))


def u_neighbours(ctx):
    from pymoo.core.decision_making import NeighborFinder
    FR = [f for f in fronts("quick", 2) + fronts("quick", 3)[::7] if len(f) > 1] + curved()
    for F in FR:
        A = np.array(F, float)
        n, m = A.shape
        for i in range(n):
            D = np.sqrt(((A - A[i]) ** 2).sum(axis=1))
            for eps in (0.3, 1.05, 1.6):
                for n_min in (None, "auto"):
                    d = dict(F=A, i=i, epsilon=eps, minimum=n_min)
                    ok, got = call(ctx, "neighbours", lambda: NeighborFinder(A, epsilon=eps, n_min_neigbors=n_min, consider_2d=False).find(i), **d)
                    ctx.trans()
                    ctx.state()
                    if not ok:
                        return
                    near, unsure = neighbours(A, i, eps, min(2 * m, n - 1) if n_min == "auto" else 0)
                    if not unsure:
                        ctx.check(sorted(got) == sorted(near), "neighbours:radius", "the neighbours are %s instead of %s" % (sorted(got), sorted(near)), **d)
            for k in range(1, n):
                d = dict(F=A, i=i, k=k)
                ok, got = call(ctx, "neighbours", lambda: NeighborFinder(A, epsilon=None, n_neighbors=k, consider_2d=False).find(i), **d)
                ctx.trans()
                if not ok:
                    return
                ctx.check(len(set(got)) == k + 1 and np.allclose(sorted(D[got]), sorted(D)[:k + 1]), "neighbours:number", "%s are not the nearest solutions" % (got,), **d)
            if m == 2:
                got = [int(g) for g in NeighborFinder(A).find(i)]
                order = sorted(range(n), key=lambda q: A[q, 0])
                if len(set(A[:, 0])) == n:
                    p = order.index(i)
                    want = {order[q] for q in (p - 1, p + 1) if 0 <= q < n}
                    ctx.check(set(got) == want and len(got) == len(want), "neighbours:front", "the neighbours on the front are %s instead of %s" % (got, sorted(want)), F=A, i=i)
            ctx.outcome(n, i, m)


def units(tier):
    U = [("u_class", {}), ("u_outliers", {}), ("u_neighbours", {})]
    for m in (2, 3):
        U += [("u_compromise", dict(m=m, part=i, parts=8)) for i in range(8)]
        U += [("u_pseudo", dict(m=m, part=i, parts=8)) for i in range(8)]
        U += [("u_tradeoff", dict(m=m, part=i, parts=8)) for i in range(8)]
    return U
