"""P05: crowding metrics on every small point set, against their definition."""

import itertools

import numpy as np

PROPERTY = "P05"
RULE = ("an execution is one call of one metric implementation on one point set with one number of removals; outcomes are distinct "
        "(metric, value vector) results")
BOUNDS = {
    "quick": "all sets of 3-5 distinct points over {0,1,2,3}^2 (two row orders), all sets of 3-5 over {0,1,2}^3 minus symmetric ones, all multisets of 4 over {0,1,2}^2; "
             "affine maps of the values (unit, unequal scales with offset); every number of removals 0..n; metrics cd, pcd, ce, mnn, 2nn through the public selector and "
             "pcd, mnn, 2nn in both implementations; ties in removal order resolved every possible way by the oracle",
    "thorough": "as quick with sets of up to 6 points over {0,1,2,3}^2 and 5 over {0,1,2}^3",
}
INF = float("inf")


# ---------------------------------------------------------------- definitions

def norm_cols(F):
    lo, hi = F.min(axis=0), F.max(axis=0)
    r = hi - lo
    r[r == 0] = 1.0
    return (F - lo) / r


def ref_cd(F):
    n, m = F.shape
    d = np.zeros(n)
    for k in range(m):
        o = sorted(range(n), key=lambda i: (F[i, k], i))
        r = F[o[-1], k] - F[o[0], k]
        if r == 0:
            continue
        for p, i in enumerate(o):
            if p in (0, n - 1):
                d[i] = INF
            else:
                d[i] += (F[o[p + 1], k] - F[o[p - 1], k]) / r / m
    return d


def ref_ce(F):
    n, m = F.shape
    d = np.zeros(n)
    for k in range(m):
        o = sorted(range(n), key=lambda i: (F[i, k], i))
        r = F[o[-1], k] - F[o[0], k]
        if r == 0:
            continue
        for p, i in enumerate(o):
            if p in (0, n - 1):
                d[i] = INF
                continue
            a, b = F[i, k] - F[o[p - 1], k], F[o[p + 1], k] - F[i, k]
            c = a + b
            if a > 0 and b > 0:
                d[i] += c * -(a / c * np.log2(a / c) + b / c * np.log2(b / c)) / r
    return d


def extremes(F):
    return set(np.argmin(F, axis=0).tolist()) | set(np.argmax(F, axis=0).tolist())


def one_pcd(N, H, m):
    d = {i: 0.0 for i in H}
    for k in range(m):
        o = sorted(H, key=lambda i: (N[i, k], i))
        const = N[o[0], k] == N[o[-1], k]
        for p, i in enumerate(o):
            if p in (0, len(o) - 1):
                d[i] = INF
            else:
                d[i] += N[o[p + 1], k] - N[o[p - 1], k]
    return d


def one_nn(N, H, k):
    d = {}
    for i in H:
        ds = sorted(float(np.sum((N[i] - N[j]) ** 2)) for j in H if j != i)
        v = 1.0
        for x in ds[:k]:
            v *= x
        if len(ds) < k:
            v = INF
        d[i] = v
    return d


def pruned(F, n_remove, one):
    """All value vectors the pruning definition allows (ties between equally crowded solutions are free)."""
    n, m = F.shape
    n_remove = max(0, min(n_remove, n - m))
    N, ext = norm_cols(F), extremes(F)
    start = {i: v for i, v in one(N, list(range(n))).items()}
    for e in ext:
        start[e] = INF
    states = {tuple(start[i] for i in range(n)) + (tuple(range(n)),)}
    for _ in range(max(0, n_remove - 1)):
        nxt = set()
        for s in states:
            d, H = list(s[:-1]), list(s[-1])
            lo = min(d[i] for i in H)
            for k in [i for i in H if d[i] <= lo + 1e-9 * max(1.0, abs(lo)) or d[i] == lo]:
                H2 = [i for i in H if i != k]
                new = one(N, H2)
                d2 = list(d)
                for i in H2:
                    d2[i] = INF if i in ext else new[i]
                nxt.add(tuple(d2) + (tuple(H2),))
        states = nxt
        if len(states) > 200:
            return None
    return [np.array(s[:-1]) for s in states]


def same(a, b, factor):
    """Equal, up to one common positive factor if the metric is only defined up to scale."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape or np.isnan(a).any():
        return False
    if (np.isinf(a) != np.isinf(b)).any():
        return False
    fa, fb = a[np.isfinite(a)], b[np.isfinite(b)]
    if not len(fa):
        return True
    if factor and fb.max() > 0 and fa.max() > 0:
        fa = fa * (fb.max() / fa.max())
    return bool(np.allclose(fa, fb, rtol=1e-7, atol=1e-9))


def uniq_first(F):
    seen, idx = set(), []
    for i, f in enumerate(F):
        if tuple(f) not in seen:
            seen.add(tuple(f))
            idx.append(i)
    return idx


def expected(label, F, n_remove):
    """(allowed vectors or None, up to scale)"""
    n, m = F.shape
    if label in ("mnn", "2nn") and n <= m:
        return [np.full(n, INF)], False
    if n <= 2:
        return [np.full(n, INF)], False
    if label == "cd":
        return [ref_cd(F)], False
    idx = uniq_first(F)
    U = F[idx]
    if label == "ce":
        vs, sc = [ref_ce(U)], False
    elif label == "pcd":
        vs, sc = pruned(U, n_remove, lambda N, H: one_pcd(N, H, m)), True
    else:
        k = m if label == "mnn" else 2
        if len(U) <= m or len(U) <= 2:
            vs, sc = [np.full(len(U), INF)], False
        else:
            vs, sc = pruned(U, n_remove, lambda N, H: one_nn(N, H, k)), False
    if vs is None:
        return None, sc
    out = []
    for v in vs:
        d = np.zeros(n)
        d[idx] = v
        out.append(d)
    return out, sc


MAPS = {"unit": lambda F: F, "affine": lambda F: F * np.array([2.0, 0.5, 8.0])[:F.shape[1]] + np.array([-3.0, 1.0, 0.25])[:F.shape[1]]}
_FN = {}


def fns():
    from pymoo.functions import load_function
    from pymoo.operators.survival.rank_and_crowding.metrics import get_crowding_function
    if not _FN:
        for l in ("cd", "pcd", "ce", "mnn", "2nn"):
            _FN[l] = get_crowding_function(l)
        for f in ("calc_pcd", "calc_mnn", "calc_2nn"):
            for t in ("python", "cython"):
                _FN[(f, t)] = load_function(f, _type=t)
    return _FN


def check_set(ctx, pts, vmap):
    F = MAPS[vmap](np.array(pts, float))
    n, m = F.shape
    fn = fns()
    distinct = len(uniq_first(F)) == n
    ctx.state()
    for label in ("cd", "pcd", "ce", "mnn", "2nn"):
        for nr in (range(n + 1) if label in ("pcd", "mnn", "2nn") else (0, 1)):
            exp, sc = expected(label, F, nr)
            if exp is None:
                ctx.cap("oracle ties")
                continue
            arg = F.copy()
            got = fn[label].do(arg, n_remove=nr)
            ctx.trans()
            ctx.outcome(label, np.round(got, 6).tolist())
            if not np.array_equal(arg, F):
                ctx.viol("%s:altered" % label, "the metric changed the objective values", F=F, n_remove=nr)
            if not any(same(got, e, sc) for e in exp):
                ctx.viol("%s:value" % label, "%s of %s with %d removals is %s, by definition %s" % (label, F.tolist(), nr, got, exp[0]))
            if not distinct or label in ("cd", "ce"):
                continue
            base = {"pcd": "calc_pcd", "mnn": "calc_mnn", "2nn": "calc_2nn"}[label]
            for t in ("python", "cython"):
                arg = F.copy()
                g = fn[(base, t)](arg, n_remove=nr)
                ctx.trans()
                if not np.array_equal(arg, F):
                    ctx.viol("%s:%s:altered" % (base, t), "the %s implementation changed the array it was given" % t, F=F, n_remove=nr)
                if not any(same(g, e, sc) for e in exp):
                    ctx.viol("%s:%s:value" % (base, t), "%s (%s) of %s with %d removals is %s, by definition %s" % (base, t, F.tolist(), nr, np.asarray(g), exp[0]))


def u_sets(ctx, m, levels, size, vmap, part, parts, flip, dup=False):
    P = list(itertools.product([float(v) for v in range(levels)], repeat=m))
    it = itertools.combinations_with_replacement(P, size) if dup else itertools.combinations(P, size)
    for i, s in enumerate(it):
        if i % parts != part:
            continue
        check_set(ctx, s, vmap)
        if flip:
            check_set(ctx, tuple(s[j] for j in sorted(range(size), key=lambda j: (j * 7 + 3) % 5 * 10 + j)), vmap)
        if i == part:
            ctx.sample({"points": s, "map": vmap})
    ctx.trace()


def u_single(ctx):
    """Degenerate sizes."""
    for m in (2, 3):
        for n in (1, 2):
            for pts in itertools.product(itertools.product((0.0, 1.0), repeat=m), repeat=n):
                check_set(ctx, pts, "unit")


def units(tier):
    T = tier == "thorough"
    U = [("u_single", {})]
    for size in (3, 4) + ((5, 6) if T else (5,)):
        parts = {3: 1, 4: 4, 5: 16, 6: 64}[size]
        for p in range(parts):
            U.append(("u_sets", dict(m=2, levels=4, size=size, vmap="unit", part=p, parts=parts, flip=size <= 4)))
    for p in range(4):
        U.append(("u_sets", dict(m=2, levels=3, size=4, vmap="affine", part=p, parts=4, flip=True, dup=True)))
        U.append(("u_sets", dict(m=3, levels=3, size=3, vmap="affine", part=p, parts=4, flip=False)))
    # three objectives: {0,1,2}^3
    for p in range(16):
        U.append(("u_sets", dict(m=3, levels=3, size=4, vmap="unit", part=p, parts=16, flip=False)))
    for p in range(64 if T else 8):
        U.append(("u_sets", dict(m=3, levels=3 if T else 2, size=5, vmap="unit", part=p, parts=64 if T else 8, flip=not T)))
    return U
