"""P18: decomposition functions equal their formulas."""

import itertools

import numpy as np

PROPERTY = "P18"
RULE = ("every call is one (function, objective matrix, weight matrix, reference points, options, pairing) compared with a scalar loop over the formula; outcomes are distinct results")
BOUNDS = {
    "quick": "2 and 3 objectives: all objective rows over {-1,0,.5,2} x all weight rows over {0,.001,.05,.5,1,2} (not all zero) x 5 settings of ideal/utopian/nadir/eps for 6 scalarisations with 3 parameters each; all pairings "
             "(auto, one-to-one, one-to-many, many-to-one, many-to-many) of 1-3 points with 1-3 weights, as 1-d and 2-d arrays, integer, column-major and strided; all pairs of consecutive calls on one object; "
             "all dominating pairs of rows; compiled and python distance routines; niche association for all small fronts",
    "thorough": "as quick with 6 objective values and 4 objectives",
}
TOL = 1e-9


def scalarisations():
    from pymoo.decomposition.aasf import AASF
    from pymoo.decomposition.asf import ASF
    from pymoo.decomposition.pbi import PBI
    from pymoo.decomposition.perp_dist import PerpendicularDistance
    from pymoo.decomposition.tchebicheff import Tchebicheff
    from pymoo.decomposition.weighted_sum import WeightedSum
    out = {
        "ws": (lambda eps: WeightedSum(eps=eps), lambda f, w, u: sum(a * b for a, b in zip(f, w)), {}),
        "tch": (lambda eps: Tchebicheff(eps=eps), lambda f, w, u: max(abs(a - c) * b for a, b, c in zip(f, w, u)), {}),
        "perp": (lambda eps: PerpendicularDistance(eps=eps), lambda f, w, u: dist(f, w, [0.0] * len(f))[1], {}),
        "asf": (lambda eps: ASF(eps=eps), lambda f, w, u: max((a - c) / (b if b != 0 else 1e-10) for a, b, c in zip(f, w, u)), {}),
        "asf-w0": (lambda eps: ASF(eps=eps), lambda f, w, u: max((a - c) / (b if b != 0 else 0.1) for a, b, c in zip(f, w, u)), {"weight_0": 0.1}),
    }
    for th in (0.0, 5, 100):
        out["pbi-%s" % th] = (lambda eps, th=th: PBI(theta=th, eps=eps), lambda f, w, u, th=th: dist(f, w, u)[0] + th * dist(f, w, u)[1], {})
    for rho in (0.0, 0.001, 2.0):
        out["aasf-%s" % rho] = (lambda eps, rho=rho: AASF(rho=rho, eps=eps), lambda f, w, u, rho=rho: aasf(f, w, u, rho), {})
    for beta in (5.0, 30.0):
        out["aasf-b%s" % beta] = (lambda eps, beta=beta: AASF(beta=beta, eps=eps),
                                  lambda f, w, u, beta=beta: aasf(f, w, u, 1 / (1 - np.tan(np.radians(beta))) - 1), {})
    return out


def aasf(f, w, u, rho):
    return max((a - c) / (b if b != 0 else 1e-10) for a, b, c in zip(f, w, u)) + rho * sum((a - c) / max(b, 1e-12) for a, b, c in zip(f, w, u))


def dist(f, w, u):
    n = sum(b * b for b in w) ** 0.5
    g = [a - c for a, c in zip(f, u)]
    d1 = sum(a * b for a, b in zip(g, w)) / n
    return d1, sum((a - d1 * b / n) ** 2 for a, b in zip(g, w)) ** 0.5


SETTINGS = [dict(), dict(ideal_point="i"), dict(utopian_point="u"), dict(ideal_point="i", nadir_point="n"), dict(ideal_point="i", utopian_point="u", nadir_point="n")]


def points(m):
    return {"i": np.array([-1.0, 0.5, 0.0, 1.0][:m]), "u": np.array([-2.0, -1.5, 0.25, -1.0][:m]), "n": np.array([3.0, 2.0, 5.0, 4.0][:m])}


def kwargs(s, m):
    p = points(m)
    return {k: p[v].copy() for k, v in s.items()}


def utopian(s, m, eps):
    p = points(m)
    if "utopian_point" in s:
        return p["u"]
    return (p["i"] if "ideal_point" in s else np.zeros(m)) - eps


def close(a, b):
    return abs(a - b) <= TOL * max(1.0, abs(a), abs(b))


def rows(vals, m):
    return [r for r in itertools.product(vals, repeat=m)]


def u_values(ctx, name, m, fvals, wvals):
    mk, formula, kw = scalarisations()[name]
    F = np.array(rows(fvals, m))
    W = np.array([w for w in rows(wvals, m) if any(w)])
    for s in SETTINGS:
        for eps in (0.0, 0.1):
            d = mk(eps)
            F0, W0, k0 = F.copy(), W.copy(), kwargs(s, m)
            k1 = {k: v.copy() for k, v in k0.items()}
            D = d.do(F, W, _type="many_to_many", **k0, **kw)
            ctx.trans()
            ctx.check(np.array_equal(F, F0) and np.array_equal(W, W0) and all(np.array_equal(k0[k], k1[k]) for k in k0), "inputs:%s" % name, "%s changes its inputs" % name, setting=s)
            if not ctx.check(D.shape == (len(F), len(W)), "shape:%s" % name, "%s has shape %s for %d points and %d weights" % (name, D.shape, len(F), len(W))):
                return
            u = utopian(s, m, eps)
            for i, f in enumerate(F):
                for j, w in enumerate(W):
                    e = formula(f, w, u)
                    ctx.state()
                    if not close(D[i, j], e):
                        ctx.viol("value:%s" % name, "%s is %r instead of %r" % (name, float(D[i, j]), e), f=f, w=w, utopian=u, setting=s, eps=eps)
                        return
            ctx.outcome(name, m, s, eps, float(np.sum(np.abs(D))))
            # better in every objective is never worse, above the utopian point and for a convex or max scalarisation
            if name.split("-")[0] in ("ws", "tch", "asf", "aasf"):
                ok = np.all(F >= u, axis=1)
                for i in np.flatnonzero(ok):
                    for k in np.flatnonzero(ok):
                        if np.all(F[i] <= F[k]):
                            ctx.trace()
                            if np.any(D[i] > D[k] + TOL * np.maximum(1, np.abs(D[k]))):
                                ctx.viol("monotone:%s" % name, "%s gets worse when every objective improves" % name, better=F[i], worse=F[k], setting=s)
                                return


def u_pairing(ctx, name, m):
    mk, formula, kw = scalarisations()[name]
    base = np.array([[0.5, 2.0, 1.0], [1.0, 0.0, 3.0], [2.0, -1.0, 0.25]])[:, :m]
    wts = np.array([[0.5, 1.0, 2.0], [2.0, 0.0, 1.0], [1.0, 1.0, 0.5]])[:, :m]
    forms = {"plain": lambda a: a, "fortran": np.asfortranarray, "strided": strided, "int": lambda a: np.round(a * 4).astype(int)}
    for nf, nw in itertools.product((1, 2, 3), repeat=2):
        for ff, wf in itertools.product(forms, repeat=2):
            for fd, wd in itertools.product((1, 2), repeat=2):
                if (fd == 1 and nf > 1) or (wd == 1 and nw > 1):
                    continue
                F, W = forms[ff](base[:nf]), forms[wf](wts[:nw])
                Fl, Wl = F.astype(float), W.astype(float)
                if fd == 1:
                    F = F[0]
                if wd == 1:
                    W = W[0]
                for typ in ("auto", "one_to_one", "one_to_many", "many_to_one", "many_to_many"):
                    if (typ == "one_to_one" and nf != nw) or (typ == "one_to_many" and nf != 1) or (typ == "many_to_one" and nw != 1):
                        continue
                    t = typ
                    if typ == "auto":
                        t = "one_to_many" if nf == 1 and nw > 1 else "many_to_one" if nf > 1 and nw == 1 else "one_to_one" if nf == nw and nf > 1 else "many_to_many"
                    d = dict(points=nf, weights=nw, dims=(fd, wd), kinds=(ff, wf), pairing=typ)
                    try:
                        D = mk(0.1).do(F, W, _type=typ, **kw)
                    except Exception as e:
                        ctx.viol("raises:%s:%s" % (name, type(e).__name__), "%s fails for a valid call: %r" % (name, e), **d)
                        continue
                    ctx.trans()
                    ctx.state()
                    u = [-0.1] * m
                    if t == "many_to_many":
                        E = [[formula(f, w, u) for w in Wl] for f in Fl]
                    elif t == "one_to_one":
                        E = [formula(f, w, u) for f, w in zip(Fl, Wl)]
                    elif t == "one_to_many":
                        E = [formula(Fl[0], w, u) for w in Wl]
                    else:
                        E = [formula(f, Wl[0], u) for f in Fl]
                    E = np.array(E)
                    ctx.check(D.shape == E.shape and all(close(a, b) for a, b in zip(D.ravel(), E.ravel())), "pairing:%s" % name, "%s pairs points and weights wrongly: %s instead of %s" % (name, D.tolist(), E.tolist()), **d)
                    ctx.outcome(name, nf, nw, t, D.shape)


def strided(a):
    b = np.zeros((2 * a.shape[0], 2 * a.shape[1]))
    b[::2, ::2] = a
    return b[::2, ::2]


def u_sequence(ctx, name, m):
    """A scalarisation object carries nothing from one call to the next."""
    mk, formula, kw = scalarisations()[name]
    F = [np.array([[1.0, 2.0, 3.0], [0.5, 0.25, 4.0]])[:, :m], np.array([[7.0, 1.0, 2.0]])[:, :m]]
    W = [np.array([[0.2, 0.8, 1.0], [1.0, 0.0, 0.0]])[:, :m], np.array([[1.0, 1.0, 1.0]])[:, :m]]
    calls = [(i, j, s) for i in range(2) for j in range(2) for s in range(len(SETTINGS))]
    run = lambda d, c: d.do(F[c[0]], W[c[1]], **kwargs(SETTINGS[c[2]], m), **kw)
    fresh = {c: run(mk(0.1), c) for c in calls}
    for a, b in itertools.product(calls, repeat=2):
        d = mk(0.1)
        r1 = run(d, a)
        k1 = r1.copy()
        r2 = run(d, b)
        ctx.trace()
        ctx.state()
        ctx.trans(2)
        ctx.check(np.array_equal(r2, fresh[b], equal_nan=True), "sequence:%s" % name, "%s depends on the call before" % name, first=a, second=b)
        ctx.check(np.array_equal(k1, r1, equal_nan=True), "result:%s" % name, "%s changes an earlier result" % name)
        r3 = d(F[b[0]], W[b[1]], **kwargs(SETTINGS[b[2]], m), **kw)
        ctx.check(np.array_equal(r3, fresh[b], equal_nan=True), "call:%s" % name, "calling %s differs from do()" % name)


def u_distances(ctx, m, fvals, wvals):
    from pymoo.functions import load_function
    F = np.array(rows(fvals, m))
    W = np.array([w for w in rows(wvals, m) if any(w)])
    for mode in ("python", "cython"):
        for u in (None, np.array([-1.0, 0.5, 0.25, 0.0][:m])):
            f2, w2 = np.repeat(F, len(W), axis=0), np.tile(W, (len(F), 1))
            f0, w0 = f2.copy(), w2.copy()
            d1, d2 = load_function("calc_distance_to_weights", _type=mode)(f2, w2, u)
            ctx.trans()
            ctx.check(np.array_equal(f2, f0) and np.array_equal(w2, w0), "inputs:distance:%s" % mode, "the %s distance to weights changes its inputs" % mode)
            for f, w, a, b in zip(f2, w2, d1, d2):
                e = dist(f, w, [0.0] * m if u is None else u)
                ctx.state()
                if not (close(a, e[0]) and abs(b - e[1]) <= 1e-7):
                    ctx.viol("distance:%s" % mode, "the %s distance to weights is (%r, %r) instead of %r" % (mode, float(a), float(b), e), f=f, w=w, utopian=u)
                    return
        P = load_function("calc_perpendicular_distance", _type=mode)(F, W)
        ctx.trans()
        for i, f in enumerate(F):
            for j, w in enumerate(W):
                ctx.state()
                if abs(P[i, j] - dist(f, w, [0.0] * m)[1]) > 1e-7:
                    ctx.viol("perpendicular:%s" % mode, "the %s perpendicular distance is %r instead of %r" % (mode, float(P[i, j]), dist(f, w, [0.0] * m)[1]), f=f, w=w)
                    return
        ctx.outcome(mode, m)


def u_niches(ctx, m, fvals):
    """Every solution is associated with its closest reference direction after normalisation."""
    from pymoo.algorithms.moo.nsga3 import associate_to_niches, calc_niche_count
    from vmc import zoo
    R = zoo.ref_dirs(m)
    for ideal, nadir, eps in ((np.zeros(m), np.ones(m), 0.0), (np.full(m, -1.0), np.array([2.0, 3.0, 4.0][:m]), 0.0), (np.zeros(m), np.array([2.0, 0.0, 1.0][:m]), 0.0), (np.zeros(m), np.full(m, 2.0), 0.1)):
        F = np.array(rows(fvals, m))
        a0, n0, f0 = ideal.copy(), nadir.copy(), F.copy()
        niche, d, D = associate_to_niches(F, R, ideal, nadir, eps)
        ctx.trans()
        ctx.check(np.array_equal(a0, ideal) and np.array_equal(n0, nadir) and np.array_equal(f0, F), "inputs:niches", "the association to reference directions changes its inputs")
        u = ideal - eps
        den = [x if x != 0 else 1e-12 for x in nadir - u]
        for i, f in enumerate(F):
            nf = [(a - b) / c for a, b, c in zip(f, u, den)]
            e = [dist(nf, w, [0.0] * m)[1] for w in R]
            scale = max(1.0, max(abs(v) for v in nf))
            ctx.state()
            ctx.check(all(abs(x - y) <= 1e-7 * scale for x, y in zip(D[i], e)), "niches:distance", "distance to the reference directions differs from its definition", f=f)
            ctx.check(e[niche[i]] <= min(e) + 1e-6 * scale and abs(d[i] - D[i, niche[i]]) == 0, "niches:closest", "a solution is not associated with its closest reference direction", f=f, distances=e, niche=niche[i])
        c = calc_niche_count(len(R), niche)
        ctx.check(list(c) == [int(np.sum(niche == k)) for k in range(len(R))], "niches:count", "the niche count is wrong")
        ctx.outcome(m, list(c))


def u_beta(ctx):
    from pymoo.decomposition.aasf import AASF
    try:
        AASF()
        ctx.viol("beta", "AASF without rho and beta is accepted")
    except Exception:
        pass
    ctx.trans()
    ctx.state()
    ctx.trace()


def units(tier):
    q = tier == "quick"
    U = []
    fv, wv = ((-1.0, 0.0, 0.5, 2.0), (0.0, 0.001, 0.05, 0.5, 1.0, 2.0)) if q else ((-1.0, 0.0, 0.5, 1.0, 2.0, 7.0), (0.0, 1e-5, 0.001, 0.05, 0.25, 0.5, 1.0, 2.0))
    for name in scalarisations():
        for m in (2, 3):
            U.append(("u_values", dict(name=name, m=m, fvals=fv, wvals=wv)))
            U.append(("u_pairing", dict(name=name, m=m)))
            U.append(("u_sequence", dict(name=name, m=m)))
        if not q:
            U.append(("u_values", dict(name=name, m=4, fvals=(0.0, 0.5, 2.0), wvals=(0.0, 0.5, 2.0))))
    for m in (2, 3):
        U.append(("u_distances", dict(m=m, fvals=fv, wvals=wv)))
        U.append(("u_niches", dict(m=m, fvals=fv + (1.0,))))
    U.append(("u_beta", {}))
    return U
