"""P32: variation operators do what their definition says, for every answer of the random generator.

The oracle never prescribes how the generator is used: it asks whether the result is one of those the definition allows."""

import itertools

import numpy as np

from vmc.rng import ONE, ScriptRNG, explore

PROPERTY = "P32"
RULE = ("an execution is one call of one operator under one complete sequence of answers of the random generator, judged by the relation its definition prescribes between parents and offspring; "
        "outcomes are distinct offspring")
BOUNDS = {
    "quick": "crossovers: simulated binary (6 settings), differential (7 settings), donor (6), parent centric, uniform, one/two/three point, half uniform, binomial, exponential, order (plain, shifted), edge recombination; "
             "mutations: polynomial (5 settings), gaussian, bit flip, inversion; samplings; repairs; 1-5 variables, 1-2 matings, every <= 2 deviations of the generator (all of them where feasible) over {1/4, 1/8, 1/2, 3/4, 0, largest below 1}; "
             "probabilities 0 and 1; all permutations of up to 5 items (order) and 5 items (edge recombination)",
    "thorough": "as quick with 3 deviations, 6 items and 3 matings",
}

LV = [0.25, 0.625, 0.875, 0.0, ONE]


def prob(n, xl, xu, vtype=None):
    from pymoo.core.problem import Problem
    return Problem(n_var=n, n_obj=1, xl=np.array(xl), xu=np.array(xu), vtype=vtype)


def apply(op, problem, X, n_mat, rng):
    from pymoo.core.population import Population
    k = op.n_parents
    pop = Population.new(X=X.copy())
    idx = np.arange(k * n_mat).reshape(n_mat, k)
    off = op.do(problem, pop, parents=idx, random_state=rng)
    return np.array([i.X for i in off]).reshape(op.n_offsprings, n_mat, -1)


def mutate(op, problem, X, rng):
    from pymoo.core.population import Population
    return np.array([i.X for i in op.do(problem, Population.new(X=X.copy()), random_state=rng)])


def go(ctx, run, dev, what, max_runs=20000):
    n, ok = explore(run, max_dev=dev, max_runs=max_runs)
    if not ok:
        ctx.cap("%s: more than %d answer sequences" % (what, max_runs))
    ctx.state(n)
    ctx.trace(n)


# ------------------------------------------------------------------------------------------------ simulated binary crossover

def sbx_pair(y1, y2, xl, xu, eta, u):
    """Children of two different values y1 < y2 for the random number u (Deb & Agrawal, bounded version)."""
    def bq(beta):
        alpha = 2.0 - beta ** -(eta + 1.0)
        if u <= 1.0 / alpha:
            return (u * alpha) ** (1.0 / (eta + 1.0))
        return (1.0 / (2.0 - u * alpha)) ** (1.0 / (eta + 1.0))
    d = y2 - y1
    c1 = 0.5 * (y1 + y2 - bq(1.0 + 2.0 * (y1 - xl) / d) * d)
    c2 = 0.5 * (y1 + y2 + bq(1.0 + 2.0 * (xu - y2) / d) * d)
    return min(max(c1, xl), xu), min(max(c2, xl), xu)


SBX_SET = {"default": dict(), "all": dict(prob=1.0, prob_var=1.0, eta=3.0), "never": dict(prob=0.0), "novar": dict(prob=1.0, prob_var=0.0), "single": dict(prob=1.0, prob_var=1.0, n_offsprings=1),
           "noexch": dict(prob=1.0, prob_var=1.0, prob_bin=0.0), "noexch2": dict(prob=1.0, prob_var=1.0, prob_bin=1.0, prob_exch=0.0), "exch": dict(prob=1.0, prob_var=1.0, prob_exch=1.0, prob_bin=1.0)}


def u_sbx(ctx, setting, dev):
    from pymoo.operators.crossover.sbx import SBX
    kw = SBX_SET[setting]
    eta = kw.get("eta", 15)
    lv = [v for v in LV if v > 0] if setting in ("never", "noexch2") else LV
    which = set()
    for n_var, n_mat, xl, xu, rows in ((1, 1, [0.0], [1.0], [[0.25], [0.5]]), (1, 1, [-5.0], [10.0], [[10.0], [-5.0]]), (1, 1, [-5.0], [10.0], [[3.0], [-1.0]]), (1, 1, [0.0], [1.0], [[0.5], [0.5]]),
                                       (2, 1, [0.0, -5.0], [1.0, 10.0], [[0.25, 3.0], [0.5, -4.0]]), (2, 2, [0.0, -5.0], [1.0, 10.0], [[0.25, 3.0], [0.5, -4.0], [0.75, 9.0], [0.0, 1.0]])):
        X = np.array(rows)
        problem = prob(n_var, xl, xu)

        def run(o):
            op = SBX(**kw)
            C = apply(op, problem, X, n_mat, ScriptRNG(o, levels=lv))
            ctx.trans()
            ctx.outcome(C.tobytes())
            for k in range(n_mat):
                a, b = X[2 * k], X[2 * k + 1]
                for j in range(n_var):
                    got = C[:, k, j]
                    par = (a[j], b[j])
                    y1, y2 = min(par), max(par)
                    pairs = [par, par[::-1]] if setting in ("default", "never", "novar") or y1 == y2 else []
                    kids = []
                    if y1 != y2 and setting not in ("never", "novar"):
                        kids = [sbx_pair(y1, y2, xl[j], xu[j], eta, u) for u in lv]
                    turned = [c[::-1] for c in kids]
                    eq = lambda g, s: any(np.allclose(g, q, rtol=1e-9, atol=1e-12) for q in s)
                    allowed = kids + turned
                    if setting in ("noexch", "noexch2", "exch") and y1 != y2:
                        # each child stays next to its own parent, or next to the other one if exchanged
                        keep, swap = (kids, turned) if par[0] < par[1] else (turned, kids)
                        allowed = swap if setting == "exch" else keep
                        if not eq(got, allowed) and eq(got, turned if setting == "exch" else kids):
                            ctx.viol("sbx:exchange", "SBX exchanges the children with probability 1 - p instead of p where the first parent has the larger value", setting=setting, children=got, parents=par)
                            continue
                    if setting in ("never", "novar"):
                        pairs = [par]
                    allowed = pairs + allowed
                    if setting == "single" and y1 != y2:
                        which.update(i for i in (0, 1) if any(np.isclose(got[0], c[i], rtol=1e-9, atol=1e-12) for c in kids))
                    if len(got) == 1:
                        ok = any(np.isclose(got[0], v, rtol=1e-9, atol=1e-12) for p in allowed for v in p)
                    else:
                        ok = any(np.allclose(got, p, rtol=1e-9, atol=1e-12) for p in allowed)
                    if not ok:
                        ctx.viol("sbx:%s" % setting, "the children %s of %s are not those of simulated binary crossover for any random number" % (got, par), setting=setting, bounds=(xl[j], xu[j]),
                                 choices=o.choices[:40])
                        return
        go(ctx, run, dev + (2 if n_var * n_mat == 1 else 0), "sbx " + setting)
    if setting == "single" and which != {0, 1}:
        ctx.viol("sbx:single", "a single child is always the %s one of the two" % ("smaller" if which == {0} else "larger"))


# ------------------------------------------------------------------------------------------------ differential evolution

DE_SET = {"fixed": dict(F=0.5, CR=1.0), "one": dict(F=1.0, CR=0.5), "none": dict(F=0.5, CR=0.0), "random": dict(CR=1.0), "exp": dict(F=0.5, CR=0.5, variant="exp"), "two": dict(F=0.25, CR=1.0, n_diffs=2),
          "big": dict(F=2.0, CR=1.0)}


def u_dex(ctx, setting, dev):
    from pymoo.operators.crossover.dex import DEX
    kw = DE_SET[setting]
    k = 1 + 2 * kw.get("n_diffs", 1)
    base = np.array([[0.5, 2.0, 0.25], [0.75, 5.0, 0.5], [0.25, -1.0, 0.75], [0.5, 4.0, 0.25], [0.625, 1.0, 0.375]])[:k]
    xl, xu = [0.0, -5.0, 0.0], [1.0, 10.0, 1.0]
    problem = prob(3, xl, xu)
    for n_mat in (1, 2):
        X = np.concatenate([base, base[::-1]])[:k * n_mat]

        def run(o):
            C = apply(DEX(**kw), problem, X, n_mat, ScriptRNG(o, levels=LV))[0]
            ctx.trans()
            ctx.outcome(C.tobytes())
            for m in range(n_mat):
                P, c = X[k * m:k * (m + 1)], C[m]
                ch = c != P[0]
                d = sum(P[i] - P[i + 1] for i in range(1, k, 2))
                d1 = [P[i] - P[i + 1] for i in range(1, k, 2)]
                bad = lambda w, t: ctx.viol("dex:%s" % w, t, setting=setting, parents=P, child=c, choices=o.choices[:40])
                if setting == "none" and ch.sum() > 1:
                    return bad("cr", "with CR = 0 only one variable may come from the donor vector")
                if setting == "exp":
                    J = np.where(ch)[0]
                    if len(J) == 2 and not any((J[0] + 1) % 3 == J[1] or (J[1] + 1) % 3 == J[0] for _ in (0,)):
                        return bad("block", "exponential crossover must take a contiguous (circular) block")
                F = kw.get("F")
                # a donor within bounds is x0 + F (x1 - x2) with the given factor (jitter of at most 1e-4) or, after a retry, a factor in [0.5, 1]
                for j in np.where(ch)[0]:
                    if c[j] in (xl[j], xu[j]):
                        continue
                    lo = [sum(abs(x[j]) for x in d1) * v for v in (1.0, -1.0)]
                    span = sorted((0.0, F * d[j] if F is not None and k == 3 else (max(F or 0, 1.0)) * max(lo) * np.sign(d[j] or 1)))
                    v = c[j] - P[0][j]
                    if k == 3:
                        r = v / d[j] if d[j] else 0.0
                        inside = lambda f: np.all(P[0] + f * d > xl) and np.all(P[0] + f * d < xu)
                        ok = (F is not None and abs(r - F) <= 1e-4 * F) or 0.5 - 1e-4 <= r <= 1.0 + 1e-4
                        if not ok:
                            # repaired: between the violated bound and the base vector
                            f_out = not inside(F if F is not None else 1.0) or not inside(1.0)
                            ok = f_out and min(P[0][j], xl[j] if d[j] < 0 else P[0][j]) <= c[j] <= max(P[0][j], xu[j] if d[j] > 0 else P[0][j])
                        if not ok:
                            return bad("donor", "variable %d is neither of the parent nor of the donor vector (factor %g)" % (j, r))
                    elif abs(v) > max(lo) + 1e-9:
                        return bad("donor", "variable %d is farther from the base than the differences allow" % j)
                if setting in ("fixed",):
                    e = P[0] + F * d
                    if np.all(e > np.array(xl)) and np.all(e < np.array(xu)) and not np.allclose(c, e, rtol=0, atol=1.1e-4 * np.abs(F * d).max()):
                        return bad("all", "with CR = 1 the child is not the donor vector %s" % e)
        go(ctx, run, dev, "dex " + setting, 6000)


def u_donor(ctx, dither, jitter, dev):
    """The donor vector when no bound interferes: base + F' (difference), F' dithered and jittered as asked."""
    from pymoo.operators.crossover.dex import DEX
    X = np.array([[0.5, 2.0, 0.25], [0.75, 5.0, 0.5], [0.25, -1.0, 0.75], [0.5, 4.0, 0.25], [0.625, 1.0, 0.375], [0.125, 2.0, 3.0]])
    problem = prob(3, [-100.0] * 3, [100.0] * 3)
    for n_mat in (1, 2):
        for F in (0.5, 1.0, 0.75):
            def run(o):
                C = apply(DEX(F=F, CR=1.0, prob=1.0, dither=dither, jitter=jitter), problem, X[:3 * n_mat], n_mat, ScriptRNG(o, levels=LV))[0]
                ctx.trans()
                ctx.outcome(C.tobytes())
                used = []
                for m in range(n_mat):
                    P, c = X[3 * m:3 * m + 3], C[m]
                    r = (c - P[0]) / (P[1] - P[2])
                    us = [u for u in (LV if dither else [0.0]) if any(np.allclose(r, (F + u * (1.0 - F)) * (1 + 1e-4 * (v - 0.5)), rtol=1e-9, atol=0) for v in (LV if jitter else [0.5]))]
                    if not us:
                        return ctx.viol("donor:%s" % dither, "the factor %s of the difference is not the one asked for (F=%g, dither=%s, jitter=%s)" % (r, F, dither, jitter), parents=P, child=c, choices=o.choices)
                    used.append(set(us))
                if dither == "scalar" and not set.intersection(*used):
                    return ctx.viol("donor:scalar", "scalar dither uses different factors in one generation", factors=used, choices=o.choices)
                if n_mat == 2 and len(used) == 2:
                    diff[0] |= not set.intersection(*used)
            diff = [False]
            go(ctx, run, dev, "donor")
            if dither == "vector" and n_mat == 2 and F < 1 and not diff[0]:
                ctx.viol("donor:vector", "vector dither uses the same factor for all matings")


def u_functions(ctx, dev):
    """Each mating or solution has its own parameter: the result of row k depends on parameter k only."""
    from pymoo.operators.crossover.sbx import cross_sbx
    from pymoo.operators.mutation.gauss import mut_gauss
    from pymoo.operators.mutation.pm import mut_pm
    xl, xu = np.array([0.0, -5.0]), np.array([1.0, 10.0])
    X = np.array([[0.25, 3.0], [0.75, -4.0]])
    Z = np.array([[0.5, 4.0], [0.375, 1.0]])
    lv = [v for v in LV if v > 0]
    for par in itertools.product((3.0, 15.0), (3.0, 15.0), (0.0, 1.0), (0.0, 1.0)):
        eta, pv = np.array(par[:2]), np.array(par[2:])

        def run(o):
            C = cross_sbx(np.array([X, Z]), xl, xu, eta[:, None], pv[:, None], np.full((2, 1), 0.5), random_state=ScriptRNG(o, levels=lv))
            ctx.trans()
            ctx.outcome(par, C.tobytes())
            for k in range(2):
                for j in range(2):
                    q = (X[k, j], Z[k, j])
                    ok = [q] if pv[k] == 0 else [sbx_pair(min(q), max(q), xl[j], xu[j], eta[k], u) for u in lv]
                    ok += [c[::-1] for c in ok] if pv[k] else []
                    if not any(np.allclose(C[:, k, j], c, rtol=1e-9) for c in ok):
                        return ctx.viol("rows:sbx", "mating %d does not use its own parameters" % k, eta=eta, prob_var=pv, children=C[:, k, j], parents=q, choices=o.choices)
        go(ctx, run, dev, "rows sbx")

        def run(o):
            Y = mut_pm(X, xl, xu, eta, pv, False, random_state=ScriptRNG(o, levels=lv))
            ctx.trans()
            ctx.outcome(par, Y.tobytes())
            for k in range(2):
                for j in range(2):
                    ok = [X[k, j]] if pv[k] == 0 else [pm_ref(X[k, j], xl[j], xu[j], eta[k], u) for u in lv]
                    if not any(np.isclose(Y[k, j], v, rtol=1e-9) for v in ok):
                        return ctx.viol("rows:pm", "solution %d does not use its own parameters" % k, eta=eta, prob=pv, before=X[k], after=Y[k], choices=o.choices)
        go(ctx, run, dev, "rows pm")
        NORM = [1.0, -1.0, 0.5]
        sg = eta / 1500.0

        def run(o):
            Y = mut_gauss(X, xl, xu, sg, pv, random_state=ScriptRNG(o, levels=lv, normals=NORM))
            ctx.trans()
            for k in range(2):
                for j in range(2):
                    ok = [X[k, j]] if pv[k] == 0 else [X[k, j] + z * sg[k] * (xu[j] - xl[j]) for z in NORM]
                    if not any(np.isclose(Y[k, j], v, rtol=1e-9) for v in ok):
                        return ctx.viol("rows:gauss", "solution %d does not use its own parameters" % k, sigma=sg, prob=pv, before=X[k], after=Y[k], choices=o.choices)
        go(ctx, run, dev, "rows gauss")


def u_lhs(ctx, n, dev):
    from pymoo.operators.sampling.lhs import LHS, criterion_corr, criterion_maxmin
    xl, xu = np.array([0.0, -5.0]), np.array([1.0, 10.0])
    problem = prob(2, xl, xu)
    for smooth in (True, False):
        for cn, crit in (("none", None), ("maxmin", criterion_maxmin)) + ((("corr", criterion_corr),) if n > 2 else ()):
            def run(o):
                for it in (1, 2, 3):
                    rng = ScriptRNG(o, levels=LV)
                    X = np.array([i.X for i in LHS(smooth=smooth, criterion=crit, iterations=it).do(problem, n, random_state=rng)])
                    ctx.trans()
                    U = (X - xl) / (xu - xl) * n
                    ctx.outcome(smooth, cn, X.tobytes())
                    for j in range(2):
                        c = np.sort(U[:, j])
                        ok = np.all(np.abs(c - np.arange(n) - 0.5) < 1e-9) if not smooth else np.all((c > np.arange(n) - 1e-9) & (c < np.arange(n) + 1 + 1e-9))
                        if not ok:
                            return ctx.viol("lhs:%s" % ("cells" if smooth else "centres"), "column %d is not one point per cell%s" % (j, "" if smooth else ", at its centre"), samples=X, choices=o.choices)
            go(ctx, run, dev, "lhs")
            if crit is None or n < 2:
                continue
            for seed in range(24):
                sc = []
                for it in (1, 2, 3, 8):
                    X = np.array([i.X for i in LHS(smooth=smooth, criterion=crit, iterations=it).do(problem, n, random_state=np.random.default_rng(seed))])
                    U = (X - xl) / (xu - xl)
                    ctx.trans()
                    if cn == "maxmin":
                        sc.append(min(np.linalg.norm(U[a] - U[b]) for a in range(n) for b in range(a)))
                    else:
                        a, b = U[:, 0] - U[:, 0].mean(), U[:, 1] - U[:, 1].mean()
                        sc.append(-(a @ b) ** 2 / ((a @ a) * (b @ b)))
                if any(v < u - 1e-9 for u, v in zip(sc, sc[1:])):
                    ctx.viol("lhs:criterion", "more iterations give a worse sample by the criterion %s: %s" % (cn, sc), n=n, seed=seed)


def u_dem(ctx, repair, dev):
    from pymoo.operators.crossover.dex import DEM
    xl, xu = np.array([0.0, -5.0]), np.array([1.0, 10.0])
    problem = prob(2, xl, xu)
    P1 = np.array([[0.5, 2.0], [0.75, 5.0], [0.25, -1.0]])
    P2 = np.array([[0.875, 8.0], [0.75, 9.0], [0.125, -3.0]])
    for P in (P1, P2, P1[[0, 2, 1]], P2[[0, 2, 1]] * np.array([1.0, 0.5])):
        for F in (0.5, 2.0, (0.25, 0.75)):
            for gamma in (None, 1e-4):
                def run(o):
                    c = apply(DEM(F=F, gamma=gamma, de_repair=repair), problem, P, 1, ScriptRNG(o, levels=LV))[0, 0]
                    ctx.trans()
                    ctx.outcome(c.tobytes())
                    Fs = [F] if np.isscalar(F) else [F[0] + u * (F[1] - F[0]) for u in LV]
                    g = [0.0] if gamma is None else [gamma * (u - 0.5) for u in LV]
                    for f in Fs:
                        ok = []
                        for j in range(2):
                            cand = []
                            for e in g:
                                v = P[0, j] + f * (1 + e) * (P[1, j] - P[2, j])
                                b = xl[j] if v < xl[j] else xu[j] if v > xu[j] else None
                                if b is None:
                                    cand.append(v)
                                elif repair == "to-bounds":
                                    cand.append(b)
                                elif repair == "midway":
                                    cand.append(0.5 * (b + P[0, j]))
                                elif repair == "bounce-back":
                                    cand += [b + u * (P[0, j] - b) for u in LV]
                                else:
                                    cand += [xl[j] + u * (xu[j] - xl[j]) for u in LV] + [xu[j] - u * (xu[j] - xl[j]) for u in LV]
                            ok.append(any(np.isclose(c[j], v, rtol=1e-10, atol=1e-12) for v in cand))
                        if all(ok):
                            return
                    ctx.viol("dem:%s" % repair, "the donor vector %s is not base + F (difference), repaired" % c, F=F, gamma=gamma, parents=P, choices=o.choices)
                go(ctx, run, dev + 1, "dem")


# ------------------------------------------------------------------------------------------------ parent centric crossover

def u_pcx(ctx, dev):
    from pymoo.operators.crossover.pcx import PCX
    NORM = [0.0, 1.0, -1.0, 0.5]
    xl, xu = np.full(3, -100.0), np.full(3, 100.0)
    problem = prob(3, xl, xu)
    P = np.array([[0.5, 2.0, 1.0], [0.75, 5.0, -1.0], [0.5, -2.5, 3.5]])
    for n_mat in (1, 2):
        X = np.concatenate([P, P[[1, 2, 0]] * 2.0])[:3 * n_mat]

        def run(o):
            C = apply(PCX(eta=0.125, zeta=0.25, prob=1.0), problem, X, n_mat, ScriptRNG(o, levels=LV, normals=NORM))[0]
            ctx.trans()
            ctx.outcome(C.tobytes())
            for m in range(n_mat):
                p, c = X[3 * m:3 * m + 3], C[m]
                d = p.mean(axis=0) - p[0]
                dist = np.linalg.norm(d)
                along = (c - p[0]) @ d / dist ** 2
                if not any(abs(along - 0.25 * z) < 1e-9 for z in NORM):
                    return ctx.viol("pcx:along", "the offspring moves %g along the direction to the centroid, not zeta times a normal number" % along, parents=p, child=c, choices=o.choices)
                perp = c - p[0] - along * d
                # mean distance of the other parents to that line
                D = np.mean([np.linalg.norm((q - p[0]) - ((q - p[0]) @ d) / dist ** 2 * d) for q in p[1:]])
                ok = False
                for z in itertools.product(NORM, repeat=3):
                    r = 0.125 * D * np.array(z)
                    if np.allclose(perp, r - (r @ d) / dist ** 2 * d, atol=1e-9):
                        ok = True
                        break
                if not ok:
                    return ctx.viol("pcx:perp", "the offset perpendicular to the centroid is not eta times the mean distance times normal numbers", parents=p, child=c, choices=o.choices)
        go(ctx, run, dev + 2, "pcx", 6000)


# ------------------------------------------------------------------------------------------------ masks: which genes are exchanged

def cuts(mask):
    return [j for j in range(1, len(mask)) if mask[j] != mask[j - 1]]


def u_mask(ctx, name, dev):
    """Parents that differ everywhere reveal which genes were exchanged."""
    from pymoo.operators.crossover.binx import BinomialCrossover
    from pymoo.operators.crossover.expx import ExponentialCrossover
    from pymoo.operators.crossover.pntx import PointCrossover, SinglePointCrossover, TwoPointCrossover
    from pymoo.operators.crossover.ux import UniformCrossover
    mk = {"spx": lambda p: SinglePointCrossover(prob=p), "2px": lambda p: TwoPointCrossover(prob=p), "3px": lambda p: PointCrossover(n_points=3, prob=p), "ux": lambda p: UniformCrossover(prob=p),
          "bx": lambda p: BinomialCrossover(prob=p), "expx": lambda p: ExponentialCrossover(prob=p), "bx-never": lambda p: BinomialCrossover(bias=0.0, prob=p), "bx-always": lambda p: BinomialCrossover(bias=1.0, prob=p),
          "expx-always": lambda p: ExponentialCrossover(prob_exp=1.0, prob=p), "bx-1": lambda p: BinomialCrossover(n_offsprings=1, prob=p)}[name]
    for n_var, n_mat, p in [(n, 1, 1.0) for n in (2, 3, 4, 5)] + [(3, 2, 1.0), (3, 1, 0.0), (3, 2, 0.0)]:
        if name == "3px" and n_var < 4:
            continue
        X = np.arange(2 * n_mat * n_var).reshape(2 * n_mat, n_var)
        problem = prob(n_var, [0] * n_var, [100] * n_var, int)
        seen = set()
        lv = [v for v in LV if v > 0] if p == 0.0 else LV

        def run(o):
            C = apply(mk(p), problem, X, n_mat, ScriptRNG(o, levels=lv))
            ctx.trans()
            bad = lambda t: ctx.viol("mask:%s" % name, t, parents=X, offspring=C, prob=p, choices=o.choices[:40])
            for k in range(n_mat):
                a, b = X[2 * k], X[2 * k + 1]
                if len(C) == 1 and p == 0.0:
                    if not (np.array_equal(C[0, k], a) or np.array_equal(C[0, k], b)):
                        bad("without crossover the child is no copy of a parent")
                    continue
                M = C[0, k] == b
                ctx.outcome(name, n_var, M.tobytes())
                if not np.all(M | (C[0, k] == a)) or (len(C) == 2 and not np.array_equal(C[1, k], np.where(M, a, b))):
                    return bad("the children do not share out the genes of their own parents")
                if p == 0.0:
                    if M.any():
                        return bad("crossover was applied although its probability is zero")
                    continue
                seen.add(M.tobytes())
                n_pts = {"spx": 1, "2px": 2, "3px": 3}.get(name)
                if n_pts is not None and len(cuts(M)) != min(n_pts, n_var - 1):
                    return bad("%d instead of %d crossover points" % (len(cuts(M)), min(n_pts, n_var - 1)))
                if name.startswith("expx"):
                    c = len(cuts(M)) + (M[0] != M[-1])
                    if c > 2:
                        return bad("the exchanged genes are not one (circular) block")
                if name == "bx-never" and len(C) == 2 and (~M).sum() != 1 and M.sum() != 1:
                    return bad("with probability zero exactly one gene is exchanged")
                if name in ("bx-always", "expx-always") and not (M.all() or not M.any()):
                    return bad("with probability one all genes are exchanged")
        go(ctx, run, 99 if n_var * n_mat <= 4 and name not in ("expx",) and n_mat == 1 else dev + 1, name, 8000)
        # every exchange pattern the definition allows is reachable (all sequences of answers explored)
        if p == 1.0 and n_mat == 1 and n_var <= 4:
            if name == "ux" and len(seen) != 2 ** n_var:
                ctx.viol("reach:%s" % name, "only %d of %d exchange patterns are possible" % (len(seen), 2 ** n_var), n_var=n_var)
            if name == "spx" and len(seen) != n_var - 1:
                ctx.viol("reach:%s" % name, "only %d of %d crossover points are possible" % (len(seen), n_var - 1), n_var=n_var)


# ------------------------------------------------------------------------------------------------ permutations

def ox_ref(r, d, s, e, shift):
    don = list(d[s:e + 1])
    rest = [r[(s + k) % len(r)] if shift else r[k] for k in range(len(r))]
    rest = [v for v in rest if v not in don]
    return tuple(rest[:s] + don + rest[s:])


def u_ox(ctx, n, shift, part, parts):
    from pymoo.operators.crossover.ox import OrderCrossover
    problem = prob(n, [0] * n, [n - 1] * n, int)
    perms = list(itertools.permutations(range(n)))
    pairs = [(a, b) for a in perms[:: max(1, len(perms) // 8)] for b in perms]
    for a, b in pairs[part::parts]:
        exp = {(ox_ref(a, b, s, e, shift), ox_ref(b, a, s, e, shift)) for s in range(n) for e in range(s + 1, n)}
        got = set()

        def run(o):
            C = apply(OrderCrossover(shift=shift, prob=1.0), problem, np.array([a, b]), 1, ScriptRNG(o, levels=LV))
            ctx.trans()
            c = (tuple(int(v) for v in C[0, 0]), tuple(int(v) for v in C[1, 0]))
            got.add(c)
            if c not in exp:
                ctx.viol("ox", "no segment of the parents gives these children by order crossover", parents=(a, b), children=c, shift=shift)
        go(ctx, run, 99, "ox")
        ctx.outcome(n, shift, len(got))
        if got != exp and n <= 6:
            ctx.viol("ox:reach", "some segments are never chosen", parents=(a, b), missing=sorted(exp - got), shift=shift)


def erx_ok(a, b, c):
    n = len(a)
    H = {v: set() for v in a}
    for p in (a, b):
        for k in range(n):
            H[p[k]] |= {p[k - 1], p[(k + 1) % n]}
    for v in H:
        H[v].discard(v)
    left = set(a)
    for i, v in enumerate(c):
        if v not in left:
            return False
        left.discard(v)
        for w in H:
            H[w].discard(v)
        if i + 1 < n:
            nb = H[v]
            w = c[i + 1]
            if nb:
                m = min(len(H[u]) for u in nb)
                if w not in nb or len(H[w]) != m:
                    return False
    return True


def u_erx(ctx, n, part, parts, dev, step=1):
    from pymoo.operators.crossover.erx import ERX
    problem = prob(n, [0] * n, [n - 1] * n, int)
    perms = list(itertools.permutations(range(n)))
    pairs = [(perms[0], b) for b in perms[::step]] + [(perms[-1], b) for b in perms[::7 * step]]
    for a, b in pairs[part::parts]:
        first = set()

        def run(o):
            C = apply(ERX(prob=1.0), problem, np.array([a, b]), 1, ScriptRNG(o, levels=LV))
            ctx.trans()
            c = tuple(int(v) for v in C[0, 0])
            first.add(c)
            if not erx_ok(a, b, c):
                ctx.viol("erx", "the child does not follow the neighbor lists of its parents", parents=(a, b), child=c)
        go(ctx, run, dev, "erx")
        ctx.outcome(n, len(first))
        if dev == 99 and n <= 4 and first != {c for c in perms if erx_ok(a, b, c)}:
            ctx.viol("erx:reach", "some children that follow the neighbor lists are never created", parents=(a, b), missing=sorted({c for c in perms if erx_ok(a, b, c)} - first))


def u_inversion(ctx, n):
    from pymoo.operators.mutation.inversion import InversionMutation
    problem = prob(n, [0] * n, [n - 1] * n, int)
    perms = list(itertools.permutations(range(n)))
    for x in perms[:: max(1, len(perms) // 6)]:
        exp = {x[:s] + x[s:e + 1][::-1] + x[e + 1:] for s in range(n) for e in range(s + 1, n)}
        for p in (1.0, 0.0):
            got = set()

            def run(o):
                Y = mutate(InversionMutation(prob=p), problem, np.array([x, x]), ScriptRNG(o, levels=LV))
                ctx.trans()
                for y in Y:
                    y = tuple(int(v) for v in y)
                    got.add(y)
                    if y not in (exp if p else {x}):
                        ctx.viol("inversion", "the mutation is not the reversal of one segment" if p else "mutated although the probability is zero", before=x, after=y)
            go(ctx, run, 3, "inversion", 8000)
            ctx.outcome(n, p, len(got))


# ------------------------------------------------------------------------------------------------ mutations

def pm_ref(x, xl, xu, eta, u):
    d1, d2 = (x - xl) / (xu - xl), (xu - x) / (xu - xl)
    if u <= 0.5:
        q = (2 * u + (1 - 2 * u) * (1 - d1) ** (eta + 1)) ** (1 / (eta + 1)) - 1
    else:
        q = 1 - (2 * (1 - u) + 2 * (u - 0.5) * (1 - d2) ** (eta + 1)) ** (1 / (eta + 1))
    return min(max(x + q * (xu - xl), xl), xu)


PM_SET = {"default": dict(), "all": dict(prob=1.0, prob_var=1.0, eta=3.0), "never": dict(prob=0.0, prob_var=1.0), "novar": dict(prob=1.0, prob_var=0.0), "once": dict(prob=1.0, prob_var=0.0, at_least_once=True),
          "most": dict(prob=1.0, prob_var=0.75, eta=30)}


def u_pm(ctx, setting, dev):
    from pymoo.operators.mutation.pm import PM
    kw = PM_SET[setting]
    eta = kw.get("eta", 20)
    lv = [v for v in LV if v > 0]           # answers that always change something
    xl, xu = np.array([0.0, -5.0, 2.0]), np.array([1.0, 10.0, 2.0])
    for n_var in (1, 2, 3):
        problem = prob(n_var, xl[:n_var], xu[:n_var])
        for rows in ([[0.5, 1.0, 2.0]], [[0.25, -5.0, 2.0]], [[0.75, 10.0, 2.0], [0.5, 4.0, 2.0]]):
            X = np.array(rows)[:, :n_var]

            def run(o):
                Y = mutate(PM(**kw), problem, X, ScriptRNG(o, levels=lv))
                ctx.trans()
                ctx.outcome(setting, Y.tobytes())
                for x, y in zip(X, Y):
                    ch = 0
                    bad = lambda t: ctx.viol("pm:%s" % setting, t, before=x, after=y, choices=o.choices[:40])
                    for j in range(n_var):
                        if y[j] == x[j]:
                            continue
                        ch += 1
                        if xl[j] == xu[j]:
                            return bad("a fixed variable was mutated")
                        if not any(np.isclose(y[j], pm_ref(x[j], xl[j], xu[j], eta, u), rtol=1e-9, atol=1e-12) for u in lv):
                            return bad("variable %d is not a polynomial mutation of %g for any random number" % (j, x[j]))
                    free = int(np.sum(xl[:n_var] < xu[:n_var]))
                    inner = int(np.sum((xl[:n_var] < x) & (x < xu[:n_var])))
                    if setting in ("never", "novar") and ch:
                        return bad("mutated although the probability is zero")
                    if setting == "all" and ch < inner:
                        return bad("%d of %d variables mutated although the probability is one" % (ch, free))
                    if setting == "once" and (ch > 1 or (ch == 0 and inner == n_var)):
                        return bad("%d variables mutated instead of exactly one" % ch)
            go(ctx, run, dev + (2 if n_var == 1 and len(X) == 1 else 0), "pm " + setting, 8000)


def u_gauss(ctx, dev):
    from pymoo.operators.mutation.gauss import GaussianMutation
    NORM = [1.0, -1.0, 0.5, 6.0, -6.0]
    xl, xu = np.array([0.0, -5.0]), np.array([1.0, 10.0])
    problem = prob(2, xl, xu)
    for pv, p in ((1.0, 1.0), (0.0, 1.0), (1.0, 0.0)):
        for rows in ([[0.5, 1.0]], [[0.25, 9.0], [0.75, 2.0]]):
            X = np.array(rows)
            lv = [v for v in LV if v > 0]

            def run(o):
                Y = mutate(GaussianMutation(sigma=0.125, prob_var=pv, prob=p), problem, X, ScriptRNG(o, levels=lv, normals=NORM))
                ctx.trans()
                ctx.outcome(Y.tobytes())
                for x, y in zip(X, Y):
                    for j in range(2):
                        if not pv or not p:
                            ok = y[j] == x[j]
                        else:
                            ok = False
                            for z in NORM:
                                v = x[j] + z * 0.125 * (xu[j] - xl[j])
                                b = xl[j] if v < xl[j] else xu[j] if v > xu[j] else None
                                ok |= np.isclose(y[j], v, rtol=1e-10, atol=1e-12) if b is None else any(np.isclose(y[j], b + u * (x[j] - b), rtol=1e-10, atol=1e-12) for u in lv)
                        if not ok:
                            return ctx.viol("gauss", "variable %d: %g is not a gaussian mutation of %g (repaired towards it)" % (j, y[j], x[j]), prob_var=pv, prob=p, choices=o.choices[:40])
            go(ctx, run, dev + 1, "gauss")


def u_bitflip(ctx):
    from pymoo.operators.mutation.bitflip import BitflipMutation
    for n in (1, 2, 3):
        problem = prob(n, [0] * n, [1] * n, bool)
        for x in itertools.product((False, True), repeat=n):
            for pv, p in ((0.5, 1.0), (1.0, 1.0), (0.0, 1.0), (1.0, 0.0)):
                got = set()
                lv = [0.25, 0.75, ONE]

                def run(o):
                    y = mutate(BitflipMutation(prob=p, prob_var=pv), problem, np.array([x]), ScriptRNG(o, levels=lv))[0]
                    ctx.trans()
                    got.add(tuple(bool(v) for v in y))
                go(ctx, run, 99, "bitflip")
                ctx.outcome(x, pv, p, sorted(got))
                exp = {x} if not pv or not p else ({tuple(not v for v in x)} if pv == 1.0 else set(itertools.product((False, True), repeat=n)))
                if got != exp:
                    ctx.viol("bitflip", "possible results of bit flips of %s with probability %g/%g are %s" % (x, pv, p, sorted(got)), expected=sorted(exp))


# ------------------------------------------------------------------------------------------------ sampling and repair

def u_sampling(ctx):
    """Every value of a discrete domain can be sampled; real samples are spread affinely over the bounds."""
    from pymoo.operators.sampling.rnd import BinaryRandomSampling, FloatRandomSampling, IntegerRandomSampling, PermutationRandomSampling
    cases = [("int", IntegerRandomSampling, [-2, 3], [1, 3], set(itertools.product(range(-2, 2), [3]))), ("int1", IntegerRandomSampling, [0, 0], [4, 1], set(itertools.product(range(5), range(2)))),
             ("bool", BinaryRandomSampling, [0, 0], [1, 1], set(itertools.product((0, 1), repeat=2))), ("perm", PermutationRandomSampling, [0] * 4, [3] * 4, set(itertools.permutations(range(4)))),
             ("real", FloatRandomSampling, [-5.0, 2.0], [10.0, 2.0], {(-5.0 + 15.0 * u, 2.0) for u in LV})]
    for name, cls, xl, xu, exp in cases:
        problem = prob(len(xl), xl, xu)
        for n in (1, 2):
            got = [set() for _ in range(n)]

            def run(o):
                Y = [tuple(float(v) for v in i.X) for i in cls().do(problem, n, random_state=ScriptRNG(o, levels=LV))]
                ctx.trans()
                for k, y in enumerate(Y):
                    got[k].add(y)
            go(ctx, run, 99, "sampling " + name, 60000)
            for g in got:
                ctx.outcome(name, sorted(g))
                e = {tuple(float(v) for v in y) for y in exp}
                if name == "real":
                    if len(g) != len(e) or not np.allclose(sorted(g), sorted(e), rtol=1e-12):
                        ctx.viol("sampling:real", "samples are not spread over the bounds", got=sorted(g), expected=sorted(e))
                elif g != e:
                    ctx.viol("sampling:%s" % name, "values that can not be sampled: %s, outside of the domain: %s" % (sorted(e - g), sorted(g - e)))


def u_repairs(ctx):
    from pymoo.operators.repair.bounce_back import bounce_back
    from pymoo.operators.repair.bounds_repair import repair_periodic, repair_random_init
    from pymoo.operators.repair.rounding import RoundingRepair
    from pymoo.core.population import Population
    xl, xu = np.array([0.0, -4.0]), np.array([1.0, 4.0])
    r = xu - xl
    for t in itertools.product([-0.75, -0.25, 0.25, 0.5, 1.25, 1.625], repeat=2):
        x = xl + np.array(t) * r
        ctx.state()
        ctx.trans(3)
        e = np.array([xl[j] + (xl[j] - x[j]) if x[j] < xl[j] else xu[j] - (x[j] - xu[j]) if x[j] > xu[j] else x[j] for j in range(2)])
        y = bounce_back(x.copy(), xl, xu)
        if not np.allclose(y, e, rtol=1e-12):
            ctx.viol("repair:bounce", "bouncing back %s gives %s instead of %s" % (x, y, e))
        e = np.array([xu[j] - (xl[j] - x[j]) if x[j] < xl[j] else xl[j] + (x[j] - xu[j]) if x[j] > xu[j] else x[j] for j in range(2)])
        y = repair_periodic(x.copy()[None, :], xl, xu)[0]
        if not np.allclose(y, e, rtol=1e-12):
            ctx.viol("repair:periodic", "periodic repair of %s gives %s instead of %s" % (x, y, e))
        base = xl + np.array([0.25, 0.625]) * r

        def run(o):
            y = repair_random_init(np.array([x, x]), np.array([base, base]), xl, xu, random_state=ScriptRNG(o, levels=LV))
            ctx.trans()
            for row in y:
                for j in range(2):
                    b = xl[j] if x[j] < xl[j] else xu[j] if x[j] > xu[j] else None
                    if not (row[j] == x[j] if b is None else any(np.isclose(row[j], b + u * (base[j] - b), rtol=1e-12) for u in LV)):
                        return ctx.viol("repair:random", "the repaired value is not between the violated bound and the base", x=x, base=base, repaired=row)
        go(ctx, run, 2, "random init")
    for v in (-1.75, -1.25, -0.75, 0.25, 0.75, 2.0, 2.25):
        y = RoundingRepair().do(prob(1, [-5.0], [5.0]), Population.new(X=np.array([[v], [v + 0.125]]))).get("X")
        ctx.trans()
        if y.tolist() != [[int(np.floor(v + 0.5))], [int(np.floor(v + 0.125 + 0.5))]]:
            ctx.viol("repair:round", "rounding %g and %g gives %s" % (v, v + 0.125, y.tolist()))
    ctx.trace()


def units(tier):
    T = tier == "thorough"
    d = 3 if T else 2
    U = [("u_sampling", {}), ("u_repairs", {}), ("u_bitflip", {}), ("u_gauss", dict(dev=d)), ("u_pcx", dict(dev=d - 1))]
    U += [("u_functions", dict(dev=d))] + [("u_lhs", dict(n=n, dev=d)) for n in (1, 2, 3)]
    U += [("u_donor", dict(dither=a, jitter=b, dev=d)) for a in (None, "vector", "scalar") for b in (False, True)]
    U += [("u_sbx", dict(setting=s, dev=d)) for s in SBX_SET]
    U += [("u_dex", dict(setting=s, dev=d)) for s in DE_SET]
    U += [("u_dem", dict(repair=s, dev=d)) for s in ("bounce-back", "midway", "to-bounds", "rand-init")]
    U += [("u_mask", dict(name=s, dev=d)) for s in ("spx", "2px", "3px", "ux", "bx", "expx", "bx-never", "bx-always", "expx-always", "bx-1")]
    for n in (2, 3, 4, 5) + ((6,) if T else ()):
        for s in (False, True):
            parts = 4 if n >= 5 else 1
            U += [("u_ox", dict(n=n, shift=s, part=i, parts=parts)) for i in range(parts)]
        parts = 4 if n >= 5 else 1
        U += [("u_erx", dict(n=n, part=i, parts=parts, dev=99 if n <= 5 else 3)) for i in range(parts)]
        U.append(("u_inversion", dict(n=n)))
    U += [("u_erx", dict(n=6, part=i, parts=4, dev=99, step=31)) for i in range(4)]
    U += [("u_pm", dict(setting=s, dev=d)) for s in PM_SET]
    return U
