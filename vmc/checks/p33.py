"""P33: the selection steps of the multi-objective algorithms on every small population."""

import itertools

import numpy as np

from vmc import refs, zoo
from vmc.rng import ScriptRNG, explore

PROPERTY = "P33"
RULE = ("an execution is one selection step (one call of a survival, or one ask/tell of an algorithm) on one population; the oracle "
        "computes every outcome the published rule allows (all resolutions of ties); outcomes are distinct (algorithm, survivors) results")
BOUNDS = {
    "quick": "survivals (SMS-EMOA, SPEA2, NSGA-III, RVEA): all multisets of 4 and 5 points over {0,1,3}^2 and of 3 and 4 over a 3-objective set of 10 points, every survivor count, "
             "every single deviation of the generator for randomised ones, two consecutive generations for stateful ones; steps of whole algorithms: all assignments of the values of a grid to the "
             "members and the offspring (MOEA/D with 3 subproblems, 4 values, 5 offspring values and 2 steps, parallel MOEA/D with 3 values, 3 decompositions, GDE3 with 2 free pairs over a grid of 9 "
             "and 6 constrained kinds, SMS-EMOA and SPEA2 with 3+2 members over 9 values)",
    "thorough": "as quick with one more point in each class, wider grids and 3 steps for MOEA/D, and two deviations of the generator",
}
TOL = 1e-9


def kindset(F, idx):
    return tuple(sorted(tuple(float(v) for v in F[i]) for i in idx))


# ---- problems and populations -----------------------------------------------------------------------

def make_pop(F, cv=None):
    from pymoo.core.population import Population
    F = np.asarray(F, float)
    n = len(F)
    kw = dict(X=np.column_stack([np.arange(n) / 10.0 + 0.05, np.full(n, 0.5)]), F=F)
    if cv is not None:
        kw["G"] = np.asarray(cv, float).reshape(n, 1)
    return Population.new(**kw)


_P = {}


def problem(m):
    if m not in _P:
        _P[m] = zoo.make_problem(2, m)
    return _P[m]


# ---- reference rules --------------------------------------------------------------------------------

def hv(pts, ref):
    """Volume dominated by the points up to the reference point (cells of the coordinate grid)."""
    pts = [p for p in pts if all(a < r for a, r in zip(p, ref))]
    if not pts:
        return 0.0
    m = len(ref)
    ax = [sorted({p[j] for p in pts} | {ref[j]}) for j in range(m)]
    v = 0.0
    for cell in itertools.product(*[range(len(a) - 1) for a in ax]):
        lo = [ax[j][c] for j, c in enumerate(cell)]
        if any(all(p[j] <= lo[j] for j in range(m)) for p in pts):
            w = 1.0
            for j, c in enumerate(cell):
                w *= ax[j][c + 1] - ax[j][c]
            v += w
    return v


_HV = {}


def hvc(pts, ref):
    k = (pts, ref)
    if k not in _HV:
        if len(_HV) > 200000:
            _HV.clear()
        _HV[k] = hv(pts, ref)
    return _HV[k]


def split(F, n):
    """Members of complete fronts and of the front that has to be split (None if none)."""
    keep = []
    for fr in refs.fronts([tuple(f) for f in F]):
        if len(keep) + len(fr) <= n:
            keep += list(fr)
            if len(keep) == n:
                return keep, None
        else:
            return keep, list(fr)
    return keep, None


def sms_outcomes(F, n, ideal, nadir, eps=10.0):
    keep, last = split(F, n)
    if last is None:
        return {kindset(F, keep)}
    m = len(F[0])
    den = [nadir[j] - ideal[j] if nadir[j] != ideal[j] else 1.0 for j in range(m)]
    N = {i: tuple((F[i][j] - ideal[j]) / den[j] for j in range(m)) for i in last}
    ref = (1.0 + eps,) * m
    level = {tuple(last)}
    while len(next(iter(level))) + len(keep) > n:
        nxt = set()
        for S in level:
            tot = hvc(tuple(sorted(N[i] for i in S)), ref)
            con = [tot - hvc(tuple(sorted(N[j] for j in S if j != i)), ref) for i in S]
            lo = min(con)
            for i, c in zip(S, con):
                if c <= lo + 1e-7:
                    nxt.add(tuple(j for j in S if j != i))
        level = nxt
    return {kindset(F, keep + list(S)) for S in level}


def spea2_outcomes(F, n, scaled, ks):
    N = len(F)
    dom = [[refs.dominates(F[i], F[j]) for j in range(N)] for i in range(N)]
    S = [sum(r) for r in dom]
    R = [sum(S[j] for j in range(N) if dom[j][i]) for i in range(N)]
    D = [[float(np.sqrt(sum((a - b) ** 2 for a, b in zip(scaled[i], scaled[j])))) for j in range(N)] for i in range(N)]
    nds = [i for i in range(N) if not any(dom[j][i] for j in range(N))]
    out = set()
    if len(nds) <= n:
        rem = [i for i in range(N) if i not in nds]
        need = n - len(nds)
        for k in ks:
            fit = {}
            for i in rem:
                d = sorted(D[i][j] for j in range(N) if j != i)
                sig = d[k] if k < len(d) else float("inf")
                fit[i] = R[i] + 1.0 / (sig + 2.0)
            for c in itertools.combinations(rem, need):
                worst = max([fit[i] for i in c], default=-1)
                rest = [fit[i] for i in rem if i not in c]
                if not rest or worst <= min(rest) + TOL:
                    out.add(kindset(F, nds + list(c)))
        return out
    level = {tuple(nds)}
    while len(next(iter(level))) > n:
        nxt = set()
        for T in level:
            vec = {i: sorted(D[i][j] for j in T if j != i) for i in T}

            def less(a, b):
                for x, y in zip(a, b):
                    if abs(x - y) > TOL:
                        return x < y
                return False
            for i in T:
                if not any(less(vec[j], vec[i]) for j in T if j != i):
                    nxt.add(tuple(j for j in T if j != i))
        level = nxt
    return {kindset(F, T) for T in level}


def perp(p, w):
    p, w = np.asarray(p, float), np.asarray(w, float)
    return float(np.linalg.norm(p - w * (p @ w) / (w @ w)))


def niching_outcomes(F, n, keep, last, niche, dist, n_dirs):
    """All sets of members of the split front that niche preservation can select."""
    cnt0 = [0] * n_dirs
    for i in keep:
        cnt0[niche[i]] += 1
    level, need = {frozenset()}, n - len(keep)
    for _ in range(need):
        nxt = set()
        for S in level:
            cnt = list(cnt0)
            for i in S:
                cnt[niche[i]] += 1
            rem = [i for i in last if i not in S]
            lo = min(cnt[niche[i]] for i in rem)
            for k in {niche[i] for i in rem if cnt[niche[i]] == lo}:
                mem = [i for i in rem if niche[i] == k]
                if lo == 0:
                    d = min(dist[i] for i in mem)
                    mem = [i for i in mem if dist[i] <= d + TOL]
                for i in mem:
                    nxt.add(S | {i})
        level = nxt
    return level


# ---- survivals --------------------------------------------------------------------------------------

def points(m):
    if m == 2:
        return list(itertools.product((0.0, 1.0, 3.0), repeat=2))
    return [(0., 0., 3.), (0., 3., 0.), (3., 0., 0.), (1., 1., 1.), (0., 1., 2.), (2., 1., 0.), (1., 0., 2.), (1., 2., 0.), (2., 2., 2.), (0., 1., 3.)]


def judge(ctx, name, F, n, s, allowed):
    got = tuple(sorted(tuple(map(float, f)) for f in s.get("F")))
    ctx.outcome(name, got, n)
    if got not in allowed:
        ctx.viol("%s:survivors" % name, "survivors %s of %s for n=%d are none of the outcomes %s the rule allows" % (
            got, [tuple(map(float, f)) for f in F], n, sorted(allowed)[:4]), F=F, n=n)


def u_sms(ctx, m, size, part, parts):
    from pymoo.algorithms.moo.sms import LeastHypervolumeContributionSurvival
    for i, ks in enumerate(itertools.combinations_with_replacement(points(m), size)):
        if i % parts != part:
            continue
        ctx.state()
        F = np.array(ks)
        if i % 2:
            F = F[::-1].copy()
        for n in range(1, size):
            for ideal, nadir in ((None, None), (np.zeros(m), np.array([2.0, 1.0, 4.0][:m]))):
                s = LeastHypervolumeContributionSurvival()
                r = s.do(problem(m), make_pop(F), n_survive=n, ideal=ideal, nadir=nadir)
                lo = F.min(axis=0) if ideal is None else ideal
                hi = F.max(axis=0) if nadir is None else nadir
                ctx.trans()
                judge(ctx, "SMSEMOA", F, n, r, sms_outcomes(F, n, lo, hi))
        s = LeastHypervolumeContributionSurvival(eps=0.5)
        r = s.do(problem(m), make_pop(F), n_survive=size // 2 + 1, ideal=F.min(axis=0) - 1.0, nadir=F.max(axis=0) + 1.0)
        ctx.trans()
        judge(ctx, "SMSEMOA-eps", F, size // 2 + 1, r, sms_outcomes(F, size // 2 + 1, F.min(axis=0) - 1.0, F.max(axis=0) + 1.0, eps=0.5))
    ctx.trace()


def u_spea2(ctx, m, size, normalize, part, parts):
    from pymoo.algorithms.moo.spea2 import SPEA2Survival
    base = int(np.sqrt(size))
    ks_ = sorted({min(base, size - 1), max(0, base - 1)})
    for i, ks in enumerate(itertools.combinations_with_replacement(points(m), size)):
        if i % parts != part:
            continue
        ctx.state()
        F = np.array(ks)
        if i % 2:
            F = F[::-1].copy()
        if m == 2 and i % 3 == 0:
            F = F * [1.0, 10.0]
        for n in range(1, size):
            s = SPEA2Survival(normalize=normalize)
            r = s.do(problem(m), make_pop(F), n_survive=n)
            sc = F
            if normalize:
                lo, hi = s.norm.ideal_point, s.norm.nadir_point
                sc = (F - lo) / np.where(hi - lo == 0, 1.0, hi - lo)
            ctx.trans()
            judge(ctx, "SPEA2", F, n, r, spea2_outcomes([tuple(f) for f in F], n, sc, ks_))
    ctx.trace()


def check_norm(ctx, norm, hist, F, nds, old):
    """Ideal, extreme points and nadir of the hyperplane normalization after one more update."""
    m = F.shape[1]
    ideal = np.min(np.vstack(hist), axis=0)
    worst = np.max(np.vstack(hist), axis=0)
    bad = lambda k, t: ctx.viol("norm:" + k, t, history=hist, nds=nds)
    if not np.array_equal(norm.ideal_point, ideal):
        return bad("ideal", "ideal point %s, smallest values seen %s" % (norm.ideal_point, ideal))
    cand = F[nds] if old is None else np.vstack([old, F[nds]])
    ex = np.asarray(norm.extreme_points)
    if ex.shape != (m, m):
        return bad("extreme", "extreme points %s" % ex)

    def asf(p, j):
        d = p - ideal
        d = np.where(d < 1e-3, 0.0, d)
        w = np.full(m, 1e6)
        w[j] = 1.0
        return float(np.max(d * w))
    for j in range(m):
        if not any(np.array_equal(ex[j], c) for c in cand):
            return bad("extreme", "extreme point %s is no candidate" % ex[j])
        if asf(ex[j], j) > min(asf(c, j) for c in cand) + TOL:
            return bad("extreme", "extreme point %s does not minimise the achievement function of axis %d" % (ex[j], j))
    M = ex - ideal
    allowed = []
    if abs(np.linalg.det(M)) > 1e-9:
        with np.errstate(all="ignore"):
            ic = 1.0 / np.linalg.solve(M, np.ones(m))
        if np.all(ic > 1e-6):
            allowed.append(np.minimum(ideal + ic, worst))
        else:
            allowed.append(F[nds].max(axis=0))
    else:
        allowed.append(F[nds].max(axis=0))
    fin = []
    for a in allowed:
        a = a.copy()
        t = a - ideal <= 1e-6
        a[t] = F.max(axis=0)[t]
        fin.append(a)
    if not any(np.allclose(norm.nadir_point, a, atol=1e-9) for a in fin):
        bad("nadir", "nadir point %s instead of %s" % (norm.nadir_point, fin[0]))


def nsga3_step(ctx, surv, F, n, dirs, rng, label):
    pop = make_pop(F)
    inds = {id(x): i for i, x in enumerate(pop)}
    m = F.shape[1]
    r = surv.do(problem(m), pop, n_survive=n, random_state=rng)
    ctx.trans()
    lo, hi = surv.norm.ideal_point, surv.norm.nadir_point
    den = np.where(hi - lo == 0, 1e-12, hi - lo)
    N = (F - lo) / den
    D = [[perp(p, w) for w in dirs] for p in N]
    keep, last = split(F, n)
    ranked = keep + (last or [])
    niche, dist = {}, {}
    for i in ranked:
        k = pop[i].get("niche")
        tol = TOL * (1 + max(D[i]))
        if k is None or D[i][int(k)] > min(D[i]) + tol:
            return ctx.viol("%s:niche" % label, "%s is associated with direction %s, its distances are %s" % (F[i], k, D[i]), F=F, n=n)
        niche[i], dist[i] = int(k), D[i][int(k)]
        if abs(float(pop[i].get("dist_to_niche")) - dist[i]) > tol:
            return ctx.viol("%s:dist" % label, "distance %s instead of %s" % (pop[i].get("dist_to_niche"), dist[i]), F=F, n=n)
    got = frozenset(inds[id(x)] for x in r)
    ctx.outcome(label, kindset(F, got), n)
    if last is None:
        ok = {frozenset(keep)}
    else:
        ok = {frozenset(keep) | S for S in niching_outcomes(F, n, keep, last, niche, dist, len(dirs))}
    if got not in ok:
        return ctx.viol("%s:survivors" % label, "survivors %s of %s for n=%d are none of the %d outcomes of niche preservation, e.g. %s; niches %s distances %s" % (
            sorted(got), F.tolist(), n, len(ok), sorted(next(iter(ok))), niche, dist), F=F, n=n)
    # the closest non-dominated solution of every niche is reported
    first = set(refs.fronts([tuple(f) for f in F])[0])
    opt = {inds[id(x)] for x in surv.opt}
    if not opt or not opt <= first:
        ctx.viol("%s:opt" % label, "reported solutions %s, non-dominated %s" % (sorted(opt), sorted(first)), F=F, n=n)


def u_nsga3(ctx, m, size, part, parts, dev=0, two=False):
    from pymoo.algorithms.moo.nsga3 import ReferenceDirectionSurvival
    dirs = zoo.ref_dirs(m) if m == 3 else np.array([[1.0, 0.0], [0.5, 0.5], [0.0, 1.0]])
    for i, ks in enumerate(itertools.combinations_with_replacement(points(m), size)):
        if i % parts != part:
            continue
        ctx.state()
        F = np.array(ks)
        if i % 2:
            F = F[::-1].copy()

        def run(rng, n):
            surv = ReferenceDirectionSurvival(dirs)
            nsga3_step(ctx, surv, F, n, dirs, rng, "NSGA3")
            check_norm(ctx, surv.norm, [F], F, refs.fronts([tuple(f) for f in F])[0], None)
            if two:
                G = F[:, ::-1] * 2.0 - 1.0
                old = surv.norm.extreme_points.copy()
                nsga3_step(ctx, surv, G, n, dirs, rng, "NSGA3-2")
                check_norm(ctx, surv.norm, [F, G], G, refs.fronts([tuple(f) for f in G])[0], old)
        for n in range(1, size):
            if dev:
                explore(lambda o: run(ScriptRNG(o), n), max_dev=dev, max_runs=3000)
            else:
                run(np.random.default_rng(i % 5), n)
    ctx.trace()


def u_rvea(ctx, m, size, part, parts):
    from pymoo.algorithms.moo.rvea import APDSurvival
    dirs = zoo.ref_dirs(m) if m == 3 else np.array([[1.0, 0.0], [0.6, 0.4], [0.2, 0.8], [0.0, 1.0]])
    V0 = dirs / np.linalg.norm(dirs, axis=1)[:, None]
    for i, ks in enumerate(itertools.combinations_with_replacement(points(m), size)):
        if i % parts != part:
            continue
        ctx.state()
        F = np.array(ks)
        if i % 2:
            F = F[::-1].copy()
        for n_gen, alpha in ((0, 2.0), (5, 2.0), (9, 1.0), (3, 0.5)):
            surv = APDSurvival(dirs, alpha=alpha)
            V, hist = V0, []
            for step in range(2):
                G = F if step == 0 else F[:, ::-1] * [1.0, 2.0, 0.5][:m] + 1.0
                hist.append(G)
                ideal = np.min(np.vstack(hist), axis=0)
                pop = make_pop(G)
                inds = {id(x): k for k, x in enumerate(pop)}
                r = surv.do(problem(m), pop, n_survive=len(dirs), n_gen=n_gen, n_max_gen=10)
                ctx.trans()
                T = G - ideal
                L = np.maximum(np.linalg.norm(T, axis=1), 1e-64)
                ang = np.arccos(np.clip((T / L[:, None]) @ V.T, -1, 1))
                cosV = np.clip(V @ V.T, -1, 1)
                gam = np.array([max(1e-64, np.arccos(max(cosV[a, b] for b in range(len(V)) if b != a))) for a in range(len(V))])
                got = [inds[id(x)] for x in r]
                niche = {}
                for k in range(len(G)):
                    v = pop[k].get("niche")
                    if v is None or ang[k, int(v)] > ang[k].min() + 1e-6:
                        ctx.viol("RVEA:niche", "%s is associated with vector %s, its angles are %s" % (G[k], v, ang[k]), F=G)
                        break
                    niche[k] = int(v)
                else:
                    M = m if m > 2 else 1
                    apd = {k: L[k] * (1 + M * (n_gen / 10) ** alpha * ang[k, niche[k]] / gam[niche[k]]) for k in niche}
                    for v in set(niche.values()):
                        mem = [k for k in niche if niche[k] == v]
                        sel = [k for k in got if niche[k] == v]
                        best = min(apd[k] for k in mem)
                        if len(sel) != 1 or apd[sel[0]] > best * (1 + 1e-6) + 1e-6:
                            ctx.viol("RVEA:apd", "vector %d: survivors %s, penalized distances %s" % (v, sel, {k: apd[k] for k in mem}), F=G, n_gen=n_gen, alpha=alpha)
                    if len(got) != len(set(niche.values())):
                        ctx.viol("RVEA:count", "%d survivors for %d populated vectors" % (len(got), len(set(niche.values()))), F=G)
                ctx.outcome("RVEA", kindset(G, got), n_gen)
                # adaptation: the vectors are scaled with the range of the survivors
                surv.adapt()
                rg = G[got].max(axis=0) - ideal
                if np.all(rg > 0):
                    V = V0 * rg
                    V = V / np.linalg.norm(V, axis=1)[:, None]
                    if not np.allclose(surv.V, V, atol=1e-12):
                        ctx.viol("RVEA:adapt", "adapted vectors %s instead of %s" % (surv.V, V), F=G)
                else:
                    break
    ctx.trace()


# ---- steps of whole algorithms ----------------------------------------------------------------------

def table_problem(m, table, n_ieq=0):
    def values(x, i, alt, n_obj, ni, ne):
        row = table[i] if i < len(table) else table[-1]
        return list(row[:n_obj]), list(row[n_obj:n_obj + ni]), []
    return zoo.make_problem(2, m, n_ieq, values=values)


def key(x):
    return (np.asarray(x.X, float).tobytes(), np.asarray(x.F, float).tobytes(), np.asarray(x.G, float).tobytes())


def advance(algo, prob):
    inf = algo.ask()
    algo.evaluator.eval(prob, inf)
    algo.tell(infills=inf)
    return inf


DEC = {
    "tch": (lambda: __import__("pymoo.decomposition.tchebicheff", fromlist=["x"]).Tchebicheff(),
            lambda f, w, z: max(wi * abs(a - b) for wi, a, b in zip(w, f, z))),
    "ws": (lambda: __import__("pymoo.decomposition.weighted_sum", fromlist=["x"]).WeightedSum(),
           lambda f, w, z: sum(wi * a for wi, a in zip(w, f))),
    "pbi": (lambda: __import__("pymoo.decomposition.pbi", fromlist=["x"]).PBI(theta=5.0),
            lambda f, w, z: pbi(f, w, z, 5.0)),
    None: (lambda: None, None),
}


def pbi(f, w, z, theta):
    f, w, z = map(lambda a: np.asarray(a, float), (f, w, z))
    u = w / np.linalg.norm(w)
    d1 = float((f - z) @ u)
    return d1 + theta * float(np.linalg.norm(f - z - d1 * u))


def u_moead(ctx, parallel, dec, m, part, parts, steps, T, wide):
    from pymoo.algorithms.moo.moead import MOEAD, ParallelMOEAD
    dirs = np.array([[0.9, 0.1], [0.6, 0.4], [0.2, 0.8]]) if m == 2 else np.array([[0.8, 0.1, 0.1], [0.1, 0.7, 0.2], [0.3, 0.1, 0.6]])
    n = len(dirs)
    # the T closest of each direction (itself included)
    near = [sorted(range(n), key=lambda j: float(np.linalg.norm(dirs[j] - dirs[i])))[:T] for i in range(n)]
    make, f = DEC[dec]
    if f is None:
        f = DEC["tch"][1] if m <= 2 else DEC["pbi"][1]
    if m == 2:
        grid = [(0.0, 2.0), (1.0, 1.0), (2.0, 0.0), (2.0, 2.0)] + ([(1.0, 2.0)] if wide else [])
        offs = [(0.0, 1.0), (1.0, 0.0), (1.0, 1.0), (2.0, 1.0), (-1.0, 2.0)] + ([(0.0, 0.0), (3.0, -1.0)] if wide else [])
    else:
        grid = [(0., 1., 2.), (2., 0., 1.), (1., 1., 1.), (2., 2., 2.)]
        offs = [(1., 2., 0.), (1., 1., 1.), (0., 0., 0.), (2., 0., 1.), (2., -1., 2.)]
    if parallel and not wide:
        grid = grid[:3]
    nsteps = n if parallel else steps
    k = 0
    for init in itertools.product(grid, repeat=n):
        k += 1
        if k % parts != part:
            continue
        for seq in itertools.product(offs, repeat=nsteps):
            ctx.state()
            table = list(init) + list(seq)
            prob = table_problem(m, table)
            cls = ParallelMOEAD if parallel else MOEAD
            algo = cls(ref_dirs=dirs.copy(), n_neighbors=T, decomposition=make())
            algo.setup(prob, termination=("n_eval", 1000), seed=k % 11)
            advance(algo, prob)
            P = [(tuple(map(float, x.F)), key(x)) for x in algo.pop]
            if [p[0] for p in P] != [tuple(map(float, r)) for r in init]:
                ctx.viol("MOEAD:init", "initial population %s instead of %s" % ([p[0] for p in P], init))
            z = [min(p[0][j] for p in P) for j in range(m)]
            used = {0: None}    # possible sets of subproblems already served in this iteration
            done = 0
            while done < nsteps:
                inf = advance(algo, prob)
                infs = [inf] if not hasattr(inf, "__len__") else list(inf)
                ctx.trans()
                got = [key(x) for x in algo.pop]
                rows = [(tuple(map(float, x.F)), key(x)) for x in infs]
                if parallel and len(rows) != n:
                    ctx.viol("%s:offsprings" % cls.__name__, "%d offsprings" % len(rows))
                    return
                # search over the subproblem each offspring was made for
                if parallel:
                    z = [min([z[j]] + [r[0][j] for r in rows]) for j in range(m)]
                states = {(0, tuple(range(-n, 0)))} if parallel else {(u, tuple(range(-n, 0))) for u in used}
                val = {i - n: P[i][0] for i in range(n)}
                for q, (fo, ko) in enumerate(rows):
                    if not parallel:
                        z = [min(a, b) for a, b in zip(z, fo)]
                    val[q] = fo
                    nxt = set()
                    for u, a in states:
                        for s in range(n):
                            if u & (1 << s):
                                continue
                            opts = [list(a)]
                            for j in near[s]:
                                old, new = f(val[a[j]], dirs[j], z), f(fo, dirs[j], z)
                                if new < old - 1e-9:
                                    for b in opts:
                                        b[j] = q
                                elif new < old + 1e-9 and val[a[j]] != fo:
                                    opts += [b[:j] + [q] + b[j + 1:] for b in opts]
                            for b in opts:
                                nxt.add((u | (1 << s), tuple(b)))
                    states = nxt
                kk = {i - n: P[i][1] for i in range(n)}
                kk.update({q: r[1] for q, r in enumerate(rows)})
                okay = {u for u, a in states if [kk[i] for i in a] == got}
                if not okay:
                    ctx.viol("%s:replace" % cls.__name__, "population %s after offspring %s on %s (ideal %s): no subproblem explains the replacements" % (
                        [tuple(map(float, x.F)) for x in algo.pop], [r[0] for r in rows], [p[0] for p in P], z),
                        init=init, seq=seq, decomposition=dec, neighbors=T)
                    return
                full = (1 << n) - 1
                used = {0 if u == full else u for u in okay}
                P = [(tuple(map(float, x.F)), key(x)) for x in algo.pop]
                ctx.outcome(cls.__name__, tuple(p[0] for p in P))
                if list(map(float, algo.ideal)) != [float(v) for v in z]:
                    ctx.viol("%s:ideal" % cls.__name__, "ideal point %s, smallest values seen %s" % (algo.ideal, z), init=init, seq=seq)
                done += len(rows)
    ctx.trace()


def u_origin(ctx, parallel, m, steps):
    """A trial made for a subproblem competes in the neighborhood of that subproblem only."""
    from pymoo.algorithms.moo.moead import MOEAD, ParallelMOEAD
    from pymoo.core.crossover import Crossover
    from pymoo.core.mutation import Mutation

    class Keep(Crossover):
        def __init__(self):
            super().__init__(1, 1, prob=1.0)

        def _do(self, problem, X, **kwargs):
            return X + 1e-3

    class None_(Mutation):
        def _do(self, problem, X, **kwargs):
            return X

    dirs = zoo.ref_dirs(m) if m == 3 else np.array([[0.9, 0.1], [0.6, 0.4], [0.4, 0.6], [0.1, 0.9]])
    n = len(dirs)
    for better in itertools.product((0, 1), repeat=steps):
        table = [(5.0,) * m] * n + [(1.0 - 0.1 * i,) * m if b else (9.0,) * m for i, b in enumerate(better)]
        for seed in range(6):
            ctx.state()
            prob = table_problem(m, table)
            cls = ParallelMOEAD if parallel else MOEAD
            algo = cls(ref_dirs=dirs.copy(), n_neighbors=1, prob_neighbor_mating=1.0, crossover=Keep(), mutation=None_(),
                       sampling=np.array([[0.1 + 0.15 * i, 0.5] for i in range(n)]))
            algo.setup(prob, termination=("n_eval", 1000), seed=seed)
            advance(algo, prob)
            done = 0
            while done < steps:
                before = list(algo.pop)
                X0 = np.array([x.X for x in before])
                inf = advance(algo, prob)
                infs = [inf] if not hasattr(inf, "__len__") else list(inf)
                ctx.trans()
                for off in infs:
                    src = [j for j in range(n) if np.max(np.abs(X0[j] + 1e-3 - off.X)) < 1e-9]
                    at = [j for j in range(n) if key(algo.pop[j]) == key(off)]
                    if len(src) != 1:
                        ctx.viol("%s:parent" % cls.__name__, "offspring %s of the population %s" % (off.X, X0))
                        return
                    j = src[0]
                    want = [j] if off.F[0] < before[j].F[0] else []
                    if at != want:
                        ctx.viol("%s:subproblem" % cls.__name__, "offspring of subproblem %d with F=%s replaces %s" % (j, off.F, at), better=better, seed=seed)
                        return
                done += len(infs)
            ctx.outcome(cls.__name__, "origin", m, better)
    ctx.trace()


def u_rvea_adapt(ctx):
    """The reference vectors are adapted once every ceil(fr * generations) generations, to the ranges of the survivors."""
    from pymoo.algorithms.moo.rvea import RVEA
    dirs = np.array([[1.0, 0.0], [0.6, 0.4], [0.2, 0.8], [0.0, 1.0]])
    V0 = dirs / np.linalg.norm(dirs, axis=1)[:, None]
    for n_gen, freq in itertools.product((4, 7, 10), (0.1, 0.2, 0.3, 0.5, None)):
        ctx.state()
        # every generation dominates the one before, with another spread
        table = [((i % 4) * (1.0 + 0.3 * ((i // 4) % 5)) - 20.0 * (i // 4), (3 - i % 4) * (1.0 + 0.2 * ((i // 4) % 7)) - 20.0 * (i // 4)) for i in range(60)]
        prob = table_problem(2, table)
        algo = RVEA(ref_dirs=dirs.copy(), adapt_freq=freq)
        algo.setup(prob, termination=("n_gen", n_gen), seed=1)
        changed = []
        g = 0
        while algo.has_next():
            V = algo.survival.V.copy()
            advance(algo, prob)
            g += 1
            ctx.trans()
            if not np.array_equal(V, algo.survival.V):
                changed.append(g)
                rg = algo.pop.get("F").max(axis=0) - algo.survival.ideal
                want = V0 * rg
                want = want / np.linalg.norm(want, axis=1)[:, None]
                if not np.allclose(want, algo.survival.V, atol=1e-9):
                    ctx.viol("RVEA:adapted", "reference vectors %s instead of %s" % (algo.survival.V, want), n_gen=n_gen, freq=freq)
        ctx.outcome("RVEA", n_gen, freq, tuple(changed))
        if freq is None:
            if changed:
                ctx.viol("RVEA:off", "the vectors change in generations %s although the adaptation is off" % changed)
            continue
        p = int(np.ceil(n_gen * freq))
        # an adaptation to unchanged ranges is not visible
        if any((b - a) % p for a, b in zip(changed, changed[1:])) or len(changed) > -(-n_gen // p) or (n_gen > p and not changed):
            ctx.viol("RVEA:period", "the vectors change in generations %s of %d, every %d were asked for" % (changed, n_gen, p), freq=freq)
        if p == 1 and len(changed) < n_gen - 3:
            ctx.viol("RVEA:period", "the vectors change in generations %s of %d only" % (changed, n_gen), freq=freq)
    ctx.trace()


def cdom(a, b):
    """Constrained domination of (F, cv)."""
    if max(a[1], 0) != max(b[1], 0):
        return max(a[1], 0) < max(b[1], 0)
    if a[1] > 0:
        return False
    return refs.dominates(a[0], b[0])


def u_gde3(ctx, size, part, parts, con):
    from pymoo.algorithms.moo.gde3 import GDE3
    grid = [(p, 0.0) for p in itertools.product((0.0, 1.0, 2.0), repeat=2)] if not con else \
        [((0.0, 1.0), 1.0), ((1.0, 0.0), 1.5), ((1.0, 1.0), 2.0), ((0.0, 0.0), 3.0), ((2.0, 2.0), 0.5)] if con == 2 else \
        [((0.0, 1.0), 0.0), ((1.0, 0.0), 0.0), ((1.0, 1.0), 0.0), ((0.0, 0.0), 1.0), ((2.0, 2.0), 1.0), ((0.0, 0.0), 2.0)]
    fill = 9.0 if con == 2 else 0.0
    k = 0
    for kinds in itertools.product(grid, repeat=4):
        k += 1
        if k % parts != part:
            continue
        ctx.state()
        table = [tuple(p) + ((c,) if con else ()) for p, c in kinds[:2] + ((tuple([5.0, 5.0]), fill),) * (size - 2) + kinds[2:] + (((5.0, 5.0), fill),) * (size - 2)]
        prob = table_problem(2, table, 1 if con else 0)
        algo = GDE3(pop_size=size, CR=0.9, F=(0.3, 0.9))
        algo.setup(prob, termination=("n_eval", 1000), seed=k % 7)
        advance(algo, prob)
        par = list(algo.pop)
        off = list(advance(algo, prob))
        ctx.trans()
        if len(off) != len(par):
            ctx.viol("GDE3:trials", "%d trials for %d members" % (len(off), len(par)))
            return
        pool = []
        val = lambda x: (tuple(map(float, x.F)), float(x.G[0]) if con else 0.0)
        for a, b in zip(par, off):
            if cdom(val(b), val(a)):
                pool.append(b)
            elif cdom(val(a), val(b)):
                pool.append(a)
            else:
                pool += [a, b]
        pk = [key(x) for x in pool]
        got = [key(x) for x in algo.pop]
        ctx.outcome("GDE3", tuple(sorted(map(str, map(val, algo.pop)))))
        if len(got) != size or any(g not in pk for g in got):
            ctx.viol("GDE3:pool", "survivors %s of parents %s and trials %s" % (list(map(val, algo.pop)), list(map(val, par)), list(map(val, off))), kinds=kinds)
            continue
        if len(pool) == size and sorted(pk) != sorted(got):
            ctx.viol("GDE3:keep", "the pool %s fits but %s survive" % (list(map(val, pool)), list(map(val, algo.pop))), kinds=kinds)
        drop = [x for x in pool if key(x) not in got]
        for d in drop:
            if any(cdom(val(d), val(s)) for s in algo.pop):
                ctx.viol("GDE3:dominated", "dropped %s is better than a survivor of %s" % (val(d), list(map(val, algo.pop))), kinds=kinds)
    ctx.trace()


def u_plus(ctx, name, part, parts):
    """Population of three, two offsprings: all assignments of values (as multisets)."""
    grid = list(itertools.product((1.0, 2.0, 4.0), repeat=2))
    k = 0
    for a in itertools.combinations_with_replacement(grid, 3):
        for b in itertools.combinations_with_replacement(grid, 2):
            k += 1
            if k % parts != part:
                continue
            ctx.state()
            prob = table_problem(2, list(a) + list(b))
            algo = factory(name)
            algo.setup(prob, termination=("n_eval", 1000), seed=k % 7)
            advance(algo, prob)
            par = list(algo.pop)
            off = list(advance(algo, prob))
            ctx.trans()
            F = np.array([x.F for x in par + off], float)
            if len(par) != 3:
                ctx.viol("%s:init" % name, "initial population of %d" % len(par))
                return
            PF = F[:3]
            if name == "SMSEMOA":
                lo, hi = PF.min(axis=0), PF.max(axis=0)
                if np.any(lo == hi):
                    continue
                ok = sms_outcomes(F, 3, lo, hi)
            elif name == "SMSEMOA-raw":
                ok = sms_outcomes(F, 3, F.min(axis=0), F.max(axis=0))
            else:
                base = int(np.sqrt(len(F)))
                ks_ = sorted({min(base, len(F) - 1), max(0, base - 1)})
                sc = F
                if name == "SPEA2":
                    nm = algo.survival.norm
                    sc = (F - nm.ideal_point) / np.where(nm.nadir_point == nm.ideal_point, 1.0, nm.nadir_point - nm.ideal_point)
                    if not np.array_equal(nm.ideal_point, F.min(axis=0)):
                        ctx.viol("SPEA2:ideal", "ideal point %s of %s" % (nm.ideal_point, F.tolist()))
                ok = spea2_outcomes([tuple(f) for f in F], 3, sc, ks_)
            judge(ctx, name + "-step", F, 3, algo.pop, ok)
    ctx.trace()


def factory(name):
    from pymoo.algorithms.moo.sms import SMSEMOA
    from pymoo.algorithms.moo.spea2 import SPEA2, SPEA2Survival
    if name == "SMSEMOA":
        return SMSEMOA(pop_size=3, n_offsprings=2)
    if name == "SMSEMOA-raw":
        return SMSEMOA(pop_size=3, n_offsprings=2, normalize=False)
    if name == "SPEA2":
        return SPEA2(pop_size=3, n_offsprings=2, survival=SPEA2Survival(normalize=True))
    return SPEA2(pop_size=3, n_offsprings=2, survival=SPEA2Survival())


def units(tier):
    T = tier == "thorough"
    x = 1 if T else 0
    U = []
    for p in range(4):
        U.append(("u_sms", dict(m=2, size=5 + x, part=p, parts=4)))
        U.append(("u_sms", dict(m=3, size=4 + x, part=p, parts=4)))
        for nz in (False, True):
            U.append(("u_spea2", dict(m=2, size=5 + x, normalize=nz, part=p, parts=4)))
            U.append(("u_spea2", dict(m=3, size=4 + x, normalize=nz, part=p, parts=4)))
        U.append(("u_nsga3", dict(m=2, size=5 + x, part=p, parts=4)))
        U.append(("u_nsga3", dict(m=2, size=4 + x, part=p, parts=4, two=True)))
        U.append(("u_nsga3", dict(m=3, size=4 + x, part=p, parts=4)))
        U.append(("u_nsga3", dict(m=3, size=3 + x, part=p, parts=4, two=True)))
        U.append(("u_nsga3", dict(m=2, size=4, part=p, parts=4, dev=2 if T else 1)))
        U.append(("u_rvea", dict(m=2, size=4 + x, part=p, parts=4)))
        U.append(("u_rvea", dict(m=3, size=3 + x, part=p, parts=4)))
    for p in range(8):
        for dec in (None, "ws", "pbi"):
            U.append(("u_moead", dict(parallel=False, dec=dec, m=2, part=p, parts=8, steps=3 if T else 2, T=2, wide=T)))
            U.append(("u_moead", dict(parallel=True, dec=dec, m=2, part=p, parts=8, steps=3, T=2, wide=T)))
        U.append(("u_moead", dict(parallel=False, dec=None, m=3, part=p, parts=8, steps=3 if T else 2, T=2, wide=T)))
        U.append(("u_moead", dict(parallel=True, dec=None, m=3, part=p, parts=8, steps=3, T=3, wide=T)))
        U.append(("u_gde3", dict(size=4, part=p, parts=8, con=False)))
        U.append(("u_gde3", dict(size=4, part=p, parts=8, con=True)))
        U.append(("u_gde3", dict(size=4, part=p, parts=8, con=2)))
        for name in ("SMSEMOA", "SMSEMOA-raw", "SPEA2", "SPEA2-raw"):
            U.append(("u_plus", dict(name=name, part=p, parts=8)))
    for m in (2, 3):
        U.append(("u_origin", dict(parallel=False, m=m, steps=7 if T else 5)))
        U.append(("u_origin", dict(parallel=True, m=m, steps=8 if m == 2 else len(zoo.ref_dirs(3)))))
    U.append(("u_rvea_adapt", {}))
    return U
