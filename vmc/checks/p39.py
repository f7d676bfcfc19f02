"""P39: one generation of the differential and swarm searches for several objectives follows its rule."""

import itertools

import numpy as np

from vmc import refs, zoo
from vmc.rng import explore
from vmc.checks.p35 import PalRNG, Wrong, run_all, step

PROPERTY = "P39"
RULE = ("an execution is one run of a few generations under one sequence of random answers; every proposed solution is explained by an exhaustive search over everything "
        "the rule may draw, memories (velocities, own bests, elites, archives) are compared with a model; outcomes are distinct (algorithm, configuration, what happened) results")
BOUNDS = {
    "quick": "all single deviations (first 60 points) from fixed streams of random answers taken from a palette x sequences of answer classes, 2 generations: NSDE (rand x 1, 2, best, current-to-best, current-to-rand, ranked x "
             "bin, exp x CR 0, 0.5, 1 x fixed, drawn and jittered F x 4 repairs), GDE3, NSDER, MOPSO-CD, CMOPSO (both initial velocities); all tournaments for a leader; populations of 4-7",
    "thorough": "as quick with pairs of deviations and 3 generations",
}
TOL = 1e-9
LEVELS = (0.125, 0.5, 0.9)


def fronts(vals):
    """Rank of each (F, cv): fronts of the feasible ones first, then by violation."""
    n = len(vals)
    rank, left, k = {}, [i for i in range(n) if vals[i][1] <= 0], 0
    while left:
        cur = [i for i in left if not any(refs.dominates(vals[j][0], vals[i][0]) for j in left)]
        for i in cur:
            rank[i] = k
        left = [i for i in left if i not in rank]
        k += 1
    for cv in sorted(set(v[1] for v in vals if v[1] > 0)):
        for i in range(n):
            if vals[i][1] == cv:
                rank[i] = k
        k += 1
    return rank


def value(x):
    return tuple(map(float, x.F)), max(float(x.CV[0]), 0.0)


def better(a, b):
    if a[1] != b[1] and (a[1] > 0 or b[1] > 0):
        return a[1] < b[1]
    return a[1] <= 0 and refs.dominates(a[0], b[0])


BASE = [(3.0, 1.0), (1.0, 3.0), (2.0, 2.0), (4.0, 2.5), (2.5, 4.0), (5.0, 5.0), (6.0, 4.5)]


def table_problem(n_var, kinds, con, n_base):
    """The initial answers, then classes: dominating, incomparable, dominated, infeasible but attractive, equal to a member."""
    def answer(i):
        if i < n_base:
            f, g = BASE[i], -1.0
            if con == 3 or (con == 2 and i != 2) or (con == 1 and i in (1, 3)):
                g = 1.0 + i
            return f, g
        c, k = kinds[(i - n_base) % len(kinds)], i - n_base
        e = 0.01 * k
        return [((0.5 - e, 0.5 - e), -1.0), ((0.9 + e, 6.0 - e), -1.0), ((9.0 + e, 9.0 + e), -1.0), ((0.1 - e, 0.1 - e), 0.5 + e), (BASE[2], -1.0)][c]

    def values(x, i, alt, n_obj, ni, ne):
        f, g = answer(i)
        return list(f), [g] if ni else [], []
    return zoo.make_problem(n_var, 2, 1 if con else 0, xl=0.0, xu=1.0, values=values)


PTS = {"mid": np.array([[0.42, 0.55], [0.58, 0.47], [0.5, 0.41], [0.45, 0.6], [0.53, 0.52], [0.61, 0.57], [0.4, 0.5]]),
       "wide": np.array([[0.0, 1.0], [1.0, 0.1], [0.5, 0.0], [0.05, 0.9], [0.9, 0.95], [0.97, 0.3], [0.2, 0.6]])}


# ---------------------------------------------------------------- differential trials

def choices(sel, t, n, nd, rank):
    """(base, [(plus, minus), ...]) index tuples the selection may use for target t."""
    oth = [i for i in range(n) if i != t]
    bests = [i for i in range(n) if rank[i] == 0]
    if sel == "rand":
        for r in itertools.permutations(oth, 2 * nd + 1):
            yield r[0], [(r[1 + 2 * i], r[2 + 2 * i]) for i in range(nd)]
    elif sel == "ranked":
        for r in itertools.permutations(oth, 2 * nd + 1):
            k = [rank[i] for i in r]
            # better minus worse, the base is the best of all
            if all(k[i] <= k[i + 1] for i in range(len(r) - 1)):
                yield r[0], [(r[1 + i], r[len(r) - 1 - i]) for i in range(nd)]
    elif sel == "best":
        for b in bests:
            for r in itertools.permutations([i for i in oth if i != b], 2 * nd):
                yield b, [(r[2 * i], r[2 * i + 1]) for i in range(nd)]
    elif sel == "current-to-best":
        for b in bests:
            for r in itertools.permutations([i for i in oth if i != b], 2 * nd):
                yield t, [(b, t)] + [(r[2 * i], r[2 * i + 1]) for i in range(nd)]
    else:
        for r in itertools.permutations(oth, 1 + 2 * nd):
            yield t, [(r[0], t)] + [(r[1 + 2 * i], r[2 + 2 * i]) for i in range(nd)]


def coordinate(y, v, b, repair, xl=0.0, xu=1.0):
    if xl - TOL <= v <= xu + TOL:
        return abs(y - v) <= TOL
    lim = xl if v < xl else xu
    if repair == "to-bounds":
        return abs(y - lim) <= TOL
    if repair == "midway":
        return abs(y - (b + lim) / 2) <= TOL
    if repair == "rand-init":
        return xl - TOL <= y <= xu + TOL
    return min(b, lim) - TOL <= y <= max(b, lim) + TOL


def masks(n, cx, CR):
    for m in itertools.product((0, 1), repeat=n):
        if not any(m) or (CR == 1.0 and not all(m)) or (CR == 0.0 and sum(m) != 1):
            continue
        if cx == "exp" and sum(1 for j in range(n) if m[j] and not m[j - 1]) > 1:
            continue
        yield m


def explained(X, t, y, sel, nd, cx, CR, F, gamma, repair, rank):
    Fs = [F[0] + u * (F[1] - F[0]) for u in LEVELS] if isinstance(F, tuple) else [F]
    jit = [1 + gamma * (u - 0.5) for u in LEVELS] if gamma else [1.0]
    n = X.shape[1]
    same = [abs(y[j] - X[t][j]) <= TOL for j in range(n)]
    for b, pairs in choices(sel, t, len(X), nd, rank):
        for fs in itertools.product(Fs, repeat=len(pairs)):
            isd = []
            for j in range(n):
                isd.append(any(coordinate(y[j], X[b][j] + sum(f * g * (X[p][j] - X[q][j]) for f, g, (p, q) in zip(fs, gs, pairs)), X[b][j], repair)
                               for gs in itertools.product(jit, repeat=len(pairs))))
            if any(all(isd[j] if m[j] else same[j] for j in range(n)) for m in masks(n, cx, CR)):
                return True
    return False


def u_trials(ctx, cls, variant, pts, pop, F, gamma, CR, repair, con, kinds, dev, gens=2):
    from pymoo.algorithms.moo.gde3 import GDE3
    from pymoo.algorithms.moo.nsde import NSDE
    from pymoo.algorithms.moo.nsder import NSDER
    _, sel, nd, cx = variant.split("/")
    nd = int(nd)
    X0 = PTS[pts][:pop]
    conf = dict(algorithm=cls, variant=variant, F=F, gamma=gamma, CR=CR, repair=repair, con=con, kinds=kinds, pop=pop)
    bases, moved = set(), set()

    def body(o, seed):
        prob = table_problem(2, kinds, con, pop)
        kw = dict(pop_size=pop, sampling=X0.copy(), variant=variant, F=F, CR=CR, gamma=gamma, de_repair=repair)
        if cls == "NSDER":
            kw["ref_dirs"] = np.array([[1.0, 0.0], [0.5, 0.5], [0.0, 1.0]])
        algo = {"NSDE": NSDE, "GDE3": GDE3, "NSDER": NSDER}[cls](**kw)
        algo.setup(prob, termination=("n_gen", 100), seed=seed)
        algo.random_state = PalRNG(o, seed, levels=LEVELS)
        step(algo, prob)
        for g in range(gens):
            P = list(algo.pop)
            X = np.array([p.X for p in P], float)
            rank = fronts([value(p) for p in P])
            off = algo.ask()
            ctx.trans()
            if len(off) != pop:
                raise Wrong("trials", "%d trials for %d members" % (len(off), pop))
            for t, tr in enumerate(off):
                y = np.array(tr.X, float)
                if not explained(X, t, y, sel, nd, cx, CR, F, gamma, repair, rank):
                    raise Wrong("trial:%s" % sel, "%s is no trial of target %s among %s" % (y, X[t], X.tolist()))
                moved.add(tuple(abs(y - X[t]) > TOL))
            algo.evaluator.eval(prob, off)
            algo.tell(infills=off)
            pool = P + list(off)
            if cls == "GDE3":
                pool = [x for a, b in zip(P, off) for x, y in ((a, b), (b, a)) if not better(value(y), value(x))]
            if any(all(a is not b for b in pool) for a in algo.pop) or len(set(map(id, algo.pop))) != pop:
                raise Wrong("survivors", "%d survive of which %s were not to compete" % (len(algo.pop), [value(a) for a in algo.pop if all(a is not b for b in pool)]))
            rk = fronts([value(x) for x in pool])
            if sorted(rk[i] for i, x in enumerate(pool) if any(x is a for a in algo.pop)) != sorted(rk.values())[:pop]:
                raise Wrong("survivors", "the survivors are not of the best fronts")
        ctx.outcome(cls, variant, CR, kinds, tuple(sorted(map(value, algo.pop))))
    run_all(ctx, cls, conf, body, dev, (1, 2))
    need = {(True, False), (False, True)} if CR == 0.0 else {(True, True)} if CR == 1.0 else {(True, False), (False, True), (True, True)}
    if not need <= moved:
        ctx.viol("%s:masks" % cls, "the trials never differ from their target exactly in %s" % sorted(need - moved), **conf)


# ---------------------------------------------------------------- swarms

def explained_move(x, v, y, vy, attractors, coef, vmax, w=1.0, seen=None, tol=TOL):
    """attractors: admissible attraction points per term; coef: multiples the random factors may take (the first one scales the velocity if w is None).

    seen collects whether moves need different factors for the terms, and for the variables."""
    n = len(x)
    found, same_terms, same_vars = False, False, False
    for pts in itertools.product(*attractors):
        hits = []
        for j in range(n):
            h = set()
            for ks in itertools.product(*[range(len(c)) for c in coef]):
                us = [c[k] for c, k in zip(coef, ks)]
                wv, at = (us[0] * v[j], us[1:]) if w is None else (w * v[j], us)
                nv = wv + sum(u * (p[j] - x[j]) for u, p in zip(at, pts))
                if abs(vy[j] - min(max(nv, -vmax[j]), vmax[j])) <= tol:
                    h.add(ks)
            hits.append(h)
        if all(hits):
            found = True
            same_terms = same_terms or all(any(len(set(k)) == 1 for k in h) for h in hits)
            same_vars = same_vars or bool(set.intersection(*hits))
    if found and seen is not None:
        seen |= set(([] if same_terms else ["terms"]) + ([] if same_vars else ["variables"]))
    return found


def nondominated(items):
    """Best of a list of solutions: non-dominated feasible ones, else those of least violation."""
    v = [value(x) for x in items]
    feas = [i for i in range(len(v)) if v[i][1] <= 0]
    if not feas:
        m = min(x[1] for x in v)
        return [items[i] for i in range(len(v)) if v[i][1] == m]
    return [items[i] for i in feas if not any(refs.dominates(v[j][0], v[i][0]) for j in feas)]


def keyset(items):
    return set((tuple(map(float, x.X)),) + value(x) for x in items)


def check_archive(name, got, candidates, size):
    best = keyset(nondominated(candidates))
    g = [(tuple(map(float, x.X)),) + value(x) for x in got]
    if not set(g) <= best:
        raise Wrong("archive", "the archive keeps %s which is not among the best found" % (sorted(set(g) - best)[:2],))
    vals = set(k[1:] for k in best)
    if len(best) <= size and set(k[1:] for k in g) != vals:
        raise Wrong("archive", "the archive misses %s though it is not full" % (sorted(vals - set(k[1:] for k in g))[:2],))
    if len(g) > size:
        raise Wrong("archive", "the archive holds %d of %d" % (len(g), size))


def u_mopso(ctx, pts, pop, size, con, kinds, dev, gens=2):
    from pymoo.algorithms.moo.mopso_cd import MOPSO_CD
    X0 = PTS[pts][:pop]
    c1, c2, w, rate = 1.5, 2.0, 0.6, 0.3
    conf = dict(pop=pop, archive=size, con=con, kinds=kinds, points=pts)
    followed = set()

    def body(o, seed):
        from pymoo.core.population import Population
        from pymoo.core.sampling import Sampling

        class Fixed(Sampling):
            def _do(self, problem, n_samples, **kwargs):
                return X0[:n_samples].copy()
        prob = table_problem(2, kinds, con, pop)
        algo = MOPSO_CD(pop_size=pop, archive_size=size, c1=c1, c2=c2, w=w, max_velocity_rate=rate, sampling=Fixed())
        algo.setup(prob, termination=("n_gen", 100), seed=seed)
        algo.random_state = PalRNG(o, seed, levels=LEVELS)
        step(algo, prob)
        vmax = np.full(2, rate)
        own = [(np.array(p.X, float), value(p)) for p in algo.pop]
        if np.any(np.abs(algo.velocities) > vmax + TOL):
            raise Wrong("velocity", "an initial velocity exceeds the limit")
        seen = list(algo.pop)
        check_archive("MOPSO_CD", algo.archive, seen, size)
        for g in range(gens):
            P = list(algo.pop)
            V = np.array(algo.velocities, float).copy()
            arch = list(algo.archive)
            off = algo.ask()
            ctx.trans()
            if len(off) != pop:
                raise Wrong("moves", "%d moves for %d particles" % (len(off), pop))
            for i, q in enumerate(off):
                x, y, vy = np.array(P[i].X, float), np.array(q.X, float), np.array(algo.velocities[i], float)
                if not explained_move(x, V[i], y, vy, [[own[i][0]], [np.array(a.X, float) for a in arch]], [[c1 * u for u in LEVELS], [c2 * u for u in LEVELS]], vmax, w=w, seen=followed):
                    raise Wrong("velocity", "particle %s with velocity %s, own best %s and archive %s gets the velocity %s" % (x, V[i], own[i][0], [list(a.X) for a in arch], vy))
                if np.abs(y - np.clip(x + vy, 0.0, 1.0)).max() > TOL:
                    raise Wrong("position", "particle %s with velocity %s moves to %s" % (x, vy, y))
            algo.evaluator.eval(prob, off)
            algo.tell(infills=off)
            for i, q in enumerate(off):
                v = value(q)
                got = (tuple(map(float, algo.pbest[i].X)), value(algo.pbest[i]))
                new, old = (tuple(map(float, q.X)), v), (tuple(own[i][0]), own[i][1])
                allow = [new] if better(v, own[i][1]) else [old] if better(own[i][1], v) else [old, new]
                if got not in allow:
                    raise Wrong("own", "own best %s and new position %s (%s): the own best is now %s" % (old, new, "better" if allow == [new] else "worse" if allow == [old] else "incomparable", got))
                own[i] = (np.array(got[0]), got[1])
                ctx.outcome("own", len(allow), got == new)
            if [x.X.tobytes() for x in algo.pop] != [x.X.tobytes() for x in off]:
                raise Wrong("particles", "the particles are not the moved ones")
            cand = arch + P + list(off)
            # one pass bounds the archive by crowding, the reported optimum is its result
            best = keyset(nondominated(cand))
            copies = sum(1 for c in cand if ((tuple(map(float, c.X)),) + value(c)) in best)
            for what in (algo.archive, algo.opt):
                try:
                    check_archive("MOPSO_CD", what, cand, size)
                except Wrong as e:
                    if "misses" not in str(e) or copies <= size:
                        raise
                    ctx.viol("MOPSO_CD:copies", "copies of the same solutions take up the places of others: " + str(e), **conf)
            a, o_ = keyset(algo.archive), keyset(algo.opt)
            if a != o_:
                if copies <= size or len(a) > len(best):
                    raise Wrong("optimum", "the optimum is not the archive")
                ctx.viol("MOPSO_CD:pruned", "the reported optimum %s is not the archive %s" % (sorted(o_), sorted(a)), **conf)
        ctx.outcome("MOPSO_CD", kinds, tuple(sorted(keyset(algo.archive))))
    run_all(ctx, "MOPSO_CD", conf, body, dev, (1, 2))
    if len(followed) < 2 and con != 3:      # one attractor only otherwise
        ctx.viol("MOPSO_CD:factors", "the random factors are never different for the %s" % " or ".join({"terms", "variables"} - followed), **conf)


def angle(a, b):
    a, b = a / (np.linalg.norm(a) + 1e-6), b / (np.linalg.norm(b) + 1e-6)
    return float(np.arccos(np.clip(a @ b, -1, 1)))


def u_cmopso(ctx, pts, pop, elite, velocity, con, kinds, dev, gens=2):
    from pymoo.algorithms.moo.cmopso import CMOPSO
    X0 = PTS[pts][:pop]
    rate = 0.25
    conf = dict(pop=pop, elite=elite, con=con, kinds=kinds, points=pts, velocity=velocity)
    followed = set()

    def body(o, seed):
        prob = table_problem(2, kinds, con, pop)
        algo = CMOPSO(pop_size=pop, elite_size=elite, max_velocity_rate=rate, initial_velocity=velocity, mutation_rate=0.0, sampling=X0.copy())
        algo.setup(prob, termination=("n_gen", 100), seed=seed)
        algo.random_state = PalRNG(o, seed, levels=LEVELS)
        step(algo, prob)
        vmax = np.full(2, rate)
        V = np.array(algo.pop.get("V"), float)
        want = {0.0} if velocity == "zero" else set(round(u * rate, 9) for u in LEVELS)
        if not set(np.round(V, 9).ravel().tolist()) <= want:
            raise Wrong("start", "the initial velocities are %s" % V.tolist())
        for g in range(gens):
            P = list(algo.pop)
            L = [np.array(e.X, float) for e in algo.elites]
            before = list(algo.elites)
            off = algo.ask()
            ctx.trans()
            if len(off) != len(P):
                raise Wrong("moves", "%d moves for %d particles" % (len(off), len(P)))
            for p, q in zip(P, off):
                x, v, y, vy = (np.array(a, float) for a in (p.X, p.get("V"), q.X, q.get("V")))
                if not explained_move(x, v, y, vy, [L], [list(LEVELS), list(LEVELS)], vmax, w=None, seen=followed):
                    raise Wrong("velocity", "particle %s with velocity %s and elites %s gets the velocity %s" % (x, v, [list(l) for l in L], vy))
                if np.abs(y - np.clip(x + vy, 0.0, 1.0)).max() > TOL:
                    raise Wrong("position", "particle %s with velocity %s moves to %s" % (x, vy, y))
            algo.evaluator.eval(prob, off)
            algo.tell(infills=off)
            pool = P + list(off)
            if len(algo.pop) != pop or any(all(a is not b for b in pool) for a in algo.pop):
                raise Wrong("particles", "%d of %d particles survive, or others" % (len(algo.pop), pop))
            front = nondominated(pool)
            kept = sum(1 for a in algo.pop if any(a is b for b in front))
            if kept != min(pop, len(front)):
                raise Wrong("particles", "%d of the %d best of %s survive among %d" % (kept, len(front), sorted(map(value, pool)), pop))
            check_archive("CMOPSO", algo.elites, before + pool, pop)
            found = len(set(k[0] for k in keyset(nondominated(before + pool))))
            want = found if found <= pop else elite
            if len(algo.elites) != want:
                raise Wrong("archive", "%d elites are kept of %d found instead of %d" % (len(algo.elites), found, want))
            ctx.outcome("elites", len(algo.elites))
        ctx.outcome("CMOPSO", kinds, tuple(sorted(map(value, algo.pop))), len(algo.elites))
    run_all(ctx, "CMOPSO", conf, body, dev, (1, 2))
    if len(followed) < 2:
        ctx.viol("CMOPSO:factors", "the random factors are never different for the %s" % " or ".join({"terms", "variables"} - followed), **conf)


class TournamentRNG(PalRNG):
    """The integers of one particle are explored, every real number is one half."""

    def __init__(self, oracle, skip, n_ints):
        super().__init__(oracle, 1, levels=(0.5,), normals=(0.0,))
        self.skip, self.left = skip, n_ints

    def _pick(self, n):
        if n <= 1:
            return 0
        if self.skip > 0:
            self.skip -= 1
            return 0
        if self.left > 0:
            self.left -= 1
            return self.o.choose(n)
        return 0


def u_leaders(ctx, name, k):
    """Of all tournaments for the leader of the first particle, the share each member of the archive wins is the one the rule gives it."""
    from pymoo.algorithms.moo.cmopso import CMOPSO
    from pymoo.algorithms.moo.mopso_cd import MOPSO_CD
    from pymoo.core.sampling import Sampling
    objs = {3: [(0.0, 10.0), (3.0, 4.0), (10.0, 0.0)], 4: [(0.0, 10.0), (1.0, 8.5), (4.0, 4.0), (10.0, 0.0)], 5: [(0.0, 10.0), (1.0, 8.5), (4.0, 4.0), (5.0, 2.5), (10.0, 0.0)]}[k]
    X0 = np.array([[0.9, 0.1], [0.62, 0.4], [0.5, 0.48], [0.3, 0.55], [0.11, 0.8]])[:k]

    class Fixed(Sampling):
        def _do(self, problem, n_samples, **kwargs):
            return X0[:n_samples].copy()

    def values(x, i, alt, n_obj, ni, ne):
        return list(objs[i % k]), [], []
    prob = zoo.make_problem(2, 2, 0, xl=0.0, xu=1.0, values=values)
    for target in range(k):
        wins = {}
        state = {}

        def run(o):
            if name == "MOPSO_CD":
                algo = MOPSO_CD(pop_size=k, archive_size=k, c1=0.0, c2=0.5, w=0.0, max_velocity_rate=1.0, sampling=Fixed())
            else:
                algo = CMOPSO(pop_size=k, elite_size=k, max_velocity_rate=1.0, initial_velocity="zero", mutation_rate=0.0, sampling=X0.copy())
            algo.setup(prob, termination=("n_gen", 100), seed=1)
            algo.random_state = PalRNG(o, 1, levels=(0.5,), limit=0)
            step(algo, prob)
            arch = list(algo.archive if name == "MOPSO_CD" else algo.elites)
            algo.random_state = TournamentRNG(o, 2 * target, 2)
            x = np.array(algo.pop[target].X, float)
            off = algo.ask()
            y = np.array(off[target].X, float)
            pull = 0.25 if name == "MOPSO_CD" else 0.5
            hit = [i for i, a in enumerate(arch) if np.abs(y - (x + pull * (np.array(a.X, float) - x))).max() < 1e-9]
            if len(hit) != 1:
                ctx.viol("%s:leader" % name, "the move of particle %d is towards no member of the archive" % target, choices=o.choices, x=x, y=y, archive=[list(a.X) for a in arch])
                return
            wins[hit[0]] = wins.get(hit[0], 0) + 1
            state["arch"], state["x"] = arch, x
            ctx.state()
            ctx.trans()
        explore(run)
        ctx.trace()
        if not wins:
            continue
        arch, x = state["arch"], state["x"]
        if name == "MOPSO_CD":
            F = np.array([a.F for a in arch], float)
            cd = refs_crowding(F)
            score = [-c for c in cd]
        else:
            score = [angle(np.array(a.X, float), x) for a in arch]
        total = sum(wins.values())
        n = len(arch)
        lo, hi = [], []
        for i in range(n):
            less = sum(1 for j in range(n) if score[j] > score[i] + 1e-12)
            tie = sum(1 for j in range(n) if j != i and abs(score[j] - score[i]) <= 1e-12) if not np.isinf(score[i]) else sum(1 for j in range(n) if j != i and score[j] == score[i])
            lo.append((2 * less + 1) / n ** 2)
            hi.append((2 * less + 2 * tie + 1) / n ** 2)
        share = [wins.get(i, 0) / total for i in range(n)]
        ctx.outcome(name, k, target, tuple(share))
        if any(not (l - 1e-9 <= s <= h + 1e-9) for s, l, h in zip(share, lo, hi)):
            ctx.viol("%s:tournament" % name, "the members of the archive win %s of all tournaments instead of %s" % (share, lo if lo == hi else list(zip(lo, hi))), target=target, n=k)


def refs_crowding(F):
    n, m = F.shape
    cd = [0.0] * n
    for j in range(m):
        s = sorted(range(n), key=lambda i: F[i, j])
        span = F[s[-1], j] - F[s[0], j]
        cd[s[0]] = cd[s[-1]] = float("inf")
        for a in range(1, n - 1):
            if span > 0:
                cd[s[a]] += (F[s[a + 1], j] - F[s[a - 1], j]) / span / m
    return cd


def units(tier):
    q = tier == "quick"
    dev, gens = (1, 2) if q else (2, 2)
    U = []

    def T(cls, variant, pts="mid", pop=5, F=0.7, gamma=None, CR=0.5, repair="bounce-back", con=False, kinds=(0, 1, 2)):
        U.append(("u_trials", dict(cls=cls, variant=variant, pts=pts, pop=pop, F=F, gamma=gamma, CR=CR, repair=repair, con=con, kinds=kinds, dev=dev, gens=gens)))
    for sel, pop in (("rand", 5), ("best", 5), ("current-to-best", 5), ("current-to-rand", 5), ("ranked", 5)):
        for cx in ("bin", "exp"):
            for CR in (0.0, 0.5, 1.0):
                T("NSDE", "DE/%s/1/%s" % (sel, cx), pop=pop, CR=CR)
        T("GDE3", "DE/%s/1/bin" % sel, pop=pop)
        T("NSDER", "DE/%s/1/bin" % sel, pop=pop)
        T("NSDE", "DE/%s/1/bin" % sel, pop=pop, F=(0.2, 0.8), gamma=0.1)
        T("NSDE", "DE/%s/1/bin" % sel, pop=pop, CR=1.0, con=sel != "ranked", kinds=(3, 0, 4))
        T("GDE3", "DE/%s/1/bin" % sel, pop=pop, CR=1.0, con=sel != "ranked", kinds=(2, 3, 1))
    T("NSDE", "DE/rand/2/bin", pop=6, CR=1.0)
    T("NSDE", "DE/ranked/2/bin", pop=6, CR=1.0)
    T("NSDE", "DE/best/2/bin", pop=6, CR=1.0)
    for rep in ("bounce-back", "midway", "rand-init", "to-bounds"):
        for sel in ("rand", "current-to-best"):
            T("NSDE", "DE/%s/1/bin" % sel, pts="wide", CR=1.0, F=0.9, repair=rep)
            T("NSDE", "DE/%s/1/bin" % sel, pts="wide", CR=0.5, F=0.9, repair=rep, kinds=(1, 4, 0))
    for pts in ("mid", "wide"):
        for con in (False, True):
            for kinds in ((0, 1, 2), (2, 1, 0), (3, 0, 1), (1, 3, 4), (2, 3), (1,)) if con else ((0, 1, 2), (2, 1, 0), (1, 4, 2), (1,)):
                U.append(("u_mopso", dict(pts=pts, pop=4, size=3, con=con, kinds=kinds, dev=dev, gens=gens)))
                for vel in ("random", "zero"):
                    U.append(("u_cmopso", dict(pts=pts, pop=4, elite=2, velocity=vel, con=con, kinds=kinds, dev=dev, gens=gens)))
        for con, kinds in ((2, (3, 1, 2)), (2, (3,)), (3, (3, 2)), (3, (3,)), (3, (3, 3, 1))):
            U.append(("u_mopso", dict(pts=pts, pop=4, size=3, con=con, kinds=kinds, dev=dev, gens=gens)))
            U.append(("u_cmopso", dict(pts=pts, pop=4, elite=2, velocity="zero", con=con, kinds=kinds, dev=dev, gens=gens)))
    for con, kinds in ((2, (3, 1, 2)), (3, (3, 2)), (3, (3, 3, 1))):
        for cls in ("NSDE", "GDE3", "NSDER"):
            T(cls, "DE/rand/1/bin", CR=1.0, con=con, kinds=kinds)
    U.append(("u_mopso", dict(pts="mid", pop=5, size=9, con=False, kinds=(1, 2), dev=dev, gens=gens)))
    for name in ("MOPSO_CD", "CMOPSO"):
        for k in (3, 4, 5):
            U.append(("u_leaders", dict(name=name, k=k)))
    return U
