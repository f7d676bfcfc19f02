"""P35: one generation of every population based single-objective search follows its published rule."""

import itertools
import os

import numpy as np

from vmc import zoo
from vmc.rng import ScriptRNG, explore

PROPERTY = "P35"
RULE = ("an execution is one run of a few generations under one sequence of random answers; every proposed solution and every survivor is explained by "
        "an exhaustive search over everything the rule may draw; outcomes are distinct (algorithm, configuration, what happened) results")
BOUNDS = {
    "quick": "all single deviations (first 60 points) from fixed streams of random answers taken from a palette x all 64-216 sequences of answer classes for the trials / 2-3 generations: DE (rand, best x 1, 2 "
             "differences x bin, exp, line, hypercube; CR 0, 0.5, 1; steady state), PSO (adaptive or not, perturbed or not), EPPSO (star, ring), ES, SRES, ISRES, BRKGA, G3PCX, NRBO; "
             "all permutations of distances for the clearing of NicheGA; populations of 4-8, 2-3 variables",
    "thorough": "as quick with pairs of deviations and longer runs",
}
TOL = 1e-9


class PalRNG(ScriptRNG):
    """Every answer is one of a few values: a fixed stream picks it, the explorer may take any other."""

    def __init__(self, oracle, seed, levels=(0.125, 0.5, 0.9), normals=(0.5, -0.25, 1.5), limit=60):
        super().__init__(oracle, levels, normals)
        self.base = np.random.default_rng(seed)
        self.limit = limit

    def _pick(self, n):
        r = int(self.base.integers(n))
        if len(self.o.choices) >= self.limit or n <= 1:
            return r
        return (r + self.o.choose(n)) % n

    def _u(self):
        return self.levels[self._pick(len(self.levels))]

    def _n(self):
        return self.normals[self._pick(len(self.normals))]

    def _i(self, n):
        n = int(n)
        return 0 if n <= 1 else self._pick(n)


class Wrong(Exception):
    def __init__(self, key, msg):
        self.key, self.msg = key, msg


def table_problem(n_var, table, con=False, xl=0.0, xu=1.0):
    def values(x, i, alt, n_obj, ni, ne):
        f, g = table(i)
        return [f], [g] if ni else [], []
    return zoo.make_problem(n_var, 1, 1 if con else 0, xl=xl, xu=xu, values=values)


def quality(x):
    """Smaller is better: feasible by objective, then infeasible by violation."""
    cv = float(x.CV[0])
    return (1, cv) if cv > 0 else (0, float(x.F[0]))


def better(a, b):
    return quality(a) < quality(b)


def step(algo, prob):
    inf = algo.ask()
    algo.evaluator.eval(prob, inf)
    algo.tell(infills=inf)
    return inf


def answers(kinds, base, con):
    """Initial answers, then the classes of the trials: improving, equal to a member, bad, infeasible."""
    def f(i):
        if i < len(base):
            v = base[i]
        else:
            c = kinds[(i - len(base)) % len(kinds)]
            k = i - len(base)
            v = [-1.0 - 0.01 * k, base[1], 50.0 + k, 130.0 - k * 0.01, 3.4 - 0.001 * k, 101.0 + 0.01 * k][c]
        if con and v >= 100:
            return (-v, v - 99.0)
        return (v, -1.0)
    return f


def replaced(ctx, name, before, trials, after, whole=None):
    """Greedy replacement: a trial takes the place of its target iff it is better and not a copy of a member."""
    X = [x.X.tobytes() for x in (whole or before)]
    seen = set()
    for k, (old, tr, new) in enumerate(zip(before, trials, after)):
        kx = tr.X.tobytes()
        dup = kx in X or kx in seen
        seen.add(kx)
        if not dup:
            want = tr if better(tr, old) else old
            if new is not want and not (np.array_equal(new.X, want.X) and quality(new) == quality(want)):
                raise Wrong("replacement", "target %s, trial %s (%s), afterwards %s" % (quality(old), quality(tr), tr.X, quality(new)))
        elif kx in X:
            if new is not old and not np.array_equal(new.X, old.X):
                raise Wrong("copy", "target %s is replaced by the copy %s of another member" % (old.X, new.X))
        elif not (np.array_equal(new.X, old.X) or better(tr, old)):
            raise Wrong("replacement", "target %s is replaced by %s which is not better" % (quality(old), quality(new)))
    if len(set(X)) == len(X) and len(set(x.X.tobytes() for x in after)) < len(X):
        raise Wrong("copy", "copies after the replacement: %s" % [list(x.X) for x in after])


def run_all(ctx, name, conf, body, dev, seeds):
    for seed in seeds:
        def run(o):
            try:
                body(o, seed)
            except Wrong as e:
                ctx.viol("%s:%s" % (name, e.key), e.msg, configuration=conf, seed=seed, choices=o.choices)
            ctx.state()
            ctx.trace()
        n, ok = explore(run, max_dev=dev)


# ---- differential evolution -------------------------------------------------------------------------

def donors(X, t, sel, nd, F, best):
    n = len(X)
    oth = [i for i in range(n) if i != t]
    heads = best if sel == "best" else None
    for r in itertools.permutations(oth, 2 * nd + (0 if heads else 1)):
        d, bases = (r, heads) if heads else (r[1:], [r[0]])
        delta = F * sum(X[d[2 * i]] - X[d[2 * i + 1]] for i in range(nd))
        for b in bases:
            yield b, (b if heads else X[b]) + delta


def explains(x, y, b, d, cx, CR, xl, xu):
    """Can the trial y come from target x and donor d (base vector b)?"""
    n = len(x)
    isd, ist = [], []
    for j in range(n):
        ist.append(abs(y[j] - x[j]) <= TOL)
        if xl[j] - TOL <= d[j] <= xu[j] + TOL:
            isd.append(abs(y[j] - d[j]) <= TOL)
        else:
            lim = xl[j] if d[j] < xl[j] else xu[j]
            isd.append(min(b[j], lim) - TOL <= y[j] <= max(b[j], lim) + TOL)
    if cx in ("bin", "exp"):
        for m in itertools.product((0, 1), repeat=n):
            if not any(m) or not all((isd[j] if m[j] else ist[j]) for j in range(n)):
                continue
            if CR == 1.0 and not all(m):
                continue
            if CR == 0.0 and sum(m) != 1:
                continue
            if cx == "exp" and sum(1 for j in range(n) if m[j] and not m[j - 1]) > 1:
                continue
            return True
        return False
    w = []
    for j in range(n):
        if abs(d[j] - x[j]) <= TOL:
            if abs(y[j] - x[j]) > TOL:
                return False
        else:
            w.append((y[j] - x[j]) / (d[j] - x[j]))
    if any(v < -1e-7 or v > CR + 1e-7 for v in w):
        return False
    return cx == "hypercube" or not w or max(w) - min(w) < 1e-6


PTS = {2: np.array([[0.42, 0.55], [0.58, 0.47], [0.5, 0.41], [0.45, 0.6], [0.53, 0.52], [0.61, 0.57], [0.4, 0.5]]),
       3: np.array([[0.42, 0.55, 0.5], [0.58, 0.47, 0.44], [0.5, 0.41, 0.6], [0.45, 0.6, 0.53], [0.53, 0.52, 0.4], [0.61, 0.57, 0.48], [0.4, 0.5, 0.56]]),
       "wide": np.array([[0.0, 1.0], [1.0, 0.1], [0.5, 0.0], [0.05, 0.9], [0.9, 0.95], [0.97, 0.3], [0.2, 0.6]]),
       # one solution far away from all others, and the best one
       "far": np.array([[0.05, 0.1], [0.98, 0.96], [0.08, 0.05], [0.03, 0.04], [0.1, 0.09], [0.06, 0.02], [0.01, 0.08], [0.09, 0.12]])}
BASE = [3.0, 1.0, 2.0, 5.0, 4.0, 6.0, 3.5, 2.5]


def u_de(ctx, variant, pts, pop, F, CR, con, kinds, dev, seeds, n_off=None):
    from pymoo.algorithms.soo.nonconvex.de import DE
    from pymoo.operators.control import NoParameterControl
    _, sel, nd, cx = variant.split("/")
    nd = int(nd)
    X0 = PTS[pts][:pop]
    targets = set()

    def body(o, seed):
        prob = table_problem(X0.shape[1], answers(kinds, (BASE if not con else [3.0, 1.0, 120.0, 110.0, 4.0, 130.0, 3.5])[:pop], con), con)
        algo = DE(pop_size=pop, n_offsprings=n_off, sampling=X0.copy(), variant=variant, F=F, CR=CR, prob_mut=0.0, control=NoParameterControl)
        algo.setup(prob, termination=("n_gen", 100), seed=seed)
        algo.random_state = PalRNG(o, seed)
        step(algo, prob)
        for gen in range(2):
            P = list(algo.pop)
            X = np.array([p.X for p in P], float)
            q = [quality(p) for p in P]
            best = [X[i] for i in range(pop) if q[i] == min(q)]
            inf = algo.ask()
            T = list(inf)
            ctx.trans()
            idx = [int(x.get("index")) for x in T]
            if len(T) != (n_off or pop) or len(set(idx)) != len(idx):
                raise Wrong("trials", "%d trials for the targets %s of %d members" % (len(T), idx, pop))
            for t, tr in zip(idx, T):
                y = np.array(tr.X, float)
                targets.add(t)
                if not any(explains(X[t], y, b if sel == "best" else X[b], d, cx, CR, prob.xl, prob.xu)
                           for b, d in donors(X, t, sel, nd, F, best if sel == "best" else None)):
                    raise Wrong("trial", "%s is no trial of target %s in %s" % (y, X[t], X.tolist()))
            algo.evaluator.eval(prob, inf)
            algo.tell(infills=inf)
            replaced(ctx, "DE", [P[t] for t in idx], T, [algo.pop[t] for t in idx])
            for k in range(pop):
                if k not in idx and algo.pop[k] is not P[k]:
                    raise Wrong("untouched", "member %d without a trial has changed" % k)
        ctx.outcome("DE", variant, CR, kinds, tuple(quality(x) for x in algo.pop))
    conf = dict(variant=variant, pop=pop, F=F, CR=CR, con=con, kinds=kinds, n_off=n_off)
    run_all(ctx, "DE", conf, body, dev, seeds)
    if n_off and n_off < pop and targets != set(range(pop)):
        ctx.viol("DE:targets", "the members %s are never the target of a trial" % sorted(set(range(pop)) - targets), **conf)


# ---- particle swarms --------------------------------------------------------------------------------

def moves(X, V, P, L, w, c1, c2, vmax, levels, v_off=None):
    """All velocities of one coordinate for the random numbers of the palette."""
    return [min(max(w * V + c1 * a * (P - X) + c2 * b * (L - X), -vmax), vmax) for a in levels for b in levels]


def check_particle(name, x, v, p, l, w, c1, c2, vmax, levels, y, vy, xl, xu, consistent, any_position=False):
    for j in range(len(x)):
        mv = moves(x[j], v[j], p[j], l[j], w, c1, c2, vmax[j], levels)
        fit = [m for m in mv if abs(m - vy[j]) <= TOL]
        if not consistent:
            # the velocity is that of the equation
            if not fit:
                raise Wrong("velocity", "velocity %s of coordinate %d, the equation allows %s" % (vy[j], j, sorted(set(np.round(mv, 6)))))
            if any_position:
                continue
            z = x[j] + vy[j]
            if xl[j] - TOL <= z <= xu[j] + TOL:
                if abs(y[j] - z) > TOL:
                    raise Wrong("position", "position %s instead of %s + %s" % (y[j], x[j], vy[j]))
            else:
                lim = xl[j] if z < xl[j] else xu[j]
                if not min(x[j], lim) - TOL <= y[j] <= max(x[j], lim) + TOL:
                    raise Wrong("repair", "position %s of a particle leaving %s at %s" % (y[j], x[j], lim))
        else:
            # the velocity is the distance travelled, after the repair
            if abs(vy[j] - (y[j] - x[j])) > TOL:
                raise Wrong("velocity", "velocity %s of a particle moving from %s to %s" % (vy[j], x[j], y[j]))
            ok = any(abs(x[j] + m - y[j]) <= TOL for m in mv if xl[j] - TOL <= x[j] + m <= xu[j] + TOL)
            for m in mv:
                z = x[j] + m
                if not xl[j] <= z <= xu[j]:
                    lim = xl[j] if z < xl[j] else xu[j]
                    ok = ok or min(x[j], lim) - TOL <= y[j] <= max(x[j], lim) + TOL
            if not ok:
                raise Wrong("position", "position %s from %s, moves %s" % (y[j], x[j], sorted(set(np.round(mv, 6)))))


def independent(x, v, p, l, w, c1, c2, vmax, levels, vy):
    """Coordinates whose move is explained, and those only explained by two different random numbers."""
    one = two = 0
    for j in range(len(x)):
        if abs(p[j] - x[j]) > 1e-3 and abs(l[j] - x[j]) > 1e-3 and abs(vy[j]) < vmax[j] - TOL:
            one += 1
            two += not any(abs(w * v[j] + a * (c1 * (p[j] - x[j]) + c2 * (l[j] - x[j])) - vy[j]) <= 1e-7 for a in levels)
    return one, two


def u_pso(ctx, pts, pop, adaptive, pertube, vel, con, kinds, dev, seeds):
    from pymoo.algorithms.soo.nonconvex.pso import PSO
    X0 = PTS[pts][:pop]
    levels = (0.125, 0.5, 0.9)
    cs = (2.0, 2.0) if adaptive and not pertube else (1.6, 1.8)
    seen = [0, 0]

    def body(o, seed):
        prob = table_problem(X0.shape[1], answers(kinds, (BASE if not con else [3.0, 1.0, 120.0, 110.0, 4.0, 130.0, 3.5, 115.0])[:pop], con), con)
        algo = PSO(pop_size=pop, sampling=X0.copy(), adaptive=adaptive, pertube_best=pertube, initial_velocity=vel, w=0.7, c1=cs[0], c2=cs[1], max_velocity_rate=0.3)
        algo.setup(prob, termination=("n_gen", 100), seed=seed)
        algo.random_state = PalRNG(o, seed, levels)
        step(algo, prob)
        X, V = np.array([x.X for x in algo.pop], float), np.array([x.get("V") for x in algo.pop], float)
        vmax = 0.3 * (prob.xu - prob.xl)
        if vel == "zero" and np.any(V != 0) or np.any(np.abs(V) > vmax + TOL):
            raise Wrong("start", "initial velocities %s" % V.tolist())
        w, c1, c2 = 0.7, cs[0], cs[1]
        for gen in range(3):
            P = list(algo.pop)
            PX = np.array([p.X for p in P], float)
            q = [quality(p) for p in P]
            kb = [i for i in range(pop) if q[i] == min(q)]
            inf = algo.ask()
            ctx.trans()
            T = list(inf)
            if len(T) != pop:
                raise Wrong("swarm", "%d particles" % len(T))
            free = None
            for k, tr in enumerate(T):
                y, vy = np.array(tr.X, float), np.array(tr.get("V"), float)
                if np.any(y < prob.xl - TOL) or np.any(y > prob.xu + TOL):
                    raise Wrong("bounds", "position %s" % y)
                err = None
                for b in kb:
                    try:
                        check_particle("PSO", X[k], V[k], PX[k], PX[b], w, c1, c2, vmax, levels, y, vy, prob.xl, prob.xu, False, pertube and k in kb)
                        err = None
                        break
                    except Wrong as e:
                        err = e
                if err is not None:
                    raise err
                if len(kb) == 1:
                    a, b = independent(X[k], V[k], PX[k], PX[kb[0]], w, c1, c2, vmax, levels, vy)
                    seen[0] += a
                    seen[1] += b
            X, V = np.array([x.X for x in T], float), np.array([x.get("V") for x in T], float)
            algo.evaluator.eval(prob, inf)
            sb = [PX[b] for b in kb]
            algo.tell(infills=inf)
            replaced(ctx, "PSO", P, T, list(algo.pop))
            if not adaptive:
                if (algo.w, algo.c1, algo.c2) != (w, c1, c2):
                    raise Wrong("adapt", "the parameters of a swarm that is not adaptive change")
            else:
                B = np.array([x.X for x in algo.pop], float) / (prob.xu - prob.xl)
                D = np.sqrt(((B[:, None, :] - B[None, :, :]) ** 2).sum(axis=2))
                mD = D.sum(axis=1) / (pop - 1)
                err = None
                for s in sb:
                    g = float(np.mean(np.sqrt(((B - s / (prob.xu - prob.xl)) ** 2).sum(axis=1))))
                    # (distances are normalized, a common factor cancels out)
                    f = (g - mD.min()) / (mD.max() - mD.min() + 1e-32)
                    err = adapted(algo, f, w, c1, c2)
                    if err is None or err.startswith("sum:"):
                        break
                if err and err.startswith("sum:"):
                    ctx.viol("PSO:sum", err, seed=seed, choices=o.choices)
                    err = None
                if err:
                    raise Wrong("adapt", err)
                w, c1, c2 = algo.w, algo.c1, algo.c2
        ctx.outcome("PSO", adaptive, pertube, kinds, tuple(quality(x) for x in algo.pop), str(algo.strategy))
    conf = dict(pts=pts, pop=pop, adaptive=adaptive, pertube=pertube, vel=vel, con=con, kinds=kinds)
    run_all(ctx, "PSO", conf, body, dev, seeds)
    if seen[0] > 20 and not seen[1]:
        ctx.viol("PSO:independent", "all %d moves are explained by equal random numbers for both attractions" % seen[0], **conf)


def memberships(f):
    tri = lambda pts: float(np.interp(f, [p[0] for p in pts], [p[1] for p in pts]))
    return [tri([(0.4, 0), (0.6, 1), (0.7, 1), (0.8, 0)]), tri([(0.2, 0), (0.3, 1), (0.4, 1), (0.6, 0)]),
            tri([(0.1, 1), (0.3, 0)]), tri([(0.7, 0), (0.9, 1)])]


def adapted(algo, f, w, c1, c2):
    if abs(algo.f - f) > 1e-6 * max(1.0, abs(f)):
        return "evolutionary factor %s instead of %s" % (algo.f, f)
    mu = memberships(f)
    s = algo.strategy
    if mu[s - 1] < max(mu) - 1e-6:
        return "strategy %s with memberships %s" % (s, mu)
    if abs(algo.w - 1 / (1 + 1.5 * np.exp(-2.6 * f))) > 1e-6:
        return "inertia %s for f=%s" % (algo.w, f)
    a, b = {1: (1, -1), 2: (0.5, -0.5), 3: (0.5, 0.5), 4: (-1, 1)}[s]
    ok = seq = False
    for u in (0.125, 0.5, 0.9):
        d = 0.05 + 0.05 * u
        x, y = min(max(c1 + a * d, 1.5), 2.5), min(max(c2 + b * d, 1.5), 2.5)
        if x + y > 4.0:
            z = 4.0 * x / (x + y)
            seq = seq or (abs(algo.c1 - z) < 1e-9 and abs(algo.c2 - 4.0 * y / (z + y)) < 1e-9)
            x, y = z, 4.0 * y / (x + y)
        ok = ok or (abs(algo.c1 - x) < 1e-9 and abs(algo.c2 - y) < 1e-9)
    if not ok and seq:
        return "sum: c1, c2 = %s, %s have the sum %s" % (algo.c1, algo.c2, algo.c1 + algo.c2)
    return None if ok else "c1, c2 = %s, %s after %s, %s with strategy %s" % (algo.c1, algo.c2, c1, c2, s)


def u_eppso(ctx, pts, pop, topology, vel, con, kinds, dev, seeds):
    from pymoo.algorithms.soo.nonconvex.pso_ep import EPPSO, Swarm
    from pymoo.operators.control import NoParameterControl
    X0 = PTS[pts][:pop]
    levels = (0.125, 0.5, 0.9)
    seen = [0, 0]

    def body(o, seed):
        prob = table_problem(X0.shape[1], answers(kinds, (BASE if not con else [3.0, 1.0, 120.0, 110.0, 4.0, 130.0, 3.5])[:pop], con), con)
        algo = EPPSO(pop_size=pop, sampling=X0.copy(), swarm=Swarm(w=0.7, c1=1.3, c2=1.5, V_max=0.25, control=NoParameterControl), topology=topology, init_V=vel)
        algo.setup(prob, termination=("n_gen", 100), seed=seed)
        algo.random_state = PalRNG(o, seed, levels)
        step(algo, prob)
        X, V = np.array([x.X for x in algo.swarm], float), np.array([x.get("V") for x in algo.swarm], float)
        if vel == "zero" and np.any(V != 0) or np.any(np.abs(V) > 0.5 * (prob.xu - prob.xl) + TOL):
            raise Wrong("start", "initial velocities %s" % V.tolist())
        vmax = 0.25 * (prob.xu - prob.xl)
        nb = [list(range(pop)) if topology == "star" else [(i - 1) % pop, i, (i + 1) % pop] for i in range(pop)]
        lb = None
        for gen in range(3):
            P = list(algo.pbest)
            q = [quality(p) for p in P]
            inf = algo.ask()
            ctx.trans()
            T = list(inf)
            for k, tr in enumerate(T):
                y, vy = np.array(tr.X, float), np.array(tr.get("V"), float)
                if np.any(y < prob.xl - TOL) or np.any(y > prob.xu + TOL):
                    raise Wrong("bounds", "position %s" % y)
                # the best of the neighborhood so far (the particle itself before anything was communicated)
                m = min(q[i] for i in nb[k])
                L = [np.array(P[i].X, float) for i in nb[k] if q[i] == m] + ([np.array(P[k].X, float)] if gen == 0 else [])
                err = None
                for l in L:
                    try:
                        check_particle("EPPSO", X[k], V[k], np.array(P[k].X, float), l, 0.7, 1.3, 1.5, vmax, levels, y, vy, prob.xl, prob.xu, True)
                        err = None
                        break
                    except Wrong as e:
                        err = e
                if err is not None:
                    raise err
                if len(L) == 1:
                    a, b = independent(X[k], V[k], np.array(P[k].X, float), L[0], 0.7, 1.3, 1.5, vmax, levels, vy)
                    seen[0] += a
                    seen[1] += b
            X, V = np.array([x.X for x in T], float), np.array([x.get("V") for x in T], float)
            algo.evaluator.eval(prob, inf)
            algo.tell(infills=inf)
            replaced(ctx, "EPPSO", P, T, list(algo.pbest))
            if [x.X.tobytes() for x in algo.pop] != [x.X.tobytes() for x in algo.pbest]:
                raise Wrong("pop", "the population are not the personal bests")
        ctx.outcome("EPPSO", topology, kinds, tuple(quality(x) for x in algo.pop))
    conf = dict(pts=pts, pop=pop, topology=topology, vel=vel, con=con, kinds=kinds)
    run_all(ctx, "EPPSO", conf, body, dev, seeds)
    if seen[0] > 20 and not seen[1]:
        ctx.viol("EPPSO:independent", "all %d moves are explained by equal random numbers for both attractions" % seen[0], **conf)


# ---- evolution strategies ---------------------------------------------------------------------------

def u_es(ctx, name, pts, gamma, con, kinds, dev, seeds, mu=2, lam=6):
    from pymoo.algorithms.soo.nonconvex.es import ES
    from pymoo.algorithms.soo.nonconvex.isres import ISRES
    from pymoo.algorithms.soo.nonconvex.sres import SRES
    normals = (0.5, -0.25, 1.5)
    X0 = PTS[pts][:mu]
    n = X0.shape[1]
    phi, alpha = 1.0, 0.2
    mixed = [0, 0]

    def body(o, seed):
        prob = table_problem(n, answers(kinds, (BASE if not con else [3.0, 120.0, 1.0])[:mu], con), con)
        kw = dict(n_offsprings=lam, pop_size=mu, sampling=X0.copy(), gamma=gamma)
        algo = {"ES": lambda: ES(**kw), "SRES": lambda: SRES(PF=0.0, **kw), "ISRES": lambda: ISRES(PF=0.0, alpha=alpha, **kw)}[name]()
        algo.setup(prob, termination=("n_gen", 100), seed=seed)
        algo.random_state = PalRNG(o, seed, normals=normals, limit=40)
        inf = step(algo, prob)
        smax = (prob.xu - prob.xl) / np.sqrt(n)
        vp = phi
        if name == "ISRES":
            chi = 1 / (2 * n) + 1 / (2 * np.sqrt(n))
            vp = np.sqrt(2 / chi * np.log((np.exp(phi ** 2 * chi / 2) - (1 - alpha)) / alpha))
        taup, tau = vp / np.sqrt(2 * n), vp / np.sqrt(2 * np.sqrt(n))
        first = True
        for gen in range(3):
            par = sorted(algo.pop, key=quality)
            if [quality(x) for x in algo.pop] != [quality(x) for x in par]:
                raise Wrong("order", "parents %s are not ordered" % [quality(x) for x in algo.pop])
            par = list(algo.pop)
            X = np.array([x.X for x in par], float)
            S = np.array([x.get("sigma") for x in par], float)
            if first and not np.allclose(S, smax):
                raise Wrong("start", "initial step sizes %s" % S)
            first = False
            inf = algo.ask()
            ctx.trans()
            T = list(inf)
            if len(T) != lam:
                raise Wrong("count", "%d offsprings instead of %d" % (len(T), lam))
            for k, tr in enumerate(T):
                p = k % mu
                y, s = np.array(tr.X, float), np.array(tr.get("sigma"), float)
                if np.any(y < prob.xl - TOL) or np.any(y > prob.xu + TOL):
                    raise Wrong("bounds", "offspring %s" % y)
                if np.any(s > smax + TOL) or np.any(s <= 0):
                    raise Wrong("sigma", "step size %s" % s)
                diff = gamma is not None and k < mu - 1
                if diff:
                    # differential variation of the elites: keeps the step size of the parent
                    d = X[p] + gamma * (X[0] - X[p + 1])
                    if np.max(np.abs(s - S[p])) > TOL:
                        raise Wrong("sigma", "step size %s of an elite offspring, its parent has %s" % (s, S[p]))
                    mutated_s = s
                    for j in range(n):
                        ok = abs(y[j] - d[j]) <= TOL
                        if not (prob.xl[j] - TOL <= d[j] <= prob.xu[j] + TOL):
                            ok = ok or any(abs(y[j] - (X[p][j] + s[j] * m)) <= TOL for m in normals) or abs(y[j] - X[p][j]) <= TOL
                        if not ok:
                            raise Wrong("differential", "elite offspring %s of %s instead of %s" % (y, X[p], d))
                    continue
                # the step sizes that can be drawn: one common and one own normal number, averaged with any other
                cand = []
                for n0 in normals:
                    rows = []
                    for j in range(n):
                        if name == "ISRES":
                            rows.append([min(smax[j], S[p][j] * np.exp(taup * n0 + tau * m)) for m in normals])
                        else:
                            rows.append([min(smax[j], (S[p][j] + S[i][j]) / 2 * np.exp(taup * n0 + tau * m)) for i in range(mu) for m in normals])
                    cand.append(rows)
                hit = False
                for rows in cand:
                    okk = True
                    for j in range(n):
                        good = False
                        for sg in rows[j]:
                            outs = [sg]
                            if name == "ISRES":
                                sm = S[p][j] + alpha * (sg - S[p][j])
                                outs = [sm] if k >= mu else [sm, sg]
                            if any(abs(s[j] - v) <= TOL for v in outs) and (
                                    any(abs(y[j] - (X[p][j] + sg * m)) <= TOL for m in normals) or abs(y[j] - X[p][j]) <= TOL):
                                good = True
                        okk = okk and good
                    hit = hit or okk
                if not hit:
                    raise Wrong("offspring", "offspring %d %s with step size %s of parent %s with %s is not a result of the strategy" % (k, y, s, X[p], S[p]))
                if name != "ISRES":
                    for j in range(n):
                        if min(abs(S[p][j] - S[i][j]) for i in range(mu) if i != p) > 1e-3 and s[j] < smax[j] - TOL:
                            mixed[0] += 1
                            mixed[1] += not any(abs(s[j] - S[p][j] * np.exp(taup * a + tau * b)) <= TOL for a in normals for b in normals)
                # values are only given up if every trial is out of bounds
                for j in range(n):
                    if abs(y[j] - X[p][j]) <= TOL and all(prob.xl[j] <= X[p][j] + sg * m <= prob.xu[j] for rows in cand for sg in rows[j] for m in normals):
                        raise Wrong("unchanged", "coordinate %d of offspring %s is that of its parent" % (j, y))
            algo.evaluator.eval(prob, inf)
            algo.tell(infills=inf)
            want = sorted(quality(x) for x in T)[:mu]
            if [quality(x) for x in algo.pop] != want or any(not any(a is b or np.array_equal(a.X, b.X) for b in T) for a in algo.pop):
                raise Wrong("survivors", "survivors %s of the offsprings %s" % ([quality(x) for x in algo.pop], sorted(quality(x) for x in T)))
        ctx.outcome(name, kinds, gamma, tuple(quality(x) for x in algo.pop))
    run_all(ctx, name, dict(pts=pts, gamma=gamma, con=con, kinds=kinds, mu=mu, lam=lam), body, dev, seeds)
    if mixed[0] > 20 and not mixed[1]:
        ctx.viol("%s:recombination" % name, "none of %d step sizes is recombined with that of another parent" % mixed[0], pts=pts, mu=mu, kinds=kinds)


# ---- genetic algorithms -----------------------------------------------------------------------------

def u_brkga(ctx, pts, con, kinds, dev, seeds, ne=2, no=3, nm=1, bias=0.5):
    from pymoo.algorithms.soo.nonconvex.brkga import BRKGA
    from pymoo.core.duplicate import NoDuplicateElimination
    X0 = PTS[pts][:ne + no + nm]
    genes = [0, 0]

    def body(o, seed):
        prob = table_problem(X0.shape[1], answers(kinds, ([3.0, 1.0, 2.0, 5.0, 4.0, 6.0] if not con else [3.0, 1.0, 120.0, 110.0, 4.0, 130.0]), con), con)
        algo = BRKGA(n_elites=ne, n_offsprings=no, n_mutants=nm, bias=bias, sampling=X0.copy())
        algo.setup(prob, termination=("n_gen", 100), seed=seed)
        if bias != 0.5:
            # (copies of elites count as well)
            algo.mating.eliminate_duplicates = NoDuplicateElimination()
        algo.random_state = PalRNG(o, seed, levels=(0.125, 0.51, 0.9))
        step(algo, prob)
        for gen in range(2):
            P = sorted(algo.pop, key=quality)
            if [quality(x) for x in algo.pop] != [quality(x) for x in P]:
                raise Wrong("order", "population %s is not ordered" % [quality(x) for x in algo.pop])
            q = [quality(x) for x in P]
            strict = q[ne - 1] < q[ne]
            P = list(algo.pop)
            E, N = [np.array(x.X, float) for x in P[:ne]], [np.array(x.X, float) for x in P[ne:]]
            inf = algo.ask()
            ctx.trans()
            T = list(inf)
            if len(T) > no + nm or len(T) < nm:
                raise Wrong("count", "%d new solutions instead of %d" % (len(T), no + nm))
            for x in T[:len(T) - nm]:
                y = np.array(x.X, float)
                if strict and not any(all(abs(y[j] - e[j]) <= TOL or abs(y[j] - m[j]) <= TOL for j in range(len(y))) and
                                      any(abs(y[j] - e[j]) <= TOL for j in range(len(y))) for e in E for m in N):
                    raise Wrong("parents", "offspring %s has no elite parent of %s and other parent of %s" % (y, E, N))
                if strict:
                    for j in range(len(y)):
                        a, b = any(abs(y[j] - e[j]) <= TOL for e in E), any(abs(y[j] - m[j]) <= TOL for m in N)
                        if a != b:
                            genes[0] += a
                            genes[1] += b
            for x in T[len(T) - nm:]:
                y = np.array(x.X, float)
                if np.any(y < prob.xl) or np.any(y > prob.xu):
                    raise Wrong("mutant", "mutant %s" % y)
            algo.evaluator.eval(prob, inf)
            algo.tell(infills=inf)
            A = [x.X.tobytes() for x in algo.pop]
            want = sorted([x.X.tobytes() for x in P[:ne]] + [x.X.tobytes() for x in T])
            if sorted(A) != want:
                raise Wrong("survivors", "the next population are not the elites and the new solutions")
            ty = [x.get("type") for x in algo.pop]
            if ty != ["elite"] * ne + ["non_elite"] * (len(A) - ne):
                raise Wrong("elites", "types %s of the ordered population" % ty)
        ctx.outcome("BRKGA", kinds, tuple(quality(x) for x in algo.pop))
    run_all(ctx, "BRKGA", dict(pts=pts, con=con, kinds=kinds, bias=bias), body, dev, seeds)
    if os.environ.get("VMC_DEBUG"):
        print("genes", bias, genes)
    # two thirds of the draws are below a bias of 0.8, one third of them below one of 0.2
    if sum(genes) > 60 and ((bias > 0.7 and genes[0] < genes[1]) or (bias < 0.3 and genes[0] > 0.8 * sum(genes))):
        ctx.viol("BRKGA:bias", "with a bias of %s, %d genes are those of the elite parent and %d those of the other one" % (bias, genes[0], genes[1]), kinds=kinds, con=con)


def u_g3pcx(ctx, pts, con, kinds, dev, seeds, pop=5, fam=2, no=2):
    from pymoo.algorithms.soo.nonconvex.g3pcx import G3PCX
    X0 = PTS[pts][:pop]

    def body(o, seed):
        prob = table_problem(X0.shape[1], answers(kinds, (BASE if not con else [3.0, 1.0, 120.0, 110.0, 4.0])[:pop], con), con)
        algo = G3PCX(pop_size=pop, sampling=X0.copy(), n_offsprings=no, family_size=fam)
        algo.setup(prob, termination=("n_gen", 100), seed=seed)
        algo.random_state = PalRNG(o, seed, limit=40)
        step(algo, prob)
        for gen in range(4):
            P = list(algo.pop)
            if quality(P[0]) != min(quality(x) for x in P):
                raise Wrong("best", "the first of %s is not the best" % [quality(x) for x in P])
            inf = algo.ask()
            ctx.trans()
            T = list(inf)
            if len(T) != no:
                raise Wrong("count", "%d offsprings instead of %d" % (len(T), no))
            algo.evaluator.eval(prob, inf)
            algo.tell(infills=inf)
            A = sorted((quality(x), x.X.tobytes()) for x in algo.pop)
            okay = False
            for R in itertools.combinations(range(pop), fam):
                rest = [P[i] for i in range(pop) if i not in R]
                F = sorted([P[i] for i in R] + T, key=quality)
                lim = quality(F[fam - 1])
                sure = [x for x in F if quality(x) < lim]
                tied = [x for x in F if quality(x) == lim]
                for more in itertools.combinations(tied, fam - len(sure)):
                    okay = okay or sorted((quality(x), x.X.tobytes()) for x in rest + sure + list(more)) == A
            if not okay:
                raise Wrong("family", "population %s, offsprings %s, afterwards %s" % (
                    [quality(x) for x in P], [quality(x) for x in T], [quality(x) for x in algo.pop]))
        ctx.outcome("G3PCX", kinds, tuple(quality(x) for x in algo.pop))
    run_all(ctx, "G3PCX", dict(pts=pts, con=con, kinds=kinds), body, dev, seeds)


def u_nrbo(ctx, pts, con, kinds, dev, seeds, pop=4):
    from pymoo.algorithms.soo.nonconvex.nrbo import NRBO
    X0 = PTS[pts][:pop]

    def body(o, seed):
        prob = table_problem(X0.shape[1], answers(kinds, (BASE if not con else [3.0, 1.0, 120.0, 110.0])[:pop], con), con)
        algo = NRBO(pop_size=pop, sampling=X0.copy(), max_iteration=20)
        algo.setup(prob, seed=seed)
        algo.random_state = PalRNG(o, seed, limit=30)
        step(algo, prob)
        for gen in range(3):
            P = list(algo.pop)
            inf = algo.ask()
            ctx.trans()
            T = list(inf)
            X = np.array([x.X for x in T], float)
            if len(T) != pop or np.any(X < prob.xl) or np.any(X > prob.xu) or not np.all(np.isfinite(X)):
                raise Wrong("bounds", "offsprings %s" % X.tolist())
            algo.evaluator.eval(prob, inf)
            algo.tell(infills=inf)
            replaced(ctx, "NRBO", P, T, list(algo.pop))
            if min(quality(x) for x in algo.pop) != quality(algo.opt[0]):
                raise Wrong("opt", "optimum %s of %s" % (quality(algo.opt[0]), [quality(x) for x in algo.pop]))
        ctx.outcome("NRBO", kinds, tuple(quality(x) for x in algo.pop))
    run_all(ctx, "NRBO", dict(pts=pts, con=con, kinds=kinds), body, dev, seeds)


# ---- clearing ---------------------------------------------------------------------------------------

def u_clearing(ctx, n, part, parts):
    """Solutions in order of quality; the ones closer than epsilon to a chosen one wait for the next round."""
    from pymoo.algorithms.soo.nonconvex.ga_niching import EpsilonClearingSurvival
    from pymoo.core.population import Population
    xs = [0.0, 0.04, 0.3, 0.33, 0.37, 0.9]
    k = 0
    for pos in itertools.combinations_with_replacement(xs, n):
        for perm in set(itertools.permutations(pos)) if n <= 4 else {pos, pos[::-1], pos[1::2] + pos[::2], pos[n // 2:] + pos[:n // 2]}:
            k += 1
            if k % parts != part:
                continue
            for con, cap, bydim, width in ((False, None, False, 1.0), (True, None, False, 1.0), (False, 2, False, 1.0), (False, None, True, 10.0)):
                prob = table_problem(2, lambda i: (0.0, 0.0), con, xl=0.0, xu=width)
                X = np.column_stack([np.array(perm) * width, np.full(n, 0.5 * width)])
                f = np.arange(n) * 1.0
                order = [(i * 2 + 1) % n if n % 2 else (i + 1) % n for i in range(n)]
                F = f[order][:, None]
                CV = np.array([[1.0 + i if con and i % 3 == 0 else 0.0] for i in range(n)])
                eps = 0.05
                for n_survive in range(1, n + 1):
                    ctx.state()
                    pop = Population.new(X=X.copy(), F=F.copy(), G=np.where(CV > 0, CV, -1.0)) if con else Population.new(X=X.copy(), F=F.copy())
                    ids = {id(x): i for i, x in enumerate(pop)}
                    r = EpsilonClearingSurvival(eps, n_max_each_iter=cap, norm_by_dim=bydim).do(prob, pop, n_survive=n_survive)
                    ctx.trans()
                    got = [ids[id(x)] for x in r]
                    S = sorted(range(n), key=lambda i: (CV[i, 0], F[i, 0]))
                    chosen, rounds, it, cleared = [], [], 1, set()
                    rank = 1
                    ranks = []
                    while len(chosen) < n_survive:
                        rem = [i for i in S if i not in chosen and i not in cleared]
                        if not rem or (cap is not None and rank > cap):
                            cleared = set()
                            it, rank = it + 1, 1
                            rem = [i for i in S if i not in chosen]
                        c = rem[0]
                        chosen.append(c)
                        rounds.append(it)
                        ranks.append(rank)
                        rank += 1
                        dist = lambda i: np.sqrt(((X[i] - X[c]) ** 2).sum()) / width / (np.sqrt(2) if bydim else 1.0)
                        cleared |= {i for i in S if dist(i) < eps - 1e-12}
                    if got != chosen:
                        ctx.viol("NicheGA:clearing", "survivors %s instead of %s" % (got, chosen), X=X[:, 0], F=F[:, 0], CV=CV[:, 0], n_survive=n_survive, cap=cap, by_dimension=bydim)
                    elif [x.get("iter") for x in r] != rounds or [x.get("rank") for x in r] != ranks:
                        ctx.viol("NicheGA:rounds", "rounds %s and ranks %s instead of %s and %s" % ([x.get("iter") for x in r], [x.get("rank") for x in r], rounds, ranks),
                                 X=X[:, 0], F=F[:, 0], n_survive=n_survive, cap=cap)
                    ctx.outcome("clearing", n, tuple(rounds), con, cap)
    ctx.trace()


def u_toreplacement(ctx, n):
    """The survivor of each pair is the one the wrapped selection ranks first."""
    from pymoo.algorithms.soo.nonconvex.ga import FitnessSurvival
    from pymoo.core.population import Population
    from pymoo.core.survival import ToReplacement
    prob = table_problem(1, lambda i: (0.0, 0.0), True)
    for vals in itertools.permutations(range(2 * n)):
        for mask in range(1 << (2 * n)) if n == 1 else (0, 5, 10, 15, 3):
            ctx.state()
            cv = [1.0 + v if mask >> i & 1 else 0.0 for i, v in enumerate(vals)]
            pop = Population.new(X=np.arange(2 * n)[:, None] / 9.0, F=np.array(vals, float)[:, None], G=np.array([[c if c else -1.0] for c in cv]))
            a, b = pop[:n], pop[n:]
            want = [y if better(y, x) else x for x, y in zip(list(a), list(b))]
            r = ToReplacement(FitnessSurvival()).do(prob, a.copy(), off=b)
            ctx.trans()
            if len(r) != n or any(x is not y for x, y in zip(r, want)):
                ctx.viol("ToReplacement:pairs", "survivors %s of the pairs %s" % ([quality(x) for x in r], [(quality(x), quality(y)) for x, y in zip(list(a), list(b))]), values=vals, cv=cv)
            ctx.outcome("ToReplacement", vals, mask)
    ctx.trace()


def ranking_law(f, phi, pr, I, levels):
    """Probability of every final order: bubble sort sweeps until nothing is swapped, each comparison decided by one of the (equally likely) levels."""
    n = len(f)
    done, cur = {}, {tuple(I): 1.0}
    for _ in range(n):
        nxt = {}
        for order, w in cur.items():
            part = {(order, False): w}
            for j in range(n - 1):
                new = {}
                for (o, swapped), q in part.items():
                    a, b = o[j], o[j + 1]
                    for u in levels:
                        swap = f[a] > f[b] if (u < pr or (phi[a] == 0 and phi[b] == 0)) else phi[a] > phi[b]
                        k = (o[:j] + (b, a) + o[j + 2:], True) if swap else (o, swapped)
                        new[k] = new.get(k, 0.0) + q / len(levels)
                part = new
            for (o, swapped), q in part.items():
                d = nxt if swapped else done
                d[o] = d.get(o, 0.0) + q
        cur = nxt
    for o, w in cur.items():
        done[o] = done.get(o, 0.0) + w
    return done


class LawRNG(ScriptRNG):
    """Reals are one of the levels, all of them are explored; the weight of an execution is the probability of its answers."""

    def __init__(self, oracle, levels):
        super().__init__(oracle, levels, (0.0,))
        self.w = 1.0

    def _u(self):
        if len(self.levels) == 1:
            return self.levels[0]
        self.w /= len(self.levels)
        return super()._u()


def u_ranking(ctx, mode, n, vals, pr, orders):
    """The law of the final order of stochastic ranking over ALL random answers, for every input of a small grid."""
    from pymoo.functions import load_function
    fn = load_function("stochastic_ranking", _type=mode) if mode != "survival" else None
    levels = (0.2, 0.7) if 0.2 < pr < 0.7 else (0.5,)
    for f in itertools.product(range(vals), repeat=n):
        for phi in itertools.product(range(vals), repeat=n):
            for I in (tuple(range(n)), tuple(range(1, n)) + (0,), tuple(range(n))[::-1])[:orders]:
                want, got = ranking_law(f, phi, pr, I, levels), {}

                def run(o):
                    r = LawRNG(o, levels)
                    F, P = np.array(f, float), np.array(phi, float)
                    if mode == "survival":
                        res = ranked_survivors(F, P, pr, r)
                    else:
                        res = fn(F, P, pr, None if I == tuple(range(n)) and orders == 1 else np.array(I, dtype=np.int64), random_state=r)
                    k = tuple(int(i) for i in res)
                    got[k] = got.get(k, 0.0) + r.w
                    ctx.trans()
                explore(run, max_dev=10 ** 6)
                ctx.state()
                if set(want) != set(got) or any(abs(want[k] - got[k]) > 1e-9 for k in want):
                    ctx.viol("ranking:%s" % mode, "stochastic ranking of f %s, phi %s with %s from %s gives the orders %s instead of %s" % (f, phi, pr, I, got, want), f=f, phi=phi, pr=pr)
                ctx.outcome("ranking", tuple(sorted((k, round(v, 6)) for k, v in want.items())))
    ctx.trace()


def ranked_survivors(f, phi, pr, rng):
    from pymoo.algorithms.soo.nonconvex.sres import StochasticRankingSurvival
    from pymoo.core.population import Population
    n = len(f)
    pop = Population.new(X=np.arange(n, dtype=float)[:, None], F=f[:, None], G=np.where(phi > 0, phi, -1.0)[:, None])
    for ind in pop:
        ind.evaluated = {"F", "G"}
    prob = zoo.make_problem(1, 1, 1, xl=0.0, xu=9.0, values=lambda x, i, alt, n_obj, ni, ne: ([0.0], [0.0], []))
    res = StochasticRankingSurvival(pr).do(prob, pop, n_survive=n, random_state=rng)
    return [int(x[0]) for x in res.get("X")]


def units(tier):
    T = tier == "thorough"
    dev = 2 if T else 1
    U = []
    K = [(0, 1, 2), (3, 0, 4), (4, 2, 0, 5), (2, 2, 1)] + ([(0,), (1, 0), (5, 3, 4)] if T else [])
    S = [0, 1, 2]
    for ks in K:
        for con in (False, True):
            for sel, nd, pop in (("rand", 1, 4), ("rand", 1, 6), ("best", 1, 4), ("best", 2, 6), ("rand", 2, 6)):
                for cx in ("bin", "exp"):
                    for CR in (0.0, 0.51, 1.0) if cx == "bin" else (0.51,):
                        if nd == 2 and (CR != 0.51 or con):
                            continue
                        U.append(("u_de", dict(variant="DE/%s/%d/%s" % (sel, nd, cx), pts="wide" if pop == 6 else 3, pop=pop, F=0.6, CR=CR, con=con, kinds=ks, dev=1 if nd == 2 else dev, seeds=S[:1] if pop == 6 else S)))
            for cx in ("line", "hypercube"):
                U.append(("u_de", dict(variant="DE/best/1/%s" % cx, pts=3, pop=5, F=0.5, CR=0.8, con=con, kinds=ks, dev=dev, seeds=S[:2])))
            U.append(("u_de", dict(variant="DE/rand/1/bin", pts=2, pop=5, F=0.5, CR=0.51, con=con, kinds=ks, dev=dev, seeds=S, n_off=2)))
            for ad, pe, vel in ((True, False, "random"), (True, True, "zero"), (False, False, "zero"), (False, True, "random")):
                if ad:
                    U.append(("u_pso", dict(pts="far", pop=8, adaptive=ad, pertube=pe, vel=vel, con=con, kinds=ks, dev=1, seeds=S[:1])))
                U.append(("u_pso", dict(pts="wide" if ad else 2, pop=4, adaptive=ad, pertube=pe, vel=vel, con=con, kinds=ks, dev=dev, seeds=S)))
            for top, vel in (("star", "zero"), ("ring", "random"), ("ring", "zero")):
                U.append(("u_eppso", dict(pts="wide" if vel == "zero" else 2, pop=5, topology=top, vel=vel, con=con, kinds=ks, dev=dev, seeds=S)))
            for name in ("ES", "SRES", "ISRES"):
                for gamma in (0.85, None) if name == "ES" else (0.85,):
                    U.append(("u_es", dict(name=name, pts=2, gamma=gamma, con=con, kinds=ks, dev=dev, seeds=S[:2])))
                    U.append(("u_es", dict(name=name, pts="wide", gamma=gamma, con=con, kinds=ks, dev=dev, seeds=S[:2], mu=3, lam=7)))
            for bias in (0.5, 0.8, 0.2):
                U.append(("u_brkga", dict(pts=2, con=con, kinds=ks, dev=dev, seeds=S, bias=bias)))
            U.append(("u_g3pcx", dict(pts=3, con=con, kinds=ks, dev=dev, seeds=S)))
            U.append(("u_nrbo", dict(pts="wide", con=con, kinds=ks, dev=dev, seeds=S)))
    for n in (1, 2, 3):
        U.append(("u_toreplacement", dict(n=n)))
    for p in range(4):
        for n in (2, 3, 4, 5) + ((6,) if T else ()):
            U.append(("u_clearing", dict(n=n, part=p, parts=4)))
    for mode in ("python", "cython", "survival"):
        for pr in (0.0, 0.45, 1.0):
            for n, vals, orders in ((2, 3, 2), (3, 3 if mode != "survival" and pr != 0.45 else 2, 3 if mode != "survival" else 1)):
                U.append(("u_ranking", dict(mode=mode, n=n, vals=vals, pr=pr, orders=orders if mode != "survival" else 1)))
            if pr != 0.45 or mode == "python":
                U.append(("u_ranking", dict(mode=mode, n=4, vals=3 if T and mode != "survival" else 2, pr=pr, orders=1)))
            if pr == 0.45 and mode != "survival":
                U.append(("u_ranking", dict(mode=mode, n=3, vals=3, pr=pr, orders=1)))
    return U
