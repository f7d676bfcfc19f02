"""P34: local and univariate searches run in lock-step with the published rule."""

import itertools

import numpy as np

from vmc.rng import ScriptRNG, explore

PROPERTY = "P34"
RULE = ("an execution is one run of a search whose every request is compared with the set of requests the published rule allows after the same "
        "answers; outcomes are distinct (search, sequence of moves) results")
BOUNDS = {
    "quick": "Nelder-Mead (2 and 3 variables, bounded, at the bounds, unbounded, several parameters) and pattern search (1-3 variables): all sequences of 5 (4) "
             "answers out of 5 (4) classes (better than the best ... worse than the worst, infeasible); DIRECT (1-3 variables): all sequences of answers out of 3 classes (2 for 3 "
             "variables) for the first 6-10 boxes, 6 iterations after them; golden section: all sequences of 8 comparisons; quadratic interpolation: all unimodal tables / 60 quadratics and all sequences "
             "of 6 answers out of 4 classes; Wolfe line search: all cubics/quartics with small coefficients x 4 directions x 3 parameter sets",
    "thorough": "as quick with 2 more answers in each sequence",
}
TOL = 1e-9


# ---- environment: answers by quality ----------------------------------------------------------------
# q < 100: feasible with objective q;  q >= 100: infeasible with violation q - 99 and an attractive objective

def fg(q):
    return (q, -1.0) if q < 100 else (-1000.0 - q, q - 99.0)


def problem(n, xl, xu, ieq=1):
    from pymoo.core.problem import Problem

    class Scripted(Problem):
        def __init__(self):
            super().__init__(n_var=n, n_obj=1, n_ieq_constr=ieq, xl=xl, xu=xu)

        def _evaluate(self, X, out, *args, **kwargs):
            raise AssertionError("the search evaluates outside of ask and tell")

        def __deepcopy__(self, memo):
            return self
    return Scripted()


class Env:
    """Answers ask(): memo makes it a function of the design."""

    def __init__(self, algo, prob, answer):
        self.algo, self.prob, self.answer, self.memo = algo, prob, answer, {}

    def q(self, x):
        return self.memo[np.asarray(x, float).tobytes()]

    def step(self, on_request=None):
        from pymoo.core.population import pop_from_array_or_individual
        from pymoo.problems.static import StaticProblem
        inf = self.algo.ask()
        if inf is None:
            return None
        pop = pop_from_array_or_individual(inf)
        X = [np.array(x, float) for x in pop.get("X")]
        if on_request:
            on_request(X)
        Q = []
        for x in X:
            k = x.tobytes()
            if k not in self.memo:
                self.memo[k] = float(self.answer(x))
            Q.append(self.memo[k])
        for ind, q in zip(pop, Q):
            if not ind.evaluated:
                f, g = fg(q)
                vals = {"F": np.array([[f]]), "G": np.array([[g]])} if self.prob.n_ieq_constr else {"F": np.array([[f]])}
                self.algo.evaluator.eval(StaticProblem(self.prob, **vals), ind)
        self.algo.tell(infills=inf)
        return X, Q


class Stop(Exception):
    pass


class Wrong(Exception):
    def __init__(self, key, msg):
        self.key, self.msg = key, msg


# ---- Nelder-Mead ------------------------------------------------------------------------------------

def step_limit(p, d, xl, xu):
    """Largest step along d that stays within the bounds."""
    t = float("inf")
    for a, b, lo, hi in zip(p, d, xl if xl is not None else [-np.inf] * len(p), xu if xu is not None else [np.inf] * len(p)):
        if b > 0:
            t = min(t, (hi - a) / b)
        elif b < 0:
            t = min(t, (lo - a) / b)
    return max(t, 0.0)


def nm_machine(x0, xl, xu, params, scale):
    """Generator of requests (list of points), is sent the qualities; yields ("pop", sorted simplex) after each iteration."""
    n = len(x0)
    al, be, ga, de = params
    clip = lambda x: x if xl is None else np.minimum(np.maximum(x, xl), xu)
    S = [np.array(x0)]
    for k in range(n):
        x = np.array(x0)
        if xl is None:
            x[k] += scale * x0[k] if x0[k] != 0 else 0.00025
        else:
            d = scale * (xu[k] - xl[k])
            x[k] = x[k] + d if x[k] + d < xu[k] else x[k] - d
        S.append(x)
    Q = yield "simplex", S
    pts = sorted(zip(Q, range(n + 1)), key=lambda t: t[0])
    pop = [(S[i], q) for q, i in pts]
    while True:
        yield "pop", pop
        c = np.mean([p[0] for p in pop[:n]], axis=0)
        worst = pop[n]
        d = c - worst[0]
        xr = clip(c + min(al, step_limit(c, d, xl, xu)) * d)
        qr = (yield "reflect", [xr])[0]
        shrink = False
        if qr < pop[0][1]:
            e = xr - c
            xe = clip(c + min(be, step_limit(c, e, xl, xu)) * e)
            qe = (yield "expand", [xe])[0]
            new = (xe, qe) if qe < qr else (xr, qr)
        elif qr < pop[n - 1][1]:
            new = (xr, qr)
        elif qr < worst[1]:
            xc = c + ga * (xr - c)
            qc = (yield "outside", [xc])[0]
            new = (xc, qc) if qc < qr else None
        else:
            xc = c - ga * (xr - c)
            qc = (yield "inside", [xc])[0]
            new = (xc, qc) if qc < worst[1] else None
        if new is not None:
            pop = pop[:n] + [new]
        else:
            X = [pop[0][0] + de * (p[0] - pop[0][0]) for p in pop[1:]]
            Q = yield "shrink", X
            pop = [pop[0]] + list(zip(X, Q))
        pop = sorted(pop, key=lambda p: p[1])


NMC = {
    "bounded": dict(x0=[0.5, 0.25], xl=[0.0, 0.0], xu=[1.0, 1.0]),
    "corner": dict(x0=[1.0, 0.0], xl=[-1.0, 0.0], xu=[1.0, 3.0]),
    "free": dict(x0=[0.0, 2.0], xl=None, xu=None),
    "three": dict(x0=[0.9, 0.5, 0.1], xl=[0.0, 0.0, 0.0], xu=[1.0, 2.0, 1.0]),
    "default": dict(x0=[0.25, 0.75], xl=[0.0, 0.0], xu=[1.0, 1.0], params="default"),
    "scaled": dict(x0=[0.5, 0.5], xl=[0.0, -1.0], xu=[1.0, 1.0], scale=0.4),
    "free-infeasible": dict(x0=[1.0, -2.0], xl=None, xu=None, base=[140.0, 120.0, 130.0]),
    "mixed": dict(x0=[0.5, 0.25], xl=[0.0, 0.0], xu=[1.0, 1.0], base=[120.0, 10.0, 130.0]),
}


def u_nelder(ctx, conf, depth, first):
    from pymoo.algorithms.soo.nonconvex.nelder import NelderMead, adaptive_params, default_params
    C = NMC[conf]
    x0 = np.array(C["x0"])
    n = len(x0)
    xl = None if C["xl"] is None else np.array(C["xl"])
    xu = None if C["xu"] is None else np.array(C["xu"])
    base = C.get("base", [30.0, 10.0, 20.0, 15.0])
    scale = C.get("scale", 0.05)
    P = (1, 1 + 2 / n, 0.75 - 1 / (2 * n), 1 - 1 / n) if C.get("params") is None else (1, 2.0, 0.5, 0.05)
    prob = problem(n, xl, xu)
    kw = {} if C.get("params") is None else {"func_params": default_params}
    if "scale" in C:
        kw["init_simplex_scale"] = scale

    def run(o):
        st = {"pop": None, "mode": "x0", "k": 0, "n": 0, "moves": []}
        ref = nm_machine(x0, xl, xu, P, scale)

        def answer(x):
            if st["mode"] in ("x0", "simplex"):
                st["n"] += 1
                return base[st["n"] - 1]
            q = [p[1] for p in st["pop"]]
            if st["mode"] == "shrink":
                st["n"] += 1
                return q[0] + (q[-1] - q[0]) * (0.3 + 0.11 * ((st["n"] * 5) % 7)) if st["n"] % 3 else q[0] - 0.001 * st["n"]
            if st["k"] >= depth:
                raise Stop()
            c = first if st["k"] == 0 else o.choose(5)
            st["k"] += 1
            if c == 0:
                return q[0] - 1.0 - st["k"] * 0.01
            if c == 1 and st["mode"] == "expand":
                return q[0] - 0.5
            if c == 1:
                return (q[0] + q[n - 1]) / 2 + 0.001 * st["k"]
            if c == 2:
                return (q[n - 1] + q[n]) / 2 + 0.001 * st["k"]
            if c == 3:
                return q[n] + 1.0
            return max(150.0, q[n] + 10.0) + st["k"] * 0.1

        algo = NelderMead(x0=np.array(x0), **kw)
        algo.setup(prob, termination=("n_eval", 10000), seed=1)
        env = Env(algo, prob, answer)
        env.step()
        kind, X = next(ref)
        try:
            st["mode"] = "simplex"
            while True:
                want = X

                def compare(got):
                    if len(got) != len(want) or any(np.max(np.abs(a - b)) > TOL for a, b in zip(got, want)):
                        raise Wrong(kind, "%s step requests %s instead of %s (simplex %s)" % (
                            kind, [g.tolist() for g in got], [w.tolist() for w in want], st["pop"]))
                r = env.step(compare)
                ctx.trans()
                if r is None:
                    raise Wrong("ended", "the search ended")
                st["moves"].append(kind)
                kind, X = ref.send(r[1])
                if kind == "pop":
                    st["pop"] = X
                    got = [(np.array(a, float), env.q(a)) for a in algo.pop.get("X")]
                    if [g[1] for g in got] != [p[1] for p in X] or any(np.max(np.abs(g[0] - p[0])) > TOL for g, p in zip(got, X)):
                        raise Wrong("simplex", "simplex %s instead of %s after %s" % (got, X, st["moves"]))
                    kind, X = next(ref)
                st["mode"] = kind
        except Stop:
            pass
        except Wrong as e:
            ctx.viol("NelderMead:%s" % e.key, e.msg, configuration=conf, choices=o.choices)
        ctx.state()
        ctx.trace()
        ctx.outcome(conf, tuple(st["moves"]))
    explore(run, max_dev=99)


# ---- pattern search ---------------------------------------------------------------------------------

PSC = {
    "bounded": dict(x0=[0.5, 0.25], xl=[0.0, 0.0], xu=[1.0, 1.0]),
    "corner": dict(x0=[0.9, 0.0], xl=[-1.0, 0.0], xu=[1.0, 3.0], rho=0.3),
    "free": dict(x0=[0.0, 6.0], xl=None, xu=None, step=2.0),
    "one": dict(x0=[0.3], xl=[-1.0], xu=[2.0], delta=0.1),
    "three": dict(x0=[0.9, 0.5, 0.1], xl=[0.0, 0.0, 0.0], xu=[1.0, 2.0, 1.0]),
}


def u_pattern(ctx, conf, depth, first, dev):
    from pymoo.algorithms.soo.nonconvex.pattern import PatternSearch
    C = PSC[conf]
    x0 = np.array(C["x0"])
    n = len(x0)
    xl = None if C["xl"] is None else np.array(C["xl"])
    xu = None if C["xu"] is None else np.array(C["xu"])
    rho0, d0, ss = C.get("rho", 0.5), C.get("delta", 0.25), C.get("step", 1.0)
    delta = d0 * (xu - xl) if xl is not None else np.where(np.abs(x0) / 2 <= 1.0, 1.0, np.abs(x0) / 2)
    clip = lambda x: x if xl is None else np.minimum(np.maximum(x, xl), xu)
    T = lambda x: tuple(float(v) for v in x)
    prob = problem(n, xl, xu)

    def along(x, k, s, nn):
        y = np.array(x)
        y[k] += s * rho0 ** nn * delta[k]
        return clip(y)

    def expand(s):
        """Resolve the steps without a request: state -> state in which a request is due."""
        center, explr, sign, nn, stage = s
        while True:
            if stage is None:
                if explr[1] < center[1]:
                    d = np.array(explr[0]) - np.array(center[0])
                    return (explr, None, sign, nn, ("pattern", T(d)))
                nn += 1
                stage = ("expl", center, tuple(range(n)), None)
            elif stage[0] == "expl" and not stage[2] and stage[3] is None:
                explr, stage = stage[1], None
            else:
                return (center, explr, sign, nn, stage)

    def requests(s):
        center, explr, sign, nn, stage = s
        if stage[0] == "pattern":
            yield clip(np.array(center[0]) + ss * np.array(stage[1])), ("trial",)
        elif stage[3] is not None:
            k = stage[3]
            yield along(stage[1][0], k, -sign[k], nn), ("neg", k)
        else:
            for k in stage[2]:
                yield along(stage[1][0], k, sign[k], nn), ("pos", k)

    def answered(s, what, x, q):
        center, explr, sign, nn, stage = s
        p = (T(x), q)
        if what[0] == "trial":
            sg = tuple(1.0 if v > 0 else -1.0 for v in stage[1])
            return expand((center, None, sg, nn, ("expl", p, tuple(range(n)), None)))
        _, base, axes, pend = stage
        if what[0] == "pos":
            axes = tuple(a for a in axes if a != what[1])
            if q < base[1]:
                return expand((center, explr, sign, nn, ("expl", p, axes, None)))
            return expand((center, explr, sign, nn, ("expl", base, axes, what[1])))
        return expand((center, explr, sign, nn, ("expl", p if q < base[1] else base, axes, None)))

    def run(o):
        st = {"k": 0, "states": None, "seen": [20.0], "moves": []}

        def answer(x):
            if st["states"] is None:
                return 20.0
            if st["k"] >= depth:
                raise Stop()
            c = first if st["k"] == 0 else o.choose(4)
            st["k"] += 1
            seen = sorted(st["seen"])
            q = [seen[-1] + 1.0 + 0.01 * st["k"], seen[0] - 1.0, (seen[0] + seen[min(1, len(seen) - 1)]) / 2 + 0.0001, max(140.0, seen[-1] + 5.0) if st["k"] % 2 else seen[0]][c]
            st["seen"].append(q)
            return q

        algo = PatternSearch(x0=np.array(x0), init_rho=rho0, init_delta=d0, step_size=ss)
        algo.setup(prob, termination=("n_eval", 10000), seed=len(o.prefix) % 5)
        if dev:
            algo.random_state = ScriptRNG(o)
        env = Env(algo, prob, answer)
        env.step()
        c0 = (T(x0), 20.0)
        st["states"] = {expand((c0, c0, (1.0,) * n, 0, None))}
        try:
            while True:
                cand = []

                def compare(got):
                    for s in st["states"]:
                        for x, w in requests(s):
                            if len(got) == 1 and np.max(np.abs(got[0] - x)) <= TOL:
                                cand.append((s, w))
                    if not cand:
                        s = next(iter(st["states"]))
                        raise Wrong(s[4][0], "request %s, allowed %s (center %s, moves %s)" % (
                            [g.tolist() for g in got], [T(x) for s in st["states"] for x, _ in requests(s)], s[0], st["moves"]))
                r = env.step(compare)
                ctx.trans()
                if r is None:
                    raise Wrong("ended", "the search ended")
                st["moves"].append(cand[0][1][0])
                st["states"] = {answered(s, w, r[0][0], r[1][0]) for s, w in cand}
        except Stop:
            pass
        except Wrong as e:
            ctx.viol("PatternSearch:%s" % e.key, e.msg, configuration=conf, choices=o.choices)
        ctx.state()
        ctx.trace()
        ctx.outcome(conf, tuple(st["moves"]))
    explore(run, max_dev=99)


# ---- DIRECT -----------------------------------------------------------------------------------------

def u_direct(ctx, n, xl, xu, depth, classes, iters, con, max_cand=10):
    from pymoo.algorithms.soo.nonconvex.direct import DIRECT
    xl, xu = np.array(xl), np.array(xu)
    prob = problem(n, xl, xu, 1 if con else 0)
    rng = xu - xl

    def run(o):
        st = {"k": 0}

        def answer(x):
            st["k"] += 1
            c = o.choose(classes) if st["k"] <= depth else (st["k"] * 7) % 3
            q = 10.0 + 3.0 * c + 0.25 * st["k"] * (1 if c == 1 else -1)
            return q + (100.0 if con and c == 2 else 0.0)

        algo = DIRECT(n_max_candidates=max_cand)
        algo.setup(prob, termination=("n_eval", 10000), seed=1)
        env = Env(algo, prob, answer)
        boxes = None
        try:
            for it in range(iters):
                before = boxes
                r = env.step()
                ctx.trans()
                if it == 0:
                    if len(r[0]) != 1 or np.max(np.abs(r[0][0] - (xl + xu) / 2)) > TOL:
                        raise Wrong("center", "the first point is %s" % r[0])
                boxes = {}
                vol = 0.0
                for ind in algo.pop:
                    lo, hi, x = (np.array(v, float) for v in (ind.get("xl"), ind.get("xu"), ind.X))
                    if np.max(np.abs(x - (lo + hi) / 2) / rng) > 1e-9:
                        raise Wrong("middle", "%s is not the middle of its box %s %s" % (x, lo, hi))
                    if np.any(lo < xl - 1e-9) or np.any(hi > xu + 1e-9):
                        raise Wrong("outside", "box %s %s" % (lo, hi))
                    vol += float(np.prod((hi - lo) / rng))
                    boxes[x.tobytes()] = (x, lo, hi, env.q(x))
                B = list(boxes.values())
                if len(B) != len(algo.pop):
                    raise Wrong("twice", "a point is sampled twice")
                if abs(vol - 1.0) > 1e-9:
                    raise Wrong("cover", "the boxes cover %s of the design space" % vol)
                for a, b in itertools.combinations(B, 2):
                    if all(a[1][j] < b[2][j] - 1e-9 * rng[j] and b[1][j] < a[2][j] - 1e-9 * rng[j] for j in range(n)):
                        raise Wrong("overlap", "boxes %s and %s overlap" % (a[1:3], b[1:3]))
                if before:
                    # which boxes were divided, and are they the potentially optimal ones
                    old = list(before.values())
                    div = [k for k, b in enumerate(old) if np.any(boxes[b[0].tobytes()][1] != b[1]) or np.any(boxes[b[0].tobytes()][2] != b[2])]
                    f = np.array([fg(b[3])[0] for b in old])
                    cv = np.array([max(0.0, fg(b[3])[1]) for b in old])
                    nf = (f - f.min()) / (f.max() - f.min()) if f.max() > f.min() else f * 0.0
                    val = nf + 0.1 * cv
                    size = np.array([np.mean((b[2] - b[1]) / rng / 2) for b in old])
                    # sizes are thirds and not exact: boxes of (almost) the same size may be compared either way
                    idx = range(len(old))
                    must = [i for i in idx if all(j == i or val[j] > val[i] + 1e-12 for j in idx if size[j] >= size[i] - 1e-9)]
                    may = [i for i in idx if not any(size[j] > size[i] + 1e-9 and val[j] <= val[i] for j in idx)]
                    if not set(div) <= set(may) or (len(may) <= max_cand and not set(must) <= set(div)) or len(div) > max_cand or len(div) < min(len(must), max_cand):
                        raise Wrong("optimal", "boxes %s of sizes %s and values %s are divided, potentially optimal are %s, at least %s" % (
                            div, size[div], val[div], may, must))
                    if not div:
                        raise Wrong("none", "no box is divided")
                    for k in div:
                        b = old[k]
                        w = (b[2] - b[1]) / rng
                        nb = boxes[b[0].tobytes()]
                        ax = [j for j in range(n) if abs((nb[2][j] - nb[1][j]) - (b[2][j] - b[1][j])) > 1e-12 * rng[j]]
                        if len(ax) != 1 or w[ax[0]] < w.max() - 1e-9 or abs((nb[2][ax[0]] - nb[1][ax[0]]) * 3 - (b[2][ax[0]] - b[1][ax[0]])) > 1e-9 * rng[ax[0]]:
                            raise Wrong("thirds", "box %s %s becomes %s %s" % (b[1], b[2], nb[1], nb[2]))
                    if len(B) != len(old) + 2 * len(div):
                        raise Wrong("children", "%d boxes divided, %d new points" % (len(div), len(B) - len(old)))
                    ctx.outcome("DIRECT", n, tuple(div), it)
        except Wrong as e:
            ctx.viol("DIRECT:%s" % e.key, e.msg, n=n, xl=xl, xu=xu, choices=o.choices)
        ctx.state()
        ctx.trace()
    explore(run, max_dev=99)


# ---- univariate -------------------------------------------------------------------------------------

def uni_problem(f, lo, hi):
    from pymoo.core.problem import Problem

    class Uni(Problem):
        def __init__(self):
            super().__init__(n_var=1, n_obj=1, xl=np.array([lo]), xu=np.array([hi]))
            self.log = []

        def _evaluate(self, X, out, *args, **kwargs):
            v = []
            for x in np.asarray(X, float):
                y = float(f(float(x[0])))
                self.log.append((float(x[0]), y))
                v.append([y])
            out["F"] = np.array(v)

        def __deepcopy__(self, memo):
            return self
    return Uni()


def u_golden(ctx, lo, hi, depth, inner=None):
    from pymoo.algorithms.soo.univariate.golden import GoldenSectionSearch
    from pymoo.core.individual import Individual
    blo, bhi = lo, hi
    lo, hi = inner or (lo, hi)
    R = (5 ** 0.5 - 1) / 2

    def run(o):
        st = {"a": lo, "b": hi, "c": hi - R * (hi - lo), "d": lo + R * (hi - lo), "want": [], "memo": {}, "cmp": []}

        def f(x):
            k = round(x, 12)
            if k not in st["memo"]:
                n = len(st["memo"])
                if n < 4:
                    st["memo"][k] = [5.0, 2.0, 3.0 if o.choose(2) else 1.0, 6.0][n]
                else:
                    m = sorted(st["memo"].values())
                    st["memo"][k] = m[0] - 1.0 if o.choose(2) else m[-1] + 1.0
            return st["memo"][k]
        prob = uni_problem(f, blo, bhi)
        algo = GoldenSectionSearch(**({} if inner is None else dict(a=Individual(X=np.array([lo])), b=Individual(X=np.array([hi])))))
        algo.setup(prob, termination=("n_iter", depth + 1), seed=1)
        try:
            algo.next()
            got = [x for x, _ in prob.log]
            if len(got) != 4 or np.max(np.abs(np.array(got) - [st["a"], st["c"], st["d"], st["b"]])) > TOL:
                raise Wrong("initial", "initial points %s" % got)
            v = dict(zip("acdb", [y for _, y in prob.log]))
            for _ in range(depth):
                k = len(prob.log)
                algo.next()
                ctx.trans()
                a, b, c, d = st["a"], st["b"], st["c"], st["d"]
                if v["c"] < v["d"]:
                    st.update(b=d, d=c)
                    st["c"] = st["b"] - R * (st["b"] - a)
                    w, name = st["c"], "c"
                    v["d"], v["b"] = v["c"], v["d"]
                else:
                    st.update(a=c, c=d)
                    st["d"] = st["a"] + R * (b - st["a"])
                    w, name = st["d"], "d"
                    v["c"], v["a"] = v["d"], v["c"]
                st["cmp"].append(name)
                new = prob.log[k:]
                if len(new) != 1 or abs(new[0][0] - w) > TOL * (hi - lo):
                    raise Wrong("request", "requests %s instead of %s after %s" % (new, w, st["cmp"]))
                v[name] = new[0][1]
                P = [float(x[0]) for x in algo.pop.get("X")]
                if np.max(np.abs(np.array(P) - [st["a"], st["c"], st["d"], st["b"]])) > TOL * (hi - lo):
                    raise Wrong("bracket", "bracket %s instead of %s" % (P, [st["a"], st["c"], st["d"], st["b"]]))
            if algo.evaluator.n_eval != len(prob.log):
                raise Wrong("count", "%s evaluations counted, %s made" % (algo.evaluator.n_eval, len(prob.log)))
        except Wrong as e:
            ctx.viol("GoldenSectionSearch:%s" % e.key, e.msg, lo=lo, hi=hi, choices=o.choices)
        ctx.state()
        ctx.trace()
        ctx.outcome(lo, tuple(st["cmp"]))
    explore(run, max_dev=99)


def u_quadratic(ctx, lo, hi, outer=0.0):
    """A convex parabola is solved by one interpolation, a unimodal function keeps its minimum in the bracket."""
    from pymoo.algorithms.soo.univariate.quadr_interp import QuadraticInterpolationSearch
    from pymoo.core.individual import Individual
    for s, t in itertools.product([k / 12.0 for k in range(13)], range(5)):
        m = lo + s * (hi - lo)
        w = hi - lo
        f = [lambda x: (x - m) ** 2, lambda x: 3.0 * (x - m) ** 2 + 7.0, lambda x: abs(x - m) ** 1.5, lambda x: ((x - m) / w) ** 4 + 0.3 * ((x - m) / w) ** 2,
             lambda x: (x - m) * (0.5 if x > m else -3.0)][t]
        prob = uni_problem(f, lo - outer, hi + outer)
        algo = QuadraticInterpolationSearch(**(dict(a=Individual(X=np.array([lo])), b=Individual(X=np.array([hi]))) if outer else {}))
        algo.setup(prob, termination=("n_iter", 25), seed=1)
        ctx.state()
        width = None
        while algo.has_next():
            algo.next()
            ctx.trans()
            P = sorted(float(x[0]) for x in algo.pop.get("X"))
            if any(not (lo - TOL <= x <= hi + TOL) for x in P):
                ctx.viol("QuadraticInterpolationSearch:outside", "bracket %s outside of [%s, %s]" % (P, lo, hi), shape=t, minimum=m)
                break
            if P[0] > m + 1e-7 * w or P[-1] < m - 1e-7 * w:
                ctx.viol("QuadraticInterpolationSearch:lost", "the minimum %s is not in the bracket %s" % (m, P), shape=t, lo=lo, hi=hi)
                break
            if width is not None and P[-1] - P[0] > width + TOL:
                ctx.viol("QuadraticInterpolationSearch:wider", "bracket %s wider than %s" % (P, width), shape=t, lo=lo, hi=hi)
                break
            width = P[-1] - P[0]
        best = min(abs(x - m) for x, _ in prob.log)
        if any(not np.isfinite(x) for x, _ in prob.log):
            ctx.viol("QuadraticInterpolationSearch:nan", "a point that is not finite is evaluated", shape=t, minimum=m, lo=lo, hi=hi)
        if best > (1e-6 if t < 2 else 0.26) * w:
            ctx.viol("QuadraticInterpolationSearch:optimum", "the best point of 25 iterations is %s away from the minimum %s of [%s, %s]" % (best, m, lo, hi), shape=t)
        if algo.evaluator.n_eval != len(prob.log):
            ctx.viol("QuadraticInterpolationSearch:count", "%s evaluations counted, %s made" % (algo.evaluator.n_eval, len(prob.log)))
        ctx.outcome(lo, t, s, round(best, 6))
    ctx.trace()


def u_quadratic_script(ctx, lo, hi, depth):
    """Whatever the answers are: points stay within the shrinking bracket, the better side is kept."""
    from pymoo.algorithms.soo.univariate.quadr_interp import QuadraticInterpolationSearch

    def run(o):
        memo = {}

        def f(x):
            if x not in memo:
                if not np.isfinite(x):
                    raise Wrong("nan", "evaluates %s after %s" % (x, memo))
                vals = sorted(memo.values())
                k = len(memo)
                c = o.choose(4) if k < depth else 0
                if not vals:
                    memo[x] = 10.0
                else:
                    memo[x] = [vals[-1] + 1.0 + k * 0.1, vals[0] - 1.0 - k * 0.1, (vals[0] + vals[min(1, len(vals) - 1)]) / 2 + 0.001 * k, vals[-1] + 100.0][c]
            return memo[x]
        prob = uni_problem(f, lo, hi)
        algo = QuadraticInterpolationSearch()
        algo.setup(prob, termination=("n_iter", 7), seed=1)
        try:
            a, b = lo, hi
            it = 0
            while algo.has_next() and it < 7 and len(memo) < depth:
                prev = sorted((float(x.X[0]), float(x.F[0])) for x in algo.pop) if it else None
                k = len(prob.log)
                algo.next()
                ctx.trans()
                it += 1
                P = sorted((float(x.X[0]), float(x.F[0])) for x in algo.pop)
                for x, _ in prob.log[k:]:
                    if x < a - TOL or x > b + TOL:
                        raise Wrong("outside", "evaluates %s outside of the bracket [%s, %s]" % (x, a, b))
                if P[0][0] < a - TOL or P[-1][0] > b + TOL:
                    raise Wrong("wider", "bracket %s after [%s, %s]" % (P, a, b))
                if it == 1 and abs(P[1][0] - (lo + hi) / 2) > TOL:
                    raise Wrong("middle", "initial points %s" % (P,))
                if prev and prev[0][0] < prev[1][0] < prev[2][0]:
                    fa, fc, fb = (p[1] for p in prev)
                    if fc >= fa or fc >= fb:
                        # not U shaped: the half next to the better bound is kept
                        want = (prev[0][0], prev[1][0]) if fa <= fb else (prev[1][0], prev[2][0])
                        if abs(P[0][0] - want[0]) > TOL or abs(P[-1][0] - want[1]) > TOL or abs(P[1][0] - sum(want) / 2) > TOL:
                            raise Wrong("side", "bracket %s becomes %s" % (prev, P))
                    else:
                        # the best of the inner points stays inside
                        inner = sorted([prev[1]] + [q for q in prob.log[k:]])
                        if len(inner) == 2 and inner[0][0] < inner[1][0]:
                            (c, yc), (d, yd) = inner
                            want = (prev[0][0], c, d) if yc <= yd else (c, d, prev[2][0])
                            if max(abs(p[0] - w) for p, w in zip(P, want)) > TOL:
                                raise Wrong("bracket", "bracket %s and %s become %s" % (prev, prob.log[k:], P))
                            # the parabola through the three points
                            (xa, _), (xc, _), (xb, _) = prev
                            co = np.polyfit([0.0, (xc - xa) / (xb - xa), 1.0], [fa, fc, fb], 2)
                            v = xa + (xb - xa) * (-co[1] / (2 * co[0]))
                            if abs(prob.log[k][0] - v) > 1e-6 * (xb - xa):
                                raise Wrong("vertex", "vertex of the parabola through %s is %s, evaluated is %s" % (prev, v, prob.log[k]))
                a, b = P[0][0], P[-1][0]
        except Wrong as e:
            ctx.viol("QuadraticInterpolationSearch:%s" % e.key, e.msg, lo=lo, hi=hi, choices=o.choices)
        ctx.state()
        ctx.trace()
        ctx.outcome(lo, tuple(o.choices))
    explore(run, max_dev=99)


def u_wolfe(ctx, part, parts):
    from pymoo.algorithms.soo.univariate.wolfe import wolfe_line_search
    from pymoo.core.evaluator import Evaluator
    from pymoo.core.individual import Individual
    from pymoo.core.problem import Problem
    import signal

    class Poly(Problem):
        """phi(t) along the first axis = c2 t^2 + c3 t^3 + c4 t^4 - t, with a second coordinate added."""

        def __init__(self, c):
            super().__init__(n_var=2, n_obj=1, xl=-100.0, xu=100.0)
            self.c, self.n = c, 0

        def _evaluate(self, X, out, *args, **kwargs):
            c2, c3, c4 = self.c
            t = X[:, 0]
            self.n += len(X)
            out["F"] = (-t + c2 * t ** 2 + c3 * t ** 3 + c4 * t ** 4 + 0.5 * X[:, 1] ** 2)[:, None]
            out["dF"] = np.column_stack([-1 + 2 * c2 * t + 3 * c3 * t ** 2 + 4 * c4 * t ** 3, X[:, 1]])[:, None, :]
    k = 0
    for c in itertools.product((0.05, 0.3, 2.0, 40.0), (-0.05, 0.0, 0.1), (0.01, 0.5)):
        for x0, scale in itertools.product(([0.0, 0.0], [0.0, 1.0], [-1.0, 0.5]), (1.0, 0.2)):
            for c1, c2 in ((1e-4, 0.9), (0.1, 0.4), (1e-3, 0.1)):
                k += 1
                if k % parts != part:
                    continue
                prob = Poly(c)
                s = Individual(X=np.array(x0))
                Evaluator().eval(prob, s, evaluate_values_of=["F", "dF"])
                g = np.array(s.get("dF")[0], float)
                d = -scale * g
                f0, s0 = float(s.F[0]), float(g @ d)
                if s0 >= 0:
                    continue
                # a step has to exist for these parameters within the doublings that are tried
                ctx.state()
                r = wolfe_line_search(prob, s, d, c1=c1, c2=c2)
                ctx.trans()
                al = float(np.ravel(r.get("alpha"))[0])
                X = np.array(x0) + al * d
                out = {}
                prob._evaluate(X[None, :], out)
                f1, s1 = float(out["F"][0, 0]), float(out["dF"][0, 0] @ d)
                ctx.outcome(c, tuple(x0), al)
                bad = lambda kk, t: ctx.viol("wolfe_line_search:" + kk, t, coefficients=c, x0=x0, scale=scale, c1=c1, c2=c2)
                if np.max(np.abs(np.array(r.X, float) - X)) > 1e-9:
                    bad("point", "point %s is not start + %s * direction" % (r.X, al))
                if f1 > f0 + c1 * al * s0 + 1e-9 * abs(f0):
                    bad("decrease", "step %s: value %s, allowed %s" % (al, f1, f0 + c1 * al * s0))
                if abs(s1) > c2 * abs(s0) + 1e-9:
                    bad("curvature", "step %s: slope %s, at the start %s" % (al, s1, s0))
    ctx.trace()


def units(tier):
    x = 2 if tier == "thorough" else 0
    U = []
    for conf in NMC:
        for first in range(5):
            U.append(("u_nelder", dict(conf=conf, depth=5 + x, first=first)))
    for conf in PSC:
        for first in range(4):
            U.append(("u_pattern", dict(conf=conf, depth=5 + x, first=first, dev=0)))
            if conf in ("bounded", "three"):
                U.append(("u_pattern", dict(conf=conf, depth=4 + (1 if x else 0), first=first, dev=1)))
    for con in (False, True):
        U.append(("u_direct", dict(n=1, xl=[0.0], xu=[1.0], depth=6 + x // 2, classes=3, iters=5, con=con)))
        U.append(("u_direct", dict(n=2, xl=[-1.0, 0.0], xu=[2.0, 10.0], depth=6 + x // 2, classes=3, iters=5, con=con)))
        U.append(("u_direct", dict(n=3, xl=[0.0, 0.0, -4.0], xu=[1.0, 1.0, 4.0], depth=7 + x, classes=2, iters=5, con=con)))
    U.append(("u_direct", dict(n=2, xl=[0.0, 0.0], xu=[1.0, 1.0], depth=6, classes=3, iters=6, con=False, max_cand=2)))
    for lo, hi in ((0.0, 1.0), (1.0, 3.0), (-4.0, -1.0), (-5.0, 5.0)):
        U.append(("u_golden", dict(lo=lo, hi=hi, depth=8 + x)))
        U.append(("u_quadratic", dict(lo=lo, hi=hi)))
        U.append(("u_quadratic_script", dict(lo=lo, hi=hi, depth=6 + x)))
    U.append(("u_golden", dict(lo=-2.0, hi=6.0, depth=7, inner=(1.0, 2.0))))
    U.append(("u_quadratic", dict(lo=1.0, hi=2.0, outer=1.5)))
    for p in range(4):
        U.append(("u_wolfe", dict(part=p, parts=4)))
    return U
