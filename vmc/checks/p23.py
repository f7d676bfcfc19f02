"""P23: wrapped problems agree with the problem they wrap."""

import itertools

import numpy as np

from vmc.fp import fp

PROPERTY = "P23"
RULE = "every state is one batch of designs put to one (nested) wrapper of one problem; outcomes are distinct values returned"
BOUNDS = {
    "quick": "11 wrapper settings and all their nestings of depth two over 24 problem shapes (1-3 objectives, 0-2 inequality and 0-1 equality constraints, elementwise or vectorised, all or only declared outputs, bounds asymmetric and negative); "
             "single designs, all pairs of 9 grid designs incl. bounds and the whole grid, through 5 ways to evaluate; all functional problems with up to 3 objectives and 2+1 constraints; static views of up to 3 solutions; line problems over 2 points x 8 directions x 7 steps",
    "thorough": "as quick with all nestings of depth three and all triples of designs",
}
XL, XU = [-1.0, 0.5], [3.0, 2.5]


def f_of(x, k):
    return [x[0] + 2 * x[1], x[0] * x[1] - 3, (x[0] - 1) ** 2 + x[1]][k]


def g_of(x, k):
    return [x[0] - 1, 0.5 - x[1] * x[0]][k]


def h_of(x):
    return x[0] - x[1] * 0.5


class Model:
    """What the definition says, in plain python, one design at a time."""

    def __init__(self, n_obj, n_ieq, n_eq):
        self.n_obj, self.n_ieq, self.n_eq = n_obj, n_ieq, n_eq
        self.xl, self.xu = list(XL), list(XU)
        self.at = lambda x: ([f_of(x, k) for k in range(n_obj)], [g_of(x, k) for k in range(n_ieq)], [h_of(x) for _ in range(n_eq)])
        self.sees = lambda x: x


def base(n_obj, n_ieq, n_eq, elem, full):
    from pymoo.core.problem import Problem

    class Shape(Problem):
        def __init__(self):
            super().__init__(n_var=2, n_obj=n_obj, n_ieq_constr=n_ieq, n_eq_constr=n_eq, xl=np.array(XL), xu=np.array(XU), elementwise=elem)
            self.log = []
            self.tag = "original"

        def _evaluate(self, x, out, *args, **kwargs):
            rows = [x] if self.elementwise else x
            self.log.extend(np.array(r).tolist() for r in rows)
            F = np.array([[f_of(r, k) for k in range(n_obj)] for r in rows])
            G = np.array([[g_of(r, k) for k in range(n_ieq)] for r in rows]).reshape(len(rows), n_ieq)
            H = np.array([[h_of(r) for _ in range(n_eq)] for r in rows]).reshape(len(rows), n_eq)
            vals = dict(F=F)
            if n_ieq or full:
                vals["G"] = G
            if n_eq or full:
                vals["H"] = H
            for k, v in vals.items():
                out[k] = v[0] if self.elementwise else v

        def _calc_pareto_front(self, *args, **kwargs):
            return np.array([[float(i + k) if k % 2 else float(2 - i) for k in range(n_obj)] for i in range(3)])

    return Shape(), Model(n_obj, n_ieq, n_eq)


def violation(G, H, ieq=0.0, eq=1e-4):
    return sum(max(0.0, g - ieq) for g in G) + sum(max(0.0, abs(h) - eq) for h in H)


# --- wrappers: name -> (wrap(problem), model(model), applies(model)) -------------------------------

def change(m, **kw):
    n = Model(0, 0, 0)
    n.__dict__.update(m.__dict__)
    n.__dict__.update(kw)
    return n


def w_penalty(rho):
    def wrap(p):
        from pymoo.constraints.as_penalty import ConstraintsAsPenalty
        return ConstraintsAsPenalty(p, penalty=rho)

    def model(m):
        def at(x):
            F, G, H = m.at(x)
            return [f + rho * violation(G, H) for f in F], [], []
        return change(m, at=at, n_ieq=0, n_eq=0)
    return wrap, model


def w_objective(append, cfg=False):
    def wrap(p):
        from pymoo.constraints.as_obj import ConstraintsAsObjective
        from pymoo.core.individual import Individual
        config = None
        if cfg:
            config = Individual.default_config()
            config["cv_ieq"]["eps"] = 0.25
            config["cv_eq"]["eps"] = 0.75
        return ConstraintsAsObjective(p, config=config, append=append)

    def model(m):
        def at(x):
            F, G, H = m.at(x)
            cv = violation(G, H, 0.25, 0.75) if cfg else violation(G, H)
            return [cv] + (F if append else []), [], []
        return change(m, at=at, n_obj=m.n_obj + 1 if append else 1, n_ieq=0, n_eq=0)
    return wrap, model


def w_bounds(remove):
    def wrap(p):
        from pymoo.constraints.from_bounds import ConstraintsFromBounds
        return ConstraintsFromBounds(p, remove_bonds=remove)

    def model(m):
        def at(x):
            F, G, H = m.at(x)
            return F, G + [l - v for l, v in zip(m.xl, x)] + [v - u for u, v in zip(m.xu, x)], H
        return change(m, at=at, n_ieq=m.n_ieq + 4, xl=None if remove else m.xl, xu=None if remove else m.xu)
    return wrap, model


def w_unit():
    def wrap(p):
        from pymoo.problems.zero_to_one import ZeroToOne
        return ZeroToOne(p)

    def model(m):
        to = lambda x: [l + v * (u - l) for v, l, u in zip(x, m.xl, m.xu)]
        return change(m, at=lambda x: m.at(to(x)), sees=lambda x: m.sees(to(x)), xl=[0.0, 0.0], xu=[1.0, 1.0])
    return wrap, model


def w_single(kind):
    W = [0.5, 0.25, 2.0]

    def wrap(p):
        from pymoo.decomposition.asf import ASF
        from pymoo.decomposition.tchebicheff import Tchebicheff
        from pymoo.decomposition.weighted_sum import WeightedSum
        from pymoo.problems.multi_to_single import MultiToSingleObjective
        if kind == "own":
            class Own:
                def do(self, F, **kwargs):
                    assert not kwargs
                    return F.sum(axis=1)
            return MultiToSingleObjective(p, Own())
        return MultiToSingleObjective(p, dict(sum=WeightedSum, cheb=Tchebicheff, asf=ASF)[kind](), kwargs=dict(weights=np.array((W * 2)[:p.n_obj])))

    def model(m):
        def at(x):
            F, G, H = m.at(x)
            w = (W * 2)[:m.n_obj]
            if kind == "own":
                v = sum(F)
            elif kind == "sum":
                v = sum(a * b for a, b in zip(w, F))
            elif kind == "cheb":
                v = max(a * abs(f) for a, f in zip(w, F))
            else:
                v = max(f / a for a, f in zip(w, F))
            return [v], G, H
        return change(m, at=at, n_obj=1)
    return wrap, model


WRAP = {
    "penalty0.1": (w_penalty(0.1), lambda m: True),
    "penalty100": (w_penalty(100.0), lambda m: True),
    "objective": (w_objective(True), lambda m: True),
    "objective:config": (w_objective(True, True), lambda m: True),
    "violation": (w_objective(False), lambda m: True),
    "bounds": (w_bounds(False), lambda m: m.xl is not None),
    "bounds:removed": (w_bounds(True), lambda m: m.xl is not None),
    "unit": (w_unit(), lambda m: m.xl is not None),
    "sum": (w_single("sum"), lambda m: True),
    "tchebicheff": (w_single("cheb"), lambda m: True),
    "own": (w_single("own"), lambda m: True),
}

KIND = dict(zip(WRAP, "ppooobbusss"))


def same(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-12 * np.maximum(1.0, np.abs(b))))


def rows(m, X):
    vals = [m.at(x) for x in X]
    n = len(X)
    return (np.array([v[0] for v in vals]).reshape(n, m.n_obj), np.array([v[1] for v in vals]).reshape(n, m.n_ieq), np.array([v[2] for v in vals]).reshape(n, m.n_eq))


def judge(ctx, name, q, m, X, sink, deep):
    """q: the wrapper; m: its model; X: a batch of designs."""
    from pymoo.core.evaluator import Evaluator
    from pymoo.core.population import Population
    F, G, H = rows(m, X)
    A = np.array(X, dtype=float)
    keep = A.copy()
    seen = [m.sees(x) for x in X]
    d = dict(wrapper=name, designs=X)
    ctx.state()

    def asked(what):
        ctx.check(same(sink, seen), "sees:" + what, "the wrapped problem is asked for %r instead of %r" % (sink[:4], seen[:4]), **d)

    def ev(**kw):
        del sink[:]
        ctx.trans()
        out = q.evaluate(A, **kw)
        ctx.check(np.array_equal(A, keep), "input", "the designs given are changed", **d)
        return out

    # 1. everything that is declared
    out = ev()
    names = ["F"] + (["G"] if m.n_ieq else []) + (["H"] if m.n_eq else [])
    got = dict(zip(names, out if isinstance(out, tuple) else (out,)))
    want = dict(F=F, G=G, H=H)
    if not ctx.check(list(got) == names and all(same(got[k], want[k]) for k in names), "values", "the values of %s are %r instead of %r" % (name, {k: v.tolist() for k, v in got.items()}, {k: want[k].tolist() for k in names}), **d):
        return
    asked("default")
    ctx.outcome(name, F.tolist())
    if not deep:
        return
    # 2. everything there is, as the evaluator asks for it
    out = ev(return_values_of=["F", "G", "H"], return_as_dictionary=True)
    ctx.check(all(k not in out or same(out[k], want[k]) for k in want) and same(out["F"], F), "values:all", "asked for F, G and H, %s answers %r" % (name, {k: out[k].tolist() for k in want if k in out}), **d)
    asked("all")
    # 3. the objectives only
    out = ev(return_values_of=["F"])
    ctx.check(same(out, F), "values:F", "asked for F only, %s answers %r" % (name, np.asarray(out).tolist()), **d)
    # 4. each solution on its own as vector
    for i, x in enumerate(X):
        out = q.evaluate(np.array(x), return_values_of=names, return_as_dictionary=True)
        ctx.trans()
        ctx.check(all(same(out[k], want[k][i]) for k in names), "values:vector", "a single vector is answered with %r" % ({k: out[k].tolist() for k in names},), **d)
    # 5. as a population
    pop = Population.new(X=A)
    E = Evaluator()
    del sink[:]
    E.eval(q, pop)
    ctx.trans()
    asked("population")
    cv = [violation(g, h) for g, h in zip(G, H)]
    ctx.check(same(pop.get("F"), F) and same(pop.get("CV")[:, 0], cv) and same(pop.get("X"), keep) and E.n_eval == len(X), "population",
              "evaluated as a population the solutions have F %s and CV %s instead of %s and %s" % (pop.get("F").tolist(), pop.get("CV").tolist(), F.tolist(), cv), **d)
    ctx.check(pop.get("feas").tolist() == [c <= 0 for c in cv], "population:feas", "feasibility does not follow the violation", **d)


def declared(ctx, name, q, m):
    d = dict(wrapper=name)
    got = (q.n_var, q.n_obj, q.n_ieq_constr, q.n_eq_constr, q.n_constr, bool(q.has_constraints()), bool(q.has_bounds()))
    want = (2, m.n_obj, m.n_ieq, m.n_eq, m.n_ieq + m.n_eq, m.n_ieq + m.n_eq > 0, m.xl is not None)
    ctx.check(got == want, "declared", "%s declares (n_var, n_obj, n_ieq, n_eq, n_constr, constrained, bounded) = %r instead of %r" % (name, got, want), **d)
    xl, xu = q.bounds()
    ctx.check((xl is None and xu is None) if m.xl is None else (same(xl, m.xl) and same(xu, m.xu)), "declared:bounds", "the bounds are %r, %r instead of %r, %r" % (xl, xu, m.xl, m.xu), **d)
    ctx.check(getattr(q, "tag", None) == "original", "passes", "an attribute of the wrapped problem is not passed through", **d)


def u_wrap(ctx, n_obj, n_ieq, n_eq, elem, full, depth):
    from itertools import product
    grid01 = list(product([0.0, 0.375, 1.0], [0.0, 0.5, 1.0]))
    # a wrapper cannot be put around itself (refused with an error by the language)
    for chain in [c for k in range(1, depth + 1) for c in product(WRAP, repeat=k) if len({KIND[w] for w in c}) == k]:
        p, m = base(n_obj, n_ieq, n_eq, elem, full)
        sink = p.log
        ok = True
        q = p
        stack = []
        for w in chain:
            (wrap, model), applies = WRAP[w]
            if not applies(m):
                ok = False
                break
            stack.append((q, m, fp({k: v for k, v in q.__dict__.items() if k not in ("__object__", "__super__", "log", "cache", "decomposition")})))
            q, m = wrap(q), model(m)
        if not ok:
            continue
        name = " of ".join(reversed(chain))
        ctx.trace()
        # the log is shared with the innermost original only if evaluations reach that very object
        declared(ctx, name, q, m)
        lo, hi = (m.xl, m.xu) if m.xl is not None else (XL, XU)
        X = [[l + t * (u - l) for t, l, u in zip(ts, lo, hi)] for ts in grid01]
        judge(ctx, name, q, m, X, sink, True)
        judge(ctx, name, q, m, X[3:4], sink, True)
        k = 3 if ctx.tier == "thorough" and len(chain) == 1 else 2
        for I in itertools.product(range(len(X)), repeat=k):
            judge(ctx, name, q, m, [X[i] for i in I], sink, False)
        if len(chain) == 1 and chain[0].startswith("objective"):
            pf = q.pareto_front()
            ref = p.pareto_front()
            want = [[0.0] + list(r) for r in ref.tolist()]
            ctx.check(sorted(pf.tolist()) == sorted(want) and sorted(q.pareto_front().tolist()) == sorted(want), "front", "the front of %s is not the original one with no violation" % name, front=pf)
            ctx.check(p.pareto_front().tolist() == ref.tolist(), "front:original", "the front of the wrapped problem changes")
        if len(chain) == 1 and chain[0] == "unit":
            for x in X:
                z = q.denormalize(np.array(x))
                ctx.check(same(z, m.sees(x)) and same(q.normalize(z), x), "unit:map", "denormalize/normalize do not map between the two spaces", design=x, mapped=z)
        # what was wrapped is as it was before
        for o, om, before in stack:
            now = fp({k: v for k, v in o.__dict__.items() if k not in ("__object__", "__super__", "log", "cache", "decomposition")})
            if not ctx.check(now == before, "unchanged", "wrapping or evaluating changes the wrapped problem", wrapper=name):
                return
        del p.log[:]
        ctx.check(same(np.atleast_2d(p.evaluate(np.array(XL), return_values_of=["F"])), rows(stack[0][1], [XL])[0]), "unchanged:values", "the wrapped problem answers differently afterwards", wrapper=name)


def u_functional(ctx):
    from pymoo.problems.functional import FunctionalProblem
    for no, ni, ne in itertools.product([1, 2, 3], [0, 1, 2], [0, 1]):
        m = Model(no, ni, ne)
        objs = [lambda x, k=k: f_of(x, k) for k in range(no)]
        forms = [objs] + ([objs[0]] if no == 1 else []) + ([tuple(objs)] if no > 1 else [])
        for o, bounds in itertools.product(forms, [(np.array(XL), np.array(XU)), (-1, 3), (None, None)]):
            kw = {}
            if ni:
                kw["constr_ieq"] = [lambda x, k=k: g_of(x, k) for k in range(ni)]
            if ne:
                kw["constr_eq"] = [h_of]
            if no > 1:
                kw["func_pf"] = lambda: np.array([[float(i), 3.0 - i, 1.0][:no] for i in (2, 0, 1)])
                kw["func_ps"] = lambda: np.array([[1.0, 2.0], [0.0, 1.0]])
            p = FunctionalProblem(2, o, xl=bounds[0], xu=bounds[1], **kw)
            ctx.trace()
            name = "functional(%d,%d,%d)" % (no, ni, ne)
            mm = change(m, xl=None if bounds[0] is None else [-1.0, 0.5 if not np.isscalar(bounds[0]) else -1.0], xu=None if bounds[0] is None else [3.0, 2.5 if not np.isscalar(bounds[0]) else 3.0])
            p.tag = "original"
            declared(ctx, name, p, mm)
            X = [list(x) for x in itertools.product([-1.0, 0.5, 3.0], [0.5, 1.25, 2.5])]
            for B in [X] + [[a, b] for a in X for b in X]:
                seen = []
                F, G, H = rows(m, B)
                out = p.evaluate(np.array(B), return_values_of=["F", "G", "H"])
                ctx.trans()
                ctx.state()
                ctx.check(same(out[0], F) and same(out[1], G) and same(out[2], H), "functional", "%s answers %r" % (name, [v.tolist() for v in out]), designs=B)
            if no > 1:
                want = sorted([[float(i), 3.0 - i, 1.0][:no] for i in range(3)])
                ctx.check(sorted(p.pareto_front().tolist()) == want and (no != 2 or p.pareto_front().tolist() == want) and p.pareto_set().tolist() == [[1.0, 2.0], [0.0, 1.0]], "functional:front", "the front or set differs from the functions given")
            else:
                ctx.check(p.pareto_front() is None and p.pareto_set() is None, "functional:none", "a front is invented")
            ctx.outcome(name)


def u_static(ctx):
    from pymoo.core.evaluator import Evaluator
    from pymoo.core.population import Population
    from pymoo.problems.static import StaticProblem
    vals = [0.0, -1.5, 2.0]
    for no, ni, ne, elem in itertools.product([1, 2], [0, 1], [0, 1], [False, True]):
        for n in (1, 2, 3):
            for k in range(6):
                p, m = base(no, ni, ne, elem, False)
                F = np.array([[vals[(i + j + k) % 3] + i for j in range(no)] for i in range(n)])
                G = np.array([[vals[(2 * i + j + k) % 3] for j in range(ni)] for i in range(n)]).reshape(n, ni)
                H = np.array([[vals[(i + 2 * j + k) % 3] for j in range(ne)] for i in range(n)]).reshape(n, ne)
                kw = dict(F=F)
                if ni:
                    kw["G"] = G
                if ne:
                    kw["H"] = H
                if k % 2:
                    kw["note"] = np.arange(n) + 10
                q = StaticProblem(p, **kw)
                pop = Population.new(X=np.array([[float(i), 1.0] for i in range(n)]))
                E = Evaluator()
                E.eval(q, pop)
                ctx.trans()
                ctx.state()
                cv = [violation(g, h) for g, h in zip(G, H)]
                d = dict(shape=(no, ni, ne, elem), n=n, k=k)
                ctx.check(same(pop.get("F"), F) and same(pop.get("CV")[:, 0], cv) and (not ni or same(pop.get("G"), G)) and (not ne or same(pop.get("H"), H)), "static", "the solutions do not get the values provided: F %s" % pop.get("F").tolist(), **d)
                ctx.check(not (k % 2) or pop.get("note").tolist() == (np.arange(n) + 10).tolist(), "static:extra", "an extra value is lost", **d)
                ctx.check(p.log == [] and p.elementwise == elem and E.n_eval == n, "static:unchanged", "the wrapped problem is evaluated or changed", **d)
                declared(ctx, "static", q, m)
                out = q.evaluate(pop.get("X"), return_as_dictionary=True)
                ctx.check(same(out["F"], F), "static:direct", "evaluating the static problem gives other values", **d)
                ctx.outcome(F.tolist())


def u_line(ctx):
    from pymoo.algorithms.base.line import LineSearchProblem
    from pymoo.core.individual import Individual
    for elem, point, direction, strict in itertools.product([False, True], [[0.0, 1.0], [-1.0, 2.5]], [(1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (-1, -0.5), (2, -1), (-0.5, 1)], [True, False]):
        p, m = base(1, 0, 0, elem, False)
        q = LineSearchProblem(p, Individual(X=np.array(point)), np.array(direction, dtype=float), strict_bounds=strict)
        ctx.trace()
        A = [0.0, 0.125, 0.5, 1.0, 1.5, 3.0, 10.0]
        pts = []
        for a in A:
            x = [v + a * s for v, s in zip(point, direction)]
            if strict:
                x = [min(max(v, l), u) for v, l, u in zip(x, XL, XU)]
            pts.append(x)
        want = [[f_of(x, 0)] for x in pts]
        d = dict(point=point, direction=direction, strict=strict, elementwise=elem)
        out = q.evaluate(np.array(A)[:, None], return_values_of=["F"], return_as_dictionary=True)
        ctx.trans()
        ctx.state()
        ctx.check(same(out["F"], want), "line", "the values along the line are %s instead of %s" % (out["F"].tolist(), want), **d)
        ctx.check(same(out["__X__"], pts), "line:designs", "the designs along the line are %s instead of %s" % (np.asarray(out["__X__"]).tolist(), pts), **d)
        for a, w in zip(A, want):
            ctx.check(same(q.evaluate(np.array([a]), return_values_of=["F"]), w), "line:vector", "a single step is answered differently", step=a, **d)
        ctx.check((p.n_var, p.xl.tolist(), p.xu.tolist()) == (2, XL, XU) and (q.n_var, q.n_obj) == (1, 1), "line:declared", "the declarations are wrong or the original is changed", **d)
        ctx.outcome(tuple(map(tuple, pts)))


def units(tier):
    U = [("u_functional", {}), ("u_static", {}), ("u_line", {})]
    for no, ni, ne in itertools.product([1, 2, 3], [0, 2], [0, 1]):
        for elem in (False, True):
            full = (no + ni + ne) % 2 == 0
            U.append(("u_wrap", dict(n_obj=no, n_ieq=ni, n_eq=ne, elem=elem, full=full, depth=3 if tier == "thorough" else 2)))
            U.append(("u_wrap", dict(n_obj=no, n_ieq=ni, n_eq=ne, elem=elem, full=not full, depth=2 if tier == "thorough" else 1)))
    return U
