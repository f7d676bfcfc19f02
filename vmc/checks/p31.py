"""P31: gradients agree with the function they differentiate."""

import itertools
import math
import warnings

import numpy as np

PROPERTY = "P31"
RULE = "every state is one program (expression trees for the objectives and constraints) under one tool at one batch of designs; outcomes are distinct tool/shape patterns"
BOUNDS = {
    "quick": "all expression trees over two variables and a constant with 7 unary and 4 binary operations up to two levels (1200), as objectives and constraints, x 3 batches x 5 tools (jax: every fourth program); "
             "all splits of 6 outputs into objectives and constraints x all subsets of requested values; all histories of {gradient, plain, failing} evaluations up to depth 4; "
             "all benchmarks written for gradients on a grid of interior designs",
    "thorough": "all trees of two levels with both operands composed (7000), jax on all of them, denser grids",
}

U = {
    "sin": (math.sin, lambda a: math.cos(a)),
    "cos": (math.cos, lambda a: -math.sin(a)),
    "exp": (math.exp, lambda a: math.exp(a)),
    "sqrt": (math.sqrt, lambda a: 0.5 / math.sqrt(a)),
    "log": (math.log, lambda a: 1 / a),
    "sq": (lambda a: a * a, lambda a: 2 * a),
    "neg": (lambda a: -a, lambda a: -1.0),
}
B = {
    "+": (lambda a, b: a + b, lambda a, b: (1, 1)),
    "-": (lambda a, b: a - b, lambda a, b: (1, -1)),
    "*": (lambda a, b: a * b, lambda a, b: (b, a)),
    "/": (lambda a, b: a / b, lambda a, b: (1 / b, -a / b / b)),
}
LEAVES = [("x", 0), ("x", 1), ("c", 1.7)]


def trees(deep):
    E1 = LEAVES + [(u, a) for u in U for a in LEAVES] + [(b, p, q) for b in B for p in LEAVES for q in LEAVES]
    E2 = [(u, a) for u in U for a in E1] + [(b, p, q) for b in B for p in E1 for q in (E1 if deep else LEAVES)]
    return E1 + E2


def exact(e, x):
    """Value and gradient of an expression by the chain rule."""
    k = e[0]
    if k == "x":
        g = [0.0] * len(x)
        g[e[1]] = 1.0
        return x[e[1]], g
    if k == "c":
        return e[1], [0.0] * len(x)
    if k in U:
        v, g = exact(e[1], x)
        f, d = U[k]
        return f(v), [d(v) * t for t in g]
    (v, g), (w, h) = exact(e[1], x), exact(e[2], x)
    f, d = B[k]
    p, q = d(v, w)
    return f(v, w), [p * s + q * t for s, t in zip(g, h)]


def build(e, x, np_):
    """The expression on the columns of x, as a user would write it."""
    k = e[0]
    if k == "x":
        return x[..., e[1]]
    if k == "c":
        return e[1]
    if k in U:
        a = build(e[1], x, np_)
        return a ** 2 if k == "sq" else -a if k == "neg" else getattr(np_, k)(a)
    a, b = build(e[1], x, np_), build(e[2], x, np_)
    return a + b if k == "+" else a - b if k == "-" else a * b if k == "*" else a / b


def ok_at(e, x):
    """Defined, with a positive margin to the edges of the domains, and of moderate size."""
    try:
        v, g = exact(e, x)
    except (ValueError, ZeroDivisionError, OverflowError):
        return False
    def inner(e):
        if e[0] in ("x", "c"):
            return True
        if e[0] in U:
            return inner(e[1]) and (e[0] not in ("sqrt", "log") or exact(e[1], x)[0] > 0.05)
        return inner(e[1]) and inner(e[2]) and (e[0] != "/" or abs(exact(e[2], x)[0]) > 0.05)
    return inner(e) and all(abs(t) < 1e6 for t in [v] + g)


POINTS = [(0.6, 1.3), (1.9, 0.4), (1.0, 1.0), (0.3, 2.2)]


def program(exprs, split, style, n_var=2):
    """A problem computing the expressions: the first split[0] are objectives, then inequalities, then equalities."""
    import pymoo.gradient.toolbox as anp
    from pymoo.core.problem import ElementwiseProblem, Problem
    m, g, h = split
    groups = [("F", exprs[:m]), ("G", exprs[m:m + g]), ("H", exprs[m + g:m + g + h])]
    base = ElementwiseProblem if style.startswith("element") else Problem

    class Program(base):
        def __init__(self):
            super().__init__(n_var=n_var, n_obj=m, n_ieq_constr=g, n_eq_constr=h, xl=0.0, xu=3.0)

        def _evaluate(self, x, out, *args, **kwargs):
            for key, es in groups:
                if not es:
                    continue
                cols = [build(e, x, anp) for e in es]
                if not style.startswith("element"):
                    cols = [c if hasattr(c, "shape") and len(c.shape) else c + 0 * x[:, 0] for c in cols]
                    out[key] = cols if style == "list" else anp.column_stack(cols)
                else:
                    out[key] = cols[0] if len(cols) == 1 and style == "element-scalar" and hasattr(cols[0], "shape") else cols if style == "element-list" else anp.array(cols)
    return Program()


def tools():
    from pymoo.gradient.automatic import AutomaticDifferentiation, ElementwiseAutomaticDifferentiation
    from pymoo.gradient.grad_complex import ComplexNumberGradient
    return {
        "autograd": lambda p: AutomaticDifferentiation(p),
        "autograd-element": lambda p: ElementwiseAutomaticDifferentiation(p),
        "complex": lambda p: ComplexNumberGradient(p),
        "jax": lambda p: AutomaticDifferentiation(p, backend="jax"),
        "jax-element": lambda p: ElementwiseAutomaticDifferentiation(p, backend="jax"),
    }


STYLES = {"autograd": ("columns", "list", "element"), "complex": ("columns", "list", "element"), "jax": ("columns",), "autograd-element": ("element", "element-scalar"), "jax-element": ("element",)}


def want(exprs, split, X):
    V = [[exact(e, x) for e in exprs] for x in X]
    m, g, h = split
    F = np.array([[v for v, _ in r] for r in V], float).reshape(len(X), len(exprs))
    D = np.array([[d for _, d in r] for r in V], float).reshape(len(X), len(exprs), -1)
    o = {}
    for k, a, b in (("F", 0, m), ("G", m, m + g), ("H", m + g, m + g + h)):
        o[k], o["d" + k] = F[:, a:b], D[:, a:b]
    return o


def ask(ctx, tool, style, exprs, split, X, vals, where="program"):
    from pymoo import gradient
    p = program(exprs, split, style)
    info = dict(tool=tool, style=style, split=split, expressions=exprs, X=X, requested=vals)
    keep = X.copy()
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            got = tools()[tool](p).evaluate(X, return_values_of=list(vals), return_as_dictionary=True)
        except Exception as e:
            ctx.viol("%s:raised:%s" % (where, tool), "computing the gradient raised %s: %s" % (type(e).__name__, str(e)[:200]), **info)
            gradient.deactivate()
            return
    ctx.check(gradient.active_backend == "numpy", "backend:left", "the backend is still active after the evaluation", **info)
    ctx.check((X == keep).all(), "%s:argument:%s" % (where, tool), "the designs were changed", **info)
    w = want(exprs, split, X)
    for k in vals:
        if not ctx.check(k in got and got[k].shape == w[k].shape, "%s:shape:%s" % (where, tool), "%s has shape %s instead of %s" % (k, got[k].shape if k in got else None, w[k].shape), **info):
            continue
        tol = 1e-6 if tool == "complex" and k[0] == "d" else 1e-9
        ctx.check(bool(np.all(np.abs(got[k] - w[k]) <= tol * np.maximum(1, np.abs(w[k])))), "%s:%s:%s" % (where, "value" if k[0] != "d" else "gradient", tool),
                  "%s differs from the %s of the program" % (k, "values" if k[0] != "d" else "derivative"), got=got[k], want=w[k], **info)
    ctx.trans()


def u_program(ctx, tool, part, parts):
    deep = ctx.tier == "thorough"
    T = trees(deep)
    for i, e in list(enumerate(T))[part::parts]:
        if tool.startswith("jax") and not deep and i // parts % 4:
            continue
        X = [x for x in POINTS if ok_at(e, x)]
        if not X:
            continue
        # together with a fixed neighbour on either side, so that a mixed up column shows
        exprs = [("sq", ("x", 1)), e, ("*", ("x", 0), ("x", 1))]
        for k, style in enumerate(STYLES[tool]):
            if i % len(STYLES[tool]) != k and not (i < 60 and not tool.startswith("jax")):
                continue
            for rows in ((X, X[:1]) if not tool.startswith("jax") else (X,)):
                ask(ctx, tool, style, exprs, ((3, 0, 0), (1, 1, 1), (1, 2, 0))[i % 3], np.array(rows, float), ("F", "dF", "G", "dG", "H", "dH"))
                ctx.state()
    ctx.outcome("program", tool, part)


def u_shapes(ctx, tool):
    """All splits into objectives and constraints, all subsets of requested values, every batch size."""
    E = [("*", ("x", 0), ("x", 1)), ("sin", ("x", 0)), ("sq", ("x", 1)), ("exp", ("x", 0)), ("/", ("x", 0), ("x", 1)), ("c", 2.0)]
    keys = ("F", "G", "H", "dF", "dG", "dH")
    for m, g, h in itertools.product((1, 2, 3), (0, 1, 2), (0, 1, 2)):
        if tool.startswith("jax") and max(m, g, h) > 2:
            continue
        for n_rows in ((1, 2, 4) if not tool.startswith("jax") else (2,)):
            X = np.array(POINTS[:n_rows], float)
            for rot in range(len(E) if m + g + h <= 3 and not tool.startswith("jax") else 2):
                ex = (E[rot:] + E[:rot] + E)[:m + g + h]
                for style in STYLES[tool] if not tool.startswith("jax") else STYLES[tool][:1]:
                    ask(ctx, tool, style, ex, (m, g, h), X, keys, "shapes")
                    ctx.state()
        if (m, g, h) in ((1, 0, 0), (2, 1, 1), (1, 2, 1)):
            for r in range(1, 7):
                for vals in itertools.combinations(keys, r):
                    ask(ctx, tool, STYLES[tool][0], E[:m + g + h], (m, g, h), np.array(POINTS[:2], float), vals, "requested")
                    ctx.state()
    for only in (0, 1, 5):          # a constant output has a zero gradient
        for split in ((1, 0, 0), (1, 1, 0), (1, 0, 1)):
            for pos in range(sum(split)):
                ex = [E[0], E[1]][:sum(split)]
                ex[pos] = E[5] if only == 5 else ("*", ("c", 2.0), ("c", float(only)))
                for style in STYLES[tool]:
                    if not style.startswith("element"):
                        ask(ctx, tool, style, ex, split, np.array(POINTS[:2], float), keys, "constant")
                    elif style == "element":
                        ask(ctx, tool, style, ex, split, np.array(POINTS[:2], float), keys, "constant")
                    ctx.state()
    # a single design gives values without the batch axis
    p = program(E[:2], (2, 0, 0), STYLES[tool][0])
    try:
        F, dF = tools()[tool](p).evaluate(np.array(POINTS[0]), return_values_of=["F", "dF"])
        w = want(E[:2], (2, 0, 0), [POINTS[0]])
        ctx.check(F.shape == (2,) and dF.shape == (2, 2) and np.allclose(F, w["F"][0]) and np.allclose(dF, w["dF"][0], atol=1e-6), "shapes:single:" + tool, "a single design evaluates differently")
    except Exception as e:
        ctx.viol("shapes:single:" + tool, "a single design raised %s: %s" % (type(e).__name__, e))
    ctx.outcome("shapes", tool)


def u_history(ctx):
    """Gradient evaluations leave no trace: every later evaluation, of whatever kind, is as the first."""
    import pymoo.gradient.toolbox as anp
    from pymoo import gradient
    from pymoo.core.problem import ElementwiseProblem, Problem

    class Fails(Problem):
        def __init__(self):
            super().__init__(n_var=2, n_obj=1, xl=0.0, xu=3.0)

        def _evaluate(self, x, out, *args, **kwargs):
            raise RuntimeError("fails")

    class FailsElement(ElementwiseProblem):
        def __init__(self):
            super().__init__(n_var=2, n_obj=1, xl=0.0, xu=3.0)

        def _evaluate(self, x, out, *args, **kwargs):
            raise RuntimeError("fails")
    ex = [("*", ("x", 0), ("sin", ("x", 1))), ("exp", ("x", 0))]
    X = np.array(POINTS[:2], float)
    w = want(ex, (1, 1, 0), X)
    T = tools()
    kinds = ["plain", "plain-element", "autograd", "autograd-element", "complex", "fail", "fail-element"]
    depth = 4 if ctx.tier == "quick" else 5
    probs = {"columns": program(ex, (1, 1, 0), "columns"), "element": program(ex, (1, 1, 0), "element")}
    wrapped = {k: T[k](probs[STYLES[k][0]]) for k in ("autograd", "autograd-element", "complex")}
    for seq in itertools.product(kinds, repeat=depth):
        gradient.deactivate()
        for i, k in enumerate(seq):
            ctx.trans()
            if k.startswith("fail"):
                q = T["autograd"](Fails()) if k == "fail" else T["autograd-element"](FailsElement())
                try:
                    q.evaluate(X, return_values_of=["F", "dF"])
                    ctx.viol("history:fail", "an error inside the problem was swallowed", history=seq[:i + 1])
                except RuntimeError:
                    pass
            elif k.startswith("plain"):
                p = probs["element" if k.endswith("element") else "columns"]
                o = p.evaluate(X, return_values_of=["F", "G"])
                ctx.check(type(o[0]) is np.ndarray and np.allclose(o[0], w["F"], atol=1e-12) and np.allclose(o[1], w["G"], atol=1e-12), "history:plain", "a plain evaluation changed", history=seq[:i + 1])
            else:
                o = wrapped[k].evaluate(X, return_values_of=["F", "dF", "dG"])
                ctx.check(np.allclose(o[0], w["F"], atol=1e-12) and np.allclose(o[1], w["dF"], atol=1e-6) and np.allclose(o[2], w["dG"], atol=1e-6), "history:gradient", "a gradient evaluation changed", history=seq[:i + 1], tool=k)
            ctx.check(gradient.active_backend == "numpy" and type(anp.array([1.0])) is np.ndarray, "backend:left", "the backend is still active after the evaluation", history=seq[:i + 1])
        ctx.state()
    gradient.deactivate()
    for bad in ("", "torch", "NUMPY", None):
        try:
            gradient.activate(bad)
            ctx.viol("backend:unknown", "an unknown backend was accepted", backend=bad)
        except (ValueError, TypeError):
            pass
        ctx.check(gradient.active_backend == "numpy", "backend:unknown", "refusing a backend changed the active one", backend=bad)
    for k in ("AutomaticDifferentiation", "ElementwiseAutomaticDifferentiation"):
        from pymoo.gradient import automatic
        try:
            getattr(automatic, k)(probs["columns" if k[0] == "A" else "element"], backend="torch").evaluate(X, return_values_of=["F", "dF"])
            ctx.viol("backend:unknown", "an unknown backend was accepted", tool=k)
        except Exception:
            pass
        ctx.check(gradient.active_backend == "numpy", "backend:unknown", "refusing a backend changed the active one", tool=k)
    try:
        automatic.ElementwiseAutomaticDifferentiation(probs["columns"])
        ctx.viol("backend:element", "element-wise differentiation of a vectorized problem was accepted")
    except Exception:
        pass
    ctx.outcome("history")


BENCH = (["ackley", "griewank", "rastrigin", "rosenbrock", "schwefel", "sphere", "zakharov", "himmelblau", "cantilevered_beam", "pressure_vessel", "bnh", "carside", "osy", "srn", "tnk", "welded_beam", "truss2d", "kursawe"]
         + ["zdt%d" % i for i in (1, 2, 3, 4, 6)] + ["dtlz%d" % i for i in range(1, 8)] + ["c1dtlz1", "c1dtlz3", "c2dtlz2", "c3dtlz1", "c3dtlz4", "dc1dtlz1", "dc1dtlz3", "dc2dtlz1", "dc2dtlz3", "dc3dtlz1", "dc3dtlz3"]
         + ["ctp%d" % i for i in range(1, 9)] + ["g%d" % i for i in range(1, 25)])
NO_COMPLEX = {"kursawe", "g2", "schwefel"} | {"ctp%d" % i for i in range(2, 9)}      # they take absolute values, which the complex step cannot differentiate


def u_bench(ctx, part, parts):
    """The gradients of the benchmarks against central differences of their own values, on a grid of interior designs."""
    from pymoo.gradient.automatic import AutomaticDifferentiation
    from pymoo.gradient.grad_complex import ComplexNumberGradient
    from pymoo.problems import get_problem
    deep = ctx.tier == "thorough"
    for name in BENCH[part::parts]:
        p = get_problem(name)
        n = p.n_var
        lev = (0.23, 0.52, 0.81) if not deep else (0.11, 0.23, 0.37, 0.52, 0.66, 0.81)
        R = []
        for c in itertools.product(lev, repeat=min(n, 3)):
            for b in (0.31, 0.64):
                v = np.full(n, b) + 0.013 * np.arange(n) / n
                v[:len(c)] = c
                R.append(v)
        X = p.xl + np.unique(np.array(R), axis=0) * (p.xu - p.xl)
        vals = [k for k, c in (("F", p.n_obj), ("G", p.n_ieq_constr), ("H", p.n_eq_constr)) if c]
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            base = p.evaluate(X, return_values_of=vals, return_as_dictionary=True)
            outs = {}
            for tool, w in (("autograd", AutomaticDifferentiation), ("complex", ComplexNumberGradient)):
                if tool == "complex" and name in NO_COMPLEX:
                    continue
                try:
                    outs[tool] = w(get_problem(name)).evaluate(X, return_values_of=vals + ["d" + k for k in vals], return_as_dictionary=True)
                except Exception as e:
                    ctx.viol("bench:raised:%s:%s" % (tool, name), "the gradient raised %s: %s" % (type(e).__name__, str(e)[:200]), problem=name)
            num = {k: np.zeros(base[k].shape + (n,)) for k in vals}
            err = {k: np.zeros(base[k].shape + (n,)) for k in vals}
            for j in range(n):
                est = []
                for h in (1e-3, 5e-4):
                    s = np.zeros(n)
                    s[j] = h * (p.xu[j] - p.xl[j]) * 0.1
                    D = [p.evaluate(X + q * s, return_values_of=vals, return_as_dictionary=True) for q in (-2, -1, 1, 2)]
                    est.append({k: (D[0][k] - 8 * D[1][k] + 8 * D[2][k] - D[3][k]) / (12 * s[j]) for k in vals})
                for k in vals:
                    num[k][..., j] = est[1][k]
                    err[k][..., j] = np.abs(est[0][k] - est[1][k])
        for tool, o in outs.items():
            for k in vals:
                ctx.check(np.allclose(o[k], base[k], rtol=1e-9, atol=1e-12, equal_nan=True), "bench:value:%s:%s" % (tool, name), "%s changes when gradients are computed" % k, problem=name)
                d = o["d" + k]
                if not ctx.check(d.shape == num[k].shape, "bench:shape:%s:%s" % (tool, name), "d%s has shape %s instead of %s" % (k, d.shape, num[k].shape), problem=name):
                    continue
                scale = np.maximum(1.0, np.abs(num[k])) + np.abs(base[k]).max() * 1e-6
                sure = np.isfinite(num[k]) & (err[k] <= 1e-6 * scale)
                ctx.trans(int(sure.sum()))
                bad = sure & ~(np.abs(d - num[k]) <= 1e-4 * scale)
                if bad.any():
                    i = tuple(np.argwhere(bad)[0])
                    ctx.viol("bench:gradient:%s:%s" % (tool, name), "d%s differs from the slope of the values" % k, problem=name, x=X[i[0]], output=i[1], variable=i[2], got=d[i], slope=num[k][i], count=int(bad.sum()))
        ctx.state(len(X))
        ctx.outcome("bench", name, len(outs))


def u_wrapped(ctx, tool, chain):
    """Derivatives of a wrapped problem are those of the values it returns (central differences of these)."""
    from pymoo.constraints.as_obj import ConstraintsAsObjective
    from pymoo.constraints.as_penalty import ConstraintsAsPenalty
    from pymoo.constraints.from_bounds import ConstraintsFromBounds
    from pymoo.core.problem import Problem
    from pymoo.gradient.automatic import AutomaticDifferentiation
    from pymoo.problems.multi_to_single import MultiToSingleObjective
    from pymoo.problems.zero_to_one import ZeroToOne
    import pymoo.gradient.toolbox as anp

    class Total:
        def do(self, F, **kwargs):
            return F.sum(axis=1)

    wrap = {"unit": ZeroToOne, "bounds": ConstraintsFromBounds, "free": lambda p: ConstraintsFromBounds(p, remove_bonds=True), "penalty": lambda p: ConstraintsAsPenalty(p, penalty=2.0),
            "objective": ConstraintsAsObjective, "single": lambda p: MultiToSingleObjective(p, Total())}

    class Curve(Problem):
        def __init__(self, no, ng, nh):
            super().__init__(n_var=2, n_obj=no, n_ieq_constr=ng, n_eq_constr=nh, xl=np.array([-1.0, 0.5]), xu=np.array([3.0, 2.5]))

        def _evaluate(self, x, out, *args, **kwargs):
            a, b = x[:, 0], x[:, 1]
            out["F"] = anp.column_stack([a ** 2 + 2 * b, a * b, a - b ** 3][:self.n_obj])
            if self.n_ieq_constr:
                out["G"] = anp.column_stack([a * b - 1.0, 0.3 - a][:self.n_ieq_constr])
            if self.n_eq_constr:
                out["H"] = anp.column_stack([a + b * b - 2.0][:self.n_eq_constr])

    h = 1e-6
    for no, ng, nh in itertools.product((1, 2, 3), (0, 1, 2), (0, 1)):
        q = AutomaticDifferentiation(Curve(no, ng, nh), backend=tool) if tool != "autograd" else AutomaticDifferentiation(Curve(no, ng, nh))
        for w in chain:
            q = wrap[w](q)
        lo, hi = (q.xl, q.xu) if q.has_bounds() else (np.array([-1.0, 0.5]), np.array([3.0, 2.5]))
        X = np.array([lo + np.array(t) * (hi - lo) for t in itertools.product((0.15, 0.45, 0.8), (0.1, 0.55, 0.9))])
        names = ["F"] + (["G"] if q.n_ieq_constr else []) + (["H"] if q.n_eq_constr else [])
        ctx.state()
        ctx.trace()

        def plain(Z):
            return q.evaluate(Z, return_values_of=names, return_as_dictionary=True)

        diff = {k: [] for k in names}
        for j in range(2):
            e = np.zeros(2)
            e[j] = h
            p, m = plain(X + e), plain(X - e)
            for k in names:
                diff[k].append((p[k] - m[k]) / (2 * h))
        for rows in ([0], [4], list(range(9))):
            out = q.evaluate(X[rows], return_values_of=names + ["d" + k for k in names], return_as_dictionary=True)
            ctx.trans()
            for k in names:
                want = np.stack(diff[k], axis=-1)[rows]
                got = out.get("d" + k)
                if got is None:
                    continue
                ctx.outcome(chain, k, got.shape)
                ctx.check(got.shape == want.shape and np.allclose(got, want, atol=1e-5, rtol=1e-5), "wrapped:%s" % "+".join(chain), "d%s of the wrapped problem is not the derivative of its %s" % (k, k),
                          objectives=no, constraints=(ng, nh), X=X[rows], got=got, expected=want)


def units(tier):
    U_ = [("u_history", {})]
    one = ["unit", "bounds", "free", "penalty", "objective", "single"]
    for c in [(w,) for w in one] + [(a, b) for a in one[:3] for b in one[:3] if a != b and not (a == "free" and b in ("unit", "bounds")) and (a, b) != ("bounds", "free")]:
        U_.append(("u_wrapped", dict(tool="autograd", chain=c)))
    for t in ("autograd", "autograd-element", "complex", "jax", "jax-element"):
        U_.append(("u_shapes", dict(tool=t)))
        U_ += [("u_program", dict(tool=t, part=i, parts=8)) for i in range(8)]
    U_ += [("u_bench", dict(part=i, parts=16)) for i in range(16)]
    return U_
