"""P08: row by row, vectorised and parallel evaluation give the same values in every schedule."""

import itertools
import sys
import threading
import types

import numpy as np

PROPERTY = "P08"
RULE = ("an execution is one evaluation of one batch under one runner and one schedule (order in which the workers run and finish), compared with the values "
        "computed independently; outcomes are distinct (shape signature, runner, error) results")
BOUNDS = {
    "quick": "all n_obj 1-3 x n_ieq 0-2 x n_eq 0-2 x batches of 1-3 rows and a single vector x 5 ways of writing the answer; runners: loop, scripted starmap, real thread pool, "
             "joblib threads, Dask and Ray clients replaced by scripted ones; every completion order of 4 workers (24), every interleaving of 3 two-step and 2 three-step evaluations; every "
             "single failing row under every order; NaN replacement; gradients and extra values; complete GA and NSGA2 runs under every runner and rotating completion orders",
    "thorough": "as quick with every completion order of 5 workers (120) and every interleaving of 3 three-step evaluations",
}
ASSUMPTIONS = ["Dask and Ray schedule tasks as their documentation says; they are represented by scripted clients with the same interface"]


def fvals(x, m):
    return np.array([np.sum(x) * (k + 1) + k for k in range(m)])


def gvals(x, g):
    return np.array([x[0] - x[1] * (k + 1) for k in range(g)])


def hvals(x, h):
    return np.array([x[0] * x[1] + k for k in range(h)])


def make(m, g, h, elementwise, style="array", hook=None, runner=None, fail=None, extra=False, grad=False, **kw):
    from pymoo.core.problem import Problem
    if runner is not None:
        kw["elementwise_runner"] = runner

    class P(Problem):
        def __init__(self):
            super().__init__(n_var=2, n_obj=m, n_ieq_constr=g, n_eq_constr=h, xl=-10.0, xu=10.0, elementwise=elementwise, **kw)

        def _row(self, x, out):
            pt = hook or (lambda *a: None)
            pt(x, 0)
            if fail is not None and np.array_equal(x, fail):
                raise ZeroDivisionError("scripted failure")
            F, G, H = fvals(x, m), gvals(x, g), hvals(x, h)
            if style == "scalar" and m == 1:
                out["F"] = float(F[0])
            elif style == "list":
                out["F"] = [float(v) for v in F]
            elif style == "2d":
                out["F"] = F[None, :]
            else:
                out["F"] = F
            pt(x, 1)
            if g:
                out["G"] = [float(v) for v in G] if style == "list" else G
            pt(x, 2)
            if h:
                out["H"] = [float(v) for v in H] if style == "list" else H
            if extra:
                out["tag"] = float(x[0] + 100)
            if grad:
                out["dF"] = np.array([[k + 1.0, x[0]] for k in range(m)])

        def _evaluate(self, X, out, *args, **kwargs):
            if elementwise:
                assert X.ndim == 1
                self._row(X, out)
                return
            rows = []
            for x in X:
                o = {}
                self._row(x, o)
                rows.append(o)
            if not rows:
                return
            for k in rows[0]:
                V = np.array([np.atleast_1d(np.squeeze(r[k])) if k in "FGH" else r[k] for r in rows])
                if style == "list" and k in "FGH":
                    V = [V[:, j] for j in range(V.shape[1])]     # one column per entry
                elif style == "scalar" and k == "F" and m == 1:
                    V = V.reshape(-1)
                out[k] = V
    return P()


def expected(X, m, g, h):
    return {"F": np.array([fvals(x, m) for x in X]).reshape(len(X), m), "G": np.array([gvals(x, g) for x in X]).reshape(len(X), g),
            "H": np.array([hvals(x, h) for x in X]).reshape(len(X), h)}


DATA = np.array([[1.1, 2.0], [3.0, -1.3], [0.3, 0.25], [-2.0, 4.7], [7.0, 7.1]])


def equal(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.array_equal(a, b)


def u_shapes(ctx, m):
    for g, h in itertools.product(range(3), range(3)):
        for n in (0, 1, 2, 3):
            X = DATA[:max(1, n)] if n else DATA[0]
            E = expected(np.atleast_2d(X), m, g, h)
            if n == 0:
                E = {k: v[0] for k, v in E.items()}
            for ew in (False, True):
                for style in ("array", "list", "scalar", "2d"):
                    if style == "2d" and not ew:
                        continue
                    p = make(m, g, h, ew, style)
                    Xc = X.copy()
                    d = dict(n_obj=m, n_ieq=g, n_eq=h, rows=n or "single vector", elementwise=ew, style=style)
                    keys = ["F"] + (["G"] if g else []) + (["H"] if h else [])
                    got = p.evaluate(Xc)
                    got = (got,) if len(keys) == 1 else got
                    ctx.state()
                    ctx.trans(3)
                    ctx.outcome(m, g, h, n, ew)
                    if len(got) != len(keys) or not all(equal(v, E[k]) for k, v in zip(keys, got)):
                        ctx.viol("shapes:default", "the default answer has the wrong values or shape", got=got, expect=E, **d)
                    o = p.evaluate(Xc, return_as_dictionary=True, return_values_of=["F", "G", "H"])
                    for k in "FGH":
                        if k not in o or not equal(o[k], E[k]):
                            ctx.viol("shapes:dict:%s" % k, "the answer for %s has the wrong values or shape" % k, got=o.get(k), expect=E[k], **d)
                    r = p.evaluate(Xc, return_values_of=["H", "F"])
                    if not (equal(r[0], E["H"]) and equal(r[1], E["F"])):
                        ctx.viol("shapes:order", "values are not returned in the requested order", got=r, **d)
                    if not np.array_equal(Xc, X):
                        ctx.viol("shapes:mutated", "evaluation changed the designs", **d)
                    p2 = make(m, g, h, ew, style, extra=True, grad=True)
                    o = p2.evaluate(Xc, return_as_dictionary=True, return_values_of=["F", "dF"])
                    X2 = np.atleast_2d(X)
                    tag = X2[:, 0] + 100
                    dF = np.array([[[k + 1.0, x[0]] for k in range(m)] for x in X2])
                    if not equal(np.asarray(o["tag"]).reshape(-1), tag) or not equal(np.asarray(o["dF"]), dF if n else dF[0]):
                        ctx.viol("shapes:extra", "additional values or gradients are not attached to their own row", got=o, **d)
                    # replacing NaN
                    p3 = make(m, g, h, ew, style, hook=None, replace_nan_values_by=1e9)
                    orig = p3._row

                    def nanrow(x, out, orig=orig):
                        orig(x, out)
                        if np.array_equal(x, DATA[0]):
                            out["F"] = np.full(m, np.nan)
                    p3._row = nanrow
                    if style == "array":
                        F = p3.evaluate(Xc, return_values_of=["F"])
                        ref = np.array(E["F"])
                        if n:
                            ref[0] = 1e9
                        else:
                            ref[:] = 1e9
                        if not equal(F, ref):
                            ctx.viol("shapes:nan", "NaN values are not replaced as configured", got=F, expect=ref, **d)
                        ctx.trans()


def u_mixed(ctx):
    """Problems with explicit variables take one assignment or a list of them."""
    from pymoo.core.problem import Problem
    from pymoo.core.variable import Binary, Integer, Real
    pool = [{"a": 0.5, "b": 2, "c": True}, {"a": 0.25, "b": 4, "c": False}, {"a": 1.0, "b": 0, "c": True}]
    for ew, m in itertools.product((True, False), (1, 2)):
        class M(Problem):
            def __init__(self):
                super().__init__(vars={"a": Real(bounds=(0, 1)), "b": Integer(bounds=(0, 5)), "c": Binary()}, n_obj=m, n_ieq_constr=1, elementwise=ew)

            def _evaluate(self, x, out, *args, **kwargs):
                if ew:
                    out["F"] = [x["a"] + 10 * x["b"] + k for k in range(m)]
                    out["G"] = float(x["c"])
                else:
                    out["F"] = np.array([[e["a"] + 10 * e["b"] + k for k in range(m)] for e in x])
                    out["G"] = np.array([[float(e["c"])] for e in x])
        p = M()
        for n in (1, 2, 3):
            for sel in itertools.product(range(3), repeat=n):
                lst = [dict(pool[i]) for i in sel]
                EF = np.array([[e["a"] + 10 * e["b"] + k for k in range(m)] for e in lst], dtype=float)
                EG = np.array([[float(e["c"])] for e in lst])
                arr = np.empty(n, dtype=object)
                arr[:] = lst
                for kind, x, ef, eg in (("list", lst, EF, EG), ("array", arr, EF, EG), ("single", lst[0], EF[0], EG[0])):
                    ctx.state()
                    ctx.trans()
                    try:
                        F, G = p.evaluate(x)
                        ok = equal(F, ef) and equal(G, eg)
                    except Exception as e:
                        F, G, ok = repr(e), None, False
                    if not ok:
                        ctx.viol("mixed:%s" % kind, "assignments of explicit variables are not answered by one row each (a single one by vectors)", got=[F, G], expect=[ef, eg], n=n, elementwise=ew, n_obj=m)
                    if lst != [pool[i] for i in sel]:
                        ctx.viol("mixed:changed", "evaluation changed the assignments")


def u_missing(ctx):
    """A value the user function does not provide is never a made-up good one: it is infinite, so nothing is feasible or better by omission."""
    import warnings as w
    from pymoo.core.evaluator import Evaluator
    from pymoo.core.population import Population
    for ew, n, m, g, h in itertools.product((False, True), (0, 1, 3), (1, 2), (0, 1, 2), (0, 1, 2)):
        full = ["F"] + ["G"] * bool(g) + ["H"] * bool(h)
        for sub in itertools.chain.from_iterable(itertools.combinations(full, k) for k in range(len(full) + 1)):
            p = make(m, g, h, ew)
            orig = p._evaluate

            def part(X, out, *a, **k):
                o = {}
                orig(X, o)
                for key in sub:
                    out[key] = o[key]
            p._evaluate = part
            X = DATA[:n] if n else DATA[0]
            E = expected(np.atleast_2d(X), m, g, h)
            d = dict(provided=sub, elementwise=ew, rows=n or "single vector", n_obj=m, n_ieq=g, n_eq=h)
            ctx.state()
            ctx.trans()
            with w.catch_warnings():
                w.simplefilter("ignore")
                o = p.evaluate(X, return_values_of=["F", "G", "H"], return_as_dictionary=True)
                pop = Evaluator().eval(p, Population.new(X=np.atleast_2d(X).copy()))
            for key in "FGH":
                e = E[key] if key in sub or key not in full else np.full(E[key].shape, np.inf)
                if n == 0:
                    e = e[0]
                if not equal(o[key], e):
                    ctx.viol("missing:%s" % key, "a value which was not provided by the user function is answered as %s" % (o[key].tolist(),), expect=e, **d)
            if not set(full) - {"F"} <= set(sub) and np.any(pop.get("FEAS")):
                ctx.viol("missing:feasible", "a solution whose constraints were never provided counts as feasible", **d)


def u_passed(ctx):
    """What the caller passes along reaches the user function if (and only if) the problem wants it; the observer of the problem sees every row and value."""
    from pymoo.core.evaluator import Evaluator
    from pymoo.core.population import Population
    from pymoo.core.problem import Problem
    for ew, wants, n, via in itertools.product((False, True), (False, True), (0, 1, 2, 3), ("problem", "evaluator")):
        if via == "evaluator" and n == 0:
            continue
        seen, told = [], []

        class P(Problem):
            def __init__(self):
                super().__init__(n_var=2, n_obj=1, xl=-10.0, xu=10.0, elementwise=ew, requires_kwargs=wants, callback=lambda X, out: told.append((np.array(X), {k: np.array(v) for k, v in out.items()})))

            def _evaluate(self, x, out, *args, **kwargs):
                seen.append(dict(kwargs))
                out["F"] = np.sum(x, axis=-1) + kwargs.get("shift", 0.0)
        p = P()
        X = DATA[:n] if n else DATA[0]
        E = np.atleast_2d(X).sum(axis=1)[:, None] + (5.0 if wants else 0.0)
        if via == "problem":
            F = p.evaluate(X.copy(), shift=5.0)
            got = F if n else F[None, :]
        else:
            got = Evaluator().eval(p, Population.new(X=X.copy()), shift=5.0).get("F")
        ctx.state()
        ctx.trans()
        d = dict(elementwise=ew, requires_kwargs=wants, rows=n or "single vector", via=via)
        if not equal(got, E) or any(("shift" in k) != wants for k in seen):
            ctx.viol("passed:kwargs", "what the caller passes along does not reach exactly the problems that ask for it", got=got, expect=E, **d)
        if len(told) != 1 or not np.array_equal(np.atleast_2d(told[0][0]), np.atleast_2d(X)) or not np.array_equal(np.asarray(told[0][1]["F"]).reshape(-1), E.reshape(-1)):
            ctx.viol("passed:observer", "the observer of the problem does not see every evaluated row with its values exactly once", told=[[a.tolist(), {k: v.tolist() for k, v in o.items()}] for a, o in told], **d)


# ---------------------------------------------------------------- schedules

class Turns:
    """Controlled scheduler: threads pass their scheduling points exactly in the scripted order."""

    def __init__(self, order, deadline=4.0):
        self.order, self.pos, self.cv, self.dead, self.deadline = list(order), 0, threading.Condition(), False, deadline

    def wait(self, who):
        with self.cv:
            if not self.cv.wait_for(lambda: self.dead or self.pos >= len(self.order) or self.order[self.pos] == who, timeout=self.deadline):
                self.dead = True
                self.cv.notify_all()
                return
            if self.pos < len(self.order):
                self.pos += 1
            self.cv.notify_all()


def who_of(x):
    for i, r in enumerate(DATA):
        if np.array_equal(x, r):
            return i
    return -1


def perms(n):
    return list(itertools.permutations(range(n)))


def interleavings(counts):
    """All orders of scheduling points, counts[i] of thread i."""
    def rec(left):
        if not any(left):
            yield ()
            return
        for i in range(len(left)):
            if left[i]:
                nxt = list(left)
                nxt[i] -= 1
                for t in rec(nxt):
                    yield (i,) + t
    return rec(list(counts))


def thread_pool(n):
    from multiprocessing.pool import ThreadPool
    return ThreadPool(n)


def scripted_starmap(order):
    def starmap(f, items):
        items = list(items)
        res = [None] * len(items)
        for i in order:
            if i < len(items):
                res[i] = f(*items[i])
        return iter(res)
    return starmap


class ScriptedDask:
    """A client whose jobs finish in a given order: one more each time somebody asks for the state of a job, all others needed when somebody waits."""

    def __init__(self, order):
        self.order, self.jobs = order, []

    def advance(self):
        for i in list(self.order) + list(range(len(self.jobs))):
            if i < len(self.jobs) and not self.jobs[i].finished:
                return self.jobs[i].work()
        return None

    def submit(self, f, *args, **kwargs):
        client = self

        class Job:
            def __init__(self):
                self.finished, self.err, self.val, self.callbacks, self.key = False, None, None, [], "job-%d" % len(client.jobs)

            def work(self):
                try:
                    self.val = f(*args)
                except Exception as e:
                    self.err = e
                self.finished = True
                for c in self.callbacks:
                    c(self)

            def done(self):
                client.advance()
                return self.finished

            @property
            def status(self):
                return "pending" if not self.done() else "finished" if self.err is None else "error"

            def cancelled(self):
                return False

            def exception(self, timeout=None):
                self.wait()
                return self.err

            def add_done_callback(self, fn):
                if self.finished:
                    fn(self)
                else:
                    self.callbacks.append(fn)

            def wait(self):
                while not self.finished:
                    client.advance()

            def result(self, timeout=None):
                self.wait()
                if self.err is not None:
                    raise self.err
                return self.val
        j = Job()
        self.jobs.append(j)
        return j

    def gather(self, jobs):
        return [j.result() for j in jobs]

    def map(self, f, *its):
        return [self.submit(f, *a) for a in zip(*its)]


def fake_ray(order):
    mod = types.ModuleType("ray")

    class Ref:
        pass

    class Remote:
        def __init__(self, fn):
            self.fn = fn

        def options(self, **kw):
            return self

        def remote(self, *args):
            r = Ref()
            r.fn, r.args, r.done, r.err = self.fn, args, False, None
            pool.append(r)
            return r
    pool = []

    def get(refs):
        for i in list(order) + list(range(len(pool))):
            if i < len(pool) and not pool[i].done:
                r = pool[i]
                try:
                    r.val = r.fn(*r.args)
                except Exception as e:
                    r.err = e
                r.done = True
        one = not isinstance(refs, (list, tuple))
        out = []
        for r in ([refs] if one else refs):
            if r.err is not None:
                raise r.err
            out.append(r.val)
        for r in [refs] if one else refs:
            pool[:] = [e for e in pool if e is not r]
        return out[0] if one else out
    def wait(refs, num_returns=1, timeout=None, **kwargs):
        ready = []
        for i in list(order) + list(range(len(pool))):
            if i < len(pool) and any(pool[i] is r for r in refs) and len(ready) < num_returns and not any(pool[i] is r for r in ready):
                r = pool[i]
                if not r.done:
                    try:
                        r.val = r.fn(*r.args)
                    except Exception as e:
                        r.err = e
                    r.done = True
                ready.append(r)
        return ready, [r for r in refs if not any(r is e for e in ready)]

    mod.remote = lambda fn, **k: Remote(fn)
    mod.get = get
    mod.wait = wait
    mod.put = lambda v: v
    mod.is_initialized = lambda: True
    mod.init = lambda *a, **k: None
    return mod


def make_runner(kind, order, n):
    """Returns (runner, hook, closer)."""
    from pymoo.parallelization import StarmapParallelization, DaskParallelization, JoblibParallelization, RayParallelization
    if kind == "starmap":
        return StarmapParallelization(scripted_starmap(order)), None, lambda: None
    if kind == "dask":
        return DaskParallelization(ScriptedDask(order)), None, lambda: None
    if kind == "ray":
        old = sys.modules.get("ray")
        sys.modules["ray"] = fake_ray(order)
        try:
            r = RayParallelization()
        finally:
            if old is not None:
                sys.modules["ray"] = old
            else:
                del sys.modules["ray"]
        return r, None, lambda: None
    if kind == "threads":
        turns = Turns(order)
        pool = thread_pool(n)
        return StarmapParallelization(pool.starmap), (lambda x, k: turns.wait(who_of(x)) if k == 1 else None), pool.terminate
    if kind == "joblib":
        turns = Turns(order)
        return JoblibParallelization(n_jobs=n, backend="threading", batch_size=1), (lambda x, k: turns.wait(who_of(x)) if k == 1 else None), lambda: None
    raise KeyError(kind)


def u_orders(ctx, kind, n, m):
    X = DATA[:n]
    g, h = 1, 1
    E = expected(X, m, g, h)
    for order in perms(n):
        for fail in [None] + list(range(n)):
            if fail is not None and kind in ("threads", "joblib") and order[0] != 0 and order[-1] != 0:
                continue
            if fail is not None and kind in ("threads", "joblib"):
                hook_order = [i for i in order if i != fail]   # the failing worker dies before its scheduling point
            else:
                hook_order = list(order)
            runner, hook, close = make_runner(kind, hook_order, n)
            try:
                p = make(m, g, h, True, "array", hook=hook, runner=runner, fail=None if fail is None else X[fail], extra=True)
                ctx.state()
                ctx.trans()
                ctx.outcome(kind, order, fail is None)
                d = dict(runner=kind, order=order, failing_row=fail)
                err = None
                try:
                    o = p.evaluate(X.copy(), return_as_dictionary=True, return_values_of=["F", "G", "H"])
                except Exception as e:
                    err = e
                if fail is None:
                    if err is not None:
                        ctx.viol("orders:error:%s" % kind, "evaluation fails under this completion order: %r" % (err,), **d)
                        continue
                    for k in "FGH":
                        if not equal(o[k], E[k]):
                            ctx.viol("orders:values:%s" % kind, "the values depend on the order in which workers finish", got=o[k], expect=E[k], **d)
                    if not equal(np.asarray(o["tag"]).reshape(-1), X[:, 0] + 100):
                        ctx.viol("orders:extra:%s" % kind, "additional values are attached to the wrong row", got=o["tag"], **d)
                elif err is None:
                    ctx.viol("orders:swallowed:%s" % kind, "the exception of one evaluation did not reach the caller", **d)
                elif "scripted failure" not in repr(err) and not isinstance(err, ZeroDivisionError):
                    ctx.viol("orders:othererror:%s" % kind, "the caller gets another exception than the evaluation raised: %r" % (err,), **d)
            finally:
                close()
        ctx.trace()


def u_interleave(ctx, kind, counts):
    """Every interleaving of the individual steps of concurrent evaluations on real threads."""
    n = len(counts)
    X = DATA[:n]
    E = expected(X, 2, 1, 1)
    from pymoo.parallelization import StarmapParallelization, JoblibParallelization
    pool = thread_pool(n)
    try:
        for order in interleavings(counts):
            turns = Turns(order)
            hook = lambda x, k: turns.wait(who_of(x)) if k < counts[who_of(x)] else None
            runner = StarmapParallelization(pool.starmap) if kind == "threads" else JoblibParallelization(n_jobs=n, backend="threading", batch_size=1)
            p = make(2, 1, 1, True, "array", hook=hook, runner=runner, extra=True)
            ctx.state()
            ctx.trans()
            ctx.trace()
            d = dict(runner=kind, order=order)
            try:
                o = p.evaluate(X.copy(), return_as_dictionary=True, return_values_of=["F", "G", "H"])
            except Exception as e:
                ctx.viol("interleave:error", "concurrent evaluation fails under this interleaving: %r" % (e,), **d)
                continue
            ctx.outcome(kind, order)
            if turns.dead:
                ctx.cap("a scheduling point timed out")
                continue
            for k in "FGH":
                if not equal(o[k], E[k]):
                    ctx.viol("interleave:values", "concurrent evaluations mix up their values", got=o[k], expect=E[k], **d)
    finally:
        pool.terminate()


def u_run(ctx, algo, kind):
    """A complete run under a runner equals the vectorised run."""
    from pymoo.algorithms.moo.nsga2 import NSGA2
    from pymoo.algorithms.soo.nonconvex.ga import GA
    from pymoo.optimize import minimize
    from pymoo.parallelization import StarmapParallelization, DaskParallelization, JoblibParallelization
    m = 1 if algo == "GA" else 2
    mk = (lambda: GA(pop_size=4)) if algo == "GA" else (lambda: NSGA2(pop_size=4))

    def run(p, hist):
        r = minimize(p, mk(), ("n_gen", 4), seed=3, save_history=hist)
        return r.pop.get("X"), r.pop.get("F"), r.pop.get("G"), r.algorithm.evaluator.n_eval, r.F
    ref = run(make(m, 1, 1, False), False)
    for order in perms(4):
        for hist in (False, True):
            pool = None
            if kind == "starmap":
                runner = StarmapParallelization(scripted_starmap(order))
            elif kind == "dask":
                runner = DaskParallelization(ScriptedDask(order))
            elif kind == "threads":
                pool = thread_pool(3)
                runner = StarmapParallelization(pool.starmap)
            elif kind == "joblib":
                runner = JoblibParallelization(n_jobs=2, backend="threading")
            elif kind == "ray":
                runner, _, _ = make_runner("ray", order, 4)
                if hist:
                    continue
            else:
                runner = None
            try:
                got = run(make(m, 1, 1, True, runner=runner), hist)
                ctx.state()
                ctx.trace()
                ctx.trans(4)
                ctx.outcome(algo, kind, hist)
                for a, b, nm in zip(ref, got, ("X", "F", "G", "n_eval", "result")):
                    if (a is None) != (b is None) or (a is not None and not np.array_equal(a, b)):
                        ctx.viol("run:%s:%s" % (algo, kind), "a run whose problem is evaluated %s differs in %s from the vectorised run" % (kind, nm),
                                 order=order, history=hist)
            finally:
                if pool is not None:
                    pool.terminate()


def units(tier):
    U = [("u_shapes", dict(m=m)) for m in (1, 2, 3)] + [("u_mixed", {}), ("u_missing", {}), ("u_passed", {})]
    n = 4 if tier == "quick" else 5
    for k in ("starmap", "dask", "ray", "threads", "joblib"):
        U.append(("u_orders", dict(kind=k, n=n, m=2)))
        U.append(("u_orders", dict(kind=k, n=3, m=1)))
        U.append(("u_orders", dict(kind=k, n=1, m=1)))
    for k in ("threads", "joblib"):
        U.append(("u_interleave", dict(kind=k, counts=[2, 2, 2])))
        U.append(("u_interleave", dict(kind=k, counts=[3, 3])))
        if tier == "thorough":
            U.append(("u_interleave", dict(kind=k, counts=[3, 3, 3])))
    for a in ("GA", "NSGA2"):
        for k in ("loop", "starmap", "dask", "threads", "joblib", "ray"):
            U.append(("u_run", dict(algo=a, kind=k)))
    return U
