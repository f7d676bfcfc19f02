"""P16: a run resumed from a checkpoint equals the uninterrupted run."""

import copy
import itertools
import os
import subprocess
import sys
import tempfile

import numpy as np

PROPERTY = "P16"
RULE = ("an execution is one complete run with checkpoints at a chosen set of iterations and one order of continuing original and copy; all checkpoint positions, all subsets of positions and all orders "
        "within the bound are enumerated; outcomes are distinct traces")
BOUNDS = {
    "quick": "58 configurations x 3 problems x 5 iterations: checkpoint after every iteration (0-5) x {deepcopy, dill} x 5 continuation orders (copy only, original first, copy first, alternating, both from the second copy); "
             "all 16 subsets of 4 iterations at which the process is replaced by its own checkpoint; archive, history and verbose output switched on; budgets raised from every smaller budget, once and in every composition "
             "of 4 iterations, through next(), run() and minimize(); checkpoints between ask and tell; checkpoints loaded by a fresh process",
    "thorough": "as quick with 7 iterations (all 64 subsets of 6) and 4 problems",
}
KINDS = ("plain", "mixed", "tied")
RESUME_BROKEN = ("CMAES", "BIPOPCMAES")         # known finding: only u_points reports it
SKIP_BUDGET = ("RVEA", "CMAES", "BIPOPCMAES")   # documented to read the budget as part of the search


def configs():
    from vmc.checks import p15
    return p15.configs()


class Uncopyable(Exception):
    pass


def copier(how):
    """The ways to take a checkpoint; an algorithm that cannot be copied says so with an error."""
    def cp(a):
        try:
            return raw(a)
        except TypeError as e:
            if "pickle" in str(e):
                raise Uncopyable(str(e))
            raise
    raw = raw_copier(how)
    return cp


def raw_copier(how):
    if how == "deepcopy":
        return copy.deepcopy
    import dill
    if how == "dill":
        return lambda a: dill.loads(dill.dumps(a))
    if how == "dill2":
        return lambda a: copy.deepcopy(dill.loads(dill.dumps(a)))
    raise KeyError(how)


def start(make, kind, n_iter, **kw):
    algo, problem = make(kind)
    algo.setup(problem, termination=("n_iter", n_iter), seed=1, **kw)
    return algo


def rows(algo, n0=0):
    return [(x if isinstance(x, str) else np.asarray(x, float).tobytes(), np.asarray(f, float).tobytes()) for x, f, *_ in (algo.problem.log or [])[n0:]]


def final(algo):
    from vmc import fp
    r = algo.result()
    return (fp.solutions(algo.pop), fp.solutions(algo.opt), repr(r.X), None if r.F is None else np.asarray(r.F, float).tobytes(), algo.n_gen, algo.evaluator.n_eval,
            fp.solutions(algo.archive), algo.has_next())


def step(algo):
    if algo.has_next():
        algo.next()
        return True
    return False


def finish(algo, limit=400):
    k = 0
    while step(algo) and k < limit:
        k += 1


def nlog(algo):
    return len(algo.problem.log or [])


def what_differs(a, b):
    names = ("population", "optimum", "X", "F", "n_gen", "n_eval", "archive", "has_next")
    return next((n for n, x, y in zip(names, a, b) if x != y), "?")


def compare(ctx, name, got_rows, ref_rows, got_fin, ref_fin, what, **detail):
    if got_rows != ref_rows:
        k = next((i for i, (x, y) in enumerate(zip(got_rows, ref_rows)) if x != y), min(len(got_rows), len(ref_rows)))
        ctx.viol("rows:%s" % name, "%s: %s evaluates other solutions (first difference at evaluation %d after the checkpoint, %d versus %d evaluations)" % (name, what, k + 1, len(got_rows), len(ref_rows)), **detail)
        return False
    if got_fin != ref_fin:
        ctx.viol("result:%s" % name, "%s: %s ends with another result (%s)" % (name, what, what_differs(got_fin, ref_fin)), **detail)
        return False
    return True


def u_points(ctx, name, how, n, kinds=KINDS):
    make, cp = configs()[name], copier(how)
    for kind in kinds:
        ref = start(make, kind, n)
        marks = [0]
        while step(ref):
            marks.append(nlog(ref))
        all_rows, fin = rows(ref), final(ref)
        ctx.outcome(name, kind, len(all_rows))
        for k in range(len(marks)):
            for order in ("copy", "orig-copy", "copy-orig", "alternate", "two"):
                a = start(make, kind, n)
                for _ in range(k):
                    step(a)
                try:
                    b = cp(a)
                except Uncopyable as e:
                    ctx.viol("uncopyable:%s" % name, "%s cannot be checkpointed: %s" % (name, e), checkpoint_after_iteration=k, how=how, kind=kind)
                    break
                own = b.problem is not a.problem
                nb = nlog(b)
                ctx.state()
                ctx.trace()
                ctx.trans(2 * n)
                d = dict(checkpoint_after_iteration=k, how=how, order=order, kind=kind)
                tail = all_rows[marks[k]:]
                if order == "copy":
                    finish(b)
                    if not compare(ctx, name, rows(b, nb), tail, final(b), fin, "continuing the copy", **d):
                        return
                elif order == "orig-copy":
                    finish(a)
                    na = nlog(a)
                    if not compare(ctx, name, rows(a, marks[k]), tail, final(a), fin, "the original after it was copied", **d):
                        return
                    fa = final(a)
                    finish(b)
                    if not compare(ctx, name, rows(b, nb if own else na), tail, final(b), fin, "continuing the copy after the original finished", **d):
                        return
                    if final(a) != fa:
                        ctx.viol("disturbs:%s" % name, "%s: continuing the copy changes the finished original (%s)" % (name, what_differs(final(a), fa)), **d)
                        return
                elif order == "copy-orig":
                    finish(b)
                    fb = final(b)
                    na = nlog(a)
                    finish(a)
                    if not compare(ctx, name, rows(a, na), tail, final(a), fin, "the original after its copy was continued", **d):
                        return
                    if final(b) != fb:
                        ctx.viol("disturbs:%s" % name, "%s: continuing the original changes the finished copy (%s)" % (name, what_differs(final(b), fb)), **d)
                        return
                elif order == "alternate":
                    ra, rb, go = [], [], True
                    while go:
                        i = nlog(a)
                        ga = step(a)
                        ra += rows(a, i)
                        i = nlog(b)
                        gb = step(b)
                        rb += rows(b, i)
                        go = ga or gb
                    if not compare(ctx, name, ra, tail, final(a), fin, "the original alternating with its copy", **d):
                        return
                    if not compare(ctx, name, rb, tail, final(b), fin, "the copy alternating with its original", **d):
                        return
                else:
                    step(b)
                    c = cp(a)
                    nc = nlog(c)
                    finish(c)
                    if not compare(ctx, name, rows(c, nc), tail, final(c), fin, "a second copy taken after the first was continued", **d):
                        return


def u_subsets(ctx, name, how, n, kinds=KINDS):
    """The process is replaced by its own checkpoint after every iteration of a subset."""
    make, cp = configs()[name], copier(how)
    for kind in kinds:
        ref = start(make, kind, n, save_history=True, verbose=False)
        finish(ref)
        fin, hist = final(ref), [final_h(h) for h in ref.history]
        ref_rows = rows(ref)
        for sub in itertools.product((0, 1), repeat=n):
            a = start(make, kind, n, save_history=True, verbose=False)
            k = 0
            while step(a):
                if k < n and sub[k]:
                    try:
                        a = cp(a)
                    except Uncopyable:
                        ctx.outcome(name, "uncopyable")
                k += 1
                ctx.trans()
            ctx.state()
            ctx.trace()
            d = dict(replaced_after=[i for i, s in enumerate(sub) if s], how=how, kind=kind)
            if not compare(ctx, name, rows(a), ref_rows, final(a), fin, "the run replaced by its checkpoints", **d):
                return
            h = [final_h(h) for h in a.history]
            if h != hist:
                ctx.viol("history:%s" % name, "%s: the saved history of the resumed run differs" % name, **d)
                return
        ctx.outcome(name, kind, len(hist))


def final_h(h):
    from vmc import fp
    return (fp.solutions(h.pop), fp.solutions(h.opt), h.n_gen, h.evaluator.n_eval)


def u_output(ctx, name, n):
    """The printed table continues as if nothing had happened."""
    import contextlib
    import io

    def go(at, cp):
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            a = start(configs()[name], "mixed", n, verbose=True)
            k = 0
            while True:
                if k == at:
                    try:
                        a = cp(a)
                    except Uncopyable:
                        pass
                if not step(a):
                    break
                k += 1
        return buf.getvalue()
    ref = go(-1, None)
    ctx.outcome(name, len(ref))
    for how in ("deepcopy", "dill"):
        for k in range(n):
            t = go(k, copier(how))
            ctx.state()
            ctx.trace()
            ctx.trans(n)
            if t != ref:
                ctx.viol("output:%s" % name, "%s: the printed output of the resumed run differs" % name, how=how, checkpoint_after_iteration=k, expected=ref, got=t)
                return


def u_budget(ctx, name, n, kinds=KINDS):
    from pymoo.optimize import minimize
    from pymoo.termination.max_gen import MaximumGenerationTermination
    make = configs()[name]
    for kind in kinds:
        ref = start(make, kind, n)
        finish(ref)
        ref_rows, fin = rows(ref), final(ref)
        # every composition of n into successive budgets
        for cuts in itertools.product((0, 1), repeat=n - 1):
            budgets = [i + 1 for i, c in enumerate(cuts) if c] + [n]
            for mode in ("next", "run", "minimize", "dill"):
                if len(budgets) == 1 and mode != "minimize":
                    continue
                a, problem = make(kind)
                ctx.state()
                ctx.trace()
                for j, b in enumerate(budgets):
                    ctx.trans()
                    if mode == "minimize":
                        if j == 0:
                            minimize(problem, a, ("n_gen", b), seed=1, copy_algorithm=False)
                        else:
                            a.termination = MaximumGenerationTermination(b)
                            minimize(problem, a, seed=1, copy_algorithm=False)
                        continue
                    if j == 0:
                        a.setup(problem, termination=MaximumGenerationTermination(b), seed=1)
                    else:
                        a.termination = MaximumGenerationTermination(b)
                    if mode == "run":
                        a.run()
                    else:
                        finish(a)
                    if mode == "dill":
                        try:
                            a = copier("dill")(a)
                        except Uncopyable:
                            pass
                if not compare(ctx, name, rows(a), ref_rows, final(a), fin, "raising the budget of a finished run", budgets=budgets, mode=mode, kind=kind):
                    return
        ctx.outcome(name, kind)


def u_between(ctx, name, how, n, kinds=("plain", "mixed")):
    """A checkpoint taken between ask and tell (algorithms that do not work through a generator)."""
    make, cp = configs()[name], copier(how)
    for kind in kinds:
        ref = start(make, kind, n)
        finish(ref)
        ref_rows, fin = rows(ref), final(ref)
        for k in range(n):
            for first in ("copy", "orig"):
                a = start(make, kind, n)
                for _ in range(k):
                    step(a)
                if not a.has_next():
                    break
                i0 = nlog(a)
                inf = a.ask()
                both = cp((a, inf))
                ctx.state()
                ctx.trace()
                ctx.trans(n)
                for z, (al, off) in enumerate([both, (a, inf)] if first == "copy" else [(a, inf), both]):
                    j = nlog(al)
                    if off is not None:
                        al.evaluator.eval(al.problem, off, algorithm=al)
                    al.tell(infills=off)
                    finish(al)
                    if not compare(ctx, name, rows(al, j), ref_rows[i0:], final(al), fin, "resuming between ask and tell", after=k, how=how, first=first, kind=kind, which=z):
                        return
        ctx.outcome(name, kind)


CHILD = """
import sys, warnings
warnings.simplefilter("ignore")
import dill
from vmc.checks import p16
for f in sys.argv[1:]:
    with open(f, "rb") as fh:
        a = dill.load(fh)
    p16.finish(a)
    with open(f + ".out", "wb") as fh:
        dill.dump((p16.rows(a), p16.final(a)), fh)
"""


def u_process(ctx, names, hashseed, n=4):
    """The checkpoint is loaded by another process."""
    import dill
    with tempfile.TemporaryDirectory(prefix="vmc16") as d:
        jobs = []
        for name in names:
            for kind in ("plain", "mixed"):
                ref = start(configs()[name], kind, n)
                finish(ref)
                for k in range(n + 1):
                    a = start(configs()[name], kind, n)
                    for _ in range(k):
                        step(a)
                    f = os.path.join(d, "%d" % len(jobs))
                    try:
                        with open(f, "wb") as fh:
                            dill.dump(a, fh)
                    except TypeError:
                        continue
                    jobs.append((name, kind, k, f, rows(ref), final(ref)))
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
        r = subprocess.run([sys.executable, "-c", CHILD] + [j[3] for j in jobs], capture_output=True, text=True, env=env, timeout=600)
        if r.returncode:
            raise RuntimeError(r.stderr[-1500:])
        bad = set()
        for name, kind, k, f, rr, fin in jobs:
            with open(f + ".out", "rb") as fh:
                gr, gf = dill.load(fh)
            ctx.state()
            ctx.trace()
            ctx.trans(n)
            if name not in bad and not compare(ctx, name, gr, rr, gf, fin, "resuming in another process", checkpoint_after_iteration=k, kind=kind):
                bad.add(name)
            ctx.outcome(name, kind, k)


def u_exclude(ctx, how, n):
    """Attributes excluded from the checkpoint (pools, handles) stay usable in the run that goes on, and are the only thing the resumed run misses."""
    from pymoo.algorithms.moo.nsga2 import NSGA2
    from pymoo.algorithms.soo.nonconvex.ga import GA
    from pymoo.core.problem import Problem

    class P(Problem):
        def __init__(self, m):
            super().__init__(n_var=2, n_obj=m, xl=0.0, xu=1.0, exclude_from_serialization=["handle", "other"])
            self.handle = lambda X: X.sum(axis=1)
            self.other = (i for i in range(3))
            self.scale = 2.0

        def _evaluate(self, X, out, *args, **kwargs):
            f = self.handle if self.handle is not None else (lambda X: X.sum(axis=1))
            out["F"] = np.column_stack([self.scale * f(X) + k * X[:, 0] for k in range(self.n_obj)])
    for m in (1, 2):
        for points in itertools.chain.from_iterable(itertools.combinations(range(n), k) for k in range(1, n + 1)):
            def run(points):
                p = P(m)
                a = (GA if m == 1 else NSGA2)(pop_size=4)
                a.setup(p, termination=("n_gen", n + 1), seed=1)
                h, resumed = p.handle, []
                for t in range(n + 1):
                    a.next()
                    if t in points:
                        resumed.append(raw_copier(how)(a) if how != "deepcopy" else copier(how)(a))
                        if p.handle is not h or p.other is None or p.scale != 2.0 or a.problem is not p:
                            ctx.viol("exclude:lost", "taking a checkpoint removes the excluded attributes from the problem of the run that goes on", n_obj=m, points=points, how=how)
                            p.handle = h
                for r in resumed:
                    if r.problem.handle is not None or r.problem.other is not None or r.problem.scale != 2.0:
                        ctx.viol("exclude:kept", "the checkpoint does not leave out exactly the excluded attributes", n_obj=m, points=points, how=how)
                    while r.has_next():
                        r.next()
                return [x.pop.get("X") for x in [a] + resumed]
            ref = run(())[0]
            ctx.state()
            ctx.trace()
            ctx.trans(n + 1)
            for X in run(points):
                if not np.array_equal(X, ref):
                    ctx.viol("exclude:run", "a run with checkpoints leaving out attributes differs from the uninterrupted run", n_obj=m, points=points, how=how)


def warm():
    from vmc.checks import p04
    p04.warm()


def units(tier):
    q = tier == "quick"
    n = 5 if q else 7
    kinds = KINDS if q else KINDS + ("infeasible",)
    from vmc import zoo
    loops = {a.name for a in zoo.all_algorithms() if a.loop} | {"BIPOPCMAES"}
    U = []
    names = list(configs())
    for name in names:
        for how in ("deepcopy", "dill"):
            U.append(("u_points", dict(name=name, how=how, n=n, kinds=kinds)))
            if name not in loops:
                U.append(("u_between", dict(name=name, how=how, n=4 if q else 6)))
        if name in RESUME_BROKEN:
            continue
        U.append(("u_subsets", dict(name=name, how="dill", n=4 if q else 6, kinds=("mixed",) if q else kinds)))
        U.append(("u_output", dict(name=name, n=n)))
        if name not in SKIP_BUDGET:
            U.append(("u_budget", dict(name=name, n=4 if q else 6, kinds=("plain", "mixed") if q else kinds)))
    names = [x for x in names if x not in RESUME_BROKEN]
    for how in ("deepcopy", "dill"):
        U.append(("u_exclude", dict(how=how, n=3 if q else 5)))
    for p in range(8):
        U.append(("u_process", dict(names=names[p::8], hashseed=p + 1)))
    return U
