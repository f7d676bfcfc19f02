"""P36: what is printed, recorded and called back during a run is the real state of the run."""

import contextlib
import io
import itertools
import math
from types import SimpleNamespace

import numpy as np

from vmc import refs, zoo

PROPERTY = "P36"
RULE = ("an execution is one run (or one history of populations) whose every printed row, recorded entry and callback is compared with the state of the run at "
        "that moment; outcomes are distinct (report, values) results")
BOUNDS = {
    "quick": "rows: all algorithms with an output x with and without constraints x known optimum or not x all single deviations of the first 8 answers out of 5 kinds; all histories of 3 of 8 fronts (feasible, "
             "mixed, infeasible) in 2 and 3 objectives with and without a known front; text: 9 widths x 14 mantissas x 29 exponents x sign, all integers next to powers of ten; progress bar: all sequences "
             "of 4 of 7 percentages; recorders: all schedules of 5 increments out of 4 x 4 intervals; running metric: all histories of 3 (and 4) of 8 fronts x window x indicator; windows: all histories of 5 operations",
    "thorough": "as quick with pairs of deviations and histories one step longer",
}
TOL = 1e-9


# ---- definitions ------------------------------------------------------------------------------------

def igd(A, B):
    """Mean distance of the points A to the closest of B."""
    return float(np.mean([min(math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b))) for b in B) for a in A]))


def hv2(F, ref):
    """Area dominated by two-objective points."""
    P = sorted((tuple(f) for f in F if f[0] < ref[0] and f[1] < ref[1]))
    area, y = 0.0, ref[1]
    for a, b in P:
        if b < y:
            area += (ref[0] - a) * (y - b)
            y = b
    return area


def scale(F, lo, hi):
    """Normalisation to the unit box; without a range only the offset is removed."""
    r = np.where(hi - lo == 0, 1.0, hi - lo)
    return (np.asarray(F, float) - lo) / r


def near(a, b, tol=1e-7):
    if a is None or b is None:
        return a is None and b is None
    a, b = float(a), float(b)
    return a == b or abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def reads_as(text, value, width):
    """Does the printed text stand for the value (rounded to the digits that fit into the column)?"""
    t = text.strip()
    if value is None:
        return t == "-"
    if isinstance(value, (bool, np.bool_)) or isinstance(value, str):
        return t == str(value)[:width]
    if isinstance(value, (int, np.integer)):
        return t == str(int(value))
    v = float(value)
    if math.isnan(v):
        return t.lower() == "nan"
    try:
        p = float(t)
    except ValueError:
        return False
    if math.isinf(v) or v == 0 or math.isinf(p):
        return p == v
    # either scientific notation, or a number with all decimals the column has
    if "E" not in t.upper():
        return len(t) >= width - 1 and abs(p - v) <= 0.51 * 10.0 ** (t.find(".") + 1 - len(t))
    return abs(p - v) <= 0.51 * 10.0 ** (math.floor(math.log10(abs(v))) - max(width - 7, 0)) + 1e-300


class Screen:
    """Splits what was printed into header and rows."""

    def __init__(self):
        self.buf = io.StringIO()
        self.names, self.lines, self.pos = None, 0, 0

    @contextlib.contextmanager
    def on(self):
        with contextlib.redirect_stdout(self.buf):
            yield

    def new(self):
        text = self.buf.getvalue()[self.pos:]
        self.pos += len(text)
        return [line for line in text.split("\n") if line.strip()]

    def row(self, lines):
        """(names, values) of the only row in these lines; the header comes with the first one."""
        if self.names is None:
            if len(lines) != 4 or set(lines[0]) != {"="} or set(lines[2]) != {"="}:
                return None
            self.names = [c.strip() for c in lines[1].split(" | ")]
            lines = lines[3:]
        if len(lines) != 1:
            return None
        cells = lines[0].split(" | ")
        return cells if len(cells) == len(self.names) else None


# ---- rows of single-objective runs ------------------------------------------------------------------

WIDTH = {"n_gen": 6, "n_eval": 8, "n_nds": 6, "n_niches": 10, "f": 8, "S": 7, "w": 7, "c1": 8, "c2": 8}


def compare(ctx, name, conf, scr, cells, want, step):
    got = dict(zip(scr.names, cells))
    if len(got) != len(scr.names):
        ctx.viol("%s:columns" % name, "columns %s" % scr.names, **conf)
        return
    for k, v in want.items():
        if k not in got:
            ctx.viol("%s:%s" % (name, k), "there is no column %s in %s" % (k, scr.names), **conf)
        elif not reads_as(got[k], v, WIDTH.get(k, 13)):
            ctx.viol("%s:%s" % (name, k), "iteration %d prints %r for %s, the state is %r" % (step, got[k], k, v), **conf)


def answer(best):
    def values(x, i, alt, n_obj, ni, ne):
        base = [7.25, 3.5, 12.125, 5.0, 0.03125, 250.5, 2.5e-7, 4.0][i % 8] + (i // 8) * 0.5
        g = -1.0 if (i * 5) % 3 else 0.75 + (i % 4)
        if alt is not None:
            base, g = [(-2.5, -1.0), (base, 3.0), (base, 1e-7), (1e12, -0.5), (best, 0.0)][alt]
        f = [base] if n_obj == 1 else [base, 20.0 - min(base, 15.0) + (i % 3)] + [float(i % 2)] * (n_obj - 2)
        return f, [g] * ni, []
    return values


def with_front(prob, front):
    prob._calc_pareto_front = lambda *a, **k: None if front is None else np.array(front, float)
    return prob


def state_single(it, algo, prob, best):
    pop, opt = list(algo.pop), list(algo.opt)
    feas = [float(x.F[0]) for x in pop if x.CV[0] <= 0]
    of = [float(x.F[0]) for x in opt if x.CV[0] <= 0]
    want = {"n_gen": it, "n_eval": algo.evaluator.n_eval, "f_avg": float(np.mean(feas)) if feas else None, "f_min": min(of) if of else None}
    if prob.n_ieq_constr:
        want["cv_min"] = min(float(x.CV[0]) for x in opt)
        want["cv_avg"] = float(np.mean([x.CV[0] for x in pop]))
    if best is not None:
        want["f_gap"] = min(of) - best if of else None
    return want


def u_rows(ctx, name, con, known, part, parts, depth):
    a = zoo.by_name(name)
    if con and not a.cons:
        return
    single = a.soo
    best = -3.5
    front = None if not known else ([[best]] if single else [[-3.0, 19.0], [1.0, 9.0], [4.0, 4.5], [9.0, 3.0]])
    for k, script in enumerate(zoo.scripts(8, range(5), depth)):
        if k % parts != part:
            continue
        prob = with_front(zoo.make_problem(a.n_var, 1 if single else 2, 1 if con else 0, script=script, values=answer(best)), front)
        scr = Screen()
        algo = a.make()
        conf = dict(name=name, con=con, known=known, script=script)
        calls = []
        algo.callback = None
        track = Eps()
        with scr.on():
            algo.setup(prob, termination=("n_iter", 5), seed=1, verbose=True, callback=lambda al: calls.append((al.n_iter, al.n_gen, al.evaluator.n_eval)))
            it = n_cb = 0
            while algo.has_next() and it < 60:
                algo.next()
                lines = scr.new()
                ctx.trans()
                if algo.output is None:
                    it = len(calls)
                    if lines:
                        ctx.viol("%s:silent" % name, "%s without an output prints %s" % (name, lines[:2]), **conf)
                    continue
                # loop-wise algorithms might need several rounds for one iteration
                if len(calls) == n_cb and not lines:
                    continue
                n_cb = len(calls)
                it += 1
                cells = scr.row(lines)
                if cells is None:
                    ctx.viol("%s:row" % name, "iteration %d prints %s" % (it, lines[:5]), **conf)
                    continue
                if single:
                    want = state_single(it, algo, prob, best if known else None)
                    if name == "NicheGA":
                        want["n_niches"] = len(algo.opt)
                    if name.startswith("PSO"):
                        want.update(f=algo.f, S=algo.strategy, w=algo.w, c1=algo.c1, c2=algo.c2)
                else:
                    want = state_multi(it, algo.evaluator.n_eval, list(algo.pop), list(algo.opt), con, None if front is None else np.array(front, float), track)
                compare(ctx, name, conf, scr, cells, want, it)
                ctx.outcome(name, tuple(cells))
        if len(calls) != it or [c[1] for c in calls] != list(range(1, it + 1)) or [c[0] for c in calls] != sorted(set(c[0] for c in calls)) or [c[2] for c in calls] != sorted(c[2] for c in calls):
            ctx.viol("%s:callback" % name, "%d iterations called the callback %s" % (it, calls), **conf)
        ctx.state()
        ctx.trace()


# ---- rows of multi-objective runs -------------------------------------------------------------------

class Eps:
    """The change between the optima: a change within the tolerance does not replace the reference."""

    def __init__(self, tol=0.0025):
        self.tol, self.prev, self.last = tol, None, None

    def update(self, F):
        cur = np.asarray(F, float)
        if self.prev is None:
            self.prev = cur
            return
        lo, hi = cur.min(axis=0), cur.max(axis=0)
        r = np.where(hi - lo < 1e-32, 1.0, hi - lo)
        di = float(np.max(np.abs(lo - self.prev.min(axis=0)) / r))
        dn = float(np.max(np.abs(hi - self.prev.max(axis=0)) / r))
        df = igd(scale(cur, lo, hi), scale(self.prev, lo, hi))
        self.last = (di, dn, df)
        if max(di, dn, df) > self.tol:
            self.prev = cur

    def columns(self):
        if self.last is None:
            return None, None
        di, dn, df = self.last
        return (di, "ideal") if di > self.tol else (dn, "nadir") if dn > self.tol else (df, "f")


def state_multi(n_gen, n_eval, pop, opt, con, pf, track):
    want = {"n_gen": n_gen, "n_eval": n_eval, "n_nds": len(opt)}
    F = np.array([x.F for x in opt if x.CV[0] <= 0], float)
    if con:
        want["cv_min"] = min(float(x.CV[0]) for x in opt)
        want["cv_avg"] = float(np.mean([x.CV[0] for x in pop]))
    if pf is not None:
        want.update(igd=None, gd=None)
        if pf.shape[1] == 2:
            want["hv"] = None
        if len(F):
            lo, hi = pf.min(axis=0), pf.max(axis=0)
            P, N = scale(pf, lo, hi), scale(F, lo, hi)
            want.update(igd=igd(P, N), gd=igd(N, P))
            if pf.shape[1] == 2:
                want["hv"] = hv2(N, P.max(axis=0))
    else:
        want.update(eps=None, indicator=None)
        if len(F):
            track.update(F)
            want["eps"], want["indicator"] = track.columns()
    return want


FRONTS = {
    2: [[(0, 1), (1, 0)], [(0, 1), (0.5, 0.25), (1, 0)], [(0, 1), (1, 0), (1, 0)], [(0.001, 1), (1, 0)], [(0, 0)], [(3, 8), (5, 6), (7, 2)],
        [(2, 2, 1.0)], [(-1, 3, 0.5), (4, 4)]],
    3: [[(0, 1, 0), (1, 0, 0)], [(0, 0, 1), (0, 1, 0), (1, 0, 0)], [(0.25, 0.5, 0.25)], [(0.25, 0.5, 0.25), (0.25, 0.25, 0.5)], [(1, 2, 3), (3, 2, 1)],
        [(2, 2, 2, 1.0)], [(-1, 3, 0, 0.5), (4, 4, 1)], [(0, 0.001, 1), (0, 1, 0), (1, 0, 0)]],
}


def make_opt(front, m):
    from pymoo.core.population import Population
    F = np.array([f[:m] for f in front], float)
    G = np.array([[f[m]] if len(f) > m else [-1.0] for f in front], float)
    return Population.new(X=np.arange(len(F))[:, None] / 7.0, F=F, G=G)


def u_multi(ctx, m, known, n, first):
    from pymoo.util.display.multi import MultiObjectiveOutput
    from pymoo.util.display.display import Display
    pf = None if not known else np.array([[0.0, 0.9], [0.3, 0.4], [0.8, 0.1]] if m == 2 else [[0, 0, 0.8], [0, 0.7, 0.1], [0.5, 0.2, 0]], float)
    prob = with_front(zoo.make_problem(1, m, 1), pf)
    for h in itertools.product(range(len(FRONTS[m])), repeat=n):
        if h[0] != first:
            continue
        scr, track = Screen(), Eps()
        disp = Display(MultiObjectiveOutput(), verbose=True)
        for k, i in enumerate(h):
            pop = make_opt(FRONTS[m][i] + [(9.0,) * m + (2.5,)], m)
            opt = pop[:-1]
            algo = SimpleNamespace(n_gen=k + 1, n_iter=k + 1, evaluator=SimpleNamespace(n_eval=17 * (k + 1)), pop=pop, opt=opt, problem=prob)
            with scr.on():
                disp(algo)
            cells = scr.row(scr.new())
            ctx.trans()
            if cells is None:
                ctx.viol("multi:row", "the rows printed are not one for each iteration", history=h)
                break
            compare(ctx, "multi", dict(history=h, m=m, known=known), scr, cells, state_multi(k + 1, 17 * (k + 1), list(pop), list(opt), True, pf, track), k + 1)
            ctx.outcome("multi", m, known, tuple(cells))
        ctx.state()
    ctx.trace()


# ---- text -------------------------------------------------------------------------------------------

def u_text(ctx, width):
    from pymoo.util.display.column import Column
    man = [1.0, 1.5, 2.0, 4.9999999, 5.0, 9.0, 9.4999, 9.5, 9.96, 9.9999999, 9.99999999999, 1.0000000001, 3.14159265358979, 7.77777777777]
    vals = [None, 0, "f", "nadir"] + ([0.0, float("inf"), -float("inf"), float("nan")] if width >= 7 else [])
    if width >= 7:
        for m in man:
            for e in list(range(-12, 13)) + [-150, -99, 101, 300]:
                for s in (1.0, -1.0):
                    vals += [s * m * 10.0 ** e, np.float64(s * m * 10.0 ** e)]
    for e in range(0, 13):
        vals += [10 ** e, 10 ** e - 1, -10 ** e, np.int64(10 ** e + 1)]
    for v in vals:
        col = Column("name", width=width)
        col.set(v)
        text = col.text()
        ctx.state()
        ctx.trans()
        ctx.outcome(width, text)
        if not reads_as(text, v, width):
            ctx.viol("text:%s" % ("int" if isinstance(v, (int, np.integer)) else "float"), "%r is printed as %r in %d characters" % (v, text, width))
        if len(text) < width:
            ctx.viol("text:width", "%r is printed as %r, the width is %d" % (v, text, width))
        if len(text) > width and not (isinstance(v, (int, float, np.number)) and len(text.strip()) == len(text)):
            ctx.viol("text:width", "%r is printed as %r, the width is %d" % (v, text, width))
    ctx.trace()


# ---- progress bar -----------------------------------------------------------------------------------

def u_progress(ctx, n):
    import pymoo.util.display.progress as mod
    P = [0.0, 0.004, 0.335, 0.5, 0.999, 1.0, 1.25]
    old = mod.alive_bar
    try:
        for nd in (True, False):
            for seq in itertools.product(P, repeat=n):
                shown, closed = [], []

                def bar(*args, **kwargs):
                    def gen():
                        try:
                            yield lambda v, *a, **k: shown.append(v)
                        finally:
                            closed.append(1)
                    return SimpleNamespace(gen=gen())
                mod.alive_bar = bar
                b = mod.ProgressBar(non_decreasing=nd)
                for p in seq:
                    b.set(p)
                    ctx.trans()
                b.close()
                want = [math.floor((max(seq[:k + 1]) if nd else seq[k]) * 100) / 100 for k in range(n)]
                if shown != want or len(closed) != 1:
                    ctx.viol("progress", "%s is shown as %s, closed %d times" % (seq, shown, len(closed)), non_decreasing=nd)
                ctx.state()
                ctx.outcome(nd, tuple(shown))
        ctx.trace()
        # a run with a progress bar shows the progress of its termination after each iteration
        for name in ("GA", "NSGA2", "DE"):
            for term in (("n_gen", 4), ("n_eval", 13), ("n_eval", 20)):
                shown, closed = [], []
                a = zoo.by_name(name)
                prob = zoo.make_problem(a.n_var, 1 if a.soo else 2, 0)
                algo = a.make()
                algo.setup(prob, termination=term, seed=1, progress=True)
                perc = []
                while algo.has_next():
                    algo.next()
                    perc.append(math.floor(max([algo.termination.perc] + perc) * 100) / 100)
                    ctx.trans()
                algo.result()
                algo.finalize()
                if shown != perc or perc[-1] < 1.0 or sorted(perc) != perc or len(closed) != 1:
                    ctx.viol("progress:run", "%s with %s shows %s instead of %s, closed %d times" % (name, term, shown, perc, len(closed)))
                ctx.state()
    finally:
        mod.alive_bar = old


# ---- recorders --------------------------------------------------------------------------------------

def u_recorder(ctx, n):
    from pymoo.core.recorder import DefaultMultiObjectiveRecorder, DefaultSingleObjectiveRecorder
    for inc in itertools.product((1, 3, 4, 11), repeat=n):
        for nth in (None, 1, 4, 10):
            for single in (True, False):
                m = 1 if single else 2
                pf = np.array([[0.5]]) if single else np.array([[0.0, 0.9], [0.3, 0.4], [0.8, 0.1]])
                for known in (True, False):
                    prob = with_front(zoo.make_problem(1, m, 1), pf if known else None)
                    rec = (DefaultSingleObjectiveRecorder if single else DefaultMultiObjectiveRecorder)(nth_evals=nth)
                    want, ev, due = [], 0, 0
                    for k, d in enumerate(inc):
                        ev += d
                        fr = [[(3.0, 1.0)], [(2.0,)], [(1.5,), (1.5,)], [(1.25, 0.5)], [(-1.0,)]][k % 5] if single else FRONTS[2][(3 * k + d) % 8]
                        opt = make_opt(fr, m)
                        rec(SimpleNamespace(opt=opt, pop=opt, problem=prob, evaluator=SimpleNamespace(n_eval=ev), n_gen=k + 1))
                        ctx.trans()
                        if nth is None or ev >= due:
                            due = (1 + ev // nth) * nth if nth else 0
                            F = np.array([x.F for x in opt if x.CV[0] <= 0], float)
                            e = dict(n_evals=ev, cv=min(float(x.CV[0]) for x in opt))
                            if single:
                                e["f"] = float(F.min()) if len(F) else float("inf")
                                e["fgap"] = e["f"] - 0.5 if known else float("inf")
                            else:
                                e["igd"] = igd(scale(pf, pf.min(axis=0), pf.max(axis=0)), scale(F, pf.min(axis=0), pf.max(axis=0))) if len(F) and known else float("inf")
                            want.append(e)
                    keys = list(want[0])
                    got = [{q: x[q] for q in keys} for x in rec.data] if all(q in x for x in rec.data for q in keys) else rec.data
                    if len(got) != len(want) or any(not near(a[q], b[q]) for a, b in zip(got, want) for q in keys):
                        ctx.viol("recorder:%s" % ("single" if single else "multi"), "recorded %s instead of %s" % (got, want), increments=inc, nth=nth, known=known)
                    cols = rec.get("n_evals", "cv")
                    if [list(c) for c in cols] != [[x["n_evals"] for x in rec.data], [x["cv"] for x in rec.data]]:
                        ctx.viol("recorder:get", "columns %s of %s" % (cols, rec.data))
                    ctx.state()
                    ctx.outcome(nth, single, known, len(rec.data))
    ctx.trace()


# ---- running metric ---------------------------------------------------------------------------------

RUN = [[(0, 1), (1, 0)], [(0, 1), (0.5, 0.25), (1, 0)], [(0.25, 1), (1, 0.5)], [(0, 0)], [(0, 2)], [(3, 8), (5, 6), (7, 2)], [(1, 1)], [(-1, 3), (0, 3)]]


def u_running(ctx, n, first):
    from pymoo.util.running_metric import RunningMetric
    for h in itertools.product(range(len(RUN)), repeat=n):
        if h[0] != first:
            continue
        for period in (None, 2, 3):
            for ind in ("igd", "hv"):
                rm = RunningMetric(period=period, indicator=ind)
                hist = []
                ctx.state()
                for k, i in enumerate(h):
                    opt = make_opt(RUN[i], 2)
                    with np.errstate(all="ignore"):
                        rm.update(SimpleNamespace(opt=opt))
                    ctx.trans()
                    hist.append(np.array(RUN[i], float))
                    if period:
                        hist = hist[-period:]
                    lo, hi = hist[-1].min(axis=0), hist[-1].max(axis=0)
                    r = np.where(hi == lo, 1.0, hi - lo)
                    N = [scale(e, lo, hi) for e in hist]
                    di = [float(np.max(np.abs(b.min(axis=0) - a.min(axis=0)) / r)) for a, b in zip(hist, hist[1:])] + [0.0]
                    dn = [float(np.max(np.abs(b.max(axis=0) - a.max(axis=0)) / r)) for a, b in zip(hist, hist[1:])] + [0.0]
                    df = [igd(N[-1], e) if ind == "igd" else hv2(e, (1.0, 1.0)) for e in N]
                    for what, got, want in (("ideal", rm.delta_ideal, di), ("nadir", rm.delta_nadir, dn), ("f", rm.delta_f, df)):
                        if len(got) != len(want) or any(not near(a, b) for a, b in zip(got, want)):
                            ctx.viol("running:%s" % what, "%s instead of %s" % (got, want), history=h[:k + 1], period=period, indicator=ind)
                    ctx.outcome(ind, tuple(np.round(df, 6)))
                    if any(x.F.tolist() != list(map(float, f)) for x, f in zip(opt, RUN[i])):
                        ctx.viol("running:pure", "the metric changes the solutions", history=h[:k + 1])
    ctx.trace()


def u_window(ctx, n):
    from pymoo.util.sliding_window import SlidingWindow
    for size in (None, 1, 2, 3):
        for ops in itertools.product(("a", "a", "b", "clear"), repeat=n):
            w, ref = SlidingWindow(size), []
            for k, o in enumerate(ops):
                if o == "clear":
                    w.clear()
                    ref = []
                else:
                    w.append((o, k))
                    ref = (ref + [(o, k)])[-size:] if size else ref + [(o, k)]
                ctx.trans()
                if list(w) != ref or w.is_full() != (size is not None and len(ref) == size) or len(w.to_numpy()) != len(ref):
                    ctx.viol("window", "window of size %s is %s after %s" % (size, list(w), ops[:k + 1]))
            ctx.state()
            ctx.outcome(size, tuple(ref))
    ctx.trace()


# ---- callbacks --------------------------------------------------------------------------------------

def u_callbacks(ctx, name):
    """Every callback of a collection is initialized once, notified and updated once per iteration, and sees the state after the iteration."""
    from pymoo.core.callback import Callback, CallbackCollection
    a = zoo.by_name(name)
    for n_cb in (1, 2, 3):
        for n_it in (1, 2, 4):
            for hist in (False, True):
                log = []

                class Log(Callback):
                    def __init__(self, k):
                        super().__init__()
                        self.k = k

                    def initialize(self, algorithm):
                        log.append(("init", self.k))

                    def notify(self, algorithm):
                        log.append(("notify", self.k, algorithm.n_gen))

                    def update(self, algorithm):
                        opt = algorithm.opt
                        log.append(("update", self.k, algorithm.n_gen, algorithm.evaluator.n_eval, len(opt), len(algorithm.history) if hist else 0))

                prob = zoo.make_problem(a.n_var, 1 if a.soo else 2, 0)
                cbs = [Log(k) for k in range(n_cb)]
                algo = a.make()
                algo.setup(prob, termination=("n_gen", n_it), seed=1, callback=CallbackCollection(*cbs) if n_cb > 1 else cbs[0], save_history=hist)
                gen, pos = 0, 0
                while algo.has_next():
                    algo.next()
                    ctx.trans()
                    part, pos = log[pos:], len(log)
                    if part:
                        gen += 1
                        want = []
                        for k in range(n_cb):
                            want += ([("init", k)] if gen == 1 else []) + [("notify", k, gen), ("update", k, gen, len(prob.log), len(algo.opt), gen if hist else 0)]
                        if part != want:
                            ctx.viol("callback", "%s with %d callbacks: %s instead of %s" % (name, n_cb, part, want), history=hist)
                    elif not a.loop:
                        ctx.viol("callback", "%s: no callback after iteration %d" % (name, gen + 1))
                if gen != n_it:
                    ctx.viol("callback", "%s: %d calls in %d iterations" % (name, gen, n_it))
                ctx.state()
                ctx.outcome(name, n_cb, n_it, hist)
    ctx.trace()


def units(tier):
    T = tier == "thorough"
    U = []
    for a in zoo.all_algorithms():
        for con in (False, True):
            for known in (False, True):
                if a.cost > 1 and (known or con):
                    continue
                parts = 4 if T else 1
                for p in range(parts):
                    U.append(("u_rows", dict(name=a.name, con=con, known=known, part=p, parts=parts, depth=2 if T and a.cost == 1 else 1)))
    for m in (2, 3):
        for known in (False, True):
            for f in range(len(FRONTS[m])):
                U.append(("u_multi", dict(m=m, known=known, n=4 if T else 3, first=f)))
    for w in (4, 5, 6, 7, 8, 9, 10, 13, 15):
        U.append(("u_text", dict(width=w)))
    U.append(("u_progress", dict(n=5 if T else 4)))
    U.append(("u_recorder", dict(n=5 if T else 4)))
    for f in range(len(RUN)):
        U.append(("u_running", dict(n=4 if T else 3, first=f)))
    U.append(("u_window", dict(n=7 if T else 5)))
    for name in ("GA", "NSGA2", "DE", "PSO", "NelderMead", "MOEAD"):
        U.append(("u_callbacks", dict(name=name)))
    return U
