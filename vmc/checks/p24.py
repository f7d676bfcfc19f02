"""P24: reading and writing hyperparameters is a faithful round trip."""

import itertools
import resource
import signal
from copy import deepcopy

import numpy as np

from vmc.fp import diff, fp
from vmc.rng import MixRNG, ONE, ScriptRNG, explore

PROPERTY = "P24"
RULE = "every state is one object with one assignment of its hyperparameters, or one sampling under one sequence of answers of the generator; outcomes are distinct sets of values"
BOUNDS = {
    "quick": "45 algorithms, 12 algorithm variants with parameter control, wrappers or mixed variables and 20 operators, fresh, copied and after a run x every reported parameter x up to 6 values (limits, middle, options, per-individual array) written alone, in every pair and all together, "
             "read back, restored; written versus constructed behaviour of 16 operators (8 matings) and 7 algorithms (3 iterations); 20 variables sampled under every sequence of answers (up to 3 draws); per-individual probabilities in {0,1}^4; controls over N<=3 under every 2 deviations",
    "thorough": "as quick with every triple of parameters, every 3 deviations for the controls and 5 iterations",
}


def guard(seconds=60):
    # objects referring to each other may make a search endless
    signal.alarm(seconds)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))


# --- catalogue -------------------------------------------------------------------------------------

def operators():
    from pymoo.operators.crossover.binx import BinomialCrossover
    from pymoo.operators.crossover.dex import DEX
    from pymoo.operators.crossover.expx import ExponentialCrossover
    from pymoo.operators.crossover.hux import HalfUniformCrossover
    from pymoo.operators.crossover.pcx import PCX
    from pymoo.operators.crossover.pntx import SinglePointCrossover, TwoPointCrossover
    from pymoo.operators.crossover.sbx import SBX
    from pymoo.operators.crossover.ux import UniformCrossover
    from pymoo.operators.mutation.bitflip import BitflipMutation
    from pymoo.operators.mutation.gauss import GaussianMutation
    from pymoo.operators.mutation.pm import PM
    return {"sbx": SBX, "bx": BinomialCrossover, "dex": DEX, "expx": ExponentialCrossover, "hux": HalfUniformCrossover, "pcx": PCX, "spx": SinglePointCrossover, "2px": TwoPointCrossover,
            "ux": UniformCrossover, "bfm": lambda **k: BitflipMutation(**dict(dict(prob_var=0.2), **k)), "gm": lambda **k: GaussianMutation(**dict(dict(prob_var=0.2), **k)),
            "pm": lambda **k: PM(**dict(dict(prob_var=0.2), **k))}


def catalogue():
    from vmc import zoo
    out = {}
    for a in zoo.all_algorithms():
        out[a.name] = a.make
    out.update(("op:" + k, v) for k, v in operators().items())
    from pymoo.algorithms.soo.nonconvex.de import DE, Variant
    from pymoo.algorithms.soo.nonconvex.ga import GA
    from pymoo.algorithms.soo.nonconvex.pso_ep import EPPSO, Swarm
    from pymoo.constraints.eps import AdaptiveEpsilonConstraintHandling
    from pymoo.core.mixed import MixedVariableGA
    from pymoo.operators.control import NoParameterControl, RandomParameterControl
    from pymoo.algorithms.moo.nsga2 import NSGA2
    from pymoo.operators.crossover.dex import DEX
    out["DE-evolutionary"] = lambda: DE(pop_size=5, variant=Variant())
    out["DE-random"] = lambda: DE(pop_size=5, variant=Variant(control=RandomParameterControl))
    out["DE-none"] = lambda: DE(pop_size=5, variant=Variant(control=NoParameterControl, CR=0.9))
    out["EPPSO-own"] = lambda: EPPSO(pop_size=4, swarm=Swarm(control=NoParameterControl))
    out["EPPSO-random"] = lambda: EPPSO(pop_size=4, swarm=Swarm(control=RandomParameterControl), topology="ring", init_V="random")
    out["eps-DE"] = lambda: AdaptiveEpsilonConstraintHandling(DE(pop_size=5))
    out["eps-NSGA2"] = lambda: AdaptiveEpsilonConstraintHandling(NSGA2(pop_size=4))
    out["mixed"] = lambda: MixedVariableGA(pop_size=4)
    out["GA-dex"] = lambda: GA(pop_size=4, crossover=DEX(prob=0.7))
    return out


def variables(obj):
    """Every active default Variable reachable through attributes and dictionaries, independently of the code under test."""
    from pymoo.core.variable import Variable
    seen, out, todo = {}, [], [obj]
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen[id(o)] = o
        if isinstance(o, Variable):
            out.append(o)
        else:
            d = o if isinstance(o, dict) else getattr(o, "__dict__", None)
            if isinstance(o, type) or d is None:
                continue
            todo.extend(d.values())
    return out


def candidates(v):
    from pymoo.core.variable import Binary, Choice, Integer, Real
    if isinstance(v, Choice):
        return list(dict.fromkeys(list(v.all) + list(v.options)))
    if isinstance(v, Binary):
        return [True, False]
    lo, hi = v.bounds
    if isinstance(v, Integer):
        return [lo, hi, (lo + hi) // 2]
    return [lo, hi, 0.5 * (lo + hi), np.linspace(lo, hi, 4)]


def same(a, b):
    return fp(a) == fp(b)


SKIP = ("random_state", "start_time", "value")


def roundtrip(ctx, name, obj, when, depth, others=()):
    """others: equally built objects that must not notice anything."""
    from pymoo.core.parameters import flatten, get_params, hierarchical, set_params
    d = dict(object=name, when=when)
    guard()
    nested = get_params(obj)
    guard()
    flat = flatten(nested)
    ctx.trans()
    all_v = [v for v in variables(obj) if v.flag == "default" and v.active]
    if not ctx.check(sorted(map(id, flat.values())) == sorted(map(id, all_v)), "reported", "%s reports %d parameters, it has %d" % (name, len(flat), len(all_v)), reported=sorted(flat), **d):
        return
    ctx.check(len(get_params(obj, only_active=False)) >= len(nested), "inactive", "asking for all parameters gives fewer", **d)
    h = hierarchical(flat)
    ctx.check(flatten(h) == flat, "hierarchical", "flattening and unflattening are not inverse", flat=sorted(flat), **d)
    if not flat:
        return
    before = fp(obj, skip=SKIP)
    keep = {k: v.value for k, v in flat.items()}
    other_before = [fp(o) for o in others]

    def read():
        return {k: v.value for k, v in flatten(get_params(obj)).items()}

    def wrong(got, want):
        return [k for k in want if k not in got or not same(got[k], want[k])] + [k for k in got if k not in want]

    def write(vals, tag):
        try:
            set_params(obj, hierarchical(vals))
        except Exception as e:
            ctx.viol("write:%s" % tag, "the parameters %s reported for %s cannot be written: %r" % (sorted(vals), name, e), **d)
            return False
        ctx.trans()
        ctx.state()
        want = dict(keep)
        want.update(vals)
        w = wrong(read(), want)
        ctx.check(not w, "write:%s" % tag, "after writing %s, %s reads wrongly" % (sorted(vals), w), **d)
        ctx.outcome(name, sorted((k, repr(v)) for k, v in vals.items()))
        return not w

    # writing back what was read
    if not write(dict(keep), "back"):
        return
    ctx.check(fp(obj, skip=SKIP) == before, "write:back", "writing back what was read changes something: %s" % diff(before, fp(obj, skip=SKIP)), **d)
    for k, v in flat.items():
        for c in candidates(v):
            if not write({k: c}, "one"):
                return
            ctx.check(fp(obj, skip=SKIP) == before, "write:one", "writing %s changes something else: %s" % (k, diff(before, fp(obj, skip=SKIP))), **d)
            set_params(obj, hierarchical({k: keep[k]}))
    for i, o in enumerate(others):
        # while the changed values are in place
        set_params(obj, hierarchical({k: candidates(v)[0] for k, v in flat.items()}))
        shared = fp(o) != other_before[i]
        set_params(obj, hierarchical(keep))
        ctx.check(not shared, "shared:%s" % name, "writing the parameters of one %s changes another one" % name, **d)
    for r in range(2, depth + 1):
        for ks in itertools.combinations(flat, r):
            if not write({k: candidates(flat[k])[j % len(candidates(flat[k]))] for j, k in enumerate(ks)}, "some"):
                return
            set_params(obj, hierarchical({k: keep[k] for k in ks}))
    if not write({k: candidates(v)[-1] for k, v in flat.items()}, "all"):
        return
    set_params(obj, hierarchical(keep))
    w = wrong(read(), keep)
    ctx.check(not w, "restore", "writing back the first values does not restore %s" % w, **d)
    # replacing the parameters themselves
    from pymoo.core.variable import Real
    twin = deepcopy(obj)
    new = {k: Real(0.5, bounds=(0, 1)) for k in flat}
    try:
        set_params(twin, hierarchical(new), as_value=False)
        got = flatten(get_params(twin))
        ctx.check(all(got.get(k) is new[k] for k in new), "replace", "replacing parameters does not put the new ones in place", **d)
    except Exception as e:
        ctx.viol("replace", "replacing the parameters fails: %r" % (e,), **d)
    ctx.check(all(flatten(get_params(obj))[k] is flat[k] for k in flat), "copy", "changing a copy changes the original", **d)
    ctx.trace()


def u_roundtrip(ctx, names, depth):
    from pymoo.core.parameters import deactivate_params, flatten, get_params
    cat = catalogue()
    for name in names:
        obj = cat[name]()
        roundtrip(ctx, name, obj, "fresh", depth, others=[cat[name]()])
        roundtrip(ctx, name, deepcopy(obj), "copied", 2)
        if get_params(obj):
            twin = deepcopy(obj)
            n = len(flatten(get_params(twin)))
            deactivate_params(twin)
            ctx.check(get_params(twin) == {} and len(flatten(get_params(twin, only_active=False))) == n, "deactivate", "deactivated parameters are still reported or lost", object=name)
            ctx.check(get_params(twin, flag="other") == {}, "flag", "parameters with another flag are reported", object=name)


def u_after(ctx, names):
    """The same after a few iterations, when the object holds populations and problems."""
    from vmc.checks.p15 import configs
    cat = catalogue()
    C = configs()
    from vmc import zoo
    for name in names:
        if name in C:
            algo, problem = C[name]("plain")
        elif name == "mixed" or name.startswith("op:"):
            continue
        else:
            algo, problem = cat[name](), zoo.make_problem(n_var=2, n_obj=2 if "NSGA2" in name else 1)
        guard(120)
        algo.setup(problem, termination=("n_iter", 3), seed=1)
        try:
            for _ in range(2):
                algo.next()
        except Exception as e:
            ctx.viol("run", "%s fails: %r" % (name, e))
            continue
        roundtrip_light(ctx, name, algo)


def roundtrip_light(ctx, name, obj):
    from pymoo.core.parameters import flatten, get_params, hierarchical, set_params
    guard(120)
    flat = flatten(get_params(obj))
    ctx.trans()
    ctx.state()
    d = dict(object=name, when="after a run")
    for k, v in flat.items():
        old = v.value
        for c in candidates(v)[:2]:
            try:
                set_params(obj, hierarchical({k: c}))
            except Exception as e:
                return ctx.viol("write:running", "the parameter %s of a running %s cannot be written: %r" % (k, name, e), **d)
            got = flatten(get_params(obj))
            ctx.check(same(got[k].value, c) and all(same(got[q].value, flat[q].value) for q in flat), "write:running", "the parameter %s of a running %s is not written" % (k, name), **d)
        set_params(obj, hierarchical({k: old}))


# --- a value written acts like a value constructed -------------------------------------------------

def offspring(op, name, X):
    from pymoo.core.population import Population
    from pymoo.core.problem import Problem
    rng = np.random.default_rng(5)
    if name == "bfm":
        X = X > 0.5
    problem = Problem(n_var=X.shape[1], n_obj=1, xl=np.zeros(X.shape[1]), xu=np.ones(X.shape[1]))
    pop = Population.new(X=X.copy())
    if name in ("bfm", "gm", "pm"):
        return np.array(op(problem, pop, random_state=rng).get("X"))
    P = np.array([[(i + j * (i % 3 + 1)) % len(X) for j in range(op.n_parents)] for i in range(len(X))])
    return np.array(op(problem, pop, parents=P, random_state=rng).get("X"))


def u_effect(ctx):
    from pymoo.core.parameters import flatten, get_params, hierarchical, set_params
    X = np.array([[((7 * i + 3 * j) % 11) / 10.0 for j in range(6)] for i in range(8)])
    for name, cls in operators().items():
        base = cls()
        for k, v in flatten(get_params(base)).items():
            moved = set()
            for c in [c for c in candidates(v) if np.ndim(c) == 0] + ([0.0, 1.0] if k.startswith("prob") else []):
                try:
                    A = cls(**{k: c})
                except TypeError:
                    continue
                B = cls()
                set_params(B, hierarchical({k: c}))
                a, b = offspring(A, name, X), offspring(B, name, X)
                ctx.trans()
                ctx.state()
                ctx.check(np.array_equal(a, b), "effect:operator", "%s with %s=%r written differs from one constructed with it" % (name, k, c), constructed=a, written=b)
                moved.add(a.tobytes())
                ctx.outcome(name, k, c)
            # DEX recombines all parents whatever its probability says
            if moved and (name, k) != ("dex", "prob"):
                ctx.check(len(moved) > 1, "ignored:operator", "the parameter %s of %s has no influence at all" % (k, name))
        # values per individual equal the single values of every position
        for k, v in flatten(get_params(base)).items():
            n_off = 8
            lo, hi = v.bounds
            for c in (lo, hi, 0.5 * (lo + hi)):
                A, B = cls(), cls()
                A_vals = c
                set_params(A, hierarchical({k: A_vals}))
                set_params(B, hierarchical({k: np.full(n_off, c)}))
                try:
                    a, b = offspring(A, name, X), offspring(B, name, X)
                except Exception as e:
                    ctx.viol("individual:operator", "%s does not accept one value of %s for each individual: %r" % (name, k, e))
                    continue
                ctx.trans()
                ctx.check(np.array_equal(a, b), "individual:operator", "%s with an equal %s for each individual differs from the single value" % (name, k), value=c)


def u_effect_algorithms(ctx, n_iter):
    from vmc import zoo
    from pymoo.algorithms.soo.nonconvex.de import DE, Variant
    from pymoo.algorithms.soo.nonconvex.g3pcx import G3PCX
    from pymoo.algorithms.soo.nonconvex.ga import GA
    from pymoo.algorithms.soo.nonconvex.pso_ep import EPPSO, Swarm
    from pymoo.core.parameters import flatten, get_params, hierarchical, set_params
    from pymoo.operators.control import NoParameterControl
    from pymoo.operators.crossover.sbx import SBX
    from pymoo.operators.mutation.pm import PM

    T = []
    for k, vals in dict(CR=[0.0, 0.3, 1.0], F=[0.1, 0.9, 2.0], crossover=["bin", "exp", "line", "hypercube"], selection=["rand", "best", "target-to-best"], n_diffs=[1, 2], jitter=[True, False]).items():
        for v in vals:
            T.append(("DE", "mating." + k, v, lambda k=k, v=v: DE(pop_size=6, variant=Variant(control=NoParameterControl, **{k: v})), lambda: DE(pop_size=6, variant=Variant(control=NoParameterControl))))
    for k, vals in dict(pop_size=[5, 8], n_offsprings=[1, 2, 3], n_parents=[3, 4], family_size=[1, 3]).items():
        for v in vals:
            if k == "n_parents" and v != 3:
                continue
            T.append(("G3PCX", k, v, lambda k=k, v=v: G3PCX(**dict(dict(pop_size=6), **{k: v})), lambda: G3PCX(pop_size=6)))
    for k, vals in dict(topology=["star", "ring"], init_V=["zero", "random"]).items():
        for v in vals:
            T.append(("EPPSO", k, v, lambda k=k, v=v: EPPSO(pop_size=4, swarm=Swarm(control=NoParameterControl), **{k: v}), lambda: EPPSO(pop_size=4, swarm=Swarm(control=NoParameterControl))))
    for k, vals in dict(w=[0.1, 0.9], c1=[0.5, 3.0], c2=[0.5, 3.0]).items():
        for v in vals:
            T.append(("EPPSO", "mating." + k, v, lambda k=k, v=v: EPPSO(pop_size=4, swarm=Swarm(control=NoParameterControl, **{k: v})), lambda: EPPSO(pop_size=4, swarm=Swarm(control=NoParameterControl))))
    for k, vals in dict(eta=[3.0, 30.0], prob=[0.5, 1.0], prob_var=[0.1, 0.9], prob_exch=[0.0, 1.0], prob_bin=[0.0, 1.0]).items():
        for v in vals:
            T.append(("GA", "mating.crossover." + k, v, lambda k=k, v=v: GA(pop_size=4, crossover=SBX(**{k: v}), mutation=PM()), lambda: GA(pop_size=4, crossover=SBX(), mutation=PM())))
    for k, vals in dict(eta=[3.0, 30.0], prob=[0.5, 1.0]).items():
        for v in vals:
            T.append(("GA", "mating.mutation." + k, v, lambda k=k, v=v: GA(pop_size=4, crossover=SBX(), mutation=PM(**{k: v})), lambda: GA(pop_size=4, crossover=SBX(), mutation=PM())))

    def log(algo, n_iter=n_iter):
        p = zoo.make_problem(n_var=3, n_obj=1)
        # the particles rest in the first iterations
        n_iter = max(n_iter, 6) if isinstance(algo, EPPSO) else n_iter
        guard(120)
        algo.setup(p, termination=("n_iter", n_iter + 1), seed=3)
        for _ in range(n_iter):
            algo.next()
        return [tuple(r[0].tolist()) for r in p.log]
    seen = {}
    for name, k, v, made, plain in T:
        b = plain()
        if not ctx.check(k in flatten(get_params(b)), "effect:name", "%s does not report its parameter %s" % (name, k), reported=sorted(flatten(get_params(b)))):
            continue
        set_params(b, hierarchical({k: v}))
        la, lb = log(made()), log(b)
        ctx.trans(2)
        ctx.trace(2)
        ctx.state()
        ctx.check(la == lb, "effect:algorithm", "%s with %s=%r written evaluates other solutions than one constructed with it" % (name, k, v))
        seen.setdefault((name, k), set()).add(tuple(la))
        ctx.outcome(name, k, v)
    for (name, k), s in seen.items():
        n = len([1 for t in T if t[0] == name and t[1] == k])
        # with a single difference vector and the default settings every listed parameter matters
        if n > 1 and k not in ("mating.F", "mating.n_diffs"):
            ctx.check(len(s) > 1, "ignored:algorithm", "the parameter %s of %s has no influence at all" % (k, name))


# --- variables -------------------------------------------------------------------------------------

def u_sampling(ctx):
    from pymoo.core.variable import Binary, Choice, Integer, Real
    V = [("real", Real(bounds=b), b) for b in [(0.0, 1.0), (-3, 2), (2.5, 2.5), (-1e9, 1e9), (0, 1)]]
    V += [("int", Integer(bounds=b), b) for b in [(0, 1), (-2, 2), (3, 3), (-7, -4), (10, 200)]]
    V += [("bin", Binary(), None)]
    V += [("choice", Choice(options=o), o) for o in [["a"], ["a", "bcd", "ef"], [1, 2, 3], [True, False], [0.5, -1.5], ["a", 1], [None, "x"], [1, 2.5], [True, "yes", 3], [("a", 1), ("b", 2)], np.array(["p", "q"])]]
    for kind, v, dom in V:
        seen = set()
        for n in (None, 1, 2, 3):
            def run(o, n=n):
                rng = ScriptRNG(o, levels=[0.5, 0.0, ONE, 0.25])
                ctx.trans()
                ctx.state()
                x = v.sample(n, random_state=rng)
                d = dict(kind=kind, domain=dom, n=n, choices=o.choices[:20])
                if n is not None and not ctx.check(len(x) == n, "sample:size", "%d values are asked for, %d come back" % (n, len(x)), **d):
                    return
                for e in [x] if n is None else list(x):
                    if kind == "real":
                        ok = isinstance(e, (float, np.floating)) and dom[0] <= e <= dom[1]
                    elif kind == "int":
                        ok = isinstance(e, (int, np.integer)) and not isinstance(e, bool) and dom[0] <= e <= dom[1]
                    elif kind == "bin":
                        ok = isinstance(e, (bool, np.bool_))
                    else:
                        ok = any(type(e) in (type(q), getattr(np, "str_", str)) and e == q or (isinstance(e, np.generic) and type(e.item()) is type(q) and e.item() == q) for q in list(dom))
                    ctx.check(ok, "sample:%s" % kind, "a variable with domain %r is sampled as %r (%s)" % (list(dom) if dom is not None else None, e, type(e).__name__), **d)
                    seen.add(repr(e.item() if isinstance(e, np.generic) else e))
            explore(run, max_dev=3)
        ctx.outcome(kind, str(dom), sorted(seen))
        if kind == "int" and dom[1] - dom[0] < 6:
            ctx.check(seen == {repr(i) for i in range(dom[0], dom[1] + 1)}, "sample:all", "not every value of %r is reached: %s" % (dom, sorted(seen)))
        if kind == "bin":
            ctx.check(seen == {"True", "False"}, "sample:all", "not both values are reached: %s" % sorted(seen))
        if kind == "choice":
            ctx.check(len(seen) == len(dom), "sample:all", "not every option of %r is reached: %s" % (list(dom), sorted(seen)))
    for args in itertools.product([Real(0.25, bounds=(0, 1)), Integer(3, bounds=(0, 5)), Choice("a", options=["a", "b"]), Binary(True), 7, "z", np.array([1.0, 2.0]), Real(np.array([0.1, 0.2]), bounds=(0, 1))], repeat=2):
        from pymoo.core.variable import Variable, get
        for size in (None, 2, (2, 1), (1, 2)):
            out = get(*args, size=size)
            one = get(args[0], size=size)
            ctx.trans()
            ctx.state()
            for a, o in zip(args, out):
                val = a.value if isinstance(a, Variable) else a
                if size is None:
                    ok = o is val
                else:
                    shape = (size,) if np.ndim(size) == 0 else size
                    want = [val] * 2 if np.ndim(val) == 0 else list(val)
                    ok = isinstance(o, np.ndarray) and o.shape == shape and o.ravel().tolist() == want
                ctx.check(ok, "get", "the value %r with size %r is read as %r" % (val, size, o))
            ctx.check(same(one, out[0]), "get:one", "reading one and reading two differ")


def u_individual(ctx):
    """A probability given for every individual decides about exactly that individual."""
    from pymoo.core.parameters import hierarchical, set_params
    X = np.array([[0.1 * (i + 1), 0.9 - 0.2 * i, 0.5 + 0.1 * i] for i in range(4)])
    for name, cls in operators().items():
        for bits in itertools.product([0.0, 1.0], repeat=4):
            op = cls()
            set_params(op, hierarchical({"prob": np.array(bits)}))
            if name == "dex":
                continue
            Y = offspring(op, name, X)
            B = X > 0.5 if name == "bfm" else X
            ctx.trans()
            ctx.state()
            if name in ("bfm", "gm", "pm"):
                par = [[i] for i in range(4)]
            else:
                par = [[(i + j * (i % 3 + 1)) % 4 for j in range(op.n_parents)] for i in range(4)]
            n_off = len(Y) // 4
            for i, b in enumerate(bits):
                if b == 0.0:
                    kids = [Y[c * 4 + i] for c in range(n_off)]
                    ok = all(any(np.array_equal(k, B[p]) for p in par[i]) for k in kids)
                    ctx.check(ok, "individual", "%s changes an individual whose probability is zero" % name, probabilities=bits, individual=i)
        for k in ("prob_var",):
            if name in ("bfm", "pm", "gm"):
                for bits in itertools.product([0.0, 1.0], repeat=4):
                    op = cls(prob=1.0)
                    set_params(op, hierarchical({k: np.array(bits)}))
                    Y = offspring(op, name, X)
                    B = X > 0.5 if name == "bfm" else X
                    ctx.trans()
                    ctx.state()
                    for i, b in enumerate(bits):
                        if b == 0.0:
                            ctx.check(np.array_equal(Y[i], B[i]), "individual:var", "%s changes a variable although its probability is zero" % name, probabilities=bits)
                        elif name == "bfm":
                            ctx.check(np.array_equal(Y[i], ~B[i]), "individual:var", "%s does not flip every variable although the probability is one" % name, probabilities=bits)


# --- controls --------------------------------------------------------------------------------------

class Holder:
    def __init__(self):
        from pymoo.core.variable import Binary, Choice, Integer, Real
        self.r = Real(0.5, bounds=(0.2, 0.8))
        self.i = Integer(3, bounds=(1, 4))
        self.c = Choice("a", options=["a", "bb", "ccc"])
        self.b = Binary(True)


def u_control(ctx, which, N, dev):
    from pymoo.core.population import Population
    from pymoo.operators import control as C

    def run(o):
        h = Holder()
        rng = MixRNG(o, 3, levels=[0.5, 0.0, ONE])
        ctl = getattr(C, which)(h)
        for gen in range(2):
            n_pop = 3
            pop = Population.new(X=np.zeros((n_pop, 1)), n_gen=np.array([1, 2, 2]))
            if gen == 1:
                for k, v in zip(ctl.params, (h.r, h.i, h.c, h.b)):
                    pass
                pop[:2].set("ParameterControl.r", np.array([0.2, 0.8]))
                pop[:2].set("ParameterControl.i", np.array([1, 4]))
                pop[:2].set("ParameterControl.c", np.array(["ccc", "a"], dtype=object))
                pop[:2].set("ParameterControl.b", np.array([True, False]))
            ctl.tell(pop=pop)
            ctl.do(N, random_state=rng)
            ctx.trans()
            ctx.state()
            d = dict(control=which, n=N, generation=gen, choices=o.choices[:30])
            if which == "NoParameterControl":
                ctx.check((h.r.value, h.i.value, h.c.value, h.b.value) == (0.5, 3, "a", True), "control:none", "no control changes a parameter", **d)
                continue
            for v, ok in ((h.r, lambda e: 0.2 <= e <= 0.8), (h.i, lambda e: float(e).is_integer() and 1 <= e <= 4), (h.c, lambda e: e in ("a", "bb", "ccc")), (h.b, lambda e: isinstance(e, (bool, np.bool_)))):
                ctx.check(len(v.value) == N, "control:size", "the controlled parameter has %d values instead of %d" % (len(v.value), N), **d)
                ctx.check(all(ok(e) for e in v.value), "control:domain", "a controlled parameter leaves its domain: %r" % (list(v.value),), **d)
            infills = Population.new(X=np.zeros((N, 1)))
            ctl.advance(infills)
            ctx.check(all(same(list(infills.get("ParameterControl." + k)), list(getattr(h, k).value)) for k in "ricb"), "control:attach", "the offspring do not carry the parameters they were made with", **d)
            ctx.outcome(which, [repr(list(v.value)) for v in (h.r, h.i, h.c, h.b)])
    explore(run, max_dev=dev, max_points=60)


def u_problem(ctx):
    """The hyperparameter problem runs exactly the algorithm with exactly these values."""
    from vmc import zoo
    from pymoo.algorithms.hyperparameters import HyperparameterProblem, MultiRun, SingleObjectiveSingleRun, stats_avg_nevals
    from pymoo.algorithms.soo.nonconvex.de import DE
    from pymoo.algorithms.soo.nonconvex.g3pcx import G3PCX
    from pymoo.core.parameters import flatten, get_params
    from pymoo.optimize import minimize
    def values(x, i, alt, n_obj, n_ieq, n_eq):
        f, g, h = zoo.base_values(x, i, alt, n_obj, n_ieq, n_eq)
        return f, [-1.0 - float(np.sum(x)) * (k + 1) for k in range(n_ieq)], [1e-5 * float(np.sum(x))] * n_eq

    for name, mk, direct in [("G3PCX", lambda: G3PCX(pop_size=6), lambda v: G3PCX(pop_size=v["pop_size"], n_offsprings=v["n_offsprings"], n_parents=3, family_size=v["family_size"]))]:
        for pop_size, n_off, fam in itertools.product([5, 7], [1, 2], [1, 2]):
            for cons in (0, 1):
                p = zoo.make_problem(n_var=2, n_obj=1, n_ieq=cons, n_eq=cons, values=values)
                a = mk()
                before = fp(a)
                for perf, want in (
                    (SingleObjectiveSingleRun(p, termination=("n_evals", 20), seed=1), "single"),
                    (MultiRun(p, seeds=[1, 2, 3], termination=("n_evals", 20)), "mean"),
                    (MultiRun(p, seeds=[1, 2], func_stats=stats_avg_nevals, termination=("n_evals", 20)), "evals"),
                ):
                    hp = HyperparameterProblem(a, perf, n_ieq_constr=cons if want != "evals" else 0, n_eq_constr=cons if want != "evals" else 0)
                    ctx.check(set(hp.vars) == set(flatten(get_params(a))) and hp.n_var == len(hp.vars), "problem:vars", "the variables of the problem are not the parameters of the algorithm", found=sorted(hp.vars))
                    x = {k: v.value for k, v in hp.vars.items()}
                    x.update(pop_size=pop_size, n_offsprings=n_off, family_size=fam, n_parents=3)
                    guard(300)
                    out = hp.evaluate(x, return_as_dictionary=True)
                    ctx.trans()
                    ctx.state()
                    seeds = dict(single=[1], mean=[1, 2, 3], evals=[1, 2])[want]
                    rs = [minimize(p, direct(x), ("n_evals", 20), seed=s) for s in seeds]
                    val = float(np.mean([r.algorithm.evaluator.n_eval for r in rs])) if want == "evals" else float(np.mean([r.F[0] for r in rs]))
                    ctx.check(abs(float(np.ravel(out["F"])[0]) - val) <= 1e-12, "problem:value", "the performance of %s is %r instead of %r (%s)" % (name, out["F"], val, want), values=x)
                    if cons and want != "evals":
                        for k in "GH":
                            g = np.mean([getattr(r, k) for r in rs], axis=0)
                            ctx.check(np.allclose(np.ravel(out[k]), np.ravel(g), atol=1e-12), "problem:constraints", "the constraints %s of the performance are %r instead of %r (%s)" % (k, out[k], g, want), values=x)
                    ctx.check(fp(a) == before, "problem:unchanged", "evaluating hyperparameters changes the algorithm given", values=x)
                    ctx.outcome(name, want, val)


def units(tier):
    deep = tier == "thorough"
    names = list(catalogue())
    U = [("u_roundtrip", dict(names=names[i::16], depth=3 if deep else 2)) for i in range(16)]
    U += [("u_after", dict(names=names[i::8])) for i in range(8)]
    U += [("u_effect", {}), ("u_effect_algorithms", dict(n_iter=5 if deep else 3)), ("u_sampling", {}), ("u_individual", {}), ("u_problem", {})]
    U += [("u_control", dict(which=w, N=n, dev=3 if deep and n < 3 else 2)) for w in ("NoParameterControl", "RandomParameterControl", "EvolutionaryParameterControl") for n in (1, 2, 3)]
    return U


def warm():
    from vmc.checks.p04 import warm as w
    w()
