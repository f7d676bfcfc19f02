"""P13: closure of sampling, crossover, mutation and repair for every answer of the random generator."""

import itertools

import numpy as np

from vmc.rng import MixRNG, ONE, ScriptRNG, explore

PROPERTY = "P13"
RULE = ("an execution is one call of one operator (or one run of an algorithm) under one complete sequence of answers of the random generator; outcomes are distinct results")
BOUNDS = {
    "quick": "16 real, 5 integer, 8 binary and 5 permutation operators x bounds {unit, asymmetric, one degenerate variable, range 1e-12, range 2e12, negative} x parents from {lower, "
             "next to lower, middle, next to upper, upper} (at most 32 parent tuples per operator and bounds) x random answers from {0, 0.25, 0.5, 0.75, largest below 1} and normals {0, +-1, +-9}: every sequence for one variable and one "
             "mating, every <= 2 deviations for two variables; 11 repairs x every pair of values below/on/above the bounds by {tiny, 0.3, 1, 2.5, 1e6 ranges}; samplings for 1..4 samples; "
             "44 algorithms x 3 bounds x every single deviation (extreme answer) of the first 30 random draws over 3 iterations; GA/NSGA2 with integer, binary and permutation operators likewise",
    "thorough": "as quick with 3 deviations for two variables and single deviations of the first 200 draws of the runs",
}

REAL_BOUNDS = {
    "unit": ([0.0, 0.0], [1.0, 1.0]),
    "asym": ([-5.0, 1e-3], [10.0, 2e-3]),
    "degenerate": ([0.5, 0.0], [0.5, 1.0]),
    "tiny": ([1.0, 1.0], [1.0 + 1e-12, 1.0 + 1e-12]),
    "huge": ([-1e12, -1e12], [1e12, 1e12]),
    "neg": ([-3.0, -0.3], [-1.0, -0.1]),
}


def real_ops():
    from pymoo.operators.crossover.binx import BinomialCrossover
    from pymoo.operators.crossover.dex import DEM, DEX
    from pymoo.operators.crossover.expx import ExponentialCrossover
    from pymoo.operators.crossover.pcx import PCX
    from pymoo.operators.crossover.pntx import SinglePointCrossover, TwoPointCrossover
    from pymoo.operators.crossover.sbx import SBX
    from pymoo.operators.crossover.ux import UniformCrossover
    from pymoo.operators.mutation.gauss import GaussianMutation
    from pymoo.operators.mutation.pm import PM
    return {
        "sbx": ("x", lambda: SBX()), "sbx-all": ("x", lambda: SBX(prob=1.0, prob_var=1.0, eta=2.0)), "sbx-1": ("x", lambda: SBX(n_offsprings=1, eta=30, prob_var=1.0)),
        "sbx-noexch": ("x", lambda: SBX(prob_exch=0.3, prob_bin=0.9, prob_var=0.9)),
        "pcx": ("x", lambda: PCX(eta=0.3, zeta=0.3)), "dex": ("x", lambda: DEX()), "dex-F": ("x", lambda: DEX(F=1.0, CR=1.0)), "dex-exp": ("x", lambda: DEX(variant="exp", F=2.0)),
        "dem-bounce": ("x", lambda: DEM(F=1.0, gamma=None)), "dem-mid": ("x", lambda: DEM(de_repair="midway")), "dem-rand": ("x", lambda: DEM(F=2.0, gamma=None, de_repair="rand-init")),
        "dem-to": ("x", lambda: DEM(de_repair="to-bounds")),
        "pm": ("m", lambda: PM()), "pm-all": ("m", lambda: PM(prob=1.0, prob_var=1.0, eta=3.0)), "pm-once": ("m", lambda: PM(prob=1.0, prob_var=0.0, at_least_once=True)),
        "gm": ("m", lambda: GaussianMutation(sigma=0.25, prob_var=1.0)),
        "bx": ("d", lambda: BinomialCrossover()), "expx": ("d", lambda: ExponentialCrossover()), "ux": ("d", lambda: UniformCrossover()),
        "spx": ("d", lambda: SinglePointCrossover()), "2px": ("d", lambda: TwoPointCrossover()), "bx-1": ("d", lambda: BinomialCrossover(n_offsprings=1)),
    }


def int_ops():
    from pymoo.operators.crossover.pntx import SinglePointCrossover
    from pymoo.operators.crossover.sbx import SBX
    from pymoo.operators.crossover.ux import UniformCrossover
    from pymoo.operators.mutation.pm import PM
    from pymoo.operators.repair.rounding import RoundingRepair
    return {
        "isbx": ("x", lambda: SBX(vtype=float, repair=RoundingRepair(), prob_var=1.0)), "ipm": ("m", lambda: PM(vtype=float, repair=RoundingRepair(), prob=1.0, prob_var=1.0)),
        "iux": ("d", lambda: UniformCrossover()), "ispx": ("d", lambda: SinglePointCrossover()), "ipm3": ("m", lambda: PM(vtype=float, repair=RoundingRepair(), prob=1.0, eta=3.0, prob_var=1.0)),
    }


def bin_ops():
    from pymoo.operators.crossover.binx import BinomialCrossover
    from pymoo.operators.crossover.expx import ExponentialCrossover
    from pymoo.operators.crossover.hux import HalfUniformCrossover
    from pymoo.operators.crossover.pntx import PointCrossover, SinglePointCrossover, TwoPointCrossover
    from pymoo.operators.crossover.ux import UniformCrossover
    from pymoo.operators.mutation.bitflip import BitflipMutation
    return {
        "bux": ("d", lambda: UniformCrossover(prob=1.0)), "bhux": ("hux", lambda: HalfUniformCrossover(prob=1.0)), "bspx": ("d", lambda: SinglePointCrossover()),
        "b2px": ("d", lambda: TwoPointCrossover()), "b3px": ("d", lambda: PointCrossover(n_points=3)), "bbx": ("d", lambda: BinomialCrossover()), "bexp": ("d", lambda: ExponentialCrossover()),
        "bfm": ("m", lambda: BitflipMutation(prob_var=0.5)),
    }


def perm_ops():
    from pymoo.operators.crossover.erx import ERX
    from pymoo.operators.crossover.ox import OrderCrossover
    from pymoo.operators.mutation.inversion import InversionMutation
    return {"ox": ("x", lambda: OrderCrossover()), "ox-shift": ("x", lambda: OrderCrossover(shift=True)), "erx": ("x", lambda: ERX()),
            "inv": ("m", lambda: InversionMutation()), "inv-half": ("m", lambda: InversionMutation(prob=0.5))}


def call(op, mode, problem, X, idx, rng):
    from pymoo.core.population import Population
    pop = Population.new(X=X.copy())
    if mode == "m":
        return op(problem, pop, random_state=rng)
    return op(problem, pop, parents=idx, random_state=rng)


def n_parents(op, mode):
    return 1 if mode == "m" else op.n_parents


def values_real(xl, xu):
    e = xu - xl
    out = [xl, xl + 0.5 * e, xu]
    if e > 0:
        out += [np.nextafter(xl, xu), np.nextafter(xu, xl)]
    return sorted(set(float(min(max(v, xl), xu)) for v in out))


def judge(ctx, name, mode, X, idx, out, xl, xu, kind, n_exp, choices, kw):
    Y = np.array([i.X for i in out])
    bad = lambda k, t: ctx.viol("%s:%s" % (name, k), t, parents=X, offspring=Y, bounds=(xl, xu), choices=choices[:40], **kw)
    if Y.shape != (n_exp, X.shape[1]):
        return bad("shape", "%s returns %s values instead of %s" % (name, Y.shape, (n_exp, X.shape[1])))
    if kind == "perm":
        ref = sorted(X[0].tolist())
        if any(sorted(y) != ref for y in Y.tolist()):
            return bad("perm", "%s returns something that is not a permutation" % name)
    elif kind == "bool":
        if Y.dtype != bool:
            return bad("type", "%s returns %s instead of booleans" % (name, Y.dtype))
    else:
        if not np.all(np.isfinite(Y.astype(float))):
            return bad("nan", "%s returns a value that is not finite" % name)
        if np.any(Y < xl) or np.any(Y > xu):
            return bad("bounds", "%s leaves the bounds" % name)
        if kind == "int" and not np.issubdtype(Y.dtype, np.integer):
            return bad("type", "%s returns %s instead of integers" % (name, Y.dtype))
    if mode in ("d", "hux"):
        n_off = n_exp // len(idx)
        C = Y.reshape(n_off, len(idx), -1)
        for k, (a, b) in enumerate(idx):
            A, B = X[a], X[b]
            for c in range(n_off):
                if not np.all((C[c, k] == A) | (C[c, k] == B)):
                    return bad("genes", "%s invents a value that no parent has at this position" % name)
            if n_off == 2 and not np.all(((C[0, k] == A) & (C[1, k] == B)) | ((C[0, k] == B) & (C[1, k] == A))):
                return bad("complement", "the two children of %s do not share out the genes of their parents" % name)
            if mode == "hux":
                d = int(np.sum(A != B))
                s = int(np.sum(C[0, k] != A))
                if s != -(-d // 2):
                    return bad("half", "%s exchanges %d of %d differing genes" % (name, s, d))


def u_real(ctx, name, bounds, n_var, n_mat, dev, part, parts):
    from pymoo.core.problem import Problem
    mode, mk = real_ops()[name]
    xl, xu = (np.array(v[:n_var] if len(v) >= n_var else v + v) for v in REAL_BOUNDS[bounds])
    if bounds == "degenerate" and n_var == 1:
        return
    problem = Problem(n_var=n_var, n_obj=1, xl=xl, xu=xu)
    probe = mk()
    k = n_parents(probe, mode)
    vals = [values_real(a, b) for a, b in zip(xl, xu)]
    if k > 2 or n_var > 1:
        vals = [[v[0], v[len(v) // 2], v[-1]] if len(v) > 2 else v for v in vals]
    designs = list(itertools.product(*vals))
    if n_var > 1:
        designs = [designs[0], designs[-1], designs[len(designs) // 2], designs[min(1, len(designs) - 1)]]
    combos = list(itertools.product(designs, repeat=k))
    cap = 32 if ctx.tier == "quick" else 64
    if len(combos) > cap:
        combos = combos[:: -(-len(combos) // cap)]
    for c in combos[part::parts]:
        X = np.array(c, float)
        idx = np.array([list(range(k))] * 1 + ([list(range(k))[::-1]] if n_mat == 2 else []))
        M = np.array(c + c[::-1], float)[:max(1, n_mat) * 1] if mode == "m" else X

        def run(o):
            op = mk()
            rng = ScriptRNG(o)
            out = call(op, mode, problem, M, idx, rng)
            ctx.trans()
            n = len(M) if mode == "m" else op.n_offsprings * len(idx)
            judge(ctx, name, mode, M, idx, out, xl, xu, "real", n, o.choices, dict(bounds_name=bounds))
            ctx.outcome(name, np.array([i.X for i in out]).tobytes())

        n, ok = explore(run, max_dev=dev, max_runs=30000)
        if not ok:
            ctx.cap("%s: more than 30000 answer sequences" % name)
        ctx.state(n)
        ctx.trace(n)


def u_disc(ctx, kind, name, n_var, dev, part, parts):
    from pymoo.core.problem import Problem
    mode, mk = {"int": int_ops, "bool": bin_ops, "perm": perm_ops}[kind]()[name]
    if kind == "int":
        xl, xu = [np.array(v[:n_var]) for v in ([-1, 0, 5], [2, 1, 5])]
        designs = list(itertools.product(*[range(a, b + 1) for a, b in zip(xl, xu)]))
        if len(designs) > 4:
            designs = [designs[0], designs[-1], designs[len(designs) // 2], designs[1]]
        typ = int
    elif kind == "bool":
        xl, xu, typ = np.zeros(n_var), np.ones(n_var), bool
        designs = [np.array(d, bool) for d in itertools.product((False, True), repeat=n_var)]
    else:
        xl, xu, typ = np.zeros(n_var), np.full(n_var, n_var - 1), int
        designs = list(itertools.permutations(range(n_var)))
    problem = Problem(n_var=n_var, n_obj=1, xl=xl, xu=xu, vtype=typ)
    probe = mk()
    k = n_parents(probe, mode)
    if mode == "m":
        combos = [(d,) for d in designs]
    else:
        combos = list(itertools.product(designs, repeat=k))
    for c in combos[part::parts]:
        X = np.array(c, dtype=typ)
        idx = np.array([list(range(k))])

        def run(o):
            op = mk()
            out = call(op, mode, problem, X, idx, ScriptRNG(o))
            ctx.trans()
            n = len(X) if mode == "m" else op.n_offsprings
            judge(ctx, name, mode, X, idx, out, xl, xu, kind, n, o.choices, {})
            ctx.outcome(name, np.array([i.X for i in out]).tobytes())

        n, ok = explore(run, max_dev=dev, max_runs=20000)
        if not ok:
            ctx.cap("%s: more than 20000 answer sequences" % name)
        ctx.state(n)
        ctx.trace(n)


REPAIRS = ["to-bound", "bounce-back", "clamp", "periodic", "random-init", "inverse", "de-bounce", "de-midway", "de-rand", "de-to", "set-1d", "bounce-1d"]


def u_repair(ctx, name, bounds):
    from pymoo.core.population import Population
    from pymoo.core.problem import Problem
    from pymoo.operators.crossover.dex import DE_REPAIRS
    from pymoo.operators.repair.bounce_back import BounceBackOutOfBoundsRepair, bounce_back
    from pymoo.operators.repair.bounds_repair import repair_clamp, repair_periodic, repair_random_init
    from pymoo.operators.repair.inverse_penalty import InversePenaltyOutOfBoundsRepair
    from pymoo.operators.repair.to_bound import ToBoundOutOfBoundsRepair, set_to_bounds_if_outside
    xl, xu = (np.array(v) for v in REAL_BOUNDS[bounds])
    problem = Problem(n_var=2, n_obj=1, xl=xl, xu=xu)
    r = np.where(xu > xl, xu - xl, 1.0)
    offs = [-1e6, -2.5, -1.0, -0.3, -1e-14, 0.0]
    pts = [[xl[i] + o * r[i] for o in offs] + [xl[i] + 0.4 * (xu[i] - xl[i])] + [xu[i] - o * r[i] for o in offs] + [np.nextafter(xl[i], -np.inf), np.nextafter(xu[i], np.inf)] for i in range(2)]
    bases = [np.array([a, b]) for a in (xl[0], 0.5 * (xl[0] + xu[0]), xu[0]) for b in (xl[1], 0.5 * (xl[1] + xu[1]), xu[1])]
    rnd = name in ("random-init", "inverse", "de-bounce", "de-rand")
    for x in itertools.product(*pts):
        for base in (bases if name in ("random-init", "inverse") or name.startswith("de") else bases[:1]):
            X = np.array([x, x], float)
            X[1] = base                       # a second row that is in bounds must not change
            B = np.array([base, base])

            def run(o):
                rng = ScriptRNG(o, levels=[0.5, 0.0, ONE])
                A = X.copy()
                if name == "to-bound":
                    Y = ToBoundOutOfBoundsRepair().do(problem, Population.new(X=A)).get("X")
                elif name == "bounce-back":
                    Y = BounceBackOutOfBoundsRepair().do(problem, Population.new(X=A)).get("X")
                elif name == "inverse":
                    Y = InversePenaltyOutOfBoundsRepair().do(problem, Population.new(X=A), P=B.copy(), random_state=rng).get("X")
                elif name == "clamp":
                    Y = repair_clamp(A, xl, xu)
                elif name == "periodic":
                    Y = repair_periodic(A, xl, xu)
                elif name == "random-init":
                    Y = repair_random_init(A, B.copy(), xl, xu, random_state=rng)
                elif name == "set-1d":
                    Y = np.array([set_to_bounds_if_outside(v, xl, xu) for v in A])
                elif name == "bounce-1d":
                    Y = np.array([bounce_back(v, xl, xu) for v in A])
                else:
                    k = {"de-bounce": "bounce-back", "de-midway": "midway", "de-rand": "rand-init", "de-to": "to-bounds"}[name]
                    Y = DE_REPAIRS[k](A, B.copy(), xl, xu, random_state=rng)
                ctx.trans()
                d = dict(value=x, base=base, bounds=(xl, xu), repaired=Y, choices=o.choices)
                if Y.shape != (2, 2) or not np.all(np.isfinite(Y)):
                    ctx.viol("repair:%s:nan" % name, "the repair returns a value that is not finite", **d)
                elif np.any(Y < xl) or np.any(Y > xu):
                    ctx.viol("repair:%s:bounds" % name, "the repaired solution is still out of bounds", **d)
                elif not np.array_equal(Y[1], base):
                    ctx.viol("repair:%s:touched" % name, "the repair changed a solution that is in bounds", **d)
                elif name != "inverse":
                    ok = (X[0] >= xl) & (X[0] <= xu)
                    if not np.array_equal(Y[0][ok], X[0][ok]):
                        ctx.viol("repair:%s:variable" % name, "the repair changed a variable that is in bounds", **d)
                    if name in ("to-bound", "clamp", "set-1d", "de-to") and not np.array_equal(Y[0], np.clip(X[0], xl, xu)):
                        ctx.viol("repair:%s:clip" % name, "the repair does not return the nearest bound", **d)
                ctx.outcome(name, Y.tobytes())

            n, _ = explore(run, max_dev=2 if rnd else 0)
            ctx.state(n)
            ctx.trace(n)


def u_sampling(ctx, name, dev):
    from pymoo.core.problem import Problem
    from pymoo.operators.sampling.lhs import LHS
    from pymoo.operators.sampling.rnd import BinaryRandomSampling, FloatRandomSampling, IntegerRandomSampling, PermutationRandomSampling
    mk = {"float": FloatRandomSampling, "lhs": lambda: LHS(iterations=2), "lhs-mid": lambda: LHS(smooth=False, iterations=2), "lhs-plain": lambda: LHS(criterion=None),
          "int": IntegerRandomSampling, "bool": BinaryRandomSampling, "perm": PermutationRandomSampling}[name]
    kind = {"int": "int", "bool": "bool", "perm": "perm"}.get(name, "real")
    bnds = [("i", [-1, 0], [2, 0])] if kind == "int" else ([("u", [0, 0], [1, 1])] if kind != "real" else [(k,) + v for k, v in REAL_BOUNDS.items()])
    for bname, xl, xu in bnds:
        xl, xu = np.array(xl), np.array(xu)
        problem = Problem(n_var=2 if kind != "perm" else 3, n_obj=1, xl=xl if kind != "perm" else 0, xu=xu if kind != "perm" else 2)
        for n in (1, 2, 3, 4):
            def run(o):
                rng = ScriptRNG(o)
                pop = mk()(problem, n, random_state=rng)
                Y = np.array([i.X for i in pop])
                ctx.trans()
                d = dict(samples=Y, n=n, bounds=bname, choices=o.choices[:40])
                ctx.outcome(name, Y.tobytes())
                if len(pop) != n or Y.shape[1] != problem.n_var:
                    ctx.viol("sampling:%s:count" % name, "%d samples instead of %d" % (len(pop), n), **d)
                elif kind == "perm":
                    if any(sorted(y) != [0, 1, 2] for y in Y.tolist()):
                        ctx.viol("sampling:perm", "not a permutation", **d)
                elif kind == "bool":
                    if Y.dtype != bool:
                        ctx.viol("sampling:bool", "not boolean", **d)
                else:
                    if not np.all(np.isfinite(Y)) or np.any(Y < xl) or np.any(Y > xu):
                        ctx.viol("sampling:%s:bounds" % name, "a sample is out of bounds", **d)
                    if kind == "int" and not np.issubdtype(Y.dtype, np.integer):
                        ctx.viol("sampling:int", "not an integer", **d)
                    if name.startswith("lhs") and bname in ("unit", "asym", "neg", "huge"):
                        U = (Y - xl) / (xu - xl) * n
                        for j in range(2):
                            cells = sorted(U[:, j])
                            if any(u < k - 1e-6 or u > k + 1 + 1e-6 for k, u in enumerate(cells)):
                                ctx.viol("sampling:%s:cells" % name, "a Latin hypercube sample does not have one point in every stratum", **d)

            k, ok = explore(run, max_dev=dev, max_runs=6000)
            ctx.state(k)
            ctx.trace(k)


def u_run(ctx, name, bounds, points):
    from vmc import zoo
    a = zoo.by_name(name)
    m = 1 if a.soo else 2
    xl, xu = (np.array(v) for v in REAL_BOUNDS[bounds])

    def values(x, i, alt, n_obj, n_ieq, n_eq):
        u = (np.asarray(x, float) - xl) / np.where(xu > xl, xu - xl, 1.0)
        return zoo.base_values(u, i, alt, n_obj, n_ieq, n_eq)

    def run(o):
        problem = zoo.make_problem(n_var=2, n_obj=m, xl=xl, xu=xu, values=values)
        algo = a.make()
        algo.setup(problem, termination=("n_iter", 4), seed=1)
        algo.random_state = MixRNG(o, 1)
        while algo.has_next() and len(problem.log) < 80:
            algo.next()
            ctx.trans()
        for i, (x, f, g, h) in enumerate(problem.log):
            x = np.asarray(x, float)
            if x.shape != (2,) or not np.all(np.isfinite(x)):
                return ctx.viol("run:nan:%s" % name, "%s asks the problem for %s" % (name, x), choices=o.choices[:80], row=i, bounds=bounds)
            if np.any(x < xl) or np.any(x > xu):
                return ctx.viol("run:bounds:%s" % name, "%s asks the problem for %s, outside the bounds" % (name, x), choices=o.choices[:80], row=i, bounds=bounds)
        ctx.outcome(name, len(problem.log), problem.log[-1][0].tobytes())

    n, _ = explore(run, max_dev=1, max_points=points)
    ctx.state(n)
    ctx.trace(n)


def u_typed(ctx, name, kind, points):
    from pymoo.operators.crossover.ox import OrderCrossover
    from pymoo.operators.crossover.pntx import TwoPointCrossover
    from pymoo.operators.crossover.sbx import SBX
    from pymoo.operators.mutation.bitflip import BitflipMutation
    from pymoo.operators.mutation.inversion import InversionMutation
    from pymoo.operators.mutation.pm import PM
    from pymoo.operators.repair.rounding import RoundingRepair
    from pymoo.operators.sampling.rnd import BinaryRandomSampling, IntegerRandomSampling, PermutationRandomSampling
    from vmc import zoo
    a = zoo.by_name(name)
    m = 1 if a.soo else 2
    n_var = 4

    def run(o):
        if kind == "int":
            kw = dict(sampling=IntegerRandomSampling(), crossover=SBX(vtype=float, repair=RoundingRepair()), mutation=PM(vtype=float, repair=RoundingRepair()))
            xl, xu = -2, 3
        elif kind == "bool":
            kw = dict(sampling=BinaryRandomSampling(), crossover=TwoPointCrossover(), mutation=BitflipMutation())
            xl, xu = 0, 1
        else:
            kw = dict(sampling=PermutationRandomSampling(), crossover=OrderCrossover(), mutation=InversionMutation())
            xl, xu = 0, n_var - 1
        problem = zoo.make_problem(n_var=n_var, n_obj=m, xl=xl, xu=xu)
        algo = a.make(**kw)
        algo.setup(problem, termination=("n_iter", 4), seed=1)
        algo.random_state = MixRNG(o, 1)
        while algo.has_next():
            algo.next()
            ctx.trans()
        for x, *_ in problem.log:
            v = x.tolist()
            if kind == "perm":
                ok = sorted(v) == list(range(n_var)) and np.issubdtype(x.dtype, np.integer)
            elif kind == "bool":
                ok = x.dtype == bool
            else:
                ok = np.issubdtype(x.dtype, np.integer) and min(v) >= xl and max(v) <= xu
            if not ok:
                return ctx.viol("typed:%s:%s" % (kind, name), "%s asks the problem for %s (%s), which is no valid %s vector" % (name, v, x.dtype, kind), choices=o.choices[:80])
        ctx.outcome(name, kind, len(problem.log), str(problem.log[-1][0]))

    n, _ = explore(run, max_dev=1, max_points=points)
    ctx.state(n)
    ctx.trace(n)


def units(tier):
    from vmc import zoo
    q = tier == "quick"
    U = []
    for name in real_ops():
        for b in REAL_BOUNDS:
            for p in range(2):
                U.append(("u_real", dict(name=name, bounds=b, n_var=1, n_mat=1, dev=99 if name in ("sbx-all", "pm-all", "pm", "gm") else (3 if q else 4), part=p, parts=2)))
            for p in range(2):
                U.append(("u_real", dict(name=name, bounds=b, n_var=2, n_mat=2, dev=2 if q else 3, part=p, parts=2)))
    for name in int_ops():
        for nv in (1, 2, 3):
            U.append(("u_disc", dict(kind="int", name=name, n_var=nv, dev=3 if q else 4, part=0, parts=1)))
    for name in bin_ops():
        for nv in (1, 2, 3):
            for p in range(2):
                U.append(("u_disc", dict(kind="bool", name=name, n_var=nv, dev=99 if nv < 3 else (3 if q else 5), part=p, parts=2)))
    for name in perm_ops():
        for nv in (2, 3, 4):
            for p in range(4 if nv == 4 else 1):
                U.append(("u_disc", dict(kind="perm", name=name, n_var=nv, dev=99, part=p, parts=4 if nv == 4 else 1)))
    for r in REPAIRS:
        for b in REAL_BOUNDS:
            U.append(("u_repair", dict(name=r, bounds=b)))
    for s in ("float", "lhs", "lhs-mid", "lhs-plain", "int", "bool", "perm"):
        U.append(("u_sampling", dict(name=s, dev=2 if q else 3)))
    for a in zoo.all_algorithms():
        for b in ("unit", "asym", "degenerate"):
            if a.name == "CMAES" and b == "degenerate":
                continue
            U.append(("u_run", dict(name=a.name, bounds=b, points=30 if q else 200)))
    for name in ("GA", "NSGA2", "NSGA3", "SMSEMOA"):
        for kind in ("int", "bool", "perm"):
            U.append(("u_typed", dict(name=name, kind=kind, points=60 if q else 300)))
    return U
