"""P20: reference directions lie on the unit simplex, exactly as requested."""

import itertools
from fractions import Fraction
from math import comb

import numpy as np

PROPERTY = "P20"
RULE = "every state is one construction (method, objectives, size, scaling, layers, seed) or one call under one answer of the generator; outcomes are distinct constructions"
BOUNDS = {
    "quick": "lattice: 1-6 objectives x 0-8 partitions (up to 500 points) x 4 scalings, every requested number of points up to 60, batch-wise lattice iteration for every batch size; incremental lattice likewise; all 1-, 2- and 3-layer "
             "combinations of 8 layers as arrays and as factories; energy, reduction and construction for 1-5 objectives x up to 12 points x seeds; all answers of the generator for simplex sampling up to 4 values over 5 levels; "
             "greedy maximum-distance selection for all small point sets and starts",
    "thorough": "as quick with up to 12 partitions, 4000 points, 120 requested numbers, 20 points for the energy-based methods and 4 seeds",
}


def lattice(p, m):
    """All vectors of m non-negative integers with sum p, in lexicographic order."""
    if m == 1:
        return [(p,)]
    return [(k,) + r for k in range(p + 1) for r in lattice(p - k, m - 1)]


def simplex(p, m):
    return [tuple(Fraction(1, m) for _ in range(m))] if p == 0 else [tuple(Fraction(k, p) for k in r) for r in lattice(p, m)]


def incremental(p, m):
    """Nested lattice: the boundary points of every layer, shifted inwards."""
    if p == 0:
        return simplex(0, m)
    out = set()
    for i in range(p + 1):
        for v in lattice(i, m):
            if min(v) == 0:
                out.add(tuple(Fraction(m * k + (p - i), m * p) for k in v))
    return sorted(out)


def scaled(points, s):
    if s is None:
        return points
    s = Fraction(s)
    return [tuple(x * s + (1 - s) / len(r) for x in r) for r in points]


def same_rows(X, expected, tol=1e-12):
    E = np.array([[float(x) for x in r] for r in expected])
    return X.shape == E.shape and bool(np.all(np.abs(X - E) <= tol))


def lexsorted(X):
    r = [tuple(np.round(x, 12)) for x in X]
    return r == sorted(r)


def on_simplex(ctx, X, n_dirs, n_dim, key, distinct=1e-9, **d):
    ok = ctx.check(isinstance(X, np.ndarray) and X.shape == (n_dirs, n_dim), "count:%s" % key, "%s gives shape %s instead of %s" % (key, np.shape(X), (n_dirs, n_dim)), **d)
    if not ok:
        return False
    ctx.check(bool(np.all(np.isfinite(X))), "finite:%s" % key, "%s gives values that are no numbers" % key, **d)
    ctx.check(bool(np.all(X >= (-1e-12 if key == "preferred" else 0))), "negative:%s" % key, "%s gives negative coordinates" % key, smallest=np.min(X), **d)
    ctx.check(bool(np.all(np.abs(X.sum(axis=1) - 1) <= 1e-9)), "sum:%s" % key, "directions of %s do not sum to one" % key, **d)
    if len(X) > 1:
        D = np.sqrt(((X[:, None] - X[None]) ** 2).sum(axis=2))
        np.fill_diagonal(D, np.inf)
        ctx.check(bool(D.min() > distinct), "distinct:%s" % key, "%s gives the same direction twice" % key, distance=D.min(), **d)
    return True


def u_lattice(ctx, name, m, pmax, limit, nmax):
    from pymoo.util.ref_dirs import get_reference_directions
    from pymoo.util.reference_direction import UniformReferenceDirectionFactory, get_number_of_uniform_points, get_partition_closest_to_points
    ref = incremental if name == "incremental" else simplex
    size = {}
    for p in range(pmax + 1):
        if comb(m + p - 1, p) > limit:
            break
        E = ref(p, m)
        size[p] = len(E)
        for s in (None, "1/4", "1/2", "1"):
            X = get_reference_directions(name, m, n_partitions=p, scaling=None if s is None else float(Fraction(s)))
            ctx.trans()
            ctx.state()
            d = dict(partitions=p, scaling=s)
            if m == 1:
                ctx.check(np.array_equal(X, [[1.0]]), "one:%s" % name, "one objective has another direction than 1", **d)
                continue
            if on_simplex(ctx, X, len(E), m, name, **d):
                ctx.check(lexsorted(X), "order:%s" % name, "the directions are not sorted", **d)
                Y = np.array(sorted(X.round(12).tolist()))
                ctx.check(same_rows(Y, sorted(scaled(E, s)), 1e-9), "lattice:%s" % name, "%s is not the full lattice" % name, **d)
            X2 = get_reference_directions(name, m, n_partitions=p, scaling=None if s is None else float(Fraction(s)))
            ctx.check(np.array_equal(X, X2) and X2 is not X, "repeat:%s" % name, "the same request gives other directions", **d)
            ctx.outcome(name, m, p, s)
        if name != "incremental":
            ctx.check(get_number_of_uniform_points(p, m) == len(E), "number", "the number of lattice points is wrong", partitions=p)
            X = UniformReferenceDirectionFactory(m, n_partitions=p, lexsort=False).do()
            ctx.check(X.shape == (len(E), m) and same_rows(np.array(sorted(X.tolist())), sorted(E)), "lattice:unsorted", "the unsorted lattice has other points", partitions=p)
    if m == 1:
        return
    # requests by number of points: exactly that many, or a refusal
    p, sizes = 0, {}
    while True:
        n = len(ref(p, m))
        if n > 3 * nmax:
            break
        sizes[n] = p
        p += 1
    for n in range(1, nmax + 1):
        ctx.trans()
        ctx.state()
        try:
            X = get_reference_directions(name, m, n_points=n)
        except Exception as e:
            ctx.check(n not in sizes, "refused:%s" % name, "%d points for %d objectives are refused although the lattice has them: %s" % (n, m, e))
            lower, upper = max(k for k in sizes if k < n or k == min(sizes)), min(k for k in sizes if k > n)
            ctx.check(all("n_points = %d" % k in str(e) and "n_partitions = %d" % sizes[k] in str(e) for k in (lower, upper)) or n in sizes, "advice:%s" % name, "the sizes advised are not the closest ones", requested=n, message=str(e))
            continue
        if ctx.check(n in sizes, "invented:%s" % name, "%s gives %d points although asked for %d" % (name, len(X), n)):
            ctx.check(X.shape == (n, m) and same_rows(np.array(sorted(X.tolist())), sorted(ref(sizes[n], m))), "points:%s" % name, "asking for a number of points gives another lattice", requested=n)
        ctx.trace()
    if name != "incremental":
        for n in range(m, nmax + 1):
            p = get_partition_closest_to_points(n, m)
            ctx.trans()
            ctx.check(comb(m + p - 1, p) <= n < comb(m + p, p + 1), "closest", "the closest number of partitions for %d points and %d objectives is not %d" % (n, m, p))


def u_batches(ctx, m, p):
    """The iterator over the lattice: for every batch size the batches are a partition of the lattice."""
    from pymoo.util.ref_dirs.das_dennis import DasDennis
    E = sorted(simplex(p, m))
    for s in (None, "1/2", "3/2"):
        for b in list(range(1, min(len(E) + 2, 40))) + [None]:
            it = DasDennis(p, m, scaling=None if s is None else float(Fraction(s)))
            out = []
            steps = 0
            while it.has_next() and steps <= len(E) + 1:
                r = it.next(n_points=b)
                ctx.trans()
                steps += 1
                ctx.check(len(r) == (len(E) if b is None else min(b, len(E) - len(out))), "batch:size", "a batch has the wrong size", partitions=p, batch=b)
                out.extend(np.array(r).tolist())
            ctx.state()
            ctx.trace()
            ctx.check(it.number_of_points() == len(E), "batch:number", "the number of lattice points is wrong", partitions=p)
            ctx.check(len(out) == len(E) and same_rows(np.array(sorted(np.round(out, 12).tolist())), sorted(scaled(E, s)), 1e-9), "batch:lattice", "iterating in batches does not give the lattice", partitions=p, batch=b, scaling=s)
            ctx.outcome(m, p, s, b)


def u_layers(ctx, m):
    from pymoo.util.ref_dirs import get_reference_directions
    from pymoo.util.reference_direction import MultiLayerReferenceDirectionFactory, UniformReferenceDirectionFactory
    # scalings are powers of two so that equal directions of two layers are equal floating-point numbers
    kinds = [(1, None), (2, None), (3, None), (2, "1/2"), (1, "1/2"), (1, "1/4"), (0, None), (4, None)]
    mk = lambda k: UniformReferenceDirectionFactory(m, n_partitions=k[0], scaling=None if k[1] is None else float(Fraction(k[1])))
    for n in (1, 2, 3):
        for combo in itertools.product(kinds, repeat=n):
            E = []
            for k in combo:
                for r in scaled(simplex(k[0], m), k[1]):
                    if r not in E:
                        E.append(r)
            for form in ("array", "name", "factory", "mixed", "add"):
                arrays = [mk(k).do() for k in combo]
                copies = [a.copy() for a in arrays]
                if form == "array":
                    X = MultiLayerReferenceDirectionFactory(*arrays).do()
                elif form == "name":
                    X = get_reference_directions("multi-layer", *arrays)
                elif form == "factory":
                    X = MultiLayerReferenceDirectionFactory(*[mk(k) for k in combo])()
                elif form == "mixed":
                    X = MultiLayerReferenceDirectionFactory(*[mk(k) if i % 2 else a for i, (k, a) in enumerate(zip(combo, arrays))])()
                else:
                    f = MultiLayerReferenceDirectionFactory(arrays[0])
                    f.add_layer(*arrays[1:])
                    f.do()
                    X = f.do()
                ctx.trans()
                ctx.state()
                d = dict(layers=combo, form=form)
                if on_simplex(ctx, X, len(E), m, "multi-layer", **d):
                    ctx.check(same_rows(np.array(sorted(X.round(12).tolist())), sorted(E), 1e-9), "layers", "the layers are not exactly the union", **d)
                ctx.check(all(np.array_equal(a, b) for a, b in zip(arrays, copies)), "layers:inputs", "combining layers changes them", **d)
            ctx.outcome(m, combo, len(E))


def u_energy(ctx, name, m, nmax, seeds):
    from pymoo.util.ref_dirs import get_reference_directions
    from pymoo.util.ref_dirs.construction import ConstructionBasedReferenceDirectionFactory
    from pymoo.util.ref_dirs.energy import RieszEnergyReferenceDirectionFactory
    from pymoo.util.ref_dirs.reduction import ReductionBasedReferenceDirectionFactory
    from pymoo.util.ref_dirs.sample_and_map import RandomSamplingAndMap
    cls = {"energy": RieszEnergyReferenceDirectionFactory, "reduction": ReductionBasedReferenceDirectionFactory, "construction": ConstructionBasedReferenceDirectionFactory, "reduction-raw": ReductionBasedReferenceDirectionFactory,
           "energy-construction": RieszEnergyReferenceDirectionFactory, "map": RandomSamplingAndMap, "reduction-few": ReductionBasedReferenceDirectionFactory, "reduction-mid": ReductionBasedReferenceDirectionFactory, "construction-raw": ConstructionBasedReferenceDirectionFactory}[name]
    kw = {"reduction-raw": dict(kmeans=False, n_sample_points=500), "reduction-few": dict(n_sample_points=12), "reduction-mid": dict(n_sample_points=300), "energy-construction": dict(sampling="construction"), "construction-raw": dict(gradient_descent=False)}.get(name, {})
    for n in range(m + 1 if name == "map" else 1, nmax + 1):
        kept = {}
        for s in (None, 0.5):
            for seed in seeds:
                g = np.random.default_rng(seed)
                f = cls(m, n, scaling=s, **kw)
                X = f.do(random_state=g)
                ctx.trans()
                ctx.state()
                d = dict(points=n, scaling=s, seed=seed)
                if m == 1:
                    ctx.check(np.array_equal(X, [[1.0]]), "one:%s" % name, "one objective has another direction than 1", **d)
                    continue
                on_simplex(ctx, X, n, m, name, distinct=1e-6, **d)
                ctx.check(lexsorted(X) or not np.all(np.isfinite(X)), "order:%s" % name, "the directions are not sorted", **d)
                Y = cls(m, n, scaling=s, **kw).do(random_state=np.random.default_rng(seed))
                ctx.check(np.array_equal(X, Y, equal_nan=True), "seed:%s" % name, "equal seeds give different directions", **d)
                kept[s, seed] = X
                if n >= m and name not in ("map", "energy-construction", "energy") and s is None:
                    for e in np.eye(m):
                        ctx.check(bool(np.any(np.all(np.abs(X - e) < 1e-12, axis=1))), "corner:%s" % name, "a corner of the simplex is missing", **d)
            if m > 1:
                np.random.seed(3)
                A = cls(m, n, scaling=s, **kw)()
                np.random.seed(4)
                B = cls(m, n, scaling=s, **kw)()
                ctx.check(np.array_equal(A, B, equal_nan=True), "default-seed:%s" % name, "the default directions are not reproducible", points=n)
                if name in ("energy", "reduction"):
                    C = get_reference_directions(name, m, n, scaling=s)
                    ctx.check(np.array_equal(A, C, equal_nan=True), "by-name:%s" % name, "the directions by name differ", points=n)
        for seed in seeds:
            if m > 1 and (None, seed) in kept:
                a, b = kept[None, seed], kept[0.5, seed]
                # scaling is applied to the very same directions
                ctx.check(a.shape == b.shape and np.allclose(np.sort(a * 0.5 + 0.5 / m, axis=0), np.sort(b, axis=0), atol=1e-12, equal_nan=True), "scaling:%s" % name, "the scaled directions are not the scaled version", points=n, seed=seed)
        ctx.outcome(name, m, n)


def u_refpoints(ctx, m):
    """Energy method with additional directions around preferred points."""
    from pymoo.util.ref_dirs.energy import RieszEnergyReferenceDirectionFactory
    pts = {2: [[0.5, 0.5], [0.25, 0.75], [0.95, 0.05]], 3: [[1 / 3, 1 / 3, 1 / 3], [0.6, 0.2, 0.2], [0.05, 0.05, 0.9]]}[m]
    for n in (m, 6):
        for k in (1, 3):
            for sc in (0.1, 0.3):
                for p in pts:
                    f = lambda t=False: RieszEnergyReferenceDirectionFactory(m, n, ref_points=[dict(coordinates=np.array(p), n_points=k, scale=sc)], return_as_tuple=t, n_max_iter=50)
                    try:
                        X = f().do()
                    except Exception as e:
                        ctx.viol("raises:preferred", "directions around a preferred point fail: %r" % e, point=p, n=n, k=k, scale=sc)
                        continue
                    ctx.trans()
                    ctx.state()
                    on_simplex(ctx, X, n + k, m, "preferred", distinct=1e-9, point=p, n=n, k=k, scale=sc)
                    ctx.check(k == 3 or np.array_equal(X, f().do()), "seed:preferred", "the same request gives other directions")
                    ctx.outcome(m, n, k, sc, p)


def u_layerwise(ctx, m):
    from pymoo.util.ref_dirs import get_reference_directions
    for parts in [(p,) for p in range(5)] + [(3, 2), (2, 1), (4, 0), (2, 2), (3, 2, 1), (2, 1, 0), (1, 1, 1), (5, 3)]:
        n = sum(1 if p == 0 else m if p == 1 else m + (p - 1) * comb(m, 2) for p in parts)
        X = get_reference_directions("layer-energy", m, list(parts))
        ctx.trans()
        ctx.state()
        on_simplex(ctx, X, n, m, "layer-energy", partitions=parts)
        ctx.check(np.array_equal(X, get_reference_directions("layer-energy", m, list(parts))), "seed:layer-energy", "the same request gives other directions")
        if parts[0] >= 1:
            for e in np.eye(m):
                ctx.check(bool(np.any(np.all(np.abs(X - e) < 1e-9, axis=1))), "corner:layer-energy", "a corner of the simplex is missing", partitions=parts)
        ctx.outcome(m, parts)


def u_sampling(ctx, n, m, mapping, levels):
    """Simplex sampling for every answer of the generator."""
    from pymoo.util.reference_direction import sample_on_unit_simplex
    from vmc.rng import ScriptRNG, explore

    def run(o):
        r = ScriptRNG(o, levels=levels)
        X = sample_on_unit_simplex(n, m, unit_simplex_mapping=mapping, random_state=r)
        ctx.trans()
        on_simplex(ctx, X, n, m, "sample-%s" % mapping, distinct=-1.0)
        ctx.outcome(mapping, X.round(9).tolist())

    for _ in explore(run, max_dev=n * m):
        ctx.state()
        ctx.trace()


def u_select(ctx, grid):
    """Greedy selection of the points furthest from the ones selected."""
    from pymoo.util.reference_direction import select_points_with_maximum_distance
    P = [list(p) for p in itertools.product(grid, repeat=2)]
    for n in (2, 3, 4):
        for S in itertools.combinations(P, n):
            X = np.array(S)
            for start in [[i] for i in range(n)] + [[0, 1], [1, 0], [1, n - 1]]:
                if len(set(start)) < len(start):
                    continue
                for k in range(len(start), n + 1):
                    keep = list(start)
                    sel = select_points_with_maximum_distance(X, k, selected=list(start))
                    ctx.trans()
                    ctx.state()
                    d = dict(points=S, start=start, select=k)
                    if not ctx.check(len(sel) == k and len(set(sel)) == k and sel[:len(keep)] == keep and all(0 <= i < n for i in sel), "select:valid", "the selection is not %d different points starting with the given ones: %s" % (k, sel), **d):
                        continue
                    for j in range(len(keep), k):
                        dist = lambda i: min(sum((a - b) ** 2 for a, b in zip(S[i], S[q])) for q in sel[:j])
                        ctx.check(dist(sel[j]) >= max(dist(i) for i in range(n) if i not in sel[:j]) - 1e-12, "select:furthest", "not the point furthest from the ones selected", selected=sel, **d)
    ctx.trace()


def u_default(ctx):
    from pymoo.util.reference_direction import default_ref_dirs
    for m, p in ((1, 1), (2, 99), (3, 12)):
        X = default_ref_dirs(m)
        ctx.trans()
        ctx.state()
        on_simplex(ctx, X, comb(m + p - 1, p), m, "default")
    for m in (4, 5):
        try:
            default_ref_dirs(m)
            ctx.viol("default:refuse", "default directions exist for %d objectives" % m)
        except Exception:
            pass
    ctx.trace()


def units(tier):
    q = tier == "quick"
    U = []
    for name in ("das-dennis", "uniform", "incremental"):
        for m in range(1, 7):
            U.append(("u_lattice", dict(name=name, m=m, pmax=8 if q else 12, limit=500 if q else 4000, nmax=60 if q else 120)))
    for m in (2, 3, 4):
        for p in range(1, 6):
            U.append(("u_batches", dict(m=m, p=p)))
        U.append(("u_layers", dict(m=m)))
    for name in ("energy", "reduction", "reduction-few", "reduction-mid", "reduction-raw", "construction", "construction-raw", "energy-construction", "map"):
        for m in (1, 2, 3, 4, 5):
            slow = name in ("energy", "reduction", "energy-construction", "construction")
            U.append(("u_energy", dict(name=name, m=m, nmax=(6 if slow else 12) if q else 20, seeds=(1, 2) if q else (1, 2, 3, 4))))
    for m in (2, 3):
        U.append(("u_refpoints", dict(m=m)))
    for m in (3, 4):
        U.append(("u_layerwise", dict(m=m)))
    for mapping in ("kraemer", "sum"):
        lv = (0.0, 0.25, 0.5, 0.75, 1 - 2 ** -53) if mapping == "kraemer" else (0.125, 0.25, 0.5, 0.75, 1 - 2 ** -53)
        U.append(("u_sampling", dict(n=1, m=2, mapping=mapping, levels=lv)))
        U.append(("u_sampling", dict(n=1, m=3, mapping=mapping, levels=lv)))
        U.append(("u_sampling", dict(n=2, m=2, mapping=mapping, levels=lv)))
        U.append(("u_sampling", dict(n=1, m=4, mapping=mapping, levels=lv)))
    U.append(("u_select", dict(grid=(0.0, 0.25, 1.0))))
    U.append(("u_default", {}))
    return U
