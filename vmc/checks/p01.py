"""P01: non-dominated sorting = the definition, every implementation, every small input."""

import itertools

import numpy as np

from vmc import refs

PROPERTY = "P01"
RULE = ("an execution is one call of one sorting entry point on one objective matrix; outcomes are distinct "
        "(implementation, front structure) pairs")
BOUNDS = {
    "quick": "all sequences of <=4 points over {0,1,2}^2, all multisets of <=6 points over {0,1,2}^2 (two row orders), "
             "<=4 over {0,1,2}^3, <=5 over {0,1}^3, <=4 over {0,1}^4, <=5 over {0,1,2}^1; value maps {small ints, negative/1e6/1e-9-scaled, inf}; "
             "every method, early-stop argument",
    "thorough": "as quick with <=7 points over {0,1,2}^2, <=5 over {0,1,2}^3, <=6 over {0,1}^3, <=5 over {0,1}^4, <=5 points over {0,1,2,3}^2",
}

# value maps for the grid levels 0,1,2,3 (order preserving, so the fronts are those of the grid)
MAPS = {
    "int": [0.0, 1.0, 2.0, 3.0],
    "neg": [-3.5, -1e-9, 0.0, 1e6],
    "ulp": [1.0, 1.0 + 2.0 ** -52, 1.0 + 2.0 ** -51, 2.0],
    "inf": [-1e300, 0.0, 1e300, float("inf")],
}


def entry_points():
    from pymoo.functions import load_function
    from pymoo.util.dominator import Dominator
    from pymoo.util.nds.non_dominated_sorting import NonDominatedSorting

    E = [("nds", lambda F: NonDominatedSorting().do(F)),
         ("nds-dominator", lambda F: NonDominatedSorting(dominator=Dominator()).do(F))]
    for mode in ("python", "cython"):
        for name in ("fast_non_dominated_sort", "efficient_non_dominated_sort", "tree_based_non_dominated_sort",
                     "dominance_degree_non_dominated_sort", "fast_best_order_sort"):
            if mode == "python" and name == "fast_best_order_sort":
                continue  # documented as compiled only
            if mode == "cython" and name == "tree_based_non_dominated_sort":
                continue  # python only
            f = load_function(name, _type=mode)
            if name == "efficient_non_dominated_sort":
                for strat in ("sequential", "binary"):
                    E.append(("%s-%s-%s" % (mode, name, strat), lambda F, f=f, s=strat: f(F, s)))
            else:
                E.append(("%s-%s" % (mode, name), f))
            if name == "dominance_degree_non_dominated_sort":
                E.append(("%s-%s-fast" % (mode, name), lambda F, f=f: f(F, "fast")))
    py = load_function("fast_non_dominated_sort", _type="python")
    E.append(("python-native-biobj", lambda F: py(F, native_biobj_sorting=True)))
    return E


def norm(fr):
    return [sorted(int(i) for i in f) for f in fr]


def check_one(ctx, E, pts, vmap, label):
    from pymoo.functions import load_function
    from pymoo.util.dominator import Dominator
    from pymoo.util.nds.non_dominated_sorting import NonDominatedSorting, find_non_dominated

    n = len(pts)
    F = np.array([[vmap[v] for v in p] for p in pts], dtype=float)
    F0 = F.copy()
    exp = refs.fronts(pts)
    ctx.state()
    rank = [0] * n
    for r, fr in enumerate(exp):
        for i in fr:
            rank[i] = r
    for name, f in E:
        ctx.trans()
        try:
            got = norm(f(F))
        except Exception as e:
            ctx.viol("%s:raise" % name, "%s raised %r" % (name, e), F=F)
            continue
        while got and got[-1] == []:
            ctx.viol("%s:emptyfront" % name, "%s returned an empty front" % name, F=F, got=got)
            got.pop()
        if got != exp:
            ctx.viol("%s:fronts" % name, "%s returned fronts %s, definition gives %s" % (name, got, exp), F=F)
        if not np.array_equal(F, F0):
            ctx.viol("%s:mutates" % name, "%s modified the objective matrix it was given" % name, F=F0)
            F = F0.copy()
    ctx.outcome(exp)

    # options of the sorting object (both the native and the dominator based path)
    for oname, nds in (("nds", NonDominatedSorting()), ("nds-dominator", NonDominatedSorting(dominator=Dominator()))):
        ctx.trans()
        g, rk = nds.do(F, return_rank=True)
        if norm(g) != exp or [int(v) for v in rk] != rank:
            ctx.viol(oname + ":rank", "ranks %s expected %s" % (list(rk), rank), F=F)
        nd = sorted(int(i) for i in nds.do(F, only_non_dominated_front=True))
        if nd != exp[0]:
            ctx.viol(oname + ":first", "first front %s expected %s" % (nd, exp[0]), F=F)
        for k in range(1, n + 1):
            ctx.trans()
            need, cnt = 0, 0
            for fr in exp:
                need += 1
                cnt += len(fr)
                if cnt >= k:
                    break
            g, rk = nds.do(F, n_stop_if_ranked=k, return_rank=True)
            if norm(g) != exp[:need]:
                ctx.viol(oname + ":stop", "early stop at %d ranked: fronts %s expected %s" % (k, norm(g), exp[:need]), F=F)
            for r, fr in enumerate(exp[:need]):
                for i in fr:
                    if rk[i] != r:
                        ctx.viol(oname + ":stoprank", "rank under early stop", F=F, k=k)
            unr = [i for fr in exp[need:] for i in fr]
            if any(rk[i] < need for i in unr):
                ctx.viol(oname + ":stopunranked", "an unranked individual got a valid rank", F=F, k=k)
        for k in range(1, len(exp) + 1):
            ctx.trans()
            if norm(nds.do(F, n_fronts=k)) != exp[:k]:
                ctx.viol(oname + ":nfronts", "n_fronts=%d gave %s expected %s" % (k, norm(nds.do(F, n_fronts=k)), exp[:k]), F=F)

    # plain non-dominated filters
    for name, f in (("find_non_dominated", find_non_dominated),
                    ("py-find_non_dominated", load_function("find_non_dominated", _type="python")),
                    ("cy-find_non_dominated", load_function("find_non_dominated", _type="cython"))):
        ctx.trans()
        got = sorted(int(i) for i in f(F))
        if got != exp[0]:
            ctx.viol(name + ":first", "%s gave %s expected %s" % (name, got, exp[0]), F=F)

    # pairwise relation and the domination matrix
    M = Dominator.calc_domination_matrix(F)
    ML = Dominator.calc_domination_matrix_loop(F, np.zeros((n, 1)))
    for i in range(n):
        for j in range(n):
            e = 1 if refs.dominates(pts[i], pts[j]) else (-1 if refs.dominates(pts[j], pts[i]) else 0)
            if M[i, j] != e or (i != j and ML[i, j] != e) or Dominator.get_relation(F[i], F[j]) != e:
                ctx.viol("relation", "domination relation of %s and %s" % (F[i], F[j]), F=F)
    ctx.trace()


def u_sequences(ctx, m, levels, n, vmap, part, parts):
    E = entry_points()
    P = refs.grid_points(range(levels), m)
    for k, pts in enumerate(itertools.product(P, repeat=n)):
        if k % parts == part:
            check_one(ctx, E, list(pts), MAPS[vmap], "seq")
            if k < 2:
                ctx.sample({"F": pts, "fronts": refs.fronts(pts)})


def u_multisets(ctx, m, levels, n, vmap, part, parts):
    E = entry_points()
    P = refs.grid_points(range(levels), m)
    for k, pts in enumerate(refs.multisets(P, n)):
        if k % parts != part:
            continue
        pts = list(pts)
        check_one(ctx, E, pts[::-1], MAPS[vmap], "mset")
        # a second, interleaved, row order
        check_one(ctx, E, pts[1::2] + pts[0::2], MAPS[vmap], "mset")
        if k < 2:
            ctx.sample({"F": pts, "fronts": refs.fronts(pts)})


def u_reference_sets(ctx, m, levels, n, nref):
    """find_non_dominated(F, _F): rows of F not dominated by any row of the reference set."""
    from pymoo.util.nds.non_dominated_sorting import find_non_dominated

    P = refs.grid_points(range(levels), m)
    for a in refs.multisets(P, n):
        for b in refs.multisets(P, nref):
            ctx.state()
            ctx.trans()
            got = sorted(int(i) for i in find_non_dominated(np.array(a, float), np.array(b, float)))
            exp = [i for i in range(n) if not any(refs.dominates(y, a[i]) for y in b)]
            if got != exp:
                ctx.viol("ref-set", "non-dominated w.r.t. reference %s expected %s" % (got, exp), F=a, ref=b)
    ctx.trace()


def u_constrained(ctx, m, levels):
    """the relation with constraint violations: smaller violation always wins, ties fall back to dominance."""
    from pymoo.core.individual import Individual
    from pymoo.util.dominator import Dominator, get_relation

    P = refs.grid_points(range(levels), m)
    for a in P:
        for b in P:
            for ca in (0.0, 0.5, 1.0):
                for cb in (0.0, 0.5, 1.0):
                    ctx.state()
                    ctx.trans()
                    if ca < cb:
                        e = 1
                    elif cb < ca:
                        e = -1
                    else:
                        e = 1 if refs.dominates(a, b) else (-1 if refs.dominates(b, a) else 0)
                    g = Dominator.get_relation(np.array(a, float), np.array(b, float), ca, cb)
                    A = Individual(F=np.array(a, float), G=np.array([ca]), H=np.zeros(0))
                    B = Individual(F=np.array(b, float), G=np.array([cb]), H=np.zeros(0))
                    g2 = get_relation(A, B)
                    ctx.outcome(e)
                    if g != e or g2 != e:
                        ctx.viol("crelation", "constrained domination of %s/%s and %s/%s: %s, %s expected %s" % (a, ca, b, cb, g, g2, e))
    ctx.trace()


def units(tier):
    U = []
    T = tier == "thorough"

    def ms(m, lv, n, vmap="int", parts=1):
        for p in range(parts):
            U.append(("u_multisets", dict(m=m, levels=lv, n=n, vmap=vmap, part=p, parts=parts)))

    for n in (1, 2, 3):
        U.append(("u_sequences", dict(m=2, levels=3, n=n, vmap="int", part=0, parts=1)))
    for p in range(6):
        U.append(("u_sequences", dict(m=2, levels=3, n=4, vmap="int", part=p, parts=6)))
    for vm in ("neg", "ulp", "inf"):
        for n in (1, 2, 3, 4):
            ms(2, 3 if vm != "inf" else 3, n, vm)
        ms(3, 2, 3, vm)
    ms(2, 3, 5, parts=4)
    ms(2, 3, 6, parts=8)
    for n in (1, 2, 3):
        ms(3, 3, n)
        ms(4, 2, n)
    ms(3, 3, 4, parts=16) if T else [U.append(("u_multisets", dict(m=3, levels=3, n=4, vmap="int", part=p, parts=16))) for p in range(16)]
    ms(3, 2, 4)
    ms(3, 2, 5, parts=2)
    ms(4, 2, 4, parts=6)
    for n in range(1, 6):
        ms(1, 3, n)
    U.append(("u_reference_sets", dict(m=2, levels=3, n=2, nref=2)))
    U.append(("u_reference_sets", dict(m=2, levels=3, n=1, nref=3)))
    U.append(("u_constrained", dict(m=2, levels=3)))
    U.append(("u_constrained", dict(m=3, levels=2)))
    if T:
        ms(2, 3, 7, parts=16)
        ms(3, 2, 6, parts=8)
        ms(4, 2, 5, parts=24)
        ms(2, 4, 5, parts=24)
        ms(3, 3, 5, parts=160)
    return U
