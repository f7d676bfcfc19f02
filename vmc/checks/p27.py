"""P27: a population behaves like an ordered collection of solutions."""

import copy
import itertools
import pickle

import numpy as np

PROPERTY = "P27"
RULE = "every state is one sequence of operations from one start; after each operation both populations are compared with a list model (order, identity of solutions, every value); outcomes are distinct final contents"
BOUNDS = {
    "quick": "all sequences of up to 3 operations out of 53 (set, get, index, slice, mask, assign, merge, create, copy, pickle, collect, apply, in-place changes) on 5 starting pairs of populations of 0..3 solutions; "
             "all ways to build and merge populations of 0..2 solutions; all pairs of attribute assignments to a single solution",
    "thorough": "all sequences of up to 4 operations on 2 starts, of up to 3 on the others",
}


class M:
    """One solution of the model."""

    def __init__(self, real, **v):
        self.real = real
        self.v = dict(X=[], F=[], G=[], H=[], cv=None, data={})
        self.v.update(v)

    def clone(self, real):
        m = M(real)
        m.v = copy.deepcopy(self.v)
        return m


def cv(v):
    if v["cv"] is not None:
        return v["cv"]
    return [sum(max(0.0, g) for g in v["G"]) + sum(max(0.0, abs(h) - 1e-4) for h in v["H"])]


def eq(a, b):
    if isinstance(b, (list, tuple)) and not isinstance(a, (dict, str)) and a is not None:
        a = list(np.asarray(a, dtype=object).tolist()) if isinstance(a, np.ndarray) else list(a)
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(b, float) or isinstance(a, float):
        return not isinstance(a, (dict, str)) and a is not None and b is not None and (a == b or abs(a - b) < 1e-12)
    return type(a) is type(b) and a == b if not isinstance(b, int) else a == b


KEYS = ("X", "F", "G", "H")


def compare(env):
    from pymoo.core.population import Population
    for s in "PQ":
        pop, mod = env.real[s], env.model[s]
        if type(pop) is not Population:
            return "%s is a %s" % (s, type(pop).__name__)
        if len(pop) != len(mod):
            return "%s holds %d solutions instead of %d" % (s, len(pop), len(mod))
        for i, (r, m) in enumerate(zip(pop, mod)):
            if r is not m.real or pop[i] is not r:
                return "%s[%d] is another solution" % (s, i)
            for k in KEYS:
                if not eq(r.get(k), m.v[k]):
                    return "%s of %s[%d] is %r instead of %r" % (k, s, i, r.get(k), m.v[k])
                if r.get(k) is not getattr(r, k):
                    return "%s of %s[%d] differs between get and attribute" % (k, s, i)
            if not eq(r.CV, cv(m.v)):
                return "CV of %s[%d] is %r instead of %r" % (s, i, r.CV, cv(m.v))
            if bool(r.FEAS[0]) != (cv(m.v)[0] <= 0):
                return "FEAS of %s[%d] is %r with CV %r" % (s, i, r.FEAS, cv(m.v))
            for k in ("a", "d", "s"):
                if not eq(r.get(k), m.v["data"].get(k)):
                    return "%s of %s[%d] is %r instead of %r" % (k, s, i, r.get(k), m.v["data"].get(k))
        for k in KEYS + ("CV",):
            vals = [cv(m.v) if k == "CV" else m.v[k] for m in mod]
            if len(set(len(v) for v in vals)) <= 1:
                got = pop.get(k)
                if not isinstance(got, np.ndarray) or len(got) != len(vals) or not all(eq(g, v) for g, v in zip(got, vals)):
                    return "%s of the population %s is %r instead of %r" % (k, s, got, vals)
        a, f = pop.get("a", "F", to_numpy=False)
        if not all(eq(g, m.v["data"].get("a")) for g, m in zip(a, mod)) or len(a) != len(mod) or len(f) != len(mod) or not all(eq(g, m.v["F"]) for g, m in zip(f, mod)):
            return "two keys of the population %s are read wrongly" % s
        for k in ("a", "d"):
            if bool(pop.has(k)) != all(k in m.v["data"] for m in mod):
                return "has(%s) is wrong for %s" % (k, s)
    return None


class Env:
    pass


def start(which):
    from pymoo.core.population import Population
    e = Env()
    e.real, e.model, e.arr, e.n = {}, {}, None, 0

    def mk(n, off, cons):
        X = np.arange(2.0 * n).reshape(n, 2) + off
        F = -X * 0.5
        pop = Population.new(X=X, F=F) if n else Population.new()
        mod = [M(pop[i], X=X[i].tolist(), F=F[i].tolist()) for i in range(n)]
        if cons and n:
            G = X[:, :1] - off - 1
            pop.set("G", G, "H", np.zeros((n, 1)))
            for i, m in enumerate(mod):
                m.v["G"], m.v["H"] = G[i].tolist(), [0.0]
        return pop, mod
    sizes = {"2+1": (2, 1, False), "3+2": (3, 2, True), "1+0": (1, 0, False), "0+2": (0, 2, True), "shared": (2, 0, False)}[which]
    e.real["P"], e.model["P"] = mk(sizes[0], 0.0, sizes[2])
    e.real["Q"], e.model["Q"] = mk(sizes[1], 100.0, sizes[2])
    if which == "shared":
        e.real["Q"], e.model["Q"] = e.real["P"][::-1], e.model["P"][::-1]
        e.real["Q"] = Population(list(e.real["Q"]))
    return e


def OPS():
    from pymoo.core.individual import Individual
    from pymoo.core.population import Population
    ops = {}

    def op(name):
        def deco(f):
            ops[name] = f
            return f
        return deco

    def setter(key, kind):
        def f(e, key=key, kind=kind):
            P, m = e.real["P"], e.model["P"]
            n = len(P)
            e.n += 1
            w = 2 if key in ("X", "F") else 1
            A = np.arange(float(n * w)).reshape(n, w) * 0.25 - 0.25 + e.n
            if key in ("G", "H"):
                A = A - e.n
            if kind == "array":
                P.set(key, A)
                rows = A.tolist()
                e.arr = A
            elif kind == "list":
                P.set(**{key: [np.array(r) for r in A.tolist()]})
                rows = A.tolist()
            elif kind == "reverse":
                P.set(key, A[::-1])
                rows = A[::-1].tolist()
                e.arr = A
            for x, r in zip(m, rows):
                x.v[key] = r
                if key in ("G", "H"):
                    x.v["cv"] = None
        return f
    for key in KEYS:
        ops["set " + key] = setter(key, "array")
    ops["set F list"] = setter("F", "list")
    ops["set X reversed"] = setter("X", "reverse")

    @op("set CV")
    def _(e):
        n = len(e.real["P"])
        vals = np.array([[0.5 * i] for i in range(n)])
        e.real["P"].set("CV", vals)
        for i, m in enumerate(e.model["P"]):
            m.v["cv"] = [0.5 * i]

    @op("set a each")
    def _(e):
        n = len(e.real["P"])
        e.n += 1
        e.real["P"].set("a", [e.n * 10 + i for i in range(n)])
        for i, m in enumerate(e.model["P"]):
            m.v["data"]["a"] = e.n * 10 + i

    @op("set a array")
    def _(e):
        n = len(e.real["P"])
        A = np.arange(n) + 7
        e.real["P"].set("a", A, "s", "text")
        for i, m in enumerate(e.model["P"]):
            m.v["data"]["a"] = 7 + i
            m.v["data"]["s"] = "text"

    @op("set a one")
    def _(e):
        e.real["P"].set("a", 3)
        for m in e.model["P"]:
            m.v["data"]["a"] = 3

    @op("set s")
    def _(e):
        e.real["Q"].set(s="xy")
        for m in e.model["Q"]:
            m.v["data"]["s"] = "xy"

    @op("set d")
    def _(e):
        e.real["P"].set("d", [{"k": [i]} for i in range(len(e.real["P"]))])
        for i, m in enumerate(e.model["P"]):
            m.v["data"]["d"] = {"k": [i]}

    @op("set two keys")
    def _(e):
        n = len(e.real["P"])
        e.real["P"].set("a", [5] * n, "F", np.full((n, 2), 9.0), s="k")
        for m in e.model["P"]:
            m.v["data"].update(a=5, s="k")
            m.v["F"] = [9.0, 9.0]

    @op("set wrong size")
    def _(e):
        n = len(e.real["P"])
        if n:
            try:
                e.real["P"].set("a", list(range(n + 1)))
            except Exception:
                return
            return "too many values are accepted"

    @op("change source")
    def _(e):
        if e.arr is not None:
            e.arr[...] = -77.0

    @op("change result")
    def _(e):
        if len(e.real["P"]) and all(len(set(len(m.v[k]) for m in e.model["P"])) == 1 for k in "XF"):
            e.real["P"].get("F")[...] = 55.0
            x, f = e.real["P"].get("X", "F")
            f[...] = 66.0

    @op("change nested")
    def _(e):
        if e.model["P"] and "d" in e.model["P"][0].v["data"]:
            e.real["P"][0].get("d")["k"].append(99)
            e.model["P"][0].v["data"]["d"]["k"].append(99)

    @op("change X in place")
    def _(e):
        if e.model["P"] and e.model["P"][-1].v["X"]:
            e.real["P"][-1].X[0] = 321.0
            e.model["P"][-1].v["X"][0] = 321.0

    @op("solution set")
    def _(e):
        if e.model["P"]:
            e.real["P"][0].set("a", 42)
            e.real["P"][0].F = np.array([1.5, 2.5])
            e.model["P"][0].v["data"]["a"] = 42
            e.model["P"][0].v["F"] = [1.5, 2.5]

    @op("solution set Q")
    def _(e):
        if e.model["Q"]:
            e.real["Q"][-1].set("G", np.array([0.75]))
            e.real["Q"][-1].set_by_dict(a=1, s="t")
            e.model["Q"][-1].v.update(G=[0.75], cv=None)
            e.model["Q"][-1].v["data"].update(a=1, s="t")

    @op("duplicate key")
    def _(e):
        if e.model["P"] and "a" in e.model["P"][0].v["data"]:
            e.real["P"][0].duplicate("a", "s")
            e.model["P"][0].v["data"]["s"] = e.model["P"][0].v["data"]["a"]

    @op("reset")
    def _(e):
        if e.model["P"]:
            e.real["P"][0].reset()
            e.model["P"][0].v = dict(X=[], F=[], G=[], H=[], cv=None, data={})

    @op("reset keep data")
    def _(e):
        if e.model["Q"]:
            e.real["Q"][0].reset(data=False)
            e.model["Q"][0].v = dict(X=[], F=[], G=[], H=[], cv=None, data=e.model["Q"][0].v["data"])

    def index(name, f):
        def g(e, f=f):
            n = len(e.model["P"])
            try:
                idx = f(n)
            except IndexError:
                return
            if idx is None:
                return
            e.real["P"] = e.real["P"][idx[0]]
            e.model["P"] = [e.model["P"][i] for i in idx[1]]
        ops[name] = g
    index("first two", lambda n: (slice(0, 2), range(min(2, n))))
    index("all but first", lambda n: (slice(1, None), range(1, n)))
    index("reversed", lambda n: (slice(None, None, -1), range(n - 1, -1, -1)))
    index("list", lambda n: ([n - 1, 0], [n - 1, 0]) if n else None)
    index("array repeated", lambda n: (np.array([0, 0, n - 1]), [0, 0, n - 1]) if n else None)
    index("mask", lambda n: (np.arange(n) % 2 == 0, range(0, n, 2)))
    index("empty", lambda n: (np.zeros(n, dtype=bool), []))
    index("argsort", lambda n: (np.argsort(-np.arange(n)), range(n - 1, -1, -1)))

    @op("assign")
    def _(e):
        if e.model["P"] and e.model["Q"]:
            e.real["P"] = Population(list(e.real["P"]))
            e.real["P"][0] = e.real["Q"][-1]
            e.model["P"] = [e.model["Q"][-1]] + e.model["P"][1:]

    @op("assign many")
    def _(e):
        if len(e.model["P"]) >= 2 and e.model["Q"]:
            e.real["P"] = Population(list(e.real["P"]))
            e.real["P"][[0, 1]] = e.real["Q"][[0, -1]]
            e.model["P"] = [e.model["Q"][0], e.model["Q"][-1]] + e.model["P"][2:]

    @op("swap")
    def _(e):
        e.real["P"], e.real["Q"] = e.real["Q"], e.real["P"]
        e.model["P"], e.model["Q"] = e.model["Q"], e.model["P"]

    def merge(name, real, model):
        def g(e):
            if len(e.model["P"]) + len(e.model["Q"]) > 6:
                return
            m = model(e)
            if m is None:
                return
            r = real(e)
            m = [M(r[i], X=x) if isinstance(x, list) else x for i, x in enumerate(m)]
            e.real["P"], e.model["P"] = r, m
        ops[name] = g
    merge("merge", lambda e: Population.merge(e.real["P"], e.real["Q"]), lambda e: e.model["P"] + e.model["Q"])
    merge("merge three", lambda e: Population.merge(e.real["Q"], e.real["P"], e.real["Q"]), lambda e: e.model["Q"] + e.model["P"] + e.model["Q"])
    merge("merge none", lambda e: Population.merge(e.real["P"], None), lambda e: e.model["P"])
    merge("merge none first", lambda e: Population.merge(None, e.real["Q"]), lambda e: list(e.model["Q"]))
    merge("merge one", lambda e: Population.merge(e.real["P"], e.real["Q"][0]), lambda e: e.model["P"] + e.model["Q"][:1] if e.model["Q"] else None)
    merge("merge array", lambda e: Population.merge(e.real["P"], np.array([[4.0, 5.0], [6.0, 7.0]])), lambda e: e.model["P"] + [[4.0, 5.0], [6.0, 7.0]])
    merge("merge vector", lambda e: Population.merge(np.array([4.0, 5.0]), e.real["P"]), lambda e: [[4.0, 5.0]] + e.model["P"])
    merge("create", lambda e: Population.create(*[e.real["Q"][i] for i in range(len(e.real["Q"]))], *list(e.real["P"])), lambda e: e.model["Q"] + e.model["P"])
    merge("from list", lambda e: Population(list(e.real["P"])), lambda e: list(e.model["P"]))
    merge("from one", lambda e: Population(e.real["P"][0]), lambda e: e.model["P"][:1] or None)
    merge("new", lambda e: Population.new("X", np.array([[0.5, 0.25]])), lambda e: [[0.5, 0.25]])
    merge("fresh", lambda e: Population.empty(2), lambda e: [[], []])

    def deep(how):
        def g(e):
            old = e.real["P"]
            new = how(old)
            memo, mod = {}, []
            for r, m in zip(new, e.model["P"]):
                if id(m) not in memo:
                    memo[id(m)] = m.clone(r)
                mod.append(memo[id(m)])
            live = {id(x) for s in "PQ" for x in e.real[s]}
            bad = any(id(r) in live for r in new)
            # what was P is kept as Q
            e.real["Q"], e.model["Q"] = old, e.model["P"]
            e.real["P"], e.model["P"] = new, mod
            if bad:
                return "the copy holds a solution of its source"
        return g
    ops["deepcopy"] = deep(copy.deepcopy)
    ops["pickle"] = deep(lambda p: pickle.loads(pickle.dumps(p)))

    @op("copy each")
    def _(e):
        old = e.real["P"]
        new = Population.create(*[i.copy() for i in old])
        mod = [m.clone(r) for r, m in zip(new, e.model["P"])]
        e.real["Q"], e.model["Q"] = old, e.model["P"]
        e.real["P"], e.model["P"] = new, mod

    @op("copy array")
    def _(e):
        new = e.real["P"].copy()
        e.real["Q"], e.model["Q"] = e.real["P"], list(e.model["P"])
        e.real["P"] = new

    @op("collect")
    def _(e):
        got = e.real["P"].collect(lambda i: i.get("a"), to_numpy=False)
        if not all(eq(g, m.v["data"].get("a")) for g, m in zip(got, e.model["P"])) or len(got) != len(e.model["P"]):
            return "collect returns %r" % (got,)
        if not isinstance(e.real["P"].collect(lambda i: len(i.X)), np.ndarray):
            return "collect returns no array"

    @op("apply")
    def _(e):
        e.n += 1
        n = e.n
        e.real["P"].apply(lambda i: i.set("a", (i.get("a") or 0) + n))
        for m in e.model["P"]:
            m.v["data"]["a"] = (m.v["data"].get("a") or 0) + n
    return ops


def u_sequences(ctx, which, first, depth):
    ops = OPS()
    names = list(ops)

    def run(seq):
        e = start(which)
        for k, n in enumerate(seq):
            try:
                w = ops[n](e)
            except Exception as ex:
                ctx.viol("sequence:raises", "%s fails: %r" % (n, ex), start=which, sequence=seq[:k + 1])
                return False
            # prefixes were compared before
            if k == len(seq) - 1:
                ctx.trans()
                w = w or compare(e)
                if w:
                    ctx.viol("sequence", w, start=which, sequence=seq)
                    return False
        ctx.state()
        ctx.outcome([[repr(sorted(m.v.items(), key=str)) for m in e.model[s]] for s in "PQ"])
        return True
    bad = set()
    for d in range(1, depth + 1):
        for rest in itertools.product(names, repeat=d - 1):
            seq = (first,) + rest
            if any(seq[:k] in bad for k in range(1, d)):
                continue
            if not run(seq):
                bad.add(seq)
                if len(bad) > 20:
                    return
            ctx.trace()


def u_build(ctx):
    """Every way to build or merge small populations."""
    from pymoo.core.individual import Individual
    from pymoo.core.population import Population, merge
    for n in (0, 1, 2, 3):
        X = np.arange(3.0 * n).reshape(n, 3)
        for keys in itertools.chain.from_iterable(itertools.combinations(("X", "F", "G", "note"), k) for k in range(1, 5)):
            vals = {k: X + j if k != "note" else ["n%d" % i for i in range(n)] for j, k in enumerate(keys)}
            for how in range(3):
                if how == 0:
                    pop = Population.new(**vals)
                elif how == 1:
                    pop = Population.new(*[q for kv in vals.items() for q in kv])
                else:
                    pop = Population.empty(n)
                    for k, v in vals.items():
                        pop.set(k, v)
                ctx.trans()
                ctx.state()
                ok = len(pop) == n and all(np.array_equal(pop[i].get(k), vals[k][i]) for k in vals for i in range(n)) and len(set(map(id, pop))) == n
                ctx.check(ok, "build", "a population is built wrongly", n=n, keys=keys, how=how)
                ctx.outcome(n, keys, how)
        if n:
            for m in range(4):
                if m != n:
                    try:
                        Population.new(X=X, F=np.zeros((m, 1)))
                        ctx.viol("build:size", "values of different length are accepted", n=n, m=m)
                    except Exception:
                        pass
    parts = {"none": None, "empty": Population.empty(), "one": Individual(X=np.array([1.0, 2.0])), "vector": np.array([3.0, 4.0]), "matrix": np.array([[5.0, 6.0], [7.0, 8.0]]), "pop": Population.new(X=np.array([[9.0, 10.0], [11.0, 12.0]]))}
    lists = {"none": [], "empty": [], "one": [[1.0, 2.0]], "vector": [[3.0, 4.0]], "matrix": [[5.0, 6.0], [7.0, 8.0]], "pop": [[9.0, 10.0], [11.0, 12.0]]}
    for k in (2, 3, 4):
        for names in itertools.product(parts, repeat=k):
            if all(n == "none" for n in names[:2]):
                continue
            got = Population.merge(*[parts[n] for n in names])
            want = [x for n in names for x in lists[n]]
            ctx.trans()
            ctx.state()
            ctx.check(isinstance(got, Population) and [i.X.tolist() for i in got] == want, "merge", "merging %s gives %s" % (names, [i.X.tolist() for i in got]))
            same = [q for n in names for q in ([parts[n]] if n == "one" else list(parts[n]) if n == "pop" else [None] * len(lists[n]))]
            ctx.check(all(s is None or s is g for s, g in zip(same, got)), "merge:identity", "merging %s replaces solutions" % (names,))
            if k == 2:
                ctx.check([i.X.tolist() for i in merge(*[parts[n] for n in names])] == want, "merge", "merging %s as a function differs" % (names,))


def u_individual(ctx):
    """Constructor, attributes and generic access of one solution agree."""
    from pymoo.core.individual import Individual
    special = ["X", "F", "G", "H", "dF", "dG", "dH", "ddF", "ddG", "ddH", "CV"]
    vals = {k: np.array([float(i), i + 0.5]) for i, k in enumerate(special)}
    vals["CV"] = np.array([2.5])
    vals.update(rank=3, tags=["a"], name="q")
    how = {"set": lambda i, k, v: i.set(k, v), "attr": lambda i, k, v: setattr(i, k, v) if k in special else i.set(k, v), "dict": lambda i, k, v: i.set_by_dict(**{k: v})}
    for (k1, v1), (k2, v2) in itertools.permutations(vals.items(), 2):
        for h1, h2 in itertools.product(how, repeat=2):
            a = Individual()
            how[h1](a, k1, v1)
            how[h2](a, k2, v2)
            ctx.trans()
            ctx.state()
            b = Individual(**{k1: v1, k2: v2})
            for ind, w in ((a, "set"), (b, "built")):
                # constraints assigned after the violation make it outdated
                keep = not (w == "set" and k1 == "CV" and k2 in ("G", "H"))
                ctx.check(not keep or ind.get(k1) is v1, "individual", "%s is lost when %s is %s" % (k1, k2, w), how=(h1, h2))
                ctx.check(ind.get(k2) is v2, "individual", "%s is not what was %s" % (k2, w), how=(h1, h2))
                got = ind.get(k2, k1)
                ctx.check(got[0] is v2 and (not keep or got[1] is v1), "individual:two", "two keys are read in a wrong order", keys=(k1, k2))
                others = [k for k in special if k not in (k1, k2, "CV")]
                ctx.check(all(len(ind.get(k)) == 0 for k in others), "individual:other", "another attribute has a value", keys=(k1, k2))
                ctx.check(ind.get("missing") is None and not ind.has("missing") and ind.has(k1) and ind.has(k2), "individual:has", "has is wrong", keys=(k1, k2))
            c = a.copy()
            ok = c is not a and c.data is not a.data and all(np.array_equal(c.get(k), a.get(k)) if k in special else c.get(k) == a.get(k) for k in (k1, k2))
            ctx.check(ok, "individual:copy", "a copy differs", keys=(k1, k2))
            for k in (k1, k2):
                if isinstance(a.get(k), np.ndarray):
                    c.get(k)[...] = -1.0
                    ctx.check(not np.any(a.get(k) == -1.0), "individual:copy", "a copy shares %s" % k, keys=(k1, k2))
            for data in (True, False):
                d = a.copy()
                d.evaluated = {"F"}
                kept = dict(d.data)
                d.reset(data=data)
                ctx.check(all(len(d.get(k)) == 0 for k in special if k != "CV"), "individual:reset", "a solution that is reset still has values", keys=(k1, k2), data=data)
                ctx.check(len(d.evaluated) == 0, "individual:reset", "a solution that is reset still counts as evaluated", keys=(k1, k2), data=data)
                ctx.check(d.data == ({} if data else kept), "individual:reset", "resetting a solution treats its data wrongly", keys=(k1, k2), data=data)
                ctx.check(all(np.array_equal(c.get(k), c.get(k)) for k in (k1, k2)) and d.data is not a.data, "individual:reset", "resetting a copy affects the solution", keys=(k1, k2))
            ctx.outcome(k1, k2, h1, h2)


def units(tier):
    deep = tier == "thorough"
    names = list(OPS())
    U = []
    for w in ("3+2", "2+1", "shared", "1+0", "0+2"):
        for n in names:
            U.append(("u_sequences", dict(which=w, first=n, depth=4 if deep and w in ("3+2", "shared") else 3)))
    return U + [("u_build", {}), ("u_individual", {})]
