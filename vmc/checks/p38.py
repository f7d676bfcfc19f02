"""P38: a plot shows exactly the data it was given."""

import itertools
import math

import numpy as np

PROPERTY = "P38"
RULE = ("an execution is one plot built by one history of calls; every drawn element is read back from the figure (coordinates, panel, colour, text) and compared with "
        "the positions the definition of the plot assigns to the data; outcomes are distinct (plot, options, data) pictures")
BOUNDS = {
    "quick": "scatter: all sequences of 1-3 points out of 4 in 1-4 dimensions (fewer in 3-4) x styles x one or two sets x vector, matrix or stack; parallel coordinates, radviz, star, petal, radar, heatmap: all sequences of 1-2 (3) solutions "
             "out of 4 in 2-4 objectives x settings of bounds, reversal and normalisation; heatmap: all orders of all objective lists; histories of up to 4 calls out of {add, add, do, reset, open a figure, draw another plot} for every plot, with a given "
             "panel or an own one; landscapes: 3 asymmetric functions x kinds x resolutions x both surface tools; animations: all generation numbers x intervals, all runs of 3 populations",
    "thorough": "as quick with one point, call or generation more",
}
ASSUMPTIONS = ["the picture is judged by the elements matplotlib holds for it, not by its pixels"]
P2 = [(-1.0, 2.0), (0.5, 0.0), (3.0, 3.5), (0.5, 7.0)]
PTS = {1: [(-1.0,), (0.5,), (2.0,), (7.0,)], 2: P2, 3: [(-1.0, 2.0, 5.0), (0.5, 0.0, 1.0), (3.0, 3.5, -2.0), (0.5, 7.0, 5.0)],
       4: [(-1.0, 2.0, 5.0, 10.0), (0.5, 0.0, 1.0, 20.0), (3.0, 3.5, -2.0, 15.0), (0.5, 7.0, 5.0, 10.0)]}
POS = {2: [(1.0, 2.0), (0.5, 0.25), (3.0, 3.5), (4.0, 0.0)], 3: [(1.0, 2.0, 5.0), (0.5, 0.25, 1.0), (3.0, 3.5, 2.0), (4.0, 0.0, 5.0)],
       4: [(1.0, 2.0, 5.0, 9.0), (0.5, 0.25, 1.0, 2.0), (3.0, 3.5, 2.0, 0.0), (4.0, 0.0, 5.0, 8.0)], 5: [(1.0, 2.0, 5.0, 9.0, 3.0), (0.5, 0.25, 1.0, 2.0, 7.0)]}
LO = {m: [0.5, 0.0, 1.0, -1.0, 2.0][:m] for m in (2, 3, 4, 5)}
HI = {m: [4.0, 8.0, 6.0, 10.0, 9.0][:m] for m in (2, 3, 4, 5)}


def mpl():
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    return plt


def close(plt):
    plt.close("all")


def r(a):
    a = np.asarray(a, float)
    return tuple(tuple(round(float(v), 9) + 0.0 for v in row) for row in np.atleast_2d(a))


def rgba(c):
    from matplotlib.colors import to_rgba
    return tuple(round(v, 6) for v in to_rgba(c)[:3])


def points(ax):
    """Scattered point sets of a panel: (coordinates, colour)."""
    from matplotlib.collections import PathCollection
    out = []
    for c in ax.collections:
        if isinstance(c, PathCollection):
            off = np.column_stack([np.asarray(v, float) for v in c._offsets3d]) if hasattr(c, "_offsets3d") else np.asarray(c.get_offsets(), float)
            fc = c.get_facecolor()
            out.append((r(off), rgba(fc[0]) if len(fc) else None))
    return out


def lines(ax):
    out = []
    for ln in ax.lines:
        if hasattr(ln, "get_data_3d"):
            d = np.column_stack([np.asarray(v, float) for v in ln.get_data_3d()])
        else:
            d = np.column_stack([np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)])
        out.append((r(d), rgba(ln.get_color())))
    return out


def polygons(ax):
    """Filled polygons: (vertices without the closing one, colour)."""
    from matplotlib.collections import PathCollection
    from matplotlib.patches import Polygon
    out = []
    for c in ax.collections:
        if isinstance(c, PathCollection) or not hasattr(c, "get_paths"):
            continue
        for p in c.get_paths():
            v = np.asarray(p.vertices, float)
            if len(v) > 1 and np.allclose(v[0], v[-1]):
                v = v[:-1]
            fc = c.get_facecolor()
            out.append((r(v), rgba(fc[0]) if len(fc) else None))
    for p in ax.patches:
        if type(p) is Polygon:
            v = np.asarray(p.get_xy(), float)
            if len(v) > 1 and np.allclose(v[0], v[-1]):
                v = v[:-1]
            out.append((r(v), rgba(p.get_facecolor())))
    return out


def texts(ax):
    return [(t.get_text(), tuple(round(float(v), 6) for v in t.get_position())) for t in ax.texts]


def empty(fig):
    return all(not a.lines and not a.collections and not a.patches and not a.images and not a.texts for a in fig.axes)


def content(ax):
    """Everything drawn in a panel, as a set."""
    im = [("image", r(np.asarray(i.get_array(), float))) for i in ax.images]
    return set([("points",) + p for p in points(ax)] + [("line",) + p for p in lines(ax)] + [("polygon",) + p for p in polygons(ax)] + im + [("text",) + t for t in texts(ax)])


def panels(plot):
    return list(np.array(plot.ax).flatten())


def norm(F, lo, hi):
    F, lo, hi = np.asarray(F, float), np.asarray(lo, float), np.asarray(hi, float)
    return (F - lo) / np.where(hi == lo, 1.0, hi - lo)


def sequences(pts, n):
    for k in range(1, n + 1):
        for s in itertools.product(range(len(pts)), repeat=k):
            yield np.array([pts[i] for i in s])


def tab(k):
    import matplotlib
    return rgba(matplotlib.pyplot.get_cmap("tab10").colors[k % 10])


def V(m):
    return np.array([[math.cos(2 * math.pi * i / m), math.sin(2 * math.pi * i / m)] for i in range(m)])


# ---------------------------------------------------------------- scatter

def check_scatter(ctx, plot, sets, styles, d, three, det):
    """sets: arrays in the order added; styles: 'scatter' or 'line' and a colour (None: the default cycle)."""
    ax = panels(plot)
    exp = [tab(k) if c is None else rgba(c) for k, (_, c) in enumerate(styles)]
    want = d if d != 3 or three else 3
    n = 1 if d <= 2 or (d == 3 and three) else d * d
    if not ctx.check(len(ax) == n, "scatter:panels", "a scatter plot of %d dimensions has %d panels instead of %d" % (d, len(ax), n), **det):
        return
    for p, a in enumerate(ax):
        if n > 1:
            i, j = divmod(p, d)
            if i == j:
                ctx.check(any("_{%d}" % (i + 1) in t[0] or t[0] == plot_labels(d)[i] for t in texts(a)), "scatter:name", "the panel on the diagonal does not name its objective", panel=(i, j), **det)
                continue
            proj = [np.asarray(F)[:, [i, j]] for F in sets]
            lab = (a.get_xlabel(), a.get_ylabel())
            wl = (plot_labels(d)[i], plot_labels(d)[j])
            if lab != wl:
                ctx.viol("scatter:labels", "the axes of a panel are named %s instead of %s" % (lab, wl), panel=(i, j), **det)
        else:
            proj = [np.column_stack([F, np.zeros(len(F))]) if d == 1 else np.asarray(F) for F in sets]
            lab = [a.get_xlabel()] + ([a.get_ylabel()] if d > 1 else []) + ([a.get_zlabel()] if d == 3 else [])
            if lab != plot_labels(d):
                ctx.viol("scatter:labels", "the axes are named %s" % lab, **det)
        gp, gl = points(a), lines(a)
        wp = [(r(F), e) for F, e, s in zip(proj, exp, styles) if s[0] == "scatter"]
        wl = [(r(F), e) for F, e, s in zip(proj, exp, styles) if s[0] == "line"]
        # three-dimensional points may be held in depth order
        key = (lambda L: [(tuple(sorted(x[0])), x[1]) for x in L]) if want == 3 and n == 1 else (lambda L: L)
        if key(gp) != key(wp) or gl != wl:
            ctx.viol("scatter:data", "the drawn points and lines are not the data", drawn=[gp, gl], expect=[wp, wl], panel=p, **det)


def plot_labels(d):
    return ["$f_{%d}$" % (i + 1) for i in range(d)]


STYLES = {"default": ({}, "scatter", None), "line": (dict(plot_type="line", color="black"), "line", "black"), "mode": (dict(mode="plot"), "line", None), "red": (dict(color="red", s=20), "scatter", "red")}


def u_scatter(ctx, d, n, three):
    from pymoo.visualization.scatter import Scatter
    plt = mpl()
    small = d >= 3 and not (d == 3 and three)
    pts = PTS[d][:3] if d == 4 else PTS[d]
    for F in sequences(pts, n):
        for st in STYLES:
            for form in ("matrix", "vector", "stack", "two"):
                if form == "vector" and len(F) != 1 or form == "stack" and (len(F) != 2 or st != "default") or form == "two" and (small and len(F) > 1):
                    continue
                kw, s, c = STYLES[st]
                kw, kw0 = dict(kw), dict(kw)
                F0 = F.copy()
                sc = Scatter(plot_3d=three)
                G = np.array(pts[1:3])
                if form == "matrix":
                    sc.add(F, **kw)
                    sets, styles = [F0], [(s, c)]
                elif form == "vector":
                    sc.add(F[0], **kw)
                    sets, styles = [F0], [(s, c)]
                elif form == "stack":
                    sc.add(np.array([F, F[::-1]]), **kw)
                    sets, styles = [F0, F0[::-1]], [(s, c)] * 2
                else:
                    sc.add(G)
                    sc.add(F, **kw)
                    sets, styles = [G, F0], [("scatter", None), (s, c)]
                ctx.state()
                ctx.trans()
                ctx.outcome(d, r(F), st, form)
                det = dict(F=F0, style=st, form=form, three=three)
                try:
                    sc.do()
                except Exception as e:
                    ctx.viol("scatter:error:%s" % st, "drawing fails: %r" % (e,), **det)
                    close(plt)
                    continue
                check_scatter(ctx, sc, sets, styles, d, three, det)
                if not np.array_equal(F, F0) or kw != kw0:
                    ctx.viol("scatter:input", "drawing changed the data or the style", **det)
                close(plt)


# ---------------------------------------------------------------- parallel coordinates

def bounds_of(kind, m, sets):
    A = np.vstack(sets)
    return {"none": (A.min(0), A.max(0)), "scalar": (np.full(m, -1.0), np.full(m, 10.0)), "narrow": (np.full(m, 1.0), np.full(m, 3.0)), "vector": (np.array(LO[m]) - 3, np.array(HI[m]))}[kind]


def bounds_arg(kind, m):
    return {"none": None, "scalar": [-1, 10], "narrow": [1.0, 3.0], "vector": [(np.array(LO[m]) - 3).tolist(), HI[m]]}[kind]


def check_pcp(ctx, plot, sets, colours, lo, hi, det):
    m = sets[0].shape[1]
    got = [x for x in lines(plot.ax) if [p[0] for p in x[0]] == list(range(m)) and len(x[0]) == m]
    want = []
    for k, (F, c) in enumerate(zip(sets, colours)):
        want += [(r(np.column_stack([np.arange(m), row])), tab(k) if c is None else rgba(c)) for row in norm(F, lo, hi)]
    if got != want:
        ctx.viol("pcp:lines", "the drawn lines are not the normalised solutions", drawn=got, expect=want, **det)
    axes = sorted({x[0][0][0] for x in lines(plot.ax) if len(x[0]) == 2 and x[0][0][0] == x[0][1][0]})
    if axes != list(range(m)):
        ctx.viol("pcp:axes", "there is not one vertical axis per objective", drawn=axes, **det)
    if plot.show_bounds:
        t = texts(plot.ax)
        for i in range(m):
            near = sorted((pos[1], s) for s, pos in t if abs(pos[0] - i) < 0.5)
            if [s for _, s in near] != ["{:.2f}".format(lo[i]), "{:.2f}".format(hi[i])]:
                ctx.viol("pcp:bounds", "the ends of an axis are labelled %s instead of %s" % (near, [lo[i], hi[i]]), axis=i, **det)
    lab = [t.get_text() for t in plot.ax.get_xticklabels()]
    if lab != plot_labels(m) or list(plot.ax.get_xticks()) != list(range(m)):
        ctx.viol("pcp:labels", "the axes are named %s" % lab, **det)


def u_pcp(ctx, m, n):
    from pymoo.visualization.pcp import PCP
    plt = mpl()
    for F in sequences(POS[m], n):
        for kind in ("none", "scalar", "vector", "narrow"):
            for each in (True, False):
                for two in (False, True, "three"):
                    for show in (True, False):
                        if show is False and (two or len(F) > 1):
                            continue
                        sets, cols = [F], ["grey"]
                        if two:
                            sets, cols = [np.array(POS[m][2:]), F], [None, None]
                        if two == "three":
                            sets, cols = [np.array(POS[m][:1]), F, np.array(POS[m][2:])], [None, "red", None]
                        keep = [s.copy() for s in sets]
                        p = PCP(bounds=bounds_arg(kind, m), normalize_each_axis=each, show_bounds=show)
                        for s, c in zip(sets, cols):
                            p.add(s, **({} if c is None else dict(color=c)))
                        p.do()
                        lo, hi = bounds_of(kind, m, keep)
                        if kind == "none" and not each:
                            lo, hi = np.full(m, lo.min()), np.full(m, hi.max())
                        ctx.state()
                        ctx.trans()
                        ctx.outcome(m, r(F), kind, each)
                        det = dict(F=F, bounds=kind, normalize_each_axis=each, two=two)
                        check_pcp(ctx, p, keep, cols, lo, hi, det)
                        if any(not np.array_equal(a, b) for a, b in zip(sets, keep)):
                            ctx.viol("pcp:input", "drawing changed the data", **det)
                        close(plt)


# ---------------------------------------------------------------- circular plots

def named(ctx, tag, ax, m, det):
    """Each objective is named next to its own anchor."""
    t = texts(ax)
    for i, v in enumerate(V(m)):
        near = [s for s, pos in t if math.hypot(pos[0] - v[0], pos[1] - v[1]) < 0.1]
        if near != [plot_labels(m)[i]]:
            ctx.viol("%s:labels" % tag, "the anchor of objective %d is named %s" % (i + 1, near), **det)


def u_radviz(ctx, m, n):
    from pymoo.visualization.radviz import Radviz
    plt = mpl()
    for F in sequences(POS[m], n):
        for two in (False, True):
            F0 = F.copy()
            p = Radviz()
            sets = [F0]
            if two:
                p.add(np.array(POS[m][1]), color="blue")
                sets = [np.array([POS[m][1]]), F0]
            p.add(F, color="red")
            p.do()
            want = [(r([(f[:, None] * V(m)).sum(0) / f.sum() for f in S]), rgba(c)) for S, c in zip(sets, ["blue", "red"] if two else ["red"])]
            ctx.state()
            ctx.trans()
            ctx.outcome(m, r(F), two)
            got = points(p.ax)
            det = dict(F=F0, two=two)
            if got[1:] != want or got[0][0] != r(V(m)):
                ctx.viol("radviz:data", "the drawn points are not the weighted means of the anchors", drawn=got, expect=want, **det)
            named(ctx, "radviz", p.ax, m, det)
            if not np.array_equal(F, F0):
                ctx.viol("radviz:input", "drawing changed the data", **det)
            close(plt)


def u_star(ctx, m, n):
    from pymoo.visualization.star_coordinate import StarCoordinate
    plt = mpl()
    for F in sequences(POS[m], n):
        for kind in ("none", "scalar", "vector", "narrow"):
            for two in (False, True, "three"):
                F0 = F.copy()
                p = StarCoordinate(bounds=bounds_arg(kind, m))
                sets = [F0]
                if two:
                    p.add(np.array(POS[m][1]), color="blue")
                    sets = [np.array([POS[m][1]]), F0]
                p.add(F, color="red")
                if two == "three":
                    p.add(np.array(POS[m][-2:]), color="green")
                    sets = sets + [np.array(POS[m][-2:])]
                p.do()
                lo, hi = bounds_of(kind, m, sets)
                want = [(r(norm(S, lo, hi) @ V(m)), rgba(c)) for S, c in zip(sets, ["blue", "red", "green"] if two else ["red"])]
                ctx.state()
                ctx.trans()
                ctx.outcome(m, r(F), kind, two)
                got = points(p.ax)
                det = dict(F=F0, bounds=kind, two=two)
                if got != want:
                    ctx.viol("star:data", "the drawn points are not the sums of the scaled axes", drawn=got, expect=want, **det)
                named(ctx, "star", p.ax, m, det)
                if not np.array_equal(F, F0):
                    ctx.viol("star:input", "drawing changed the data", **det)
                close(plt)


def layouts(m, n, cls_pts):
    """Lists of sets (each a matrix): one or two rows of panels."""
    for F in sequences(cls_pts, n):
        yield [F]
    for a, b in itertools.product((1, 2), repeat=2):
        yield [np.array(cls_pts[:a]), np.array(cls_pts[2:2 + b] if len(cls_pts) > 3 else cls_pts[1:1 + b])]


def check_petal(ctx, plot, sets, lo, hi, reverse, det):
    m = sets[0].shape[1]
    ax = np.array(plot.ax)
    shape = (len(sets), max(len(s) for s in sets))
    if not ctx.check(ax.shape == shape, "petal:panels", "there is not one row of panels per set and one column per solution", got=ax.shape, expect=shape, **det):
        return
    for k, S in enumerate(sets):
        for j, f in enumerate(norm(S, lo, hi)):
            if reverse:
                f = 1 - f
            a = ax[k, j]
            P = polygons(a)
            ok = len(P) == m
            for i, (poly, col) in enumerate(P[:m]):
                poly = np.array(poly)
                rad = np.hypot(poly[:, 0], poly[:, 1])
                arc = poly[rad > 1e-9] if f[i] > 1e-9 else poly[:0]
                ok &= bool(np.any(rad < 1e-9)) and abs(rad.max() - abs(f[i])) < 1e-9 and col == tab(i)
                if len(arc):
                    ang = (np.arctan2(arc[:, 1], arc[:, 0]) + 1e-9) % (2 * math.pi)
                    lo_a, hi_a = 2 * math.pi * i / m, 2 * math.pi * (i + 1) / m
                    ang = np.where((ang < 1e-6) & (i == m - 1), 2 * math.pi, ang)
                    ok &= ang.min() > lo_a - 1e-6 and ang.max() < hi_a + 1e-6 and abs(ang.min() - lo_a) < 1e-6 and abs(ang.max() - hi_a) < 1e-6 and np.allclose(rad[rad > 1e-9], f[i])
            if not ok:
                ctx.viol("petal:sectors", "the sectors of a panel are not the normalised values of its solution", panel=(k, j), drawn=[(max(math.hypot(*v) for v in p), c) for p, c in P], expect=f, **det)
            L = [np.array(x[0]) for x in lines(a)]
            circles = [x for x in L if len(x) > 50 and np.allclose(np.hypot(x[:, 0], x[:, 1]), 1.0)]
            spokes = [r(x[-1]) for x in L if len(x) == 2]
            if len(circles) != 1 or spokes != [r(v) for v in V(m)]:
                ctx.viol("petal:frame", "a panel does not have its own frame (%d circles, %d axes)" % (len(circles), len(spokes)), panel=(k, j), **det)
            t = texts(a)
            mid = [(math.cos(2 * math.pi * (i + 0.5) / m), math.sin(2 * math.pi * (i + 0.5) / m)) for i in range(m)]
            for i, v in enumerate(mid):
                if [s for s, pos in t if math.hypot(pos[0] - v[0], pos[1] - v[1]) < 0.1] != [plot_labels(m)[i]]:
                    ctx.viol("petal:labels", "a sector is not named after its objective", panel=(k, j), **det)


def u_petal(ctx, m, n):
    from pymoo.visualization.petal import Petal
    plt = mpl()
    for sets in layouts(m, n, POS[m]):
        for kind in ("scalar", "vector"):
            for reverse in (False, True):
                keep = [s.copy() for s in sets]
                p = Petal(bounds=bounds_arg(kind, m), reverse=reverse)
                for s in sets:
                    p.add(s)
                p.do()
                lo, hi = bounds_of(kind, m, keep)
                ctx.state()
                ctx.trans()
                ctx.outcome(m, tuple(map(r, sets)), kind, reverse)
                det = dict(sets=keep, bounds=kind, reverse=reverse)
                check_petal(ctx, p, keep, lo, hi, reverse, det)
                if any(not np.array_equal(a, b) for a, b in zip(sets, keep)):
                    ctx.viol("petal:input", "drawing changed the data", **det)
                close(plt)


def same_corners(a, b):
    """Two outlines with the same corners, however often a corner at the centre is repeated."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    d = np.abs(a[:, None] - b[None]).max(axis=2)
    return bool((d.min(axis=1) < 1e-7).all() and (d.min(axis=0) < 1e-7).all())


def check_radar(ctx, plot, sets, lo, hi, each, reverse, colours, det):
    m = sets[0].shape[1]
    ax = np.array(plot.ax)
    shape = (len(sets), max(len(s) for s in sets))
    if not ctx.check(ax.shape == shape, "radar:panels", "there is not one row of panels per set and one column per solution", got=ax.shape, expect=shape, **det):
        return
    if each:
        inner, outer = np.zeros((m, 2)), V(m)
    else:
        inner, outer = V(m) * (lo / hi.max())[:, None], V(m) * (hi / hi.max())[:, None]
    for k, S in enumerate(sets):
        for j, f in enumerate(norm(S, lo, hi)):
            if reverse:
                f = 1 - f
            a = ax[k, j]
            want = inner + f[:, None] * (outer - inner)
            P = polygons(a)
            pts = [x[0] for x in points(a)]
            if pts != [r(want)] or len(P) != 2 or P[1][0] != r(want) and r(np.unique(np.round(np.array(P[1][0]), 8), axis=0)) != r(np.unique(np.round(want, 8), axis=0)):
                ctx.viol("radar:data", "the drawn shape is not the solution", panel=(k, j), points=pts, polygons=P, expect=r(want), **det)
            if P and len(P) == 2:
                if P[1][1] != colours[k]:
                    ctx.viol("radar:colour", "a solution is not drawn in the colour of its set", panel=(k, j), got=P[1][1], **det)
                if not same_corners(P[0][0], inner):
                    ctx.viol("radar:inner", "the inner shape is not the ideal point", panel=(k, j), drawn=P[0], expect=r(inner), **det)
            L = [x[0] for x in lines(a)]
            frame = [x for x in L if len(x) == m + 1]
            spokes = [r(x[1]) for x in L if len(x) == 2 and len(x) != m + 1]
            if frame != [r(np.vstack([outer, outer[:1]]))] or spokes != [r(v) for v in outer]:
                ctx.viol("radar:frame", "a panel does not have its own frame (%d outlines, %d axes)" % (len(frame), len(spokes)), panel=(k, j), **det)
            t = texts(a)
            for i, v in enumerate(outer):
                if plot_labels(m)[i] not in [s for s, pos in t if math.hypot(pos[0] - v[0], pos[1] - v[1]) < 0.1]:
                    ctx.viol("radar:labels", "an axis is not named after its objective", panel=(k, j), **det)


def u_radar(ctx, m, n):
    from pymoo.visualization.radar import Radar
    plt = mpl()
    mpl_default = rgba(plt.rcParams["patch.facecolor"])
    B = [[0.25] * m, [10.0] * m]
    pts = [[max(0.25, v) for v in p] for p in POS[m]]
    vec = [[0.0, 0.25, 0.2, 0.0, 0.1][:m], [5.0, 8.0, 6.0, 10.0, 9.0][:m]]
    for sets in layouts(m, n, pts):
        for bk, b in (("scalar", [0.25, 10.0]), ("same", B), ("vector", vec)):
            for each, reverse in ((True, False), (True, True), (False, False)):
                for colour in (None, "red"):
                    if colour and bk != "vector":
                        continue
                    keep = [s.copy() for s in sets]
                    p = Radar(bounds=b, normalize_each_objective=each, reverse=reverse)
                    kw = {} if colour is None else dict(color=colour, alpha=0.8)
                    for s in sets:
                        p.add(s, **kw)
                    det = dict(sets=keep, bounds=bk, each=each, reverse=reverse, colour=colour)
                    ctx.state()
                    ctx.trans()
                    try:
                        p.do()
                    except Exception as e:
                        ctx.viol("radar:error", "drawing fails: %r" % (e,), **det)
                        close(plt)
                        continue
                    lo, hi = np.broadcast_to(np.array(b[0], float), (m,)), np.broadcast_to(np.array(b[1], float), (m,))
                    ctx.outcome(m, tuple(map(r, sets)), bk, each, reverse)
                    check_radar(ctx, p, keep, lo, hi, each, reverse, [rgba(colour) if colour else mpl_default] * len(sets), det)
                    if any(not np.array_equal(x, y) for x, y in zip(sets, keep)):
                        ctx.viol("radar:input", "drawing changed the data", **det)
                    close(plt)
    # points outside of the bounds are refused
    for i in range(m):
        for v in (0.0, 11.0):
            p = Radar(bounds=[0.25, 10.0])
            q = list(pts[0])
            q[i] = v
            p.add(np.array([q]))
            try:
                p.do()
                ctx.viol("radar:outside", "a solution outside of the bounds is drawn", objective=i, value=v)
            except Exception:
                pass
            ctx.trans()
            close(plt)


# ---------------------------------------------------------------- heatmap

def check_heatmap(ctx, plot, F, lo, hi, reverse, order, labels, det, tag="heatmap"):
    m = F.shape[1]
    N = norm(F, lo, hi)
    if reverse:
        N = 1 - N
    im = plot.ax.images[-1]
    got = r(np.asarray(im.get_array(), float))
    lab = [t.get_text() for t in plot.ax.get_yticklabels()]
    names = [str(v) for v in (range(1, len(F) + 1) if labels is True else labels or [])]
    rows = [r(x)[0] for x in N]
    if sorted(got) != sorted(rows):
        ctx.viol("%s:data" % tag, "the drawn cells are not the normalised values", drawn=got, expect=rows, **det)
        return
    if order is None and list(got) != rows:
        ctx.viol("%s:order" % tag, "the rows of an unsorted heatmap are not in the given order", drawn=got, expect=rows, **det)
    if order is not None:
        keys = [tuple(row[j] for j in order) for row in got]
        if keys != sorted(keys) and keys != sorted(keys, reverse=True):
            ctx.viol("%s:order" % tag, "the rows are not sorted lexicographically by the objectives %s" % (order,), drawn=got, **det)
    if labels:
        by = {}
        for nm, row in zip(names, rows):
            by.setdefault(row, []).append(nm)
        if sorted(lab) != sorted(names) or any(nm not in by[row] for nm, row in zip(lab, got)):
            ctx.viol("%s:names" % tag, "a row does not carry the name of its solution", drawn=[lab, got], expect=[names, rows], **det)
        if list(plot.ax.get_yticks()) != list(range(len(F))):
            ctx.viol("%s:ticks" % tag, "the names are not placed at the rows", **det)
    elif [x for x in lab if x]:
        ctx.viol("%s:names" % tag, "names are drawn although they are switched off", drawn=lab, **det)
    if [t.get_text() for t in plot.ax.get_xticklabels()] != plot_labels(m):
        ctx.viol("%s:labels" % tag, "the columns are not named after the objectives", **det)
    if (im.norm.vmin, im.norm.vmax) != (0, 1):
        ctx.viol("%s:scale" % tag, "the colours do not span the normalised range", **det)


def orders(m):
    out = [("no", False, None), ("none", None, None)]
    for j in range(m):
        out.append(("one%d" % j, j, [j] + [i for i in range(m) if i != j]))
    for k in range(1, m + 1):
        for L in itertools.permutations(range(m), k):
            out.append(("list%s" % (L,), list(L), list(L) + [i for i in range(m) if i not in L]))
    return out


def u_heatmap(ctx, m, n):
    from pymoo.visualization.heatmap import Heatmap
    plt = mpl()
    pts = [(1.0, 2.0, 5.0), (0.5, 2.0, 1.0), (1.0, 0.0, 5.0), (1.0, 2.0, 0.0)]
    pts = [p[:m] for p in pts]
    for F in sequences(pts, n):
        for kind in ("none", "scalar", "vector", "narrow"):
            for reverse in (True, False):
                for oname, oarg, order in orders(m):
                    if kind != "scalar" and oname not in ("no", "one0"):
                        continue
                    for labels in (True, False, None, "own"):
                        if labels is not True and not (reverse and kind == "scalar" and oname in ("no", "one0", "one1")):
                            continue
                        lab = ["S%d" % i for i in range(len(F))] if labels == "own" else labels
                        F0, arg0 = F.copy(), list(oarg) if isinstance(oarg, list) else oarg
                        ctx.state()
                        ctx.trans()
                        ctx.outcome(r(F), kind, reverse, oname, str(labels))
                        det = dict(F=F0, bounds=kind, reverse=reverse, order=oname, labels=labels)
                        p = Heatmap(bounds=bounds_arg(kind, m), reverse=reverse, order_by_objectives=oarg, solution_labels=lab)
                        p.add(F)
                        try:
                            p.do()
                        except Exception as e:
                            ctx.viol("heatmap:error:%s" % labels, "drawing fails: %r" % (e,), **det)
                            close(plt)
                            continue
                        lo, hi = bounds_of(kind, m, [F0])
                        check_heatmap(ctx, p, F0, lo, hi, reverse, order, lab, det)
                        if not np.array_equal(F, F0) or oarg != arg0 or (labels == "own" and lab != ["S%d" % i for i in range(len(F))]):
                            ctx.viol("heatmap:input", "drawing changed the data or the options", **det)
                        close(plt)


# ---------------------------------------------------------------- histories

def kinds():
    from pymoo.visualization.heatmap import Heatmap
    from pymoo.visualization.pcp import PCP
    from pymoo.visualization.petal import Petal
    from pymoo.visualization.radar import Radar
    from pymoo.visualization.radviz import Radviz
    from pymoo.visualization.scatter import Scatter
    from pymoo.visualization.star_coordinate import StarCoordinate
    b = [0.0, 10.0]
    return {
        "scatter": (lambda **k: Scatter(**k), 2, dict(plot_type="line", color="black")), "scatter1": (lambda **k: Scatter(**k), 1, dict(mode="plot")),
        "scatter3": (lambda **k: Scatter(**k), 3, dict(plot_type="line")), "pairwise": (lambda **k: Scatter(plot_3d=False, **k), 3, dict(color="red")),
        "pcp": (lambda **k: PCP(bounds=b, **k), 3, dict(color="red")), "pcp-all": (lambda **k: PCP(normalize_each_axis=False, **k), 3, dict(color="red")),
        "radviz": (lambda **k: Radviz(**k), 3, dict(color="red")), "star": (lambda **k: StarCoordinate(bounds=b, **k), 3, dict(color="red")),
        "petal": (lambda **k: Petal(bounds=b, **k), 3, {}), "radar": (lambda **k: Radar(bounds=b, **k), 3, dict(color="red")),
        "heatmap": (lambda **k: Heatmap(bounds=b, **k), 3, {}), "heatmap-sorted": (lambda **k: Heatmap(bounds=b, order_by_objectives=0, solution_labels=["u", "v"], **k), 3, {}),
    }


MULTI = ("petal", "radar")
ONCE = ("heatmap", "heatmap-sorted")


def picture(plot):
    return [frozenset(content(a)) for a in panels(plot)]


def rows_named(plot):
    """(name, row) pairs of a heatmap"""
    return sorted(zip([t.get_text() for t in plot.ax.get_yticklabels()], r(np.asarray(plot.ax.images[-1].get_array(), float))))


def u_ops(ctx, kind, depth):
    """The picture depends on what was added since the last reset, not on how often and when it was drawn or what else is open."""
    mk, d, style = kinds()[kind]
    plt = mpl()
    A = np.array(POS[d][:2]) if d in POS else np.array([[1.0], [4.0]])
    B = np.array(POS[d][2:]) if d in POS else np.array([[2.0], [3.0]])

    def add(p, k):
        p.add((A if k == "A" else B).copy(), **(dict(style) if k == "A" else {}))
    refs = {}

    def ref(added):
        if added not in refs:
            p = mk()
            for k in added:
                add(p, k)
            p.do()
            refs[added] = (picture(p), rows_named(p) if kind in ONCE else None)
            close(plt)
        return refs[added]
    ops = ["do", "reset", "figure", "other"] + ([] if kind in ONCE else ["A", "B"])
    for n in range(0, depth + 1):
        for seq in itertools.product(ops, repeat=n):
            if seq.count("figure") + seq.count("other") > 2:
                continue
            added, drawn, ok = ("A",), (), True
            for o in seq:                       # a plot with a fixed number of panels cannot take another set after it was drawn
                if o in ("A", "B"):
                    added += (o,)
                    ok &= not (drawn and kind in MULTI) and len(added) <= 3
                elif o == "do":
                    drawn = drawn + (added,)
                elif o == "reset":
                    drawn = ()
            if not ok or (kind == "pcp-all" and len(set(drawn)) > 1):
                continue
            want = [set() for _ in ref(added)[0]]
            for a in (drawn or (added,)):
                for w, c in zip(want, ref(a)[0]):
                    w |= c
            p = mk()
            add(p, "A")
            foreign, others = [], []
            try:
                for o in seq:
                    if o in ("A", "B"):
                        add(p, o)
                    elif o == "do":
                        p.do()
                    elif o == "reset":
                        p.reset()
                    elif o == "figure":
                        f = plt.figure()
                        f.add_subplot(111)
                        foreign.append(f)
                    else:
                        q = mk()
                        add(q, "B")
                        q.do()
                        others.append(q)
                p.show()
            except Exception as e:
                ctx.viol("ops:error:%s" % kind, "the history %s fails: %r" % (" ; ".join(("A",) + seq), e), history=seq)
                close(plt)
                continue
            ctx.state()
            ctx.trace()
            ctx.trans(len(seq) + 1)
            ctx.outcome(kind, added, drawn)
            got = [set(x) for x in picture(p)]
            if kind in ("radviz", "star", "radar") and len(drawn) > 1:      # the default colour of what is drawn over it is matplotlib's choice
                got, want = [[{e[:2] if e[0] == "points" else e for e in x} for x in w] for w in (got, want)]
            if kind in ONCE:
                if rows_named(p) != ref(added)[1]:
                    ctx.viol("ops:names:%s" % kind, "after %s the rows carry other names" % (" ; ".join(("A",) + seq),), history=seq, got=rows_named(p), expect=ref(added)[1])
            if got != want:
                miss, extra = [sorted(map(str, w - g))[:2] for w, g in zip(want, got)], [sorted(map(str, g - w))[:2] for w, g in zip(want, got)]
                ctx.viol("ops:picture:%s" % kind, "after %s the picture is not the one of the added data" % (" ; ".join(("A",) + seq),), history=seq, missing=miss, extra=extra)
            for f in foreign:
                if not empty(f):
                    ctx.viol("ops:foreign:%s" % kind, "after %s something was drawn into a figure of somebody else" % (" ; ".join(("A",) + seq),), history=seq)
            for q in others:
                if picture(q) != ref(("B",))[0]:
                    ctx.viol("ops:foreign:%s" % kind, "after %s another plot has changed" % (" ; ".join(("A",) + seq),), history=seq)
            close(plt)


def u_given(ctx, kind):
    """A given panel is used, whatever figure is current."""
    mk, d, style = kinds()[kind]
    plt = mpl()
    A = np.array(POS[d][:2]) if d in POS else np.array([[1.0], [4.0]])
    p = mk()
    p.add(A, **dict(style))
    p.do()
    want = picture(p)
    for n_open in range(3):
        for pos in range(n_open + 1):
            close(plt)
            figs = [plt.subplots() for _ in range(n_open + 1)]
            p = mk(fig=figs[pos][0], ax=figs[pos][1])
            p.add(A, **dict(style))
            p.do()
            ctx.state()
            ctx.trans()
            ctx.outcome(kind, n_open, pos)
            if p.ax is not figs[pos][1] or picture(p) != want:
                ctx.viol("given:picture:%s" % kind, "the given panel does not show the plot", open=n_open, used=pos)
            if any(not empty(f) for i, (f, _) in enumerate(figs) if i != pos):
                ctx.viol("given:foreign:%s" % kind, "something was drawn outside of the given panel", open=n_open, used=pos)
    close(plt)


def u_names(ctx, kind):
    """Own names, titles and legends are shown where they belong; a wrong number of names is refused."""
    mk, d, style = kinds()[kind]
    plt = mpl()
    A = np.array(POS[d][:2]) if d in POS else np.array([[1.0], [4.0]])
    for k in range(0, d + 2):
        names = ["name%d" % i for i in range(k)]
        keep = list(names)
        p = mk(labels=names)
        p.add(A)
        ctx.state()
        ctx.trans()
        try:
            p.do()
            ok = True
        except Exception:
            ok = False
        if ok != (k == d):
            ctx.viol("names:count:%s" % kind, "%d names for %d objectives are %s" % (k, d, "accepted" if ok else "refused"))
        if ok:
            shown = []
            for a in panels(p):
                shown += [t.get_text() for t in a.texts] + [t.get_text() for t in a.get_xticklabels()] + [a.get_xlabel(), a.get_ylabel()] + ([a.get_zlabel()] if hasattr(a, "get_zlabel") else [])
            if not set(names) <= set(shown) or any("$f_" in s for s in shown):
                ctx.viol("names:shown:%s" % kind, "the given names are not the ones shown", shown=[s for s in shown if s])
        if names != keep:
            ctx.viol("names:input:%s" % kind, "drawing changed the names")
        close(plt)
    p = mk()
    p.add(A)
    p.do()
    n = len(panels(p))
    close(plt)
    for title, want in (("T", ["T"] * n), (("T", {"pad": 10}), ["T"] * n), (["T%d" % i for i in range(n)], ["T%d" % i for i in range(n)]), (None, [""] * n)):
        p = mk(title=title)
        p.add(A)
        p.do()
        ctx.trans()
        got = [a.get_title() for a in panels(p)]
        if got != want:
            ctx.viol("names:title:%s" % kind, "the titles of the panels are %s instead of %s" % (got, want))
        close(plt)
    if kind in ("scatter", "radviz", "star", "pcp"):
        for legend in (True, (True, {"loc": "upper left"}), False):
            p = mk(legend=legend)
            p.add(A[0], label="first")
            p.add(A[1], label="second")
            p.do()
            leg = p.ax.get_legend()
            got = [t.get_text() for t in leg.get_texts()] if leg else []
            ctx.trans()
            if got != (["first", "second"] if legend else []):
                ctx.viol("names:legend:%s" % kind, "the legend lists %s" % got, legend=bool(legend))
            close(plt)


def u_many(ctx, kind):
    """Many objectives have their own names, and many sets their own colours in the order they were added."""
    mk, d0, _ = kinds()[kind]
    plt = mpl()
    if kind in ("pcp", "pcp-all", "radviz", "star", "petal", "radar", "heatmap"):
        for d in range(2, 13):
            p = mk()
            p.add(np.array([[1.0 + (3 * j) % 7 for j in range(d)], [2.0 + (5 * j) % 6 for j in range(d)]]))
            p.do()
            ctx.state()
            ctx.trans()
            want = sorted(plot_labels(d))
            for a in panels(p):
                got = sorted(t.get_text() for t in list(a.texts) + list(a.get_xticklabels()) if t.get_text().startswith("$f"))
                if got != want:
                    ctx.viol("many:names:%s" % kind, "%d objectives are named %s" % (d, got))
            close(plt)
    if kind in ("scatter", "pcp", "radviz", "star"):
        for n in range(1, 13):
            p = mk()
            for k in range(n):
                p.add(np.array([[0.5 + (k * 7 % 11) * 0.5 + j * (1 + k % 3) * 0.5 for j in range(d0)]]))
            p.do()
            ctx.state()
            ctx.trans()
            got = [c for _, c in (lines(p.ax) if kind == "pcp" else points(p.ax))]
            got = [c for c in got if c in [tab(k) for k in range(10)]]
            if got != [tab(k) for k in range(n)]:
                ctx.viol("many:colours:%s" % kind, "the sets added do not have the colours in their order", n=n, got=got)
            close(plt)
    ctx.trace()


# ---------------------------------------------------------------- landscapes

FUNCS = {"plane": lambda x, y: 3.0 * x + y * 0.5, "skew": lambda x, y: x * x - 2.0 * y + x * y, "ridge": lambda x, y: abs(x - 1.0) + 0.1 * y}


def landscape_problem(name, dims, requests):
    from pymoo.core.problem import Problem
    f = FUNCS[name]

    class P(Problem):
        def __init__(self):
            super().__init__(n_var=dims, n_obj=1, xl=np.array([-1.0, 2.0][:dims]), xu=np.array([3.0, 10.0][:dims]))

        def _evaluate(self, X, out, *args, **kwargs):
            requests.append(np.array(X))
            out["F"] = np.array([f(x[0], x[1] if dims == 2 else 1.0) for x in X])[:, None]
    return P()


def surface_points(ax):
    """Corner points of the surfaces of a panel."""
    out = []
    for c in ax.collections:
        if hasattr(c, "_faces"):
            v = np.vstack([np.asarray(p, float) for p in c._faces])
            out.append(v[~np.isnan(v).any(axis=1)])
        elif hasattr(c, "_vec"):
            v = np.asarray(c._vec, float)[:3].T
            out.append(v[~np.isnan(v).any(axis=1)])
        elif hasattr(c, "_segments3d"):
            out += [np.asarray(s, float) for s in c._segments3d]
    return np.vstack(out) if out else np.zeros((0, 3))


def u_landscape(ctx, name, tool):
    from pymoo.visualization.fitness_landscape import FitnessLandscape
    from pymoo.visualization.util import plot_problem_surface
    plt = mpl()
    f = FUNCS[name]
    for n in (2, 3, 4, 5):
        xs, ys = np.linspace(-1.0, 3.0, n), np.linspace(2.0, 10.0, n)
        grid = {(round(x, 6), round(y, 6)): f(x, y) for x in xs for y in ys}
        for kind in (("surface", "contour", "surface+contour") if tool == "landscape" else ("wireframe", "contour", "wireframe+contour")):
            req, seen = [], []
            p = landscape_problem(name, 2, req)
            det = dict(function=name, kind=kind, samples=n, tool=tool)
            ctx.state()
            ctx.trans()
            ctx.outcome(name, tool, kind, n)
            from matplotlib.axes import Axes
            orig = Axes.contour
            Axes.contour = lambda self, *a, **k: (seen.append([np.array(v, float) for v in a[:3]]), orig(self, *a, **k))[1]
            try:
                if tool == "landscape":
                    own = dict(linestyles="solid", offset=-1)
                    keep = dict(own)
                    q = FitnessLandscape(p, _type=kind, n_samples=n, kwargs_contour=own, contour_levels=3)
                    q.do()
                    ax = q.ax
                    if own != keep:
                        ctx.viol("landscape:input", "drawing changed the given options", **det)
                else:
                    _, ax = plot_problem_surface(p, n, plot_type=kind, show=False, return_figure=True)
            except Exception as e:
                ctx.viol("landscape:error:%s:%s" % (tool, kind), "drawing fails: %r" % (e,), **det)
                continue
            finally:
                Axes.contour = orig
                close(plt) if tool != "landscape" and kind == "contour" else None
            bad = None
            if "contour" not in kind or "+" in kind:
                S = surface_points(ax)
                got = {(round(x, 6), round(y, 6)): z for x, y, z in S if (round(x, 6), round(y, 6)) in grid}
                if set(got) != set(grid) or any(abs(got[k] - grid[k]) > 1e-9 for k in grid):
                    bad = got
            if kind == "contour" or (tool == "landscape" and "contour" in kind):
                for X, Y, Z in [s for s in seen if len(s) == 3] or [(None, None, None)]:
                    if X is None:
                        continue
                    if X.ndim == 1:
                        X, Y = np.meshgrid(X, Y)
                    cells = {(round(x, 6), round(y, 6)): z for x, y, z in zip(X.ravel(), Y.ravel(), Z.ravel())}
                    if set(cells) != set(grid) or any(abs(cells[k] - grid[k]) > 1e-9 for k in grid):
                        bad = cells
            if bad is not None:
                ctx.viol("landscape:data:%s" % tool, "the height drawn at a point is not the value of the function there", drawn=sorted(bad.items())[:4], expect=sorted(grid.items())[:4], **det)
            close(plt)
        # one variable
        req = []
        p = landscape_problem(name, 1, req)
        want = r(np.column_stack([xs, [f(x, 1.0) for x in xs]]))
        ctx.state()
        try:
            if tool == "landscape":
                q = FitnessLandscape(p, n_samples=n)
                q.do()
                ax = q.ax
            else:
                fig, _ = plot_problem_surface(p, n, show=False, return_figure=True)
                ax = fig.axes[0]
            got = [x[0] for x in lines(ax)] + [x[0] for x in points(ax)]
            if got != [want]:
                ctx.viol("landscape:curve:%s" % tool, "the curve of a function of one variable is not drawn", drawn=got, expect=want, samples=n)
        except Exception as e:
            ctx.viol("landscape:curve:%s" % tool, "the curve of a function of one variable cannot be drawn: %r" % (e,), samples=n)
        close(plt)


# ---------------------------------------------------------------- animations

def u_animation(ctx, n):
    """A frame for the first and every n-th generation, recorded once, with errors handled as asked."""
    from types import SimpleNamespace
    from pymoo.visualization.video.callback_video import AnimationCallback
    plt = mpl()
    for nth in range(1, 5):
        for closing in (True, False):
            for fails in itertools.chain([()], itertools.combinations(range(1, n + 1), 1)):
                for strict in (True, False):
                    frames, rec = [], []

                    class C(AnimationCallback):
                        def do(self, problem, algorithm, **kw):
                            if algorithm.n_gen in fails:
                                raise ValueError("not applicable")
                            fig = plt.figure()
                            frames.append((algorithm.n_gen, fig))
                            return fig
                    cb = C(nth_gen=nth, do_close=closing, exception_if_not_applicable=strict, recorder=SimpleNamespace(record=lambda fig=None: rec.append((fig, plt.fignum_exists(fig.number)))))
                    raised = []
                    for g in range(1, n + 1):
                        try:
                            cb(SimpleNamespace(n_gen=g, problem=None))
                        except ValueError:
                            raised.append(g)
                    want = [g for g in range(1, n + 1) if (g == 1 or g % nth == 0)]
                    ctx.state()
                    ctx.trans(n)
                    ctx.outcome(nth, fails)
                    d = dict(nth_gen=nth, fails=fails, strict=strict, close=closing)
                    if [g for g, _ in frames] != [g for g in want if g not in fails]:
                        ctx.viol("animation:frames", "frames are drawn for the generations %s" % [g for g, _ in frames], expect=want, **d)
                    if raised != ([g for g in want if g in fails] if strict else []):
                        ctx.viol("animation:errors", "errors of a frame are not handled as asked", raised=raised, **d)
                    if [f for f, _ in rec] != [f for _, f in frames] or not all(alive for _, alive in rec):
                        ctx.viol("animation:recorder", "not every frame was recorded while it was open", **d)
                    if any(plt.fignum_exists(f.number) == closing for _, f in frames):
                        ctx.viol("animation:close", "frames are not closed as asked", **d)
                    close(plt)


def u_populations(ctx, n_var):
    """The frames of small searches show the population, the offspring and which solutions are new."""
    from types import SimpleNamespace
    from pymoo.core.individual import Individual
    from pymoo.core.population import Population
    from pymoo.visualization.video.one_var_one_obj import OneVariableOneObjectiveVisualization
    from pymoo.visualization.video.two_var_one_obj import TwoVariablesOneObjectiveVisualization
    plt = mpl()
    prob = landscape_problem("skew", n_var, [])
    f = lambda x: FUNCS["skew"](x[0], x[1] if n_var == 2 else 1.0)
    xs = [[-0.5, 3.0], [0.5, 9.0], [2.0, 4.0], [1.0, 5.0]]
    pool = [Individual(X=np.array(x[:n_var]), F=np.array([f(x)])) for x in xs]
    pops = [(0, 1), (1, 2), (2, 3), (0, 1, 2)]
    offs = {0: None, 1: (3,), 2: (0, 2)}
    for seq in itertools.product(range(len(pops)), repeat=3):
        for off in ((0, 0, 0), (0, 1, 2), (2, 0, 1)):
            cls = OneVariableOneObjectiveVisualization if n_var == 1 else TwoVariablesOneObjectiveVisualization
            cb = cls(do_close=False, n_samples_for_surface=20)
            last = set()
            for g, (k, o) in enumerate(zip(seq, off)):
                pop = Population.create(*[pool[i] for i in pops[k]])
                algo = SimpleNamespace(n_gen=g + 1, problem=prob, pop=pop, off=None if offs[o] is None else Population.create(*[pool[i] for i in offs[o]]))
                fig = cb.update(algo) or plt.gcf()
                ax = fig.axes[0]
                ctx.trans()
                at = lambda idx: r([[xs[i][0], f(xs[i])] if n_var == 1 else xs[i] for i in idx])
                want = [at(pops[k])] + ([at(offs[o])] if offs[o] else [])
                new = [i for i in pops[k] if i not in last]
                want += [at(new)] if new else []
                got = sorted(x[0] for x in points(ax))
                d = dict(populations=[pops[i] for i in seq], offspring=[offs[i] for i in off], generation=g + 1, n_var=n_var)
                if got != sorted(want):
                    ctx.viol("frames:points", "a frame does not show the population, its new members and the offspring", drawn=got, expect=want, **d)
                if str(g + 1) not in ax.get_title():
                    ctx.viol("frames:title", "a frame does not name its generation", **d)
                last = set(pops[k])
                close(plt)
            ctx.state()
            ctx.trace()
            ctx.outcome(n_var, seq, off)


def warm():
    plt = mpl()
    plt.subplots()
    close(plt)


def units(tier):
    q = tier == "quick"
    U = [("u_scatter", dict(d=1, n=2 if q else 3, three=True)), ("u_scatter", dict(d=2, n=3 if q else 4, three=True)), ("u_scatter", dict(d=3, n=2 if q else 3, three=True)),
         ("u_scatter", dict(d=3, n=2, three=False)), ("u_scatter", dict(d=4, n=1 if q else 2, three=True))]
    for m in (2, 3, 4):
        n = 2 if q else 3
        U += [("u_pcp", dict(m=m, n=n)), ("u_radviz", dict(m=m, n=n + 1 if q else n)), ("u_star", dict(m=m, n=n))]
        U += [("u_petal", dict(m=m, n=n)), ("u_radar", dict(m=m, n=n))]
    U += [("u_radviz", dict(m=5, n=2)), ("u_star", dict(m=5, n=2)), ("u_petal", dict(m=5, n=1)), ("u_radar", dict(m=5, n=1))]
    U += [("u_heatmap", dict(m=m, n=3)) for m in (2, 3)]
    from_kinds = ("scatter", "scatter1", "scatter3", "pairwise", "pcp", "pcp-all", "radviz", "star", "petal", "radar", "heatmap", "heatmap-sorted")
    for k in from_kinds:
        U.append(("u_ops", dict(kind=k, depth=(3 if k in ("pairwise", "petal", "radar") else 4) + (0 if q else 1))))
        U.append(("u_names", dict(kind=k)))
        if k not in ("scatter1", "scatter3", "pairwise", "heatmap-sorted"):
            U.append(("u_many", dict(kind=k)))
        if k in ("scatter", "scatter1", "pcp", "pcp-all", "radviz", "star", "heatmap", "heatmap-sorted"):
            U.append(("u_given", dict(kind=k)))
    for f in FUNCS:
        for t in ("landscape", "surface"):
            U.append(("u_landscape", dict(name=f, tool=t)))
    U += [("u_animation", dict(n=6 if q else 9)), ("u_populations", dict(n_var=1)), ("u_populations", dict(n_var=2))]
    return U
