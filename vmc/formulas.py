"""Published formulas of the classical benchmarks, written one design at a time with plain arithmetic."""

import math
from math import cos, exp, pi, sin, sqrt


def ackley(x):
    n = len(x)
    return [-20 * exp(-0.2 * sqrt(sum(v * v for v in x) / n)) - exp(sum(cos(2 * pi * v) for v in x) / n) + 20 + math.e]


def griewank(x):
    p = 1.0
    for i, v in enumerate(x):
        p *= cos(v / sqrt(i + 1))
    return [1 + sum(v * v for v in x) / 4000 - p]


def himmelblau(x):
    a, b = x
    return [(a * a + b - 11) ** 2 + (a + b * b - 7) ** 2]


def rastrigin(x):
    return [10 * len(x) + sum(v * v - 10 * cos(2 * pi * v) for v in x)]


def rosenbrock(x):
    return [sum(100 * (x[i + 1] - x[i] ** 2) ** 2 + (1 - x[i]) ** 2 for i in range(len(x) - 1))]


def schwefel(x):
    return [418.9829 * len(x) - sum(v * sin(sqrt(abs(v))) for v in x)]


def sphere(x):
    return [sum((v - 0.5) ** 2 for v in x)]


def zakharov(x):
    a = sum(0.5 * (i + 1) * v for i, v in enumerate(x))
    return [sum(v * v for v in x) + a ** 2 + a ** 4]


def zdt1(x):
    g = 1 + 9 * sum(x[1:]) / (len(x) - 1)
    return [x[0], g * (1 - sqrt(x[0] / g))]


def zdt2(x):
    g = 1 + 9 * sum(x[1:]) / (len(x) - 1)
    return [x[0], g * (1 - (x[0] / g) ** 2)]


def zdt3(x):
    g = 1 + 9 * sum(x[1:]) / (len(x) - 1)
    h = 1 - sqrt(x[0] / g) - x[0] / g * sin(10 * pi * x[0])
    return [x[0], g * h]


def zdt4(x):
    g = 1 + 10 * (len(x) - 1) + sum(v * v - 10 * cos(4 * pi * v) for v in x[1:])
    return [x[0], g * (1 - sqrt(x[0] / g))]


def zdt6(x):
    f = 1 - exp(-4 * x[0]) * sin(6 * pi * x[0]) ** 6
    g = 1 + 9 * (sum(x[1:]) / (len(x) - 1)) ** 0.25
    return [f, g * (1 - (f / g) ** 2)]


def zdt5(x, m=11, n=5, norm=True):
    u = [sum(x[:30])] + [sum(x[30 + i * n:30 + (i + 1) * n]) for i in range(m - 1)]
    g = sum(1 if v == n else 2 + v for v in u[1:])
    f1 = 1 + u[0]
    f2 = g / f1
    if norm:
        lo, hi = (m - 1) / 31, m - 1
        return [(f1 - 1) / 30, (f2 - lo) / (hi - lo)]
    return [f1, f2]


def g1(xm):
    return 100 * (len(xm) + sum((v - 0.5) ** 2 - cos(20 * pi * (v - 0.5)) for v in xm))


def g2(xm):
    return sum((v - 0.5) ** 2 for v in xm)


def linear_shape(x, g, M):
    out = []
    for i in range(M):
        f = 0.5 * (1 + g)
        for v in x[:M - 1 - i]:
            f *= v
        if i:
            f *= 1 - x[M - 1 - i]
        out.append(f)
    return out


def sphere_shape(t, g, M):
    out = []
    for i in range(M):
        f = 1 + g
        for v in t[:M - 1 - i]:
            f *= cos(v * pi / 2)
        if i:
            f *= sin(t[M - 1 - i] * pi / 2)
        out.append(f)
    return out


def dtlz(k, x, M):
    p, xm = list(x[:M - 1]), list(x[M - 1:])
    if k == 1:
        return linear_shape(p, g1(xm), M)
    if k == 2:
        return sphere_shape(p, g2(xm), M)
    if k == 3:
        return sphere_shape(p, g1(xm), M)
    if k == 4:
        return sphere_shape([v ** 100 for v in p], g2(xm), M)
    if k in (5, 6):
        g = g2(xm) if k == 5 else sum(v ** 0.1 for v in xm)
        return sphere_shape([p[0]] + [(1 + 2 * g * v) / (2 * (1 + g)) for v in p[1:]], g, M)
    g = 1 + 9 / len(xm) * sum(xm)
    h = M - sum(v / (1 + g) * (1 + sin(3 * pi * v)) for v in p)
    return p + [(1 + g) * h]


def inverted(x, M):
    g = g1(list(x[M - 1:]))
    return [0.5 * (1 + g) - v for v in dtlz(1, x, M)]


def scaled(x, M):
    return [v * 10 ** i for i, v in enumerate(dtlz(1, x, M))]


def convex(k, x, M):
    F = dtlz(k, x, M)
    return [v ** 4 for v in F[:-1]] + [F[-1] ** 2]


def c1_linear(f):
    return [f[-1] / 0.6 + sum(v / 0.5 for v in f[:-1]) - 1]


def c1_sphere(f, r):
    s = sum(v * v for v in f)
    return [-(s - 16) * (s - r * r)]


def c2_sphere(f, r):
    s = sum(v * v for v in f)
    a = 1 / sqrt(len(f))
    return [min(min((v - 1) ** 2 + s - v * v for v in f), sum((v - a) ** 2 for v in f)) - r * r]


def c3_linear(f):
    return [1 - v / 0.5 - (sum(f) - v) for v in f]


def c3_sphere(f):
    s = sum(v * v for v in f)
    return [1 - v * v / 4 - (s - v * v) for v in f]


def cdtlz(name, x, M):
    """Objectives and inequality constraints of the constrained DTLZ variants."""
    p, xm = list(x[:M - 1]), list(x[M - 1:])
    if name == "c1dtlz1":
        f = dtlz(1, x, M)
        return f, c1_linear(f)
    if name == "c1dtlz3":
        f = dtlz(3, x, M)
        return f, c1_sphere(f, 9 if M < 5 else 12.5)
    if name == "c2dtlz2":
        f = dtlz(2, x, M)
        return f, c2_sphere(f, {2: 0.2, 3: 0.4}.get(M, 0.5))
    if name == "c3dtlz1":
        f = dtlz(1, x, M)
        return f, c3_linear(f)
    if name == "c3dtlz4":
        f = dtlz(4, x, M)
        return f, c3_sphere(f)
    f = dtlz(1 if name.endswith("1") else 3, x, M)
    g = g1(xm)
    if name.startswith("dc1"):
        return f, [0.95 - cos(5 * pi * x[0])]
    if name.startswith("dc2"):
        return f, [0.9 - cos(g / 100 * pi * 3), 0.9 - exp(-g / 100)]
    return f, [0.5 - cos(5 * pi * g)] + [0.5 - cos(5 * pi * v) for v in p]


def bnh(x):
    a, b = x
    return [4 * a * a + 4 * b * b, (a - 5) ** 2 + (b - 5) ** 2], [((a - 5) ** 2 + b * b - 25) / 25, (7.7 - (a - 8) ** 2 - (b + 3) ** 2) / 7.7]


def srn(x):
    a, b = x
    return [2 + (a - 2) ** 2 + (b - 1) ** 2, 9 * a - (b - 1) ** 2], [a * a + b * b - 225, a - 3 * b + 10]


def tnk(x):
    a, b = x
    return [a, b], [1 + 0.1 * cos(16 * math.atan(a / b)) - a * a - b * b, 2 * ((a - 0.5) ** 2 + (b - 0.5) ** 2) - 1]


def osy(x):
    f = [-(25 * (x[0] - 2) ** 2 + (x[1] - 2) ** 2 + (x[2] - 1) ** 2 + (x[3] - 4) ** 2 + (x[4] - 1) ** 2), sum(v * v for v in x)]
    g = [(x[0] + x[1] - 2) / 2, (6 - x[0] - x[1]) / 6, (2 - x[1] + x[0]) / 2, (2 - x[0] + 3 * x[1]) / 2, (4 - (x[2] - 3) ** 2 - x[3]) / 4, ((x[4] - 3) ** 2 + x[5] - 4) / 4]
    return f, [-v for v in g]


def kursawe(x):
    return [sum(-10 * exp(-0.2 * sqrt(x[i] ** 2 + x[i + 1] ** 2)) for i in range(len(x) - 1)), sum(abs(v) ** 0.8 + 5 * sin(v ** 3) for v in x)]


def truss2d(x):
    a, b, y = x
    s = max(20 * sqrt(16 + y * y) / (y * a), 80 * sqrt(1 + y * y) / (y * b))
    return [a * sqrt(16 + y * y) + b * sqrt(1 + y * y), s], [s - 1e5]


def welded_beam(x):
    h, l, t, b = x
    P, L = 6000, 14
    R = sqrt(l * l / 4 + ((h + t) / 2) ** 2)
    t1 = P / (sqrt(2) * h * l)
    t2 = P * (L + l / 2) * R / (2 * (h * l / sqrt(2) * (l * l / 12 + ((h + t) / 2) ** 2)))
    tau = sqrt(t1 ** 2 + t2 ** 2 + t1 * t2 * l / R)
    s = 6 * P * L / (b * t * t)
    pc = 64746.022 * (1 - 0.0282346 * t) * t * b ** 3
    return [1.10471 * h * h * l + 0.04811 * t * b * (14 + l), 2.1952 / (t ** 3 * b)], [(tau - 13600) / 13600, (s - 30000) / 30000, (h - b) / (5 - 0.125), (P - pc) / P]


def cantilevered(x):
    b1, h1, b2, H = x
    inertia = b2 * (H - 2 * h1) ** 3 / 12 + 2 * (b1 * h1 ** 3 / 12 + b1 * h1 * (H - h1) ** 2 / 4)
    return [(2 * h1 * b1 + (H - 2 * h1) * b2) * 36], [(1000 * 36 * H / (2 * inertia) - 5000) / 5000, (1000 * 36 ** 3 / (3 * 1e7 * inertia) - 0.1) / 0.1]


def pressure_vessel(x):
    d1, d2, r, L = x[0] / 16, x[1] / 16, x[2], x[3]
    f = 0.6224 * d1 * r * L + 1.7781 * d2 * r * r + 3.1661 * d1 * d1 * L + 19.84 * d1 * d1 * r
    return [f], [(0.0193 * r - d1) / 3, (0.00954 * r - d2) / 3, (1296000 - pi * r * r * L - 4 / 3 * pi * r ** 3) / 1296000, (L - 240) / 240]


def tour(x, D):
    return sum(D[x[i - 1]][x[i]] for i in range(len(x)))


def makespan(x, T):
    done = [0] * len(T)
    for j in x:
        t = 0
        for i in range(len(T)):
            t = max(t, done[i]) + T[i][j]
            done[i] = t
    return done[-1]


# --- which formula belongs to which registered name ------------------------------------------------------

SINGLE = dict(ackley=ackley, griewank=griewank, himmelblau=himmelblau, rastrigin=rastrigin, rosenbrock=rosenbrock, schwefel=schwefel, sphere=sphere, zakharov=zakharov,
              zdt1=zdt1, zdt2=zdt2, zdt3=zdt3, zdt4=zdt4, zdt6=zdt6, kursawe=kursawe)
CONSTRAINED = dict(bnh=bnh, srn=srn, tnk=tnk, osy=osy, truss2d=truss2d, welded_beam=welded_beam, cantilevered_beam=cantilevered, pressure_vessel=pressure_vessel)


def reference(name, p):
    """f(x) -> (F, G) or None when the benchmark has no entry here."""
    M = p.n_obj
    if name in SINGLE:
        return lambda x: (SINGLE[name](x), [])
    if name in CONSTRAINED:
        return lambda x: CONSTRAINED[name](x)
    if name == "zdt5":
        return lambda x: (zdt5([int(v) for v in x], p.m, p.n, p.normalize), [])
    if name.startswith("dtlz") and name[4:].isdigit():
        return lambda x: (dtlz(int(name[4:]), x, M), [])
    if name == "dtlz1^-1":
        return lambda x: (inverted(x, M), [])
    if name == "sdtlz1":
        return lambda x: (scaled(x, M), [])
    if name.startswith("convex_dtlz"):
        return lambda x: (convex(int(name[-1]), x, M), [])
    if name[:2] in ("c1", "c2", "c3", "dc"):
        return lambda x: cdtlz(name, x, M)
    return None
