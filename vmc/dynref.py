"""Published formulas of the dynamic benchmarks, one design at a time: value(name, x, t) -> list of objectives, optimal(name, n, t, k) -> designs on the Pareto set."""

import itertools
import math

pi = math.pi


def value(name, x, t):
    return globals()["_" + name](list(x), t)


def _df1(x, t):
    v = math.sin(pi * t / 2)
    g = 1 + sum((c - abs(v)) ** 2 for c in x[1:])
    return [x[0], g * (1 - (x[0] / g) ** (0.75 * v + 1.25))]


def _df2(x, t):
    G = abs(math.sin(pi * t / 2))
    r = int((len(x) - 1) * G)
    g = 1 + sum((c - G) ** 2 for k, c in enumerate(x) if k != r)
    return [x[r], g * (1 - math.sqrt(x[r] / g))]


def _df3(x, t):
    G = math.sin(pi * t / 2)
    H = G + 1.5
    g = 1 + sum((c - G - x[0] ** H) ** 2 for c in x[1:])
    return [x[0], g * (1 - (x[0] / g) ** H)]


def _df4(x, t):
    a = math.sin(pi * t / 2)
    b = 1 + abs(math.cos(pi * t / 2))
    c = max(abs(a), a + b)
    g = 1 + sum((x[i] - a * (x[0] / c) ** 2 / (i + 1)) ** 2 for i in range(1, len(x)))
    return [g * abs(x[0] - a) ** (1.5 + a), g * abs(x[0] - a - b) ** (1.5 + a)]


def _df5(x, t):
    G = math.sin(pi * t / 2)
    w = math.floor(10 * G)
    g = 1 + sum((c - G) ** 2 for c in x[1:])
    s = 0.02 * math.sin(w * pi * x[0])
    return [g * (x[0] + s), g * (1 - x[0] + s)]


def _df6(x, t):
    G = math.sin(pi * t / 2)
    a = 0.2 + 2.8 * abs(G)
    g = 1 + sum(abs(G) * (c - G) ** 2 - 10 * math.cos(2 * pi * (c - G)) + 10 for c in x[1:])
    s = 0.1 * math.sin(3 * pi * x[0])
    return [g * (x[0] + s) ** a, g * (1 - x[0] + s) ** a]


def _df7(x, t):
    a = 5 * math.cos(pi * t / 2)
    g = 1 + sum((c - 1 / (1 + math.exp(a * (x[0] - 2.5)))) ** 2 for c in x[1:])
    return [g * (1 + t) / x[0], g * x[0] / (1 + t)]


def _df8(x, t):
    G = math.sin(pi * t / 2)
    a = 2.25 + 2 * math.cos(2 * pi * t)
    g = 1 + sum((c - G * math.sin(4 * pi * x[0]) / (1 + abs(G))) ** 2 for c in x[1:])
    s = 0.1 * math.sin(3 * pi * x[0])
    return [g * (x[0] + s), g * (1 - x[0] + s) ** a]


def _df9(x, t):
    N = 1 + math.floor(10 * abs(math.sin(pi * t / 2)))
    g = 1 + sum((x[i] - math.cos(4 * t + x[0] + x[i - 1])) ** 2 for i in range(1, len(x)))
    s = max(0.0, (0.1 + 0.5 / N) * math.sin(2 * N * pi * x[0]))
    return [g * (x[0] + s), g * (1 - x[0] + s)]


def _df10(x, t):
    G = math.sin(pi * t / 2)
    H = 2.25 + 2 * math.cos(pi * t / 2)
    g = 1 + sum((c - math.sin(4 * pi * (x[0] + x[1])) / (1 + abs(G))) ** 2 for c in x[2:])
    s0, c0, s1, c1 = math.sin(pi * x[0] / 2), abs(math.cos(pi * x[0] / 2)), math.sin(pi * x[1] / 2), abs(math.cos(pi * x[1] / 2))
    return [g * s0 ** H, g * (s1 * c0) ** H, g * (c1 * c0) ** H]


def _df11(x, t):
    G = abs(math.sin(pi * t / 2))
    g = 1 + G + sum((c - 0.5 * G * x[0]) ** 2 for c in x[2:])
    y = [pi * G / 6 + (pi / 2 - pi * G / 3) * x[i] for i in (0, 1)]
    return [g * math.sin(y[0]), g * math.sin(y[1]) * math.cos(y[0]), g * math.cos(y[1]) * math.cos(y[0])]


def _df12(x, t):
    k = 10 * math.sin(pi * t)
    g = 1 + sum((c - math.sin(t * x[0])) ** 2 for c in x[2:])
    q = 1.0
    for i in (0, 1):
        q *= abs(math.sin(math.floor(k * (2 * x[i] - 1)) * pi / 2))
    g += q
    return [g * math.cos(pi * x[1] / 2) * math.cos(pi * x[0] / 2), g * math.sin(pi * x[1] / 2) * math.cos(pi * x[0] / 2), g * math.sin(pi * x[0] / 2)]


def _df13(x, t):
    G = math.sin(pi * t / 2)
    p = math.floor(6 * G)
    g = 1 + sum((c - G) ** 2 for c in x[2:])
    third = sum(math.sin(pi * x[i] / 2) ** 2 + math.sin(pi * x[i] / 2) * math.cos(p * pi * x[i]) ** 2 for i in (0, 1))
    return [g * math.cos(pi * x[0] / 2) ** 2, g * math.cos(pi * x[1] / 2) ** 2, g * third]


def _df14(x, t):
    G = math.sin(pi * t / 2)
    g = 1 + sum((c - G) ** 2 for c in x[2:])
    y = 0.5 + G * (x[0] - 0.5)
    w = y + 0.05 * math.sin(6 * pi * y)
    s = 0.05 * math.sin(6 * pi * x[1])
    return [g * (1 - y + 0.05 * math.sin(6 * pi * y)), g * (1 - x[1] + s) * w, g * (x[1] + s) * w]


def _FDA2DEB(x, t):
    H = 2 * math.sin(pi * (t - 1) / 2)
    g = 1 + sum(c * c for c in x[1:6])
    e = 2 ** (H + sum((c - H / 4) ** 2 for c in x[6:13]))
    return [x[0], g * (1 - (x[0] / g) ** e)]


def _FDA4(x, t):
    G = abs(math.sin(pi * t / 2))
    r = 1 + sum((c - G) ** 2 for c in x[2:])
    a, b = x[0] * pi / 2, x[1] * pi / 2
    return [r * math.cos(a) * math.cos(b), r * math.cos(a) * math.sin(b), r * math.sin(a)]


def _FDA5(x, t):
    G = abs(math.sin(pi * t / 2))
    r = 1 + G + sum((c - G) ** 2 for c in x[2:])
    F = 1 + 100 * math.sin(pi * t / 2) ** 4
    a, b = x[0] ** F * pi / 2, x[1] ** F * pi / 2
    return [r * math.cos(a) * math.cos(b), r * math.cos(a) * math.sin(b), r * math.sin(a)]


def _DIMP2(x, t):
    n = len(x)
    g = 1 + 2 * (n - 1)
    for k in range(2, n + 1):
        d = x[k - 1] - math.sin((pi * t / 2 + 2 * pi * k / (n + 1)) ** 2)
        g += d * d - 2 * math.cos(3 * pi * d)
    return [x[0], g * (1 - math.sqrt(x[0] / g))]


def _dMOP2(x, t):
    G = math.sin(pi * t / 2)
    g = 1 + 9 * sum((c - G) ** 2 for c in x[1:])
    return [x[0], g * (1 - (x[0] / g) ** (0.75 * G + 1.25))]


def _HE2(x, t):
    H = 0.75 * math.sin(pi * t / 2) + 1.25
    g = 1 + 9 / 29 * sum(x[1:])
    q = x[0] / g
    return [x[0], g * (1 - math.sqrt(q) ** H - q ** H * math.sin(10 * pi * x[0]))]


def _he(x, t, odd, even, tail):
    H = 0.75 * math.sin(pi * t / 2) + 1.25
    n = len(x)
    J1 = [j for j in range(3, n + 1) if j % 2]
    J2 = [j for j in range(2, n + 1) if j % 2 == 0]
    f1 = x[0] + 2 / len(J1) * sum((x[j - 1] - odd(x[0], j - 1, n)) ** 2 for j in J1)
    g = tail(x[0]) + 2 / len(J2) * sum((x[j - 1] - even(x[0], j - 1, n)) ** 2 for j in J2)
    return [f1, g * (1 - (f1 / g) ** H)]


def _HE7(x, t):
    def amp(v, j, n):
        return 0.3 * v * v * math.cos(4 * (6 * pi * v + j * pi / n)) + 0.6 * v
    return _he(x, t, lambda v, j, n: amp(v, j, n) * math.cos(6 * pi * v + j * pi / n), lambda v, j, n: amp(v, j, n) * math.sin(6 * pi * v + j * pi / n), lambda v: 2 - math.sqrt(v))


def _HE9(x, t):
    def c(v, j, n):
        return math.sin(6 * pi * v + j * pi / n)
    return _he(x, t, c, c, lambda v: 2 - v * v)


def optimal(name, n, t, k):
    """Designs of the Pareto set (before removing dominated ones) with k position values in [0, 1]."""
    G = math.sin(pi * t / 2)
    L = [i / (k - 1) for i in range(k)]
    num = int(name[2:])
    out = []
    if num >= 10:
        m = max(2, int(math.sqrt(k) * 2))
        for a, b in itertools.product([i / (m - 1) for i in range(m)], repeat=2):
            tail = {10: math.sin(4 * pi * (a + b)) / (1 + abs(G)), 11: 0.5 * abs(G) * a, 12: math.sin(t * a)}.get(num, G)
            out.append([a, b] + [tail] * (n - 2))
        return out
    for a in L:
        if num == 1:
            x = [a] + [abs(G)] * (n - 1)
        elif num == 2:
            x = [abs(G)] * n
            x[int((n - 1) * abs(G))] = a
        elif num == 3:
            x = [a] + [G + a ** (G + 1.5)] * (n - 1)
        elif num == 4:
            b = 1 + abs(math.cos(pi * t / 2))
            c = max(abs(G), G + b)
            x = [G + a * b]
            x += [G * (x[0] / c) ** 2 / (i + 1) for i in range(1, n)]
        elif num in (5, 6):
            x = [a] + [G] * (n - 1)
        elif num == 7:
            v = 1 + 3 * a
            x = [v] + [1 / (1 + math.exp(5 * math.cos(pi * t / 2) * (v - 2.5)))] * (n - 1)
        elif num == 8:
            x = [a] + [G * math.sin(4 * pi * a) / (1 + abs(G))] * (n - 1)
        else:
            x = [a]
            for i in range(1, n):
                x.append(math.cos(4 * t + a + x[-1]))
        out.append(x)
    return out
