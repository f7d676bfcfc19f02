"""Published formulas of further suites, one design at a time in plain Python: the constrained G functions of CEC 2006, CTP, MW, DAS-CMOP, WFG,
SYM-PART, Omni-test, car side impact, water resource management and small multimodal functions. Each returns (objectives, inequalities[, equalities])."""
import math
from math import atan, cos, exp, log, pi, sin, sqrt


# --- G functions (CEC 2006) ----------------------------------------------------------------------

def g1(x):
    x = [None] + x
    f = 5 * sum(x[i] for i in range(1, 5)) - 5 * sum(x[i] ** 2 for i in range(1, 5)) - sum(x[i] for i in range(5, 14))
    return [f], [2 * x[1] + 2 * x[2] + x[10] + x[11] - 10, 2 * x[1] + 2 * x[3] + x[10] + x[12] - 10, 2 * x[2] + 2 * x[3] + x[11] + x[12] - 10,
                 -8 * x[1] + x[10], -8 * x[2] + x[11], -8 * x[3] + x[12], -2 * x[4] - x[5] + x[10], -2 * x[6] - x[7] + x[11], -2 * x[8] - x[9] + x[12]]


def g2(x):
    num = sum(cos(v) ** 4 for v in x) - 2 * math.prod(cos(v) ** 2 for v in x)
    return [-abs(num / sqrt(sum(i * v * v for i, v in enumerate(x, 1))))], [0.75 - math.prod(x), sum(x) - 7.5 * len(x)]


def g3(x):
    return [-(sqrt(len(x)) ** len(x)) * math.prod(x)], [], [sum(v * v for v in x) - 1]


def g4(x):
    x = [None] + x
    u = 85.334407 + 0.0056858 * x[2] * x[5] + 0.0006262 * x[1] * x[4] - 0.0022053 * x[3] * x[5]
    v = 80.51249 + 0.0071317 * x[2] * x[5] + 0.0029955 * x[1] * x[2] + 0.0021813 * x[3] ** 2
    w = 9.300961 + 0.0047026 * x[3] * x[5] + 0.0012547 * x[1] * x[3] + 0.0019085 * x[3] * x[4]
    return [5.3578547 * x[3] ** 2 + 0.8356891 * x[1] * x[5] + 37.293239 * x[1] - 40792.141], [-u, u - 92, 90 - v, v - 110, 20 - w, w - 25]


def g5(x):
    x = [None] + x
    f = 3 * x[1] + 0.000001 * x[1] ** 3 + 2 * x[2] + 0.000002 / 3 * x[2] ** 3
    return [f], [-x[4] + x[3] - 0.55, -x[3] + x[4] - 0.55], [
        1000 * sin(-x[3] - 0.25) + 1000 * sin(-x[4] - 0.25) + 894.8 - x[1],
        1000 * sin(x[3] - 0.25) + 1000 * sin(x[3] - x[4] - 0.25) + 894.8 - x[2],
        1000 * sin(x[4] - 0.25) + 1000 * sin(x[4] - x[3] - 0.25) + 1294.8]


def g6(x):
    a, b = x
    return [(a - 10) ** 3 + (b - 20) ** 3], [100 - (a - 5) ** 2 - (b - 5) ** 2, (a - 6) ** 2 + (b - 5) ** 2 - 82.81]


def g7(x):
    x = [None] + x
    f = (x[1] ** 2 + x[2] ** 2 + x[1] * x[2] - 14 * x[1] - 16 * x[2] + (x[3] - 10) ** 2 + 4 * (x[4] - 5) ** 2 + (x[5] - 3) ** 2 + 2 * (x[6] - 1) ** 2
         + 5 * x[7] ** 2 + 7 * (x[8] - 11) ** 2 + 2 * (x[9] - 10) ** 2 + (x[10] - 7) ** 2 + 45)
    return [f], [-105 + 4 * x[1] + 5 * x[2] - 3 * x[7] + 9 * x[8], 10 * x[1] - 8 * x[2] - 17 * x[7] + 2 * x[8], -8 * x[1] + 2 * x[2] + 5 * x[9] - 2 * x[10] - 12,
                 3 * (x[1] - 2) ** 2 + 4 * (x[2] - 3) ** 2 + 2 * x[3] ** 2 - 7 * x[4] - 120, 5 * x[1] ** 2 + 8 * x[2] + (x[3] - 6) ** 2 - 2 * x[4] - 40,
                 x[1] ** 2 + 2 * (x[2] - 2) ** 2 - 2 * x[1] * x[2] + 14 * x[5] - 6 * x[6], 0.5 * (x[1] - 8) ** 2 + 2 * (x[2] - 4) ** 2 + 3 * x[5] ** 2 - x[6] - 30,
                 -3 * x[1] + 6 * x[2] + 12 * (x[9] - 8) ** 2 - 7 * x[10]]


def g8(x):
    a, b = x
    return [-sin(2 * pi * a) ** 3 * sin(2 * pi * b) / (a ** 3 * (a + b))], [a * a - b + 1, 1 - a + (b - 4) ** 2]


def g9(x):
    x = [None] + x
    f = ((x[1] - 10) ** 2 + 5 * (x[2] - 12) ** 2 + x[3] ** 4 + 3 * (x[4] - 11) ** 2 + 10 * x[5] ** 6 + 7 * x[6] ** 2 + x[7] ** 4 - 4 * x[6] * x[7] - 10 * x[6] - 8 * x[7])
    return [f], [-127 + 2 * x[1] ** 2 + 3 * x[2] ** 4 + x[3] + 4 * x[4] ** 2 + 5 * x[5], -282 + 7 * x[1] + 3 * x[2] + 10 * x[3] ** 2 + x[4] - x[5],
                 -196 + 23 * x[1] + x[2] ** 2 + 6 * x[6] ** 2 - 8 * x[7], 4 * x[1] ** 2 + x[2] ** 2 - 3 * x[1] * x[2] + 2 * x[3] ** 2 + 5 * x[6] - 11 * x[7]]


def g10(x):
    x = [None] + x
    return [x[1] + x[2] + x[3]], [-1 + 0.0025 * (x[4] + x[6]), -1 + 0.0025 * (x[5] + x[7] - x[4]), -1 + 0.01 * (x[8] - x[5]),
                                  -x[1] * x[6] + 833.33252 * x[4] + 100 * x[1] - 83333.333, -x[2] * x[7] + 1250 * x[5] + x[2] * x[4] - 1250 * x[4],
                                  -x[3] * x[8] + 1250000 + x[3] * x[5] - 2500 * x[5]]


def g11(x):
    return [x[0] ** 2 + (x[1] - 1) ** 2], [x[1] - x[0] ** 2]


def g12(x):
    near = sum((v - min(max(round(v), 1), 9)) ** 2 for v in x)
    return [-(100 - sum((v - 5) ** 2 for v in x)) / 100], [near - 0.0625]


def g13(x):
    return [exp(math.prod(x))], [], [sum(v * v for v in x) - 10, x[1] * x[2] - 5 * x[3] * x[4], x[0] ** 3 + x[1] ** 3 + 1]


def g14(x):
    c = (-6.089, -17.164, -34.054, -5.914, -24.721, -14.986, -24.1, -10.708, -26.662, -22.179)
    s = sum(x)
    f = sum(v * (a + log(v / s)) for v, a in zip(x, c))
    x = [None] + x
    return [f], [], [x[1] + 2 * x[2] + 2 * x[3] + x[6] + x[10] - 2, x[4] + 2 * x[5] + x[6] + x[7] - 1, x[3] + x[7] + x[8] + 2 * x[9] + x[10] - 1]


def g15(x):
    a, b, c = x
    return [1000 - a * a - 2 * b * b - c * c - a * b - a * c], [], [a * a + b * b + c * c - 25, 8 * a + 14 * b + 7 * c - 56]


def g17(x):
    x = [None] + x
    f = (30 * x[1] if x[1] < 300 else 31 * x[1]) + (28 * x[2] if x[2] < 100 else 29 * x[2] if x[2] < 200 else 30 * x[2])
    p = x[3] * x[4] / 131.078
    q3, q4 = 0.90798 * x[3] ** 2 / 131.078, 0.90798 * x[4] ** 2 / 131.078
    return [f], [], [-x[1] + 300 - p * cos(1.48477 - x[6]) + q3 * cos(1.47588), -x[2] - p * cos(1.48477 + x[6]) + q4 * cos(1.47588),
                     -x[5] - p * sin(1.48477 + x[6]) + q4 * sin(1.47588), 200 - p * sin(1.48477 - x[6]) + q3 * sin(1.47588)]


def g18(x):
    x = [None] + x
    f = -0.5 * (x[1] * x[4] - x[2] * x[3] + x[3] * x[9] - x[5] * x[9] + x[5] * x[8] - x[6] * x[7])
    return [f], [x[3] ** 2 + x[4] ** 2 - 1, x[9] ** 2 - 1, x[5] ** 2 + x[6] ** 2 - 1, x[1] ** 2 + (x[2] - x[9]) ** 2 - 1, (x[1] - x[5]) ** 2 + (x[2] - x[6]) ** 2 - 1,
                 (x[1] - x[7]) ** 2 + (x[2] - x[8]) ** 2 - 1, (x[3] - x[5]) ** 2 + (x[4] - x[6]) ** 2 - 1, (x[3] - x[7]) ** 2 + (x[4] - x[8]) ** 2 - 1,
                 x[7] ** 2 + (x[8] - x[9]) ** 2 - 1, x[2] * x[3] - x[1] * x[4], -x[3] * x[9], x[5] * x[9], x[6] * x[7] - x[5] * x[8]]


def g21(x):
    x = [None] + x
    return [x[1]], [-x[1] + 35 * x[2] ** 0.6 + 35 * x[3] ** 0.6], [
        -300 * x[3] + 7500 * x[5] - 7500 * x[6] - 25 * x[4] * x[5] + 25 * x[4] * x[6] + x[3] * x[4],
        100 * x[2] + 155.365 * x[4] + 2500 * x[7] - x[2] * x[4] - 25 * x[4] * x[7] - 15536.5,
        -x[5] + log(-x[4] + 900), -x[6] + log(x[4] + 300), -x[7] + log(-2 * x[4] + 700)]


def g22(x):
    x = [None] + x
    m = 100000
    return [x[1]], [-x[1] + x[2] ** 0.6 + x[3] ** 0.6 + x[4] ** 0.6], [
        x[5] - m * x[8] + 1e7, x[6] + m * x[8] - m * x[9], x[7] + m * x[9] - 5e7, x[5] + m * x[10] - 3.3e7, x[6] + m * x[11] - 4.4e7, x[7] + m * x[12] - 6.6e7,
        x[5] - 120 * x[2] * x[13], x[6] - 80 * x[3] * x[14], x[7] - 40 * x[4] * x[15], x[8] - x[11] + x[16], x[9] - x[12] + x[17],
        -x[18] + log(x[10] - 100), -x[19] + log(-x[8] + 300), -x[20] + log(x[16]), -x[21] + log(-x[9] + 400), -x[22] + log(x[17]),
        -x[8] - x[10] + x[13] * x[18] - x[13] * x[19] + 400, x[8] - x[9] - x[11] + x[14] * x[20] - x[14] * x[21] + 400, x[9] - x[12] - 4.60517 * x[15] + x[15] * x[22] + 100]


def g23(x):
    x = [None] + x
    return [-9 * x[5] - 15 * x[8] + 6 * x[1] + 16 * x[2] + 10 * (x[6] + x[7])], [x[9] * x[3] + 0.02 * x[6] - 0.025 * x[5], x[9] * x[4] + 0.02 * x[7] - 0.015 * x[8]], [
        x[1] + x[2] - x[3] - x[4], 0.03 * x[1] + 0.01 * x[2] - x[9] * (x[3] + x[4]), x[3] + x[6] - x[5], x[4] + x[7] - x[8]]


def g24(x):
    a, b = x
    return [-a - b], [-2 * a ** 4 + 8 * a ** 3 - 8 * a ** 2 + b - 2, -4 * a ** 4 + 32 * a ** 3 - 88 * a ** 2 + 96 * a + b - 36]


G = dict(g1=g1, g2=g2, g3=g3, g4=g4, g5=g5, g6=g6, g7=g7, g8=g8, g9=g9, g10=g10, g11=g11, g12=g12, g13=g13, g14=g14, g15=g15, g17=g17, g18=g18, g21=g21, g22=g22, g23=g23, g24=g24)


# --- CTP (Deb, Pratap and Meyarivan) -------------------------------------------------------------

CTPS = {2: [(-0.2, 0.2, 10, 1, 6, 1)], 3: [(-0.2, 0.1, 10, 1, 0.5, 1)], 4: [(-0.2, 0.75, 10, 1, 0.5, 1)], 5: [(-0.2, 0.1, 10, 2, 0.5, 1)],
        6: [(0.1, 40, 0.5, 1, 2, -2)], 7: [(-0.05, 40, 5, 1, 6, 0)], 8: [(0.1, 40, 0.5, 1, 2, -2), (-0.05, 40, 2, 1, 6, 0)]}


def ctp(k, x, n_con, multimodal):
    g = 1 + (10 * (len(x) - 1) + sum(v * v - 10 * cos(2 * pi * v) for v in x[1:]) if multimodal else sum(x[1:]))
    f1 = x[0]
    if k == 1:
        f2 = g * exp(-f1 / g)
        a, b, con = 1.0, 1.0, []
        step = 1 / (n_con + 1)
        for j in range(n_con):
            at = step * (j + 1)
            beta = a * exp(-b * at)
            a = (a + beta) / 2
            b = -log(beta / a) / at
            con.append(a * exp(-b * f1) - f2)
        return [f1, f2], con
    f2 = g * (1 - sqrt(f1 / g))
    con = []
    for theta, a, b, c, d, e in CTPS[k]:
        th = theta * pi
        left = cos(th) * (f2 - e) - sin(th) * f1
        base = sin(th) * (f2 - e) + cos(th) * f1
        con.append(1 - left / (a * abs(sin(b * pi * base ** c)) ** d))
    return [f1, f2], con


# --- MW (Ma and Wang) ----------------------------------------------------------------------------

def mw_distance(kind, x, M):
    n = len(x)
    if kind == 1:
        return 1 + sum(1 - exp(-10 * (x[i] ** (n - M) - 0.5 - i / (2 * n)) ** 2) for i in range(M - 1, n))
    if kind == 2:
        s = 1
        for i in range(M - 1, n):
            z = 1 - exp(-10 * (x[i] - i / n) ** 2)
            s += 0.1 / n * z * z + 1.5 - 1.5 * cos(2 * pi * z)
        return s
    return 1 + sum(2 * (x[i] + (x[i - 1] - 0.5) ** 2 - 1) ** 2 for i in range(M - 1, n))


def mw(k, x, M):
    g = mw_distance({1: 1, 2: 2, 3: 3, 4: 1, 5: 1, 6: 2, 7: 3, 8: 2, 9: 1, 10: 2, 11: 3, 12: 1, 13: 2, 14: 3}[k], x, M)
    if k in (1, 2, 3):
        a = x[0]
        b = g - (0.85 if k == 1 else 1) * a
        l = sqrt(2) * (b - a)
        if k == 1:
            return [a, b], [a + b - 1 - 0.5 * sin(2 * pi * l) ** 8]
        if k == 2:
            return [a, b], [a + b - 1 - 0.5 * sin(3 * pi * l) ** 8]
        return [a, b], [a + b - 1.05 - 0.45 * sin(0.75 * pi * l) ** 6, 0.85 - a - b + 0.3 * sin(0.75 * pi * l) ** 2]
    if k == 4:
        f = []
        for m in range(M):
            v = g * math.prod(1 - x[j] for j in range(M - 1 - m))
            f.append(v * (x[M - 1 - m] if m else 1))
        return f, [sum(f) - 1 - 0.4 * sin(2.5 * pi * (f[-1] - sum(f[:-1]))) ** 8]
    if k == 8:
        f = []
        for m in range(M):
            v = g * math.prod(cos(pi / 2 * x[j]) for j in range(M - 1 - m))
            f.append(v * (sin(pi / 2 * x[M - 1 - m]) if m else 1))
        r = sum(v * v for v in f)
        return f, [r - (1.25 - 0.5 * sin(6 * math.asin(min(1.0, f[-1] / sqrt(r)))) ** 2) ** 2]
    if k in (5, 6, 7, 11):
        a = g * x[0]
        top = {5: 1, 6: 1.21, 7: 1, 11: 2}[k]
        if abs(top - x[0] ** 2) < 1e-9 and k in (6, 11):
            raise ValueError("the root of rounding noise")
        b = g * sqrt(max(0.0, top - x[0] ** 2))
        t = math.atan2(b, a)
        if k == 5:
            u = pi / 2 - 2 * abs(t - pi / 4)
            return [a, b], [a * a + b * b - (1.7 - 0.2 * sin(2 * t)) ** 2, (1 + 0.5 * sin(6 * u ** 3)) ** 2 - a * a - b * b, (1 - 0.45 * sin(6 * u ** 3)) ** 2 - a * a - b * b]
        if k == 6:
            c = cos(6 * t ** 4) ** 10
            return [a, b], [(a / (1 + 0.15 * c)) ** 2 + (b / (1 + 0.75 * c)) ** 2 - 1]
        if k == 7:
            return [a, b], [a * a + b * b - (1.2 + 0.4 * sin(4 * t) ** 16) ** 2, (1.15 - 0.2 * sin(4 * t) ** 8) ** 2 - a * a - b * b]
        q = a * a
        return [a, b], [-(3 - q - b) * (3 - 2 * q - b), (3 - 0.625 * q - b) * (3 - 7 * q - b), -(1.62 - 0.18 * q - b) * (1.125 - 0.125 * q - b), (2.07 - 0.23 * q - b) * (0.63 - 0.07 * q - b)]
    if k == 9:
        a = g * x[0]
        b = g * (1 - x[0] ** 0.6)
        return [a, b], [min((1 - 0.64 * a * a - b) * (1 - 0.36 * a * a - b), (1.35 ** 2 - (a + 0.35) ** 2 - b) * (1.15 ** 2 - (a + 0.15) ** 2 - b))]
    if k == 10:
        h = x[0] ** len(x)
        a, b = g * h, g * (1 - h * h)
        q = a * a
        return [a, b], [-(2 - 4 * q - b) * (2 - 8 * q - b), (2 - 2 * q - b) * (2 - 16 * q - b), (1 - q - b) * (1.2 - 1.2 * q - b)]
    if k == 12:
        a = g * x[0]
        b = g * (0.85 - 0.8 * x[0] - 0.08 * abs(sin(3.2 * pi * x[0])))
        s = lambda v: 0.08 * sin(2 * pi * v)
        return [a, b], [-(1 - 0.625 * a - b + s(b - a / 1.6)) * (1.4 - 0.875 * a - b + s(b / 1.4 - a / 1.6)), (1 - 0.8 * a - b + s(b - a / 1.5)) * (1.8 - 1.125 * a - b + s(b / 1.8 - a / 1.6))]
    if k == 13:
        a = g * x[0]
        b = g * (5 - exp(x[0]) - abs(0.5 * sin(3 * pi * x[0])))
        s = 0.5 * sin(3 * pi * a)
        return [a, b], [-(5 - (1 + a + 0.5 * a * a) - s - b) * (5 - (1 + 0.7 * a) - s - b), (5 - exp(a) - s - b) * (5 - (1 + 0.4 * a) - s - b)]
    h = x[:M - 1]
    last = g / (M - 1) * sum(6 - exp(v) - 1.5 * sin(1.1 * pi * v * v) for v in h)
    return h + [last], [last - sum(6.1 - (1 + v + 0.5 * v * v + 1.5 * sin(1.1 * pi * v * v)) for v in h) / (M - 1)]


# --- DAS-CMOP (Fan et al.) -----------------------------------------------------------------------

DIFFICULTY = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1), (2, 0, 0), (0, 2, 0), (0, 0, 2), (2, 2, 2), (3, 0, 0), (0, 3, 0), (0, 0, 3), (3, 3, 3), (0, 4, 0), (2, 4, 0), (0, 4, 2), (2, 4, 2)]


def dascmop(k, x, difficulty):
    eta, zeta, gamma = (v / 4 for v in DIFFICULTY[difficulty - 1])
    n = len(x)
    M = 2 if k < 7 else 3
    if k <= 3:
        g = sum((v - sin(pi / 2 * x[0])) ** 2 for v in x[1:])
    elif k <= 8:
        g = (n - M + 1) + sum((v - 0.5) ** 2 - cos(20 * pi * (v - 0.5)) for v in x[M - 1:])
    else:
        g = sum((x[j] - cos(0.25 * (j + 1) / n * pi * (x[0] + x[1]))) ** 2 for j in range(2, n))
    if M == 2:
        second = {0: 1 - sqrt(x[0]) + 0.5 * abs(sin(5 * pi * x[0])), 1: 1 - x[0] ** 2, 2: 1 - sqrt(x[0])}[k % 3]
        f = [x[0] + g, second + g]
    elif k == 7:
        f = [x[0] * x[1] + g, x[1] * (1 - x[0]) + g, 1 - x[1] + g]
    else:
        f = [cos(pi / 2 * x[0]) * cos(pi / 2 * x[1]) + g, cos(pi / 2 * x[0]) * sin(pi / 2 * x[1]) + g, sin(pi / 2 * x[0]) + g]
    b = 2 * eta - 1
    d = 0.5 if zeta else 0
    e = d - log(zeta) if zeta else 1e30
    r = gamma / 2
    c = [sin(20 * pi * x[0]) - b]
    if M == 3:
        c.append(cos(20 * pi * x[1]) - b)
    c.append(1e-4 - abs(e - g) if zeta == 1 else (e - g) * (g - d))
    if M == 2:
        th = -pi / 4
        for p, q in zip((0, 1, 0, 1, 2, 0, 1, 2, 3), (1.5, 0.5, 2.5, 1.5, 0.5, 3.5, 2.5, 1.5, 0.5)):
            u, v = f[0] - p, f[1] - q
            c.append((u * cos(th) - v * sin(th)) ** 2 / 0.3 + (u * sin(th) + v * cos(th)) ** 2 / 1.2 - r)
    else:
        s = 1 / sqrt(3)
        for centre in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (s, s, s)):
            c.append(sum((a - o) ** 2 for a, o in zip(f, centre)) - r * r)
    return f, [-v for v in c]


# --- WFG (Huband et al.) -------------------------------------------------------------------------

def one(v):
    return 0.0 if -1e-10 <= v <= 0 else 1.0 if 1 <= v <= 1 + 1e-10 else v


def s_linear(y, A=0.35):
    return one(abs(y - A) / abs(math.floor(A - y) + A))


def s_decept(y, A=0.35, B=0.001, C=0.05):
    u = math.floor(y - A + B) * (1 - C + (A - B) / B) / (A - B)
    v = math.floor(A + B - y) * (1 - C + (1 - A - B) / B) / (1 - A - B)
    return one(1 + (abs(y - A) - B) * (u + v + 1 / B))


def s_multi(y, A, B, C=0.35):
    u = abs(y - C) / (2 * (math.floor(C - y) + C))
    return one((1 + cos((4 * A + 2) * pi * (0.5 - u)) + 4 * B * u * u) / (B + 2))


def b_flat(y, A=0.8, B=0.75, C=0.85):
    return one(A + min(0, math.floor(y - B)) * A * (B - y) / B - min(0, math.floor(C - y)) * (1 - A) * (y - C) / (1 - C))


def b_param(y, u, A=0.98 / 49.98, B=0.02, C=50):
    return one(y ** (B + (C - B) * (A - (1 - 2 * u) * abs(math.floor(0.5 - u) + A))))


def r_sum(y, w=None):
    w = w or [1] * len(y)
    return one(sum(a * b for a, b in zip(y, w)) / sum(w))


def r_nonsep(y, A):
    n = len(y)
    s = sum(y[j] + sum(abs(y[j] - y[(1 + j + k) % n]) for k in range(A - 1)) for j in range(n))
    h = math.ceil(A / 2)
    return one(s / (n / A * h * (1 + 2 * A - 2 * h)))


def wfg(number, x, M, k):
    n = len(x)
    z = [v / (2 * (i + 1)) for i, v in enumerate(x)]
    gap = k // (M - 1)
    groups = [range(j * gap, (j + 1) * gap) for j in range(M - 1)]
    tail = range(k, n)
    shift = lambda t: t[:k] + [s_linear(v) for v in t[k:]]
    mean = lambda t: [r_sum([t[i] for i in q]) for q in groups] + [r_sum(t[k:])]
    if number == 1:
        t = shift(z)
        t = t[:k] + [b_flat(v) for v in t[k:]]
        t = [one(v ** 0.02) for v in t]
        t = [r_sum([t[i] for i in q], [2 * (i + 1) for i in q]) for q in groups + [tail]]
    elif number in (2, 3):
        t = shift(z)
        t = t[:k] + [r_nonsep([t[i], t[i + 1]], 2) for i in range(k, n, 2)]
        t = mean(t)
    elif number == 4:
        t = mean([s_multi(v, 30, 10) for v in z])
    elif number == 5:
        t = mean([s_decept(v) for v in z])
    elif number == 6:
        t = shift(z)
        t = [r_nonsep([t[i] for i in q], gap) for q in groups] + [r_nonsep(t[k:], n - k)]
    elif number == 7:
        t = mean(shift([b_param(z[i], r_sum(z[i + 1:])) for i in range(k)] + z[k:]))
    elif number == 8:
        t = mean(shift(z[:k] + [b_param(z[i], r_sum(z[:i])) for i in range(k, n)]))
    else:
        t = [b_param(z[i], r_sum(z[i + 1:])) for i in range(n - 1)] + z[-1:]
        t = [s_decept(v) for v in t[:k]] + [s_multi(v, 30, 95) for v in t[k:]]
        t = [r_nonsep([t[i] for i in q], gap) for q in groups] + [r_nonsep(t[k:], n - k)]
    A = [1] + [0 if number == 3 else 1] * (M - 2)
    y = [max(t[-1], A[i]) * (t[i] - 0.5) + 0.5 for i in range(M - 1)]
    f = []
    for m in range(1, M + 1):
        if m == M and number == 1:
            h = 1 - y[0] - cos(10 * pi * y[0] + pi / 2) / (10 * pi)
        elif m == M and number == 2:
            h = 1 - y[0] * cos(5 * y[0] * pi) ** 2
        else:
            up, down = {1: (lambda v: 1 - cos(v * pi / 2), lambda v: 1 - sin(v * pi / 2)), 3: (lambda v: v, lambda v: 1 - v)}.get(
                1 if number == 2 else number, (lambda v: sin(v * pi / 2), lambda v: cos(v * pi / 2)))
            h = math.prod(up(v) for v in y[:M - m]) * (down(y[M - m]) if m > 1 else 1)
        f.append(t[-1] + 2 * m * one(h))
    return f, []


# --- further problems ----------------------------------------------------------------------------

def omnitest(x):
    return [sum(sin(pi * v) for v in x), sum(cos(pi * v) for v in x)], []


def sympart(x, a, b, c, w):
    u, v = cos(w) * x[0] + sin(w) * x[1], -sin(w) * x[0] + cos(w) * x[1]
    sign = lambda q: (q > 0) - (q < 0)
    t1 = sign(u) * math.ceil((abs(u) - a - c / 2) / (2 * a + c))
    t2 = sign(v) * math.ceil((abs(v) - b / 2) / b)
    p, q = u - sign(t1) * min(abs(t1), 1) * c, v - sign(t2) * min(abs(t2), 1) * b
    return [(p + a) ** 2 + q * q, (p - a) ** 2 + q * q], []


def carside(x):
    x = [None] + x + [0.345, 0.192]
    f1 = 1.98 + 4.9 * x[1] + 6.67 * x[2] + 6.98 * x[3] + 4.01 * x[4] + 1.78 * x[5] + 0.00001 * x[6] + 2.73 * x[7]
    force = 4.72 - 0.5 * x[4] - 0.19 * x[2] * x[3]
    v1 = 10.58 - 0.674 * x[1] * x[2] - 1.95 * x[2] * x[8]
    v2 = 16.45 - 0.489 * x[3] * x[7] - 0.843 * x[5] * x[6]
    c = [(1.16 - 0.3717 * x[2] * x[4] - 0.0092928 * x[3], 1),
         (0.261 - 0.0159 * x[1] * x[2] - 0.188 * x[1] * x[8] - 0.019 * x[2] * x[7] + 0.0144 * x[3] * x[5] + 0.08045 * x[6] * x[9], 0.32),
         (0.214 + 0.00817 * x[5] - 0.131 * x[1] * x[8] - 0.0704 * x[1] * x[9] + 0.03099 * x[2] * x[6] - 0.018 * x[2] * x[7] + 0.0208 * x[3] * x[8] + 0.121 * x[3] * x[9]
          - 0.00364 * x[5] * x[6] - 0.018 * x[2] ** 2, 0.32),
         (0.74 - 0.61 * x[2] - 0.031296 * x[3] - 0.166 * x[7] * x[9] + 0.227 * x[2] ** 2, 0.32),
         (28.98 + 3.818 * x[3] - 4.2 * x[1] * x[2] + 6.63 * x[6] * x[9] - 7.77 * x[7] * x[8], 32),
         (33.86 + 2.95 * x[3] - 5.057 * x[1] * x[2] - 11 * x[2] * x[8] - 9.98 * x[7] * x[8] + 22 * x[8] * x[9], 32),
         (46.36 - 9.9 * x[2] - 12.9 * x[1] * x[8], 32), (force, 4), (v1, 9.9), (v2, 15.7)]
    return [f1, force, (v1 + v2) / 2], [a / b - 1 for a, b in c]


def wrm(x):
    a, b, c = x
    i = 1 / (a * b)
    return [106780.37 * (b + c) + 61704.67, 3000 * a, 305700 * 2289 * b / (0.06 * 2289) ** 0.65, 250 * 2289 * exp(-39.75 * b + 9.9 * c + 2.74), 25 * (1.39 * i + 4940 * c - 80)], [
        0.00139 * i + 4.94 * c - 1.08, 0.000306 * i + 1.082 * c - 1.0986, 12.307 * i + 49408.24 * c + 4051.02 - 50000, 2.098 * i + 8046.33 * c - 696.71 - 16000,
        2.138 * i + 7883.39 * c - 705.04 - 10000, 0.417 * i + 1721.26 * c - 136.54 - 2000, 0.164 * i + 631.13 * c - 54.58 - 550]


FURTHER = dict(omnitest=omnitest, carside=carside, wrm=wrm)


def reference(name, p):
    if name in G:
        return lambda x: G[name](x)
    if name[:3] == "ctp":
        multi = p.calc_g.__name__ != "g_linear"
        return lambda x: ctp(int(name[3:]), x, p.n_ieq_constr, multi)
    if name[:2] == "mw":
        return lambda x: mw(int(name[2:]), x, p.n_obj)
    if name[:7] == "dascmop":
        return lambda x: dascmop(int(name[7:]), x, p.difficulty)
    if name[:3] == "wfg":
        return lambda x: wfg(int(name[3:]), x, p.n_obj, p.k)
    if name in FURTHER:
        return lambda x: FURTHER[name](x)
    if name.startswith("sympart"):
        return lambda x: sympart(x, p.a, p.b, p.c, p.w)
    return None
