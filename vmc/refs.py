"""Boring reference models, straight from the definitions (python lists and loops)."""

import itertools

import numpy as np


def dominates(a, b):
    return all(x <= y for x, y in zip(a, b)) and any(x < y for x, y in zip(a, b))


def fronts(F):
    """Pareto fronts by repeated peeling."""
    rem = list(range(len(F)))
    out = []
    while rem:
        fr = [i for i in rem if not any(dominates(F[j], F[i]) for j in rem if j != i)]
        out.append(fr)
        s = set(fr)
        rem = [i for i in rem if i not in s]
    return out


def grid_points(levels, m):
    return [tuple(p) for p in itertools.product(levels, repeat=m)]


def multisets(points, n):
    return itertools.combinations_with_replacement(points, n)
