"""Observers shared by the run-level checks.  They look only at public attributes and results."""

import numpy as np

from vmc.zoo import cv_ref


def key_of(x, f, g, h):
    return (tuple(np.asarray(x, float).tolist()), tuple(np.asarray(f, float).tolist()),
            tuple(np.asarray(g, float).tolist()), tuple(np.asarray(h, float).tolist()))


def log_keys(problem):
    return {key_of(*r) for r in problem.log}


def ind_key(ind):
    g = ind.G if ind.G is not None and len(ind.G) else []
    h = ind.H if ind.H is not None and len(ind.H) else []
    return key_of(ind.X, ind.F, g, h)


def score(f, g, h):
    """Feasibility-first scalar order of a single-objective record."""
    cv = cv_ref(g, h)
    return (0, float(f[0])) if cv <= 0 else (1, cv)


def dom(a, b):
    return bool(np.all(a <= b) and np.any(a < b))
