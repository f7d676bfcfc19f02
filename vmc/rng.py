"""Choice oracle and a numpy Generator whose every answer is decided by the explorer.

explore() is a stateless depth-first search over choice sequences: a prefix is replayed, later
choices default to 0, and every alternative of every later choice point is expanded.  A non-default
choice costs one deviation; executions with at most max_dev deviations are ALL visited (unless
max_runs is hit, which is reported).
"""

import numpy as np

ONE = 1.0 - 2.0 ** -53  # the largest value Generator.random() can return


class Divergence(Exception):
    pass


class Oracle:
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.points = []   # number of alternatives at each point
        self.choices = []

    def choose(self, n):
        i = len(self.choices)
        c = 0
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n:
                raise Divergence("replayed choice out of range")
        self.points.append(n)
        self.choices.append(c)
        return c


def explore(run, max_dev=2, max_runs=None, max_points=400):
    """run(oracle) executes once.  Returns (executions, complete)."""
    stack = [((), 0)]
    n = 0
    complete = True
    while stack:
        prefix, dev = stack.pop()
        o = Oracle(prefix)
        run(o)
        n += 1
        if max_runs is not None and n >= max_runs:
            complete = not stack
            return n, complete
        if dev >= max_dev:
            continue
        pts = o.points
        if len(pts) > max_points:
            complete = False
        for i in range(min(len(pts), max_points) - 1, len(prefix) - 1, -1):
            for alt in range(pts[i] - 1, 0, -1):
                stack.append((tuple(o.choices[:i]) + (alt,), dev + 1))
    return n, complete


LEVELS = [0.5, 0.0, ONE, 0.25, 0.75]
NORMALS = [0.0, 1.0, -1.0, 9.0, -9.0]


class ScriptRNG(np.random.Generator):
    """Answers come from an Oracle.  levels[0] is the default answer of random()."""

    def __new__(cls, *args, **kwargs):
        return super().__new__(cls, np.random.PCG64(0))

    def __init__(self, oracle, levels=None, normals=None):
        super().__init__(np.random.PCG64(0))
        self.o = oracle
        self.levels = list(levels or LEVELS)
        self.normals = list(normals or NORMALS)

    # ---- scalars
    def _u(self):
        return self.levels[self.o.choose(len(self.levels))]

    def _n(self):
        return self.normals[self.o.choose(len(self.normals))]

    def _i(self, n):
        n = int(n)
        if n <= 1:
            return 0
        if n <= 6:
            return self.o.choose(n)
        cand = [0, n - 1, n // 2, 1]
        return cand[self.o.choose(len(cand))]

    def _fill(self, f, size):
        if size is None:
            return f()
        shape = (int(size),) if np.ndim(size) == 0 else tuple(int(s) for s in size)
        k = int(np.prod(shape)) if len(shape) else 1
        return np.array([f() for _ in range(k)]).reshape(shape)

    # ---- Generator interface
    def random(self, size=None, dtype=np.float64, out=None):
        r = self._fill(self._u, size if out is None else out.shape)
        if out is not None:
            out[...] = r
            return out
        if size is not None and r.size == 0:
            r = r.astype(float)
        return r

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None:
            size = np.broadcast(low, high).shape
            size = None if size == () else size
        return low + (np.asarray(high) - low) * self._fill(self._u, size)

    def standard_normal(self, size=None, dtype=np.float64, out=None):
        r = self._fill(self._n, size)
        return r.astype(float) if size is not None and r.size == 0 else r

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None:
            size = np.broadcast(loc, scale).shape
            size = None if size == () else size
        return loc + scale * self._fill(self._n, size)

    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        if high is None:
            low, high = 0, low
        if endpoint:
            high = high + 1
        if np.ndim(low) or np.ndim(high):
            lo, hi = np.broadcast_arrays(low, high)
            if size is not None:
                lo, hi = np.broadcast_to(lo, size), np.broadcast_to(hi, size)
            return np.array([int(a) + self._i(int(b) - int(a)) for a, b in zip(lo.ravel(), hi.ravel())],
                            dtype=dtype).reshape(lo.shape)
        if high <= low:
            raise ValueError("low >= high")
        r = self._fill(lambda: int(low) + self._i(int(high) - int(low)), size)
        return r if size is None else np.asarray(r).astype(dtype)

    def _perm(self, n):
        rem = list(range(int(n)))
        out = []
        while rem:
            out.append(rem.pop(self._i(len(rem))))
        return out

    def permutation(self, x, axis=0):
        if np.ndim(x) == 0:
            return np.array(self._perm(int(x)), dtype=int)
        a = np.asarray(x)
        return np.take(a, np.array(self._perm(a.shape[axis]), dtype=int), axis=axis)

    def permuted(self, x, axis=None, out=None):
        a = np.asarray(x)
        if axis is None:
            return a.ravel()[np.array(self._perm(a.size), dtype=int)].reshape(a.shape)
        r = np.apply_along_axis(lambda v: v[np.array(self._perm(len(v)), dtype=int)], axis, a)
        return r

    def shuffle(self, x, axis=0):
        p = self._perm(len(x) if axis == 0 else np.asarray(x).shape[axis])
        if isinstance(x, np.ndarray):
            x[...] = np.take(x, np.array(p, dtype=int), axis=axis)
        else:
            y = [x[i] for i in p]
            for i in range(len(y)):
                x[i] = y[i]

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        pool = np.arange(int(a)) if np.ndim(a) == 0 and not isinstance(a, (list, tuple)) else a
        n = len(pool)
        if n == 0:
            raise ValueError("a cannot be empty unless no samples are taken")
        idx = list(range(n))
        if p is not None:
            idx = [i for i in idx if p[i] > 0]
        if size is None:
            return pool[idx[self._i(len(idx))]]
        shape = (int(size),) if np.ndim(size) == 0 else tuple(int(s) for s in size)
        k = int(np.prod(shape))
        if not replace and k > n:
            raise ValueError("Cannot take a larger sample than population when replace is False")
        out, rem = [], list(idx)
        for _ in range(k):
            if replace:
                out.append(rem[self._i(len(rem))])
            else:
                out.append(rem.pop(self._i(len(rem))))
        arr = np.asarray(pool) if not isinstance(pool, np.ndarray) else pool
        return arr[np.array(out, dtype=int)].reshape(shape + arr.shape[1:])

    def exponential(self, scale=1.0, size=None):
        return -scale * np.log1p(-self._fill(self._u, size))

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (_restore, ())

    def spawn(self, n):
        return [self for _ in range(n)]


class MixRNG(ScriptRNG):
    """Default answers come from a fixed pseudo-random stream, deviations from the Oracle."""

    def __init__(self, oracle, seed=0, levels=(0.0, ONE), normals=(9.0, -9.0)):
        super().__init__(oracle, levels, normals)
        self.base = np.random.default_rng(seed)

    def _u(self):
        r = self.base.random()
        c = self.o.choose(1 + len(self.levels))
        return r if c == 0 else self.levels[c - 1]

    def _n(self):
        r = self.base.standard_normal()
        c = self.o.choose(1 + len(self.normals))
        return r if c == 0 else self.normals[c - 1]

    def _i(self, n):
        n = int(n)
        if n <= 1:
            return 0
        r = int(self.base.integers(n))
        others = [v for v in sorted({0, 1, n // 2, n - 1}) if v != r]
        c = self.o.choose(1 + len(others))
        return r if c == 0 else others[c - 1]


def _restore():
    return np.random.default_rng(0)
