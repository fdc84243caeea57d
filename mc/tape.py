'''A random generator whose outcomes are chosen by the explorer.

Every scalar variate that the code draws is one choice point.  `explore` runs
the given function for *all* sequences of choices (depth first, like a
stateless model checker); the way in which the code groups its draws into
calls, their number and their order are discovered, not assumed.
'''
from statistics import NormalDist
import math
import numpy as np

ND = NormalDist()


class TooLong(Exception):
    pass


class Tape:
    '''stand-in of numpy.random.Generator; every scalar has len(Q) outcomes
    given by their quantiles Q'''

    def __init__(self, Q, prefix=(), limit=64, poisson=None):
        self.Q = Q
        self.QN = None      # other quantiles for normal variates
        self.kinds = []
        self.prefix = prefix
        self.taken = []
        self.arity = []
        self.limit = limit
        self.pq = poisson
        self.lams = []
        self.calls = 0

    def _choose(self, k):
        i = len(self.taken)
        if i >= self.limit:
            raise TooLong()
        c = self.prefix[i] % k if i < len(self.prefix) else 0
        self.taken.append(c)
        self.arity.append(k)
        return c

    def _u(self, normal=False):
        Q = self.QN if normal and self.QN is not None else self.Q
        self.kinds.append(normal)
        return Q[self._choose(len(Q))]

    def _draw(self, f, size, *par, normal=False):
        self.calls += 1
        if par:
            arrs = np.broadcast_arrays(*[np.asarray(p, dtype=float)
                                         for p in par])
            shape = arrs[0].shape
        else:
            arrs, shape = (), ()
        if size is not None:
            shape = tuple(np.atleast_1d(size).tolist())
            arrs = [np.broadcast_to(a, shape) for a in arrs]
        out = np.empty(shape, dtype=float)
        if shape == ():
            return float(f(self._u(normal), *[float(a) for a in arrs]))
        for idx in np.ndindex(*shape):
            out[idx] = f(self._u(normal), *[float(a[idx]) for a in arrs])
        return out

    # --- the interface of the generator ---
    def random(self, size=None, dtype=float, out=None):
        r = self._draw(lambda u: u, size)
        if out is not None:
            out[...] = r
            return out
        return r

    random_sample = ranf = sample = random

    def rand(self, *shape):
        return self.random(shape if shape else None)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._draw(lambda u, a, b: a + (b - a) * u, size, low, high)

    def standard_normal(self, size=None, dtype=float, out=None):
        r = self._draw(lambda u: ND.inv_cdf(u), size, normal=True)
        if out is not None:
            out[...] = r
            return out
        return r

    def randn(self, *shape):
        return self.standard_normal(shape if shape else None)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._draw(lambda u, a, s: a + s * ND.inv_cdf(u), size, loc,
                          scale, normal=True)

    def multivariate_normal(self, mean, cov, size=None, **kw):
        mean = np.asarray(mean, dtype=float)
        L = np.linalg.cholesky(np.asarray(cov, dtype=float))
        shape = () if size is None else tuple(np.atleast_1d(size).tolist())
        z = self.standard_normal(shape + mean.shape)
        return mean + z @ L.T

    def standard_exponential(self, size=None, **kw):
        return self._draw(lambda u: -math.log1p(-u), size)

    def exponential(self, scale=1.0, size=None):
        return self._draw(lambda u, s: -s * math.log1p(-u), size, scale)

    def power(self, a, size=None):
        return self._draw(lambda u, p: u ** (1.0 / p), size, a)

    def triangular(self, left, mode, right, size=None):
        def f(u, l, m, r):
            c = (m - l) / (r - l)
            if u < c:
                return l + math.sqrt(u * (r - l) * (m - l))
            return r - math.sqrt((1 - u) * (r - l) * (r - m))
        return self._draw(f, size, left, mode, right)

    def integers(self, low, high=None, size=None, dtype=int, endpoint=False):
        if high is None:
            low, high = 0, low
        k = int(high) - int(low) + (1 if endpoint else 0)
        self.calls += 1
        if size is None:
            return int(low) + self._choose(k)
        out = np.empty(size, dtype=int)
        for idx in np.ndindex(*out.shape):
            out[idx] = int(low) + self._choose(k)
        return out

    def choice(self, a, size=None, replace=True, p=None, axis=0,
               shuffle=True):
        vals = np.arange(a) if isinstance(a, (int, np.integer)) else \
            np.asarray(a)
        self.calls += 1
        if size is None:
            return vals[self._choose(len(vals))]
        shape = tuple(np.atleast_1d(size).tolist())
        idx = np.empty(shape, dtype=int)
        for i in np.ndindex(*shape):
            idx[i] = self._choose(len(vals))
        return vals[idx]

    def binomial(self, n, p, size=None):
        return self._draw(lambda u, q: float(u >= 1 - q), size, p)

    def poisson(self, lam=1.0, size=None):
        '''the answer is prescribed by the harness'''
        self.calls += 1
        self.lams.append(float(lam))
        k = self.pq[len(self.lams) - 1]
        if size is None:
            return k
        return np.full(size, k)


def explore(Q, run, limit=64, cap=None, QN=None, **kw):
    '''calls run(tape) for every sequence of outcomes; yields (weight, result,
    tape).  Runs with more than `limit` draws are cut off (weight, None,
    tape).'''
    prefix = []
    n = 0
    while True:
        t = Tape(Q, prefix, limit, **kw)
        t.QN = QN
        try:
            r = run(t)
        except TooLong:
            r = None
        w = 1.0
        for a in t.arity:
            w /= a
        yield w, r, t
        n += 1
        if cap is not None and n >= cap:
            return
        i = len(t.taken) - 1
        while i >= 0 and t.taken[i] + 1 >= t.arity[i]:
            i -= 1
        if i < 0:
            return
        prefix = t.taken[:i] + [t.taken[i] + 1]


def count_draws(Q, run, limit=4096, **kw):
    t = Tape(Q, (), limit, **kw)
    run(t)
    return len(t.taken)


def midpoints(m):
    return [(j + 0.5) / m for j in range(m)]


# outcomes including (nearly) extreme ones
EXTREME = [1e-12, 0.27, 0.5 + 1e-9, 0.81, 1 - 1e-12]
EXTREME3 = [1e-9, 0.4, 1 - 1e-9]
EXTREME4 = [1e-12, 0.4, 0.7, 1 - 1e-12]
