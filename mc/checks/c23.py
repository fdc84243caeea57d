'''C23: harmonic numbers.'''
from fractions import Fraction
from itertools import product
import math
import numpy as np
from mc.core import Family

PROPERTY = 'C23'
RULE = ('states: numbers n; transitions: compared values; a trace is one '
        'block of consecutive n, or one threshold')
ASSUMPTIONS = ['rounding: 1e-13 relative']
GAMMA = Fraction('0.57721566490153286060651209008240243104215933593992'
                 '35988057672348848677267776646709369470632917467495')


def exact_list(n):
    h = Fraction(0)
    out = [h]
    for k in range(1, n + 1):
        h += Fraction(1, k)
        out.append(h)
    return out


_scaled = {}


def scaled(n):
    '''list of floor-accurate values of H(0..n), computed with integers of 120
    bits below the point (error < n 2^-120)'''
    if n not in _scaled:
        one = 1 << 120
        h = 0
        out = [0.0]
        for k in range(1, n + 1):
            h += one // k
            out.append(h / one)
        _scaled[n] = out
    return _scaled[n]


def reference(n):
    '''harmonic number of a large n (asymptotic series with 8 terms)'''
    L = math.log(n) if n < 1 << 900 else \
        math.log(n >> 800) + 800 * math.log(2)
    x = 1.0 / n
    x2 = x * x
    return L + float(GAMMA) + x / 2 - x2 / 12 + x2 ** 2 / 120 \
        - x2 ** 3 / 252 + x2 ** 4 / 240


def tol(n, thr, h):
    '''rounding, and the first omitted term of the approximation'''
    t = 4e-14 * max(1.0, h)
    if n >= thr > 0:
        t += 1.05 / 252 / float(n) ** 6 if n < 10 ** 20 else 0.0
    return t


def gen_exact(nmax, block):
    def gen():
        for a in range(0, nmax + 1, block):
            yield [a, min(a + block - 1, nmax)]
    return gen


def check_exact(case, ctx):
    from causets.calculations import HarmonicNumberFraction, \
        HarmonicNumberFractions
    a, b = case
    E = exact_list(b)
    for n in range(a, b + 1):
        ctx.states += 1
        for _ in range(2):
            v = HarmonicNumberFraction(n)
            if not isinstance(v, Fraction) or v != E[n]:
                ctx.eq(v, E[n], 'HarmonicNumberFraction(%d)', n)
        L = HarmonicNumberFractions(n)
        if len(L) != n + 1 or list(L) != E[:n + 1] or \
                not all(isinstance(x, Fraction) for x in L):
            ctx.eq([str(x) for x in L], [str(x) for x in E[:n + 1]],
                   'HarmonicNumberFractions(%d)', n)
        ctx.transitions += n + 2
        # the list belongs to the caller
        L[n // 2] = L[-1] = Fraction(-7, 3)
        for m in {n, max(0, n - 1), n // 2}:
            L2 = HarmonicNumberFractions(m)
            if list(L2) != E[:m + 1]:
                ctx.ck(False, 'HarmonicNumberFractions(%d) changes with an '
                       'earlier answer that is changed' % m)
        if HarmonicNumberFraction(n) != E[n]:
            ctx.ck(False, 'HarmonicNumberFraction(%d) changes with an '
                   'earlier answer' % n)


def gen_big():
    for n in (255, 256, 257, 499, 500, 501, 511, 512, 513, 700, 999, 1000,
              1001, 1023, 1024, 1025, 1500, 2000, 2047, 2048, 2500, 3000):
        yield [n]


def check_big(case, ctx):
    from causets.calculations import HarmonicNumberFraction, \
        HarmonicNumberFractions
    n, = case
    E = exact_list(n)
    for rnd in range(2):
        ctx.states += 1
        if HarmonicNumberFraction(n) != E[n]:
            ctx.ck(False, 'HarmonicNumberFraction(%d) is wrong' % n)
    L = HarmonicNumberFractions(n)
    ctx.transitions += n + 1
    bad = [i for i, (a, b) in enumerate(zip(L, E)) if a != b]
    if bad or len(L) != n + 1:
        ctx.ck(False, 'HarmonicNumberFractions(%d) is wrong at %s, length %d'
               % (n, bad[:5], len(L)))
    if HarmonicNumberFraction(n // 2) != E[n // 2]:
        ctx.ck(False, 'HarmonicNumberFraction(%d) is wrong after n = %d'
               % (n // 2, n))


def gen_float(nmax, block, thresholds):
    def gen():
        for t in thresholds:
            for a in range(0, nmax + 1, block):
                yield [a, min(a + block - 1, nmax), t]
    return gen


def check_float(case, ctx):
    from causets.calculations import HarmonicNumber
    a, b, t = case
    S = scaled(b)
    kw = {} if t is None else {'approximate': t}
    thr = 100 if t is None else t
    for n in range(a, b + 1):
        h = S[n]
        v = HarmonicNumber(n, **kw)
        ctx.states += 1
        ctx.transitions += 1
        if not abs(v - h) <= tol(n, thr, h):
            ctx.ck(False, 'HarmonicNumber(%d, %s) = %r, exact %r' % (n, t, v,
                                                                     h))


def gen_vec(ns, thresholds):
    def gen():
        for n in ns:
            for t in thresholds:
                yield [n, t]
    return gen


def check_vec(case, ctx):
    from causets.calculations import HarmonicNumbers, HarmonicNumber
    n, t = case
    thr = 100 if t is None else t
    kw = {} if t is None else {'approximate': t}
    H = HarmonicNumbers(n, **kw)
    ctx.eq(np.shape(H), (n + 1,), 'shape of HarmonicNumbers(%d)', n)
    S = np.array(scaled(n))
    k = np.arange(n + 1, dtype=float)
    k[0] = 1.0
    T = 4e-14 * np.maximum(1.0, S) + np.where(np.arange(n + 1) >= thr,
                                              1.05 / 252 / k ** 6, 0.0)
    ctx.states += n + 1
    ctx.transitions += n + 1
    bad = np.flatnonzero(~(np.abs(H - S) <= T))
    if len(bad):
        i = int(bad[0])
        ctx.ck(False, 'HarmonicNumbers(%d, %s)[%d] = %r, exact %r'
               % (n, t, i, H[i], S[i]))
    for i in sorted({0, 1, thr - 1, thr, thr + 1, n // 2, n - 1, n} &
                    set(range(n + 1))):
        a = HarmonicNumber(i, **kw)
        ctx.transitions += 1
        if not abs(a - H[i]) <= 2 * tol(i, thr, S[i]):
            ctx.ck(False, 'HarmonicNumber(%d, %s) = %r, but %r in the vector '
                   'to %d' % (i, t, a, H[i], n))
    # the vector belongs to the caller
    H[...] = -1.0
    for m in sorted({n, max(0, n - 1), n // 2}):
        H2 = HarmonicNumbers(m, **kw)
        ctx.transitions += 1
        if np.shape(H2) != (m + 1,) or \
                not np.all(np.abs(H2 - S[:m + 1]) <= T[:m + 1]):
            ctx.ck(False, 'HarmonicNumbers(%d, %s) changes with an earlier '
                   'answer that is changed' % (m, t))


def gen_large():
    for e in range(1, 300):
        for m in (1, 3, 7):
            yield [m, 10, e]
    for e in range(4, 980):
        yield [1, 2, e]


def check_large(case, ctx):
    from causets.calculations import HarmonicNumber
    m, b, e = case
    for d in (-1, 0, 1):
        n = m * b ** e + d
        h = reference(n) if n > 3000 else scaled(4000)[n]
        ctx.states += 1
        kinds = [int]
        if n < 1 << 62:
            kinds.append(np.int64)
        if n < 1 << 30:
            kinds.append(np.int32)
        for kind in kinds:
            for t in (None, 10, 64):
                if kind is not int and n < (100 if t is None else t):
                    continue
                v = HarmonicNumber(kind(n), **({} if t is None
                                               else {'approximate': t}))
                ctx.transitions += 1
                T = tol(n, 10 if t is not None else 100, h)
                if not abs(v - h) <= T:
                    ctx.ck(False, 'HarmonicNumber(%s(%d), %s) = %r, exact %r'
                           % (kind.__name__, n, t, v, h))


def families(tier):
    t = tier == 'thorough'
    thr = [None, 10, 11, 12, 16, 20, 33, 50, 99, 100, 101, 128, 256, 500, 1000,
           4000] + (list(range(13, 128)) if t else [])
    vthr = list(range(10, 140)) + [None, 255, 256, 257, 1000]
    ns = list(range(0, 260, 1 if t else 3)) + [999, 1000, 1001]
    big = [100000, 70000, 46341, 65536, 65537] + ([2000000] if t else [])
    return [
        Family('fractions-large', gen_big, check_big,
               'exact values around powers of two and of ten up to 3000'),
        Family('fractions', gen_exact(600 if t else 250, 25), check_exact,
               'all n up to %d' % (600 if t else 250)),
        Family('floats', gen_float(20000 if t else 2500, 500, thr),
               check_float, 'all n up to %d for %d thresholds'
               % (20000 if t else 2500, len(thr))),
        Family('vectors', gen_vec(ns, vthr), check_vec,
               'vectors of %d lengths for %d thresholds' % (len(ns),
                                                            len(vthr))),
        Family('long', gen_vec(big, [None, 10, 100, 1000, 65536]), check_vec,
               'vectors to %s' % big),
        Family('large', gen_large, check_large, 'n around m 10^e, e < 300, '
               'and 2^e, e < 980'),
    ]
