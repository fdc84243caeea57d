'''C24: Newton's method.'''
from itertools import product
import math
from mc.core import Family

PROPERTY = 'C24'
RULE = ('states: evaluated iterates; transitions: compared answers; a trace is '
        'one call (function, start, target, bounds, precision, number of '
        'iterations); the iterates are observed through the calls of the '
        'function and its derivative')
ASSUMPTIONS = ['a derivative within 1e-12 of, but not equal to, zero is not '
               'explored, except for scaled polynomials with known roots',
               'iterations whose step is within 1e-9 (relative) of the '
               'precision, and chaotic iterations that depend on '
               'rounding, are not compared']


def poly(c):
    return (lambda x: sum(a * x ** k for k, a in enumerate(c)),
            lambda x: sum(k * a * x ** (k - 1) for k, a in enumerate(c) if k))


TRANS = {
    'exp': (math.exp, math.exp),
    'log': (lambda x: math.log(x) if x > 0 else -1e9,
            lambda x: 1 / x if x > 0 else 1.0),
    'atan': (math.atan, lambda x: 1 / (1 + x * x)),
    'sin': (math.sin, math.cos),
    'xlog': (lambda x: x + 2 * math.log(abs(x - 1)) if x != 1 else -1e9,
             lambda x: 1 + 2 / (x - 1) if x != 1 else 1e9),
    'const': (lambda x: 2.0, lambda x: 0.0),
    'step': (lambda x: 1.0 if x > 0 else -1.0, lambda x: 0.5),
    'cbrt': (lambda x: math.copysign(abs(x) ** (1 / 3), x),
             lambda x: abs(x) ** (-2 / 3) / 3 if x else 0.0),
}


def funcs(f):
    return TRANS[f] if isinstance(f, str) else poly(f)


BOUNDS = [[None, None], [0.0, None], [None, 3.0], [-1.0, 2.0], [0.5, 0.75],
          [-10.0, -0.25]]


class Diverges(Exception):
    pass


def reference(f, fp, x, y, lo, hi, prec, itmax, jitter=0.0):
    '''the iterates, and True if the iteration settles (None: undecided)'''
    xs = [x]
    for _ in range(itmax):
        d = fp(x)
        if d == 0:
            return xs, False
        if abs(d) < 1e-12:
            return xs, None
        z = x - (f(x) - y) / d
        z += jitter * (abs(z) + abs(x))
        jitter = -jitter
        if math.isnan(z) or math.isinf(z) or abs(z) > 1e100:
            return xs, None
        if lo is not None and abs(z - lo - prec) < 1e-12 and \
                z != lo + prec or \
                hi is not None and abs(z - hi + prec) < 1e-12 and \
                z != hi - prec:
            return xs, None
        if lo is not None and z < lo + prec:
            z = lo + prec
        elif hi is not None and z > hi - prec:
            z = hi - prec
        s = abs(z - x)
        if abs(s - prec) <= 1e-9 * prec + 1e-15 * abs(z):
            return xs, None
        xs.append(z)
        if s < prec:
            return xs, True
        x = z
    return xs, False


def gen(fs, starts, ys, precs, its):
    def g():
        for f in fs:
            for x0 in starts:
                for y in ys:
                    for b in BOUNDS:
                        yield [f, x0, y, b, precs, its]
    return g


def check(case, ctx):
    from causets.calculations import NewtonsMethod
    c, x0, y, (lo, hi), precs, its = case
    f, fp = funcs(c)
    for prec in precs:
        for it in its:
            one(NewtonsMethod, c, f, fp, x0, y, lo, hi, prec, it, ctx)


def one(N, c, f, fp, x0, y, lo, hi, prec, it, ctx):
    default = -77.25
    seen, dseen = [], []

    def F(x):
        seen.append(float(x))
        return f(x)

    def D(x):
        dseen.append(float(x))
        return fp(x)
    kw = {'default': default}
    if y != 0.0:
        kw['y'] = y
    if lo is not None:
        kw['xmin'] = lo
    if hi is not None:
        kw['xmax'] = hi
    if prec is not None:
        kw['precission'] = prec
    if it is not None:
        kw['maxIterations'] = it
    P = 1e-6 if prec is None else prec
    IT = 50 if it is None else it
    try:
        xs, settled = reference(f, fp, x0, y, lo, hi, P, IT)
        # rounding must not matter (chaotic iterations)
        for j in (1e-14, -3e-14, 5e-15, -2e-15, 1e-13) if len(xs) > 12 \
                else (1e-14,):
            ys, again = reference(f, fp, x0, y, lo, hi, P, IT, j)
            if again != settled or len(xs) != len(ys) or \
                    abs(xs[-1] - ys[-1]) > P:
                settled = None
                break
    except (OverflowError, ZeroDivisionError):
        return
    if settled is None:
        ctx.count('undecided')
        return
    what = 'Newton(%s, x0=%s, %s)' % (c, x0, kw)
    r = float(N(F, D, x0, **kw))
    ctx.states += len(xs)
    ctx.transitions += 4
    # number of iterations and range
    its = len(set(dseen) | set(seen))
    if its > max(IT, 1) or IT == 0 and (dseen or seen):
        ctx.ck(False, '%s evaluates at %d points' % (what, its))
    for x in seen + dseen + ([r] if r != default else []):
        if x != x0 and (lo is not None and x < lo or
                        hi is not None and x > hi):
            ctx.ck(False, '%s has the iterate %s' % (what, x))
    if not settled:
        if r != default:
            ctx.ck(False, '%s = %s, but the iteration does not settle: %s'
                   % (what, r, xs[-4:]))
        return
    if r == default:
        ctx.ck(False, '%s returns the default, but the iteration settles: %s'
               % (what, xs[-4:]))
    if not abs(r - xs[-1]) <= 2 * P + 1e-9 * abs(r):
        ctx.ck(False, '%s = %s, but the iteration settles at %s'
               % (what, r, xs[-4:]))
    near = (dseen or seen)[-1]
    if not abs(r - near) < P * (1 + 1e-9):
        ctx.ck(False, '%s = %s after the iterate %s' % (what, r, near))
    # the value solves the equation, unless it lies at a bound
    if lo is not None and r <= lo + P * 1.0001 or \
            hi is not None and r >= hi - P * 1.0001:
        ctx.count('settled at a bound')
        return
    d = fp(r)
    if abs(d) > 0.05 and c != 'step':
        res = abs(f(r) - y)
        # the step from the last iterate was shorter than the precision
        if not res <= 20 * P * max(1.0, abs(d)):
            ctx.ck(False, '%s = %s does not solve the equation: %s' % (
                what, r, res))
        ctx.count('solved')


# --- roots that are known ----------------------------------------------------

def gen_roots():
    R = [-2.0, -1.25, -0.5, 0.0, 0.3, 1.0, 1.75, 3.0]
    for a in R:
        yield [[a], a]
        for b in R:
            if b > a:
                yield [[a, b], a]
                yield [[a, b], b]
                for c in R:
                    if c > b:
                        for t in (a, b, c):
                            yield [[a, b, c], t]


def check_roots(case, ctx):
    '''polynomials with simple roots, started close to each root, and within
    bounds that isolate it'''
    from causets.calculations import NewtonsMethod
    roots, t = case

    def f(x):
        v = 1.0
        for r in roots:
            v *= x - r
        return v

    def fp(x):
        s = 0.0
        for i in range(len(roots)):
            v = 1.0
            for j, r in enumerate(roots):
                if j != i:
                    v *= x - r
            s += v
        return s
    gap = min([abs(t - r) for r in roots if r != t] or [4.0])
    for y in (0.0, 1.5, -2.0):
        for s in (-0.2, -0.05, 0.0, 0.05, 0.2):
            for lo, hi in ((-math.inf, math.inf), (t - gap / 2, math.inf),
                           (-math.inf, t + gap / 2),
                           (t - gap / 2, t + gap / 2)):
                for k in (1.0, 1e-14, 1e9):  # scaled functions
                    r = NewtonsMethod(lambda x: (f(x) + y) * k,
                                      lambda x: fp(x) * k, t + s * gap, y * k,
                                      xmin=lo, xmax=hi, default=999.0)
                    ctx.states += 1
                    ctx.transitions += 1
                    if not abs(r - t) <= 1e-5:
                        ctx.ck(False, '%s times the polynomial with roots %s, '
                               'start %s, bounds %s, %s: result %s' % (
                                   k, roots, t + s * gap, lo, hi, r))


def families(tier):
    t = tier == 'thorough'
    C = (-2, -1, 0, 1, 2) if t else (-1, 0, 2)
    polys = [list(c) for c in product(C, repeat=4)] + \
        [list(c) for c in product((-3, -1, 1, 2), repeat=3)]
    starts = [-3.0, -1.0, -0.3, 0.0, 0.6, 1.0, 2.5]
    ys = [0.0, -1.5, 2.0]
    return [
        Family('polynomials', gen(polys, starts, ys, [None, 1e-3, 1e-9],
                                  [None, 0, 1, 2, 5, 200]), check,
               'all polynomials up to degree 3 with coefficients %s' % (C,)),
        Family('functions', gen(list(TRANS), starts + [0.05, 1.5, 7.0],
                                ys + [0.5, 10.0],
                                [None, 1e-2, 1e-4, 1e-10],
                                [None, 0, 1, 2, 3, 4, 5, 10, 100]), check,
               'transcendental, constant and discontinuous functions'),
        Family('roots', gen_roots, check_roots, 'all sets of up to 3 of 8 '
               'roots, start within 20 % of the distance to the next root'),
    ]
