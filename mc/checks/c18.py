'''C18: sprinkles are uniformly distributed in the region.'''
import math
from collections import Counter
from itertools import permutations
import numpy as np
from mc.core import Family
from mc import tape, geometry as geo
from mc.checks.c17 import mkshape, coords

PROPERTY = 'C18'
RULE = ('states: equally probable outcomes of the random generator: every '
        'scalar draw takes all m midpoint quantiles of its distribution, all '
        'sequences of draws of one event are explored; transitions: compared '
        'fractions; a trace is one outcome, i.e. one sprinkled event.  The '
        'events are mapped by a reference transformation that takes the '
        'uniform distribution of the region to the uniform distribution of '
        'the unit cube, where fractions of all anchored boxes (and all '
        'marginals, directions and reflections) are compared with their '
        'volume')
ASSUMPTIONS = ['m quantiles for each draw stand for its distribution; fractions '
               'are compared up to the discretisation 1/(2 m) + 0.03']

# number of quantiles for each draw, by the number of draws
M_QUICK = {1: 400, 2: 48, 3: 16, 4: 10, 5: 8, 6: 6, 7: 4, 8: 4}
M_THOROUGH = {1: 4000, 2: 400, 3: 60, 4: 24, 5: 12, 6: 8, 7: 6, 8: 4}


def shapes(dims, thorough):
    for d in dims:
        c0 = [0.0] * d
        c1 = [3.0 - 2 * i for i in range(d)]
        for name, variants in (
                ('cube', [{'edge': 2.5, 'center': c1}]),
                ('cuboid', [{'edges': [0.5 + 1.5 * i for i in range(d)],
                             'center': c1}]),
                ('ball', [{'center': c1, 'radius': 2.0},
                          {'radius': 2.0, 'hollow': 0.5, 'center': c0},
                          {'radius': 0.3, 'hollow': 0.9, 'center': c1}] +
                 ([{'radius': 30.0, 'center': c0},
                   {'radius': 2.0, 'hollow': 0.985, 'center': c0}]
                  if d < 4 else [])),
                ('bicone', [{'center': c1, 'radius': 2.0},
                            {'radius': 2.0, 'hollow': 0.5, 'center': c0},
                            {'radius': 0.3, 'hollow': 0.9, 'center': c1}] +
                 ([{'radius': 30.0, 'center': c0},
                   {'radius': 2.0, 'hollow': 0.985, 'center': c0}]
                  if d < 4 else [])),
                ('cylinder', [{'center': c1, 'radius': 2.0, 'duration': 0.7},
                              {'center': c0, 'hollow': 0.5},
                              {'radius': 0.3, 'duration': 7.0, 'hollow': 0.9,
                               'center': c1}] +
                 ([{'radius': 30.0, 'duration': 45.0, 'center': c0},
                   {'radius': 2.0, 'hollow': 0.985, 'center': c0}]
                  if d < 4 else []))):
            for kw in variants:
                if name == 'cylinder' and d == 1 and 'hollow' in kw:
                    continue
                yield [name, d, kw]


def gen(dims, thorough):
    def g():
        # expensive ones first
        M = M_THOROUGH if thorough else M_QUICK
        def cost(s):
            k = {'cube': 0, 'cuboid': 0, 'bicone': 2}.get(s[0], 1) + s[1]
            return -M.get(k, 4) ** k
        for s in sorted(shapes(dims, thorough), key=cost):
            yield s + ['sprinkle']
            if s[1] <= 2 and s[2]['center'][0] == 3.0:
                yield s + ['argument']
                yield s + ['intensify']
    return g


def boxes(F, W, div):
    '''largest difference of the fraction of an anchored box from its
    volume'''
    d = F.shape[1]
    H = 0.0
    for e in (1e-7, -1e-7):  # values at an edge count half on either side
        H = H + np.histogramdd(np.clip(F + e, 0, 1 - 1e-9), bins=[div] * d,
                               range=[(0, 1)] * d, weights=W / 2)[0]
    V = np.ones([])
    a = (np.arange(div) + 1) / div
    for k in range(d):
        H = np.cumsum(H, axis=k)
        V = np.multiply.outer(V, a)
    D = np.abs(H - V)
    return float(D.max()), np.unravel_index(int(D.argmax()), D.shape)


def upper(Y, scale):
    '''one for positive, zero for negative values and one half in the middle
    (where the sign is left to rounding)'''
    return np.where(np.abs(Y) <= 1e-7 * scale, 0.5, (Y > 0) * 1.0)


def marginal(x, W):
    o = np.argsort(x, kind='stable')
    x = x[o]
    c = np.cumsum(W[o])
    # differences at the end of each group of (nearly) equal values
    last = np.append(np.diff(x) > 1e-7, True)
    first = np.append(True, np.diff(x) > 1e-7)
    lo = np.append(0.0, c[:-1])
    return max(np.abs(c - x)[last].max(), np.abs(lo - x)[first].max())


QUARTIC = {2: 0.022, 3: 0.032, 4: 0.04, 5: 0.045}


def check(case, ctx, M):
    from causets.sprinkledcauset import SprinkledCauset
    from causets.spacetimes import FlatSpacetime
    name, d, kw, how = case
    spec = [name, d, kw]
    sh = mkshape(spec)
    S = FlatSpacetime(d)
    other = mkshape(['ball', d, {'radius': 0.25}]) if how == 'argument' else sh

    def run(t):
        C = SprinkledCauset(spacetime=S, shape=other)
        if how == 'intensify':
            e, = C.intensify(1.5, rng=t)
        elif how == 'argument':
            e, = C.sprinkle(1, rng=t, shape=sh)
        else:
            e, = C.sprinkle(1, rng=t)
        return coords(e)
    k = tape.count_draws([0.4, 0.7], run, poisson=[1])
    m = M.get(k, 4)
    X, W = [], []
    cut = 0.0
    for w, x, t in tape.explore(tape.midpoints(m), run, limit=12,
                                cap=400000, poisson=[1]):
        if x is None:
            cut += w
            continue
        X.append(x)
        W.append(w)
    ctx.states += len(X)
    ctx.count('draws of one event, summed over shapes', k)
    W = np.array(W)
    tot = W.sum()
    if tot < 0.5:
        # too many draws for an exhaustive exploration: no verdict
        ctx.count('not explored')
        return
    W = W / tot
    out = max(geo.outside_by(spec, x) for x in X[::7])
    ctx.ck(out <= 1e-9 * geo.scale(spec), 'event outside of the region by %s',
           out)
    F = np.array([geo.features(spec, x) for x in X])
    tol = 0.5 / m + 0.03
    for i in range(F.shape[1]):
        D = marginal(F[:, i], W)
        ctx.transitions += len(X)
        ctx.ck(D <= tol, '%s: feature %d of the distribution deviates by %.3f '
               'from the uniform distribution', spec, i, D)
    for div in (2, 3, 4, 8):
        if m % div:
            continue    # parts that do not fit to the quantiles
        D, at = boxes(F, W, div)
        ctx.transitions += div ** d
        ctx.ck(D <= tol, '%s: the part of the region below %s/%d has a '
               'fraction that deviates by %.3f from its volume', spec,
               [int(a) + 1 for a in at], div, D)
    # symmetry about the centre in every direction
    c = np.array(geo.params(spec)['center'])
    Y = np.array(X) - c
    ext = np.array([geo.half_extent(spec, i) for i in range(d)])
    for i in range(d):
        mean = float((Y[:, i] * W).sum() / ext[i])
        third = float((Y[:, i] ** 3 * W).sum() / ext[i] ** 3)
        ctx.ck(abs(mean) <= 0.02 and abs(third) <= 0.02,
               '%s: not symmetric in coordinate %d (mean %.3f, third moment '
               '%.3f)', spec, i, mean, third)
    U = upper(Y, geo.scale(spec))
    neg = float((W * np.prod(1 - U, axis=1)).sum())
    pos = float((W * np.prod(U, axis=1)).sum())
    ctx.ck(abs(neg - pos) <= 0.03 and abs(pos - 0.5 ** d) <= 0.04,
           '%s: fractions %.3f, %.3f of the first and last orthant', spec,
           neg, pos)
    # isotropy of the directions in space
    if name in ('ball', 'cylinder', 'bicone'):
        Z = Y if name == 'ball' else Y[:, 1:]
        q = Z.shape[1]
        if q >= 2 and m >= 6:
            r2 = (Z ** 2).sum(1)
            ok = r2 > 0
            v = float((((Z[ok] ** 4).sum(1) / r2[ok] ** 2) * W[ok]).sum()
                      / W[ok].sum())
            t = QUARTIC.get(q, 0.05)
            ctx.ck(abs(v - 3 / (q + 2)) <= t,
                   '%s: the directions are not isotropic (%.3f instead of '
                   '%.3f)', spec, v, 3 / (q + 2))
            for i in range(q):
                s = float((Z[:, i] ** 2 * W).sum() / (r2 * W).sum())
                ctx.ck(abs(s - 1 / q) <= 0.03, '%s: direction %d has %.3f of '
                       'the square radius', spec, i, s)


# --- more dimensions: the directions are sampled by few quantiles ---

def gen_high(dims):
    def g():
        for d in dims:
            for name, kw in (('bicone', {'radius': 2.0}),
                             ('bicone', {'radius': 1.5, 'hollow': 0.8}),
                             ('ball', {'radius': 2.0}),
                             ('ball', {'radius': 1.5, 'hollow': 0.8}),
                             ('cylinder', {'radius': 2.0, 'duration': 3.0}),
                             ('cylinder', {'radius': 1.5, 'hollow': 0.8})):
                kw = dict(kw, center=[1.0 - 0.5 * i for i in range(d)])
                yield [name, d, kw]
    return g


def check_high(case, ctx, total):
    from causets.sprinkledcauset import SprinkledCauset
    from causets.spacetimes import FlatSpacetime
    name, d, kw = spec = case
    sh = mkshape(spec)
    S = FlatSpacetime(d)
    c = np.array(geo.params(spec)['center'])

    def run(t):
        C = SprinkledCauset(spacetime=S, shape=sh)
        e, = C.sprinkle(1, rng=t)
        return coords(e)
    # the number of draws of each kind; the radius must not depend on the
    # normal variates, otherwise few quantiles would not represent them
    F, kinds = [], []
    for qn in ([0.4], [0.2], [0.9]):
        t = tape.Tape([0.37], (), 200)
        t.QN = qn
        F.append(geo.features(spec, run(t))[:1 if name == 'ball' else 2])
        kinds.append(t.kinds)
    if kinds[0] != kinds[1] or np.abs(np.array(F) - F[0]).max() > 1e-4:
        ctx.count('not explored')
        return
    k = kinds[0]
    u = len(k) - sum(k)
    m = int(total ** (1 / max(u, 1)) + 1e-9)
    m = min(400, m - m % 4)
    if u == 0 or m < 12:
        ctx.count('not explored')
        return

    def outcomes(Q, QN):
        X, W = [], []
        for w, x, t in tape.explore(Q, run, limit=len(k) + 8, cap=8 * total,
                                    QN=QN):
            if x is not None:
                X.append(x)
                W.append(w)
        ctx.states += len(X)
        X = np.array(X)
        out = max(geo.outside_by(spec, x) for x in X[::7])
        ctx.ck(out <= 1e-9 * geo.scale(spec), 'event outside of the region '
               'by %s', out)
        return X, np.array(W) / sum(W)
    # time and radius
    X, W = outcomes(tape.midpoints(m), [0.8])
    F = np.array([geo.features(spec, x)[:1 if name == 'ball' else 2]
                  for x in X])
    tol = 0.5 / m + 0.008
    for i in range(F.shape[1]):
        D = marginal(F[:, i], W)
        ctx.transitions += len(X)
        ctx.ck(D <= tol, '%s: feature %d of the distribution deviates by %.3f '
               'from the uniform distribution', spec, i, D)
    D, at = boxes(F, W, 4)
    ctx.ck(D <= tol, '%s: the part of the region below %s/4 has a fraction '
           'that deviates by %.3f from its volume', spec,
           [int(a) + 1 for a in at], D)
    # all orthants
    X, W = outcomes([0.25, 0.75], [0.25, 0.75])
    Y = upper(X - c, geo.scale(spec))
    for i in range(d):
        p = float((W * Y[:, i]).sum())
        ctx.ck(abs(p - 0.5) <= 0.02, '%s: fraction %.3f of coordinate %d is '
               'above the centre', spec, p, i)
        for j in range(i):
            p = float((W * Y[:, i] * Y[:, j]).sum())
            ctx.ck(abs(p - 0.25) <= 0.02, '%s: fraction %.3f of the '
                   'coordinates %d, %d is above the centre', spec, p, i, j)


# --- many events: each one depends on its own draws and on no other's ---
NQ = 1009


def gen_many(sizes):
    def g():
        for n in sizes:
            for spec in shapes((1, 2, 3, 4), False):
                kw = spec[2]
                if kw.get('radius') in (0.3, 30.0):
                    continue
                yield spec + [n, 'sprinkle' if n % 2 else 'intensify']
    return g


def check_many(case, ctx, dense):
    from causets.sprinkledcauset import SprinkledCauset
    from causets.spacetimes import FlatSpacetime

    class Loose(FlatSpacetime):
        def Causality(self):    # the relations do not matter here
            return lambda x, y: (False, False)
    name, d, kw, n, how = case
    sh = mkshape([name, d, kw])
    Q = tape.midpoints(NQ)

    def run(prefix, count):
        t = tape.Tape(Q, prefix, 10 ** 6, poisson=[0, count])
        C = SprinkledCauset(spacetime=Loose(d), shape=sh, intensity=0.0)
        t.pq = [count]
        E = C.sprinkle(count, rng=t) if how == 'sprinkle' else \
            C.intensify(3.0 + count, rng=t)
        ctx.states += 1
        return Counter(tuple(coords(e)) for e in E), len(t.taken)
    # the same outcome of all draws: the same event over and over
    for q in (101, 303, 606, 908):
        one, k = run([q] * 64, 1)
        X, K = run([q] * (64 * n), n)
        ctx.transitions += n
        x, = one
        if k <= 64 and K == n * k:
            far = max(max(abs(a - b) for a, b in zip(x, y)) for y in X)
            ctx.ck(far <= 1e-9 * geo.scale([name, d, kw]), '%s: event '
                   'depends on its index: with all draws equal it differs by '
                   '%g', case, far)
    base, K = run([], n)
    start = [(i * 387 + 5) % NQ for i in range(K + 64)]
    base, k0 = run(start, n)
    if k0 != K:
        ctx.count('not explored')   # the number of draws varies
        return
    ctx.ck(max(base.values()) == 1, '%s: %d events at the same point', case,
           max(base.values()))
    moved = Counter()
    step = 1 if n <= 9 or dense else 3 if n <= 70 else 23
    for p in range(0, K, step):
        X, k1 = run(start[:p] + [(start[p] + 504) % NQ] + start[p + 1:], n)
        if k1 != K:
            continue
        gone = base - X
        ctx.transitions += 1
        ctx.ck(sum(gone.values()) <= 1, '%s: one draw (%d of %d) moves %d '
               'events', case, p, K, sum(gone.values()))
        moved |= gone
    if step == 1:
        ctx.ck(len(moved) == n, '%s: %d events depend on no draw', case,
               n - len(moved))


def families(tier):
    t = tier == 'thorough'
    dims = (1, 2, 3, 4, 5) if t else (1, 2, 3, 4)
    M = M_THOROUGH if t else M_QUICK
    return [Family('uniform', gen(dims, t), lambda c, x: check(c, x, M),
                   'all outcomes of one event, quantiles for each draw by the '
                   'number of draws: %s' % M),
            Family('dimensions', gen_high((5, 6, 7) if t else (5, 6)),
                   lambda c, x: check_high(c, x, 400000 if t else 30000),
                   'more dimensions: time and radius from all draws that are '
                   'not normal, then all signs'),
            Family('independent', gen_many((2, 3, 9, 33, 65, 66, 130, 259)),
                   lambda c, x: check_many(c, x, t), 'several events, one draw changed at a time '
                   '(quick: every 3rd draw from 10 events on, every 23rd from '
                   '71 on), and all draws alike')]
