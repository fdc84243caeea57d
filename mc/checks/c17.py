'''C17: sprinkling creates the exact number of events inside the region.'''
from collections import Counter
from itertools import product
import numpy as np
from mc.core import Family, Violation
from mc import tape, geometry as geo, lightcone as lc
from mc.impl import reset

PROPERTY = 'C17'
RULE = ('states: outcomes of the random generator (all sequences of quantiles '
        'from a finite alphabet, including extreme ones); transitions: '
        'compared answers; a trace is one sprinkle, or one history')
ASSUMPTIONS = ['outcomes of probability zero (a uniform number that is exactly '
               '0, normal numbers that are all exactly 0) are not explored',
               'the boundary of the region is tested up to 1e-10 relative to '
               'the coordinate size']


def shapes(dims, thorough=False):
    for d in dims:
        cs = [[0.0] * d, [3.0 - 2 * i for i in range(d)],
              [-40.0 + 13 * i for i in range(d)],
              [1e5 + 0.3 * i for i in range(d)]]
        for ci, c in enumerate(cs):
            for name, variants in (
                    ('cube', [{}, {'edge': 2.5}, {'edge': 60.0},
                              {'edge': 0.01}]),
                    ('cuboid', [{}, {'edges': [0.5 + 1.5 * i
                                               for i in range(d)]}]),
                    ('ball', [{}, {'radius': 2.0, 'hollow': 0.5},
                              {'radius': 0.3, 'hollow': 0.9},
                              {'radius': 2.0, 'hollow': 0.985},
                              {'radius': 25.0, 'hollow': 0.05}]),
                    ('bicone', [{}, {'radius': 2.0, 'hollow': 0.5},
                                {'radius': 0.3, 'hollow': 0.9},
                                {'radius': 2.0, 'hollow': 0.985},
                                {'radius': 25.0, 'hollow': 0.05}]),
                    ('diamond', [{'radius': 1.5}, {'radius': 40.0}]),
                    ('cylinder', [{}, {'radius': 2.0, 'duration': 1.0,
                                       'hollow': 0.5},
                                  {'radius': 0.3, 'duration': 7.0,
                                   'hollow': 0.9},
                                  {'radius': 2.0, 'hollow': 0.985},
                                  {'radius': 25.0, 'duration': 90.0,
                                   'hollow': 0.05}])):
                for kw in variants:
                    if name == 'cylinder' and d == 1 and 'hollow' in kw:
                        continue    # an empty region
                    if ci == 2 and not kw or ci == 3 and (
                            d > 2 or kw.get('radius', 1.0) > 1.5 or
                            kw.get('edge', 0.0) > 1.0):
                        continue
                    yield [name, d, dict(kw, center=c)]


def mkshape(spec):
    from causets.shapes import CoordinateShape
    name, d, kw = spec
    return CoordinateShape(d, name, **kw)


def coords(e):
    return tuple(float(c) for c in e.Coordinates)


def inside(spec, e, ctx, tag=''):
    x = coords(e)
    ctx.eq(len(x), spec[1], '%sdimension of the coordinates', tag)
    out = geo.outside_by(spec, x)
    ctx.transitions += 1
    if not out <= 1e-10 * geo.scale(spec):
        ctx.ck(False, '%sevent at %s is outside of %s by %s', tag, x, spec,
               out)


# --- one event, every outcome ------------------------------------------------

def gen_single(dims, thorough):
    def gen():
        for s in shapes(dims, thorough):
            yield s + ['own']
            if s[2]['center'][0] == 3.0:
                yield s + ['arg']
                yield s + ['intensify']
                yield s + ['intensify-arg']
    return gen


def alphabet(run, budget):
    k = tape.count_draws(tape.EXTREME, run, poisson=[1])
    for Q in (tape.EXTREME, tape.EXTREME4, tape.EXTREME3):
        if len(Q) ** k <= budget:
            return Q
    return tape.EXTREME3[:2]


def check_single(case, ctx, budget=4100):
    from causets.sprinkledcauset import SprinkledCauset
    from causets.spacetimes import FlatSpacetime
    name, d, kw, how = case
    spec = [name, d, kw]
    sh = mkshape(spec)
    M = FlatSpacetime(d)
    other = mkshape(['cube', d, {'edge': 0.25}])

    def run(t):
        C = SprinkledCauset(spacetime=M, shape=other if 'arg' in how else sh)
        if how.startswith('intensify'):
            got = C.intensify(2.75, rng=t, **({'shape': sh} if 'arg' in how
                                              else {}))
            ctx.eq(t.lams, [2.75], 'parameter of the Poisson distribution')
            ctx.eq(C.Intensity, 2.75, 'Intensity')
        elif how == 'arg':
            got = C.sprinkle(1, rng=t, shape=sh)
        else:
            got = C.sprinkle(1, rng=t)
        if len(got) != 1 or C.Card != 1:
            ctx.eq((len(got), C.Card), (1, 1), 'number of events')
        e = next(iter(got))
        ctx.ck(e in C, 'not contained')
        return coords(e)
    Q = alphabet(run, budget)
    first = None
    for w, x, t in tape.explore(Q, run, poisson=[1]):
        ctx.states += 1
        if x is None:
            ctx.count('cut off')
            continue
        out = geo.outside_by(spec, x)
        ctx.transitions += 1
        if not out <= 1e-10 * geo.scale(spec):
            ctx.ck(False, 'event at %s is outside of %s by %s (quantiles %s)',
                   x, spec, out, [Q[k] if k < len(Q) else k
                                  for k in t.taken])
        if first is None:
            first = (x, list(t.taken))
    ctx.count('outcomes', 1)
    # the same outcomes give the same event
    t = tape.Tape(Q, first[1], poisson=[1])
    ctx.eq(run(t), first[0], 'repetition with the same outcomes')


# --- several events: independent, exactly n ----------------------------------

def gen_multi(dims):
    def gen():
        for s in shapes(dims):
            if s[2]['center'][0] == 3.0:
                yield s + [2]
                yield s + [0]
                yield s + [3]
    return gen


def check_multi(case, ctx):
    from causets.sprinkledcauset import SprinkledCauset
    from causets.spacetimes import FlatSpacetime
    name, d, kw, n = case
    spec = [name, d, kw]
    sh = mkshape(spec)
    M = FlatSpacetime(d)
    o = lc.flat

    def sprinkle(n):
        tol = 1e-11 + 1e-11 * geo.scale(spec) * max(
            geo.half_extent(spec, k) for k in range(d))

        def run(t):
            C = SprinkledCauset(spacetime=M, shape=sh)
            got = C.sprinkle(n, rng=t)
            if len(got) != n or C.Card != n or set(got) != set(C):
                ctx.eq((len(got), C.Card), (n, n), 'number of events')
            if C.Intensity != n:
                ctx.eq(C.Intensity, float(n), 'Intensity')
            es = sorted(got, key=lambda e: e.Label)
            if [e.Label for e in es] != list(range(1, n + 1)):
                ctx.eq([e.Label for e in es], list(range(1, n + 1)), 'labels')
            xs = [coords(e) for e in es]
            for i in range(n):
                for j in range(i):
                    rel, m = o(xs[j], xs[i])
                    if rel != 2 and abs(m) < tol:
                        continue
                    ab = (es[j] < es[i], es[i] < es[j])
                    ctx.transitions += 1
                    if (rel == 2 and ab[0] == ab[1]) or (
                            rel != 2 and ab != (rel == -1, rel == 1)):
                        ctx.ck(False, 'relation of %s, %s is %s', xs[j], xs[i],
                               ab)
            return tuple(sorted(xs))
        return run
    if n == 0:
        t = tape.Tape(tape.EXTREME)
        ctx.eq(sprinkle(0)(t), (), 'no events')
        ctx.states += 1
        return
    Q = [0.2, 0.85]
    k = tape.count_draws(Q, sprinkle(1))
    if 2 ** (k * n) > 5000:
        n = 2
    if 2 ** (k * n) > 5000:
        return
    one = Counter()
    for w, x, t in tape.explore(Q, sprinkle(1)):
        if x is None:
            ctx.count('cut off')
            return
        one[x[0]] += w
    many = Counter()
    for w, x, t in tape.explore(Q, sprinkle(n)):
        if x is None:
            ctx.count('cut off')
            return
        ctx.states += 1
        many[x] += w
    want = Counter()
    for combo in product(one.items(), repeat=n):
        w = 1.0
        for _, q in combo:
            w *= q
        want[tuple(sorted(x for x, _ in combo))] += w
    ctx.transitions += len(want)
    if set(want) != set(many) or any(abs(want[x] - many[x]) > 1e-9
                                     for x in want):
        ctx.ck(False, 'the %d events of one sprinkle in %s are not '
               'independent' % (n, spec))


# --- histories of the intensity ----------------------------------------------

OPS = ['s0', 's1', 's3', 'sh', 'i0', 'i1', 'i2', 'ih', 's-', 'i-', 'c1', 'c2', 'cn',
       'a1', 'a2', 'ao', 'd1', 'd2', 'df', 'dA', 'i3', 'ci']


def gen_hist(depths, specs):
    def gen():
        for k, depth in zip(specs, depths):
            for d in range(1, depth + 1):
                for ops in product(range(len(OPS)), repeat=d):
                    yield [k, [OPS[o] for o in ops]]
    return gen


HSPECS = [['bicone', 2, {'radius': 1.5, 'hollow': 0.3, 'center': [2.0, 1.0]}],
          ['cylinder', 3, {'radius': 2.0, 'duration': 1.0,
                           'center': [0.0, -5.0, 1.0]}],
          ['cube', 4, {'edge': 0.5}],
          ['ball', 1, {'radius': 4.0}]]


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(b))


def check_hist(case, ctx):
    from causets.sprinkledcauset import SprinkledCauset
    from causets.causetevent import CausetEvent
    from causets.spacetimes import FlatSpacetime
    k, ops = case
    spec = HSPECS[k]
    d = spec[1]
    sh = mkshape(spec)
    sub = [spec[0], d, {'center': [9.0] * d}]
    reset()
    M = FlatSpacetime(d)
    C = SprinkledCauset(spacetime=M, shape=sh)
    V = geo.volume(spec)
    I = 0.0
    evs = []
    # a fixed, irregular sequence of outcomes for the positions
    Q = tape.midpoints(8)
    pre = [(3 * i * i + 5 * i) % 8 for i in range(400)]
    used = 0
    for pos, op in enumerate(ops):
        tag = 'after %s: ' % ops[:pos + 1]
        old = set(map(id, evs))
        t = tape.Tape(Q, pre[used:], 400, poisson={
            'i0': [0], 'i1': [1], 'i2': [3], 'i3': [0]}.get(op, [2]))
        new, region = None, spec
        if op == 's-':
            for n in (-1, -5):
                ctx.raises(ValueError, lambda: C.sprinkle(n, rng=t),
                           '%ssprinkle(%d)' % (tag, n))
            ctx.eq(t.calls, 0, '%sdraws of a rejected sprinkle', tag)
        elif op == 'i-':
            for x in (-0.25, -3.0):
                ctx.raises(ValueError, lambda: C.intensify(x, rng=t),
                           '%sintensify(%s)' % (tag, x))
        elif op == 'sh':
            new, n, region = C.sprinkle(2, rng=t, shape=mkshape(sub)), 2, sub
            I += 2
        elif op == 'ih':
            new, n, region = C.intensify(1.25, rng=t, shape=mkshape(sub)), 2, sub
            ctx.eq(t.lams, [1.25], '%sPoisson parameter', tag)
            I += 1.25
        elif op[0] == 's':
            n = int(op[1])
            new = C.sprinkle(n, rng=t)
            I += n
        elif op[0] == 'i':
            lam = {'i0': 0.0, 'i1': 2.5, 'i2': 1.75, 'i3': 0.5}[op]
            n = {'i0': 0, 'i1': 1, 'i2': 3, 'i3': 0}[op]
            new = C.intensify(lam, rng=t)
            I += lam
            ctx.eq(t.lams, [lam], '%sPoisson parameter', tag)
        elif op[0] == 'c':
            n = 1 if op == 'c1' else 2
            rows = [[0.5 * i + pos] + [0.25 * pos] * (d - 1)
                    for i in range(n)]
            if op == 'ci':      # any iterable
                got = C.create((np.array(r) for r in rows))
            else:
                got = C.create(rows, **({'relate': False} if op == 'cn'
                                        else {}))
            ctx.eq(sorted(coords(e) for e in got), sorted(map(tuple, rows)),
                   '%screated coordinates', tag)
            evs += list(got)
            I += n
        elif op in ('a1', 'a2'):
            n = int(op[1])
            es = [CausetEvent(label='x%d' % i,
                              coordinates=[0.1 * pos + i] + [0.0] * (d - 1))
                  for i in range(n)]
            C.add(es + evs[:1])
            evs += es
            I += n
        elif op == 'ao':
            C.add(evs)
        elif op in ('d1', 'd2', 'dA'):
            m = {'d1': 1, 'd2': 2, 'dA': len(evs)}[op]
            m = min(m, len(evs))
            if evs:
                I *= (len(evs) - m) / len(evs)
            C.discard(evs[:m])
            evs = evs[m:]
        elif op == 'df':
            C.discard([CausetEvent(label='f')])
        used += len(t.taken)
        if new is not None:
            got = set(map(id, new))
            ctx.eq(len(got), n, '%snumber of new events', tag)
            ctx.ck(not got & old, tag + 'an old event is returned')
            for e in new:
                inside(region, e, ctx, tag)
            evs += list(new)
            if evs:
                xs = {id(e): coords(e) for e in evs}
                for i, a in enumerate(evs):
                    for b in evs[i + 1:]:
                        rel, m = lc.flat(xs[id(a)], xs[id(b)])
                        if rel == 2 or m < 1e-4:
                            continue
                        ab = (a < b, b < a)
                        if ab != (rel == -1, rel == 1):
                            ctx.ck(False, '%srelation of events at %s and %s '
                                   'is %s', tag, xs[id(a)], xs[id(b)], ab)
        ctx.states += 1
        ctx.eq(set(map(id, C)), set(map(id, evs)), '%sevents', tag)
        ctx.ck(close(C.Intensity, I), '%sIntensity is %s instead of %s', tag,
               C.Intensity, I)
        ctx.ck(abs(C.Density - I / V) <= 1e-9 * max(1.0, I / V),
               '%sDensity is %s instead of %s', tag, C.Density, I / V)
        if I > 0:
            l = (V / I) ** (1 / d)
            ctx.ck(abs(C.LengthScale - l) <= 1e-9 * max(1.0, l),
                   '%sLengthScale is %s instead of %s', tag, C.LengthScale, l)


# --- many events -------------------------------------------------------------

def gen_many():
    for k in range(len(HSPECS)):
        for n in (65, 130, 257) + ((515,) if k == 0 else ()):
            yield [k, n]


def check_many(case, ctx):
    from causets.sprinkledcauset import SprinkledCauset
    from causets.spacetimes import FlatSpacetime
    k, n = case
    spec = HSPECS[k]
    d = spec[1]
    V = geo.volume(spec)
    Q = tape.midpoints(64)
    pre = [(37 * i * i + 11 * i + i // 64) % 64 for i in range(60000)]

    def rng(poisson=None):
        return tape.Tape(Q, pre, 60000, poisson=poisson)
    for how in ('sprinkle', 'intensify'):
        reset()
        C = SprinkledCauset(spacetime=FlatSpacetime(d), shape=mkshape(spec))
        if how == 'sprinkle':
            new = C.sprinkle(n, rng=rng())
        else:
            t = rng([n])
            new = C.intensify(n + 0.5, rng=t)
            ctx.eq(t.lams, [n + 0.5], 'Poisson parameter')
        I = n if how == 'sprinkle' else n + 0.5
        es = sorted(new, key=lambda e: e.Label)
        ctx.eq(len(es), n, '%s: number of events', how)
        ctx.eq({id(e) for e in C}, {id(e) for e in es}, 'events')
        ctx.eq([e.Label for e in es], list(range(1, n + 1)), 'labels')
        for e in es:
            inside(spec, e, ctx)
        xs = [coords(e) for e in es]
        ctx.states += n
        for i in range(n):
            for j in range(i % 3, i, 1 + n // 200):
                rel, m = lc.flat(xs[j], xs[i])
                if rel == 2 or m < 1e-4:
                    continue
                ab = (es[j] < es[i], es[i] < es[j])
                if ab != (rel == -1, rel == 1):
                    ctx.ck(False, '%s of %d: relation of events at %s and %s '
                           'is %s', how, n, xs[j], xs[i], ab)
                ctx.transitions += 1
        for m in (0, n // 3, 1):
            if m:
                C.discard(es[:m])
                I *= (len(es) - m) / len(es)
                es = es[m:]
            ctx.ck(close(C.Intensity, I), 'Intensity is %s instead of %s',
                   C.Intensity, I)
            ctx.ck(abs(C.Density - I / V) <= 1e-9 * max(1.0, I / V),
                   'Density is %s instead of %s', C.Density, I / V)
        got = C.sprinkle(70, rng=rng())
        ctx.eq((len(got), C.Card), (70, len(es) + 70), 'further events')
        ctx.ck(not {id(e) for e in got} & {id(e) for e in es}, 'old events')
        got = list(got)
        for a in got[::7]:
            x = coords(a)
            inside(spec, a, ctx)
            for b in es[::5] + got[::5]:
                rel, m = lc.flat(x, coords(b))
                if rel == 2 or m < 1e-4 or a is b:
                    continue
                ctx.ck((a < b, b < a) == (rel == -1, rel == 1), 'relation of '
                       'an event of another sprinkle at %s and one at %s', x,
                       coords(b))
                ctx.transitions += 1
        ctx.ck(close(C.Intensity, I + 70), 'Intensity is %s instead of %s',
               C.Intensity, I + 70)


# --- thousands of events, without relations ----------------------------------

def gen_thousands():
    for k in range(len(TSPECS)):
        for n in (1030, 2100):
            yield [k, n]


TSPECS = [['bicone', 2, {'radius': 1.5, 'center': [2.0, 1.0]}],
          ['ball', 3, {'radius': 0.75, 'hollow': 0.5}],
          ['bicone', 3, {'radius': 2.0, 'hollow': 0.25}],
          ['cylinder', 3, {'radius': 2.0, 'duration': 1.0}],
          ['cube', 2, {'edge': 2.0}],
          ['cuboid', 4, {'edges': [1.0, 2.0, 0.5, 3.0]}]]


def check_thousands(case, ctx):
    from causets.sprinkledcauset import SprinkledCauset
    from causets.spacetimes import FlatSpacetime
    k, n = case
    spec = TSPECS[k]
    no = (False, False)

    class Unrelated(FlatSpacetime):
        def Causality(self):
            return lambda x, y: no
    Q = tape.midpoints(64)
    pre, x = [], 1
    for i in range(20 * n):  # a fixed tape without short period
        x = (1103515245 * x + 12345) & 0x7fffffff
        pre.append((x >> 16) % 64)
    for how in ('sprinkle', 'intensify'):
        reset()
        C = SprinkledCauset(spacetime=Unrelated(spec[1]), shape=mkshape(spec))
        t = tape.Tape(Q, pre, 20 * n, poisson=[n])
        new = C.sprinkle(n, rng=t) if how == 'sprinkle' else \
            C.intensify(n + 0.5, rng=t)
        es = sorted(new, key=lambda e: e.Label)
        ctx.eq((len(es), C.Card), (n, n), '%s: number of events', how)
        ctx.eq([e.Label for e in es], list(range(1, n + 1)), 'labels')
        ctx.states += n
        seen = set()
        for e in es:
            inside(spec, e, ctx)
            seen.add(tuple(coords(e)))
        # the outcomes vary, and with them the events
        ctx.ck(len(seen) > n // 2, '%s of %d events: only %d positions', how,
               n, len(seen))
        I = n if how == 'sprinkle' else n + 0.5
        ctx.ck(close(C.Intensity, I), 'Intensity is %s instead of %s',
               C.Intensity, I)


# --- spacetimes and constructor ----------------------------------------------

SPACES = [('flat', 2, None), ('flat', 3, 2), ('flat', 4, None),
          ('dS', 2, 1.5), ('dS', 3, 2.0), ('AdS', 2, 1.0), ('AdS', 3, 2.0),
          ('EF', 2, 1.0), ('S', 2, 2.0)]


def gen_spaces():
    for s in range(len(SPACES)):
        for n in (1, 2, 3):
            yield [s, n]


def check_spaces(case, ctx):
    '''default regions and causality of the spacetimes'''
    from causets.sprinkledcauset import SprinkledCauset
    s, n = case
    kind, dim, par = SPACES[s]
    M = lc.make(kind, dim, par)
    per = None if par is None else ([par] * (dim - 1) if kind == 'flat'
                                    else par)
    o = lc.of(kind, per)
    Q = [0.15, 0.4, 0.9]
    sh = M.DefaultShape()
    kw = {'center': [float(c) for c in sh.Center]}
    for key in ('radius', 'hollow', 'duration', 'edge', 'edges'):
        try:
            v = sh.Parameter(key)
            kw[key] = [float(x) for x in v] if key == 'edges' else float(v)
        except KeyError:
            pass
    spec = [sh.Name, dim, kw]

    def run(t):
        C = SprinkledCauset(spacetime=M)
        got = C.sprinkle(n, rng=t)
        if len(got) != n:
            ctx.eq(len(got), n, 'number of events')
        es = list(got)
        xs = [coords(e) for e in es]
        for i in range(n):
            inside(spec, es[i], ctx)
            for j in range(i):
                rel, m = o(xs[j], xs[i])
                if rel == 2 or m < 1e-5:
                    continue
                ab = (es[j] < es[i], es[i] < es[j])
                ctx.transitions += 1
                if ab != (rel == -1, rel == 1):
                    ctx.ck(False, '%s: relation of %s, %s is %s', SPACES[s],
                           xs[j], xs[i], ab)
        return xs
    k = 0
    for w, x, t in tape.explore(Q, run, cap=None if n == 1 else 1500):
        ctx.states += 1


def gen_ctor():
    for s in shapes((1, 2, 3, 4)):
        if s[2]['center'][0] == 3.0:
            for card in (0, 1, 2, 7, 101):
                yield ['card', s, card]
                yield ['card', s, card, 5.0]
            for x in (0.0, 0.5, 3.0):
                yield ['intensity', s, x]
    for x in (-0.5, -1e-9, -4.0):
        yield ['negative', None, x]


def check_ctor(case, ctx):
    from causets.sprinkledcauset import SprinkledCauset
    kind, spec, x = case[:3]
    ctx.states += 1
    if kind == 'negative':
        ctx.raises(ValueError, lambda: SprinkledCauset(intensity=x),
                   'negative intensity')
        return
    sh = mkshape(spec)
    before = np.random.get_state()[1].tolist()
    kw = {kind: x}
    if len(case) > 3 and x:     # the number of events decides
        kw['intensity'] = case[3]
    C = SprinkledCauset(shape=sh, **kw)
    ctx.eq(np.random.get_state()[1].tolist(), before,
           'state of the global generator')
    if kind == 'card':
        ctx.eq(C.Card, x, 'Card')
    ctx.eq(C.Intensity, float(x), 'Intensity')
    ctx.eq(C.Dim, spec[1], 'Dim')
    for e in C:
        inside(spec, e, ctx)


# --- rejected requests -------------------------------------------------------

def requests(C, d):
    """(name, call) of requests that cannot be satisfied"""
    for d2 in (1, 2, 3, 4):
        if d2 == d:
            continue
        for name in ('cube', 'ball', 'bicone', 'cylinder', 'cuboid'):
            sh = mkshape([name, d2, {}])
            for n in (0, 1, 3):
                yield ['sprinkle', name, d2, n], (
                    lambda: C.sprinkle(n, shape=sh)), ValueError
            for x in (0.0, 2.5):
                yield ['intensify', name, d2, x], (
                    lambda: C.intensify(x, shape=sh)), ValueError
            yield ['sprinkle', name, d2, -1], (
                lambda: C.sprinkle(-1, shape=sh)), ValueError
    for n in (-1, -2, -100):
        yield ['sprinkle', n], lambda: C.sprinkle(n), ValueError
    for x in (-0.5, -1e-12, -100.0, float('-inf'), float('nan'),
              float('inf')):
        yield ['intensify', x], lambda: C.intensify(x), ValueError


def gen_rejected():
    for k in range(len(HSPECS)):
        for pre in (0, 1, 3):
            yield [k, pre]


def check_rejected(case, ctx):
    from causets.sprinkledcauset import SprinkledCauset
    from causets.spacetimes import FlatSpacetime
    k, pre = case
    spec = HSPECS[k]
    d = spec[1]
    C = SprinkledCauset(spacetime=FlatSpacetime(d), shape=mkshape(spec))
    if pre:
        C.sprinkle(pre)
        C.create([[0.25] * d])
    ev = list(C)
    I = float(len(ev))
    V = geo.volume(spec)
    rel = [a < b for a in ev for b in ev]
    for what, f, exc in requests(C, d):
        ctx.states += 1
        ctx.raises(exc, f, '%s' % what)
        ctx.eq({id(e) for e in C}, {id(e) for e in ev},
               'events after the rejected %s', what)
        ctx.ck(close(C.Intensity, I), 'Intensity is %s instead of %s after '
               'the rejected %s', C.Intensity, I, what)
        ctx.ck(abs(C.Density - I / V) <= 1e-9 * max(1.0, I / V),
               'Density %s after the rejected %s', C.Density, what)
        ctx.eq([a < b for a in ev for b in ev], rel,
               'relations after the rejected %s', what)
    got = C.sprinkle(2)
    ctx.eq((len(got), C.Card), (2, len(ev) + 2), 'next sprinkle')
    ctx.ck(close(C.Intensity, I + 2), 'Intensity after the next sprinkle')


def families(tier):
    t = tier == 'thorough'
    dims = (1, 2, 3, 4)
    bud = 60000 if t else 1100
    return [
        Family('outcomes', gen_single(dims + ((5,) if t else ()), t),
               lambda c, x: check_single(c, x, bud),
               'one event: all sequences of outcomes from alphabets of 3 to 5 '
               'quantiles including 1e-12 and 1 - 1e-12 for every scalar '
               'draw, at most %d per shape' % bud),
        Family('several', gen_multi((1, 2, 3)), check_multi,
               'up to 3 events: all outcomes from two quantiles for every '
               'draw; the events are independent'),
        Family('histories', gen_hist((3, 3, 2, 2) if not t else (4, 3, 3, 3),
                                     (0, 1, 2, 3)), check_hist,
               'every sequence of the operations %s' % OPS),
        Family('many', gen_many, check_many,
               'up to 515 events at once, fixed outcomes'),
        Family('thousands', gen_thousands, check_thousands,
               'up to 2100 events at once, without relations'),
        Family('spacetimes', gen_spaces, check_spaces,
               'default regions of 9 spacetimes, 3 quantiles for every draw '
               '(the first 1500 sequences for two and three events)'),
        Family('rejected', gen_rejected, check_rejected,
               'negative and not finite numbers, shapes of a different '
               'dimension'),
        Family('constructor', gen_ctor, check_ctor,
               'all shapes of the list, several counts and intensities'),
    ]
