'''C19: shape volumes, limits and validation match the geometry.'''
from itertools import combinations, permutations, product
import math
import numpy as np
from mc.core import Family
from mc import geometry as geo

PROPERTY = 'C19'
RULE = ('states: shapes; transitions: compared answers; a trace is one shape '
        'with all its queries, or one combination of constructor arguments')
ASSUMPTIONS = ['numbers are compared up to 1e-11 (relative)',
               'NaN and infinity as parameters, and the (empty) hollow '
               'cylinder without space dimensions are excluded']

RADII = (0.25, 1.0, 2.5)
HOLLOWS = (None, 0.0, 0.1, 0.5, 0.9)
DURATIONS = (None, 0.5, 2.0, 7.0)
EDGES = (0.25, 1.0, 3.0)


def centers(d):
    yield None
    yield [1.5 - 2.0 * i for i in range(d)]
    yield [-30.0 + 7.1 * i for i in range(d)]


def specs(dims):
    for d in dims:
        for c in centers(d):
            ck = {} if c is None else {'center': c}
            for name in ('ball', 'bicone', 'diamond', 'cylinder'):
                for r in (None,) + RADII:
                    for h in HOLLOWS:
                        for u in DURATIONS if name == 'cylinder' else (None,):
                            if name == 'cylinder' and d == 1 and h:
                                continue
                            kw = dict(ck)
                            for k, v in (('radius', r), ('hollow', h),
                                         ('duration', u)):
                                if v is not None:
                                    kw[k] = v
                            yield [name, d, kw]
            for e in (None,) + EDGES:
                yield ['cube', d, dict(ck, **({} if e is None
                                              else {'edge': e}))]
            yield ['cuboid', d, dict(ck)]
            for es in product(EDGES, repeat=d) if d <= 4 else ():
                yield ['cuboid', d, dict(ck, edges=list(es))]


def extremes():
    '''far centres, very small and large or thin regions'''
    for d in (1, 2, 3, 4, 6):
        for c in ([16777217.0 - 0.1 * i for i in range(d)],
                  [-1e5 + 0.7 * i for i in range(d)]):
            for name in ('ball', 'bicone', 'cylinder'):
                for r in (0.01, 3e7):
                    for h in (None, 0.999999):
                        if name == 'cylinder' and d == 1 and h:
                            continue
                        kw = {'center': c, 'radius': r}
                        if h:
                            kw['hollow'] = h
                        yield [name, d, kw]
                        if name == 'cylinder':
                            yield [name, d, dict(kw, duration=1e-3)]
            yield ['cube', d, {'center': c, 'edge': 0.003}]
            yield ['cuboid', d, {'center': c, 'edges': [
                [0.003, 1e6, 0.7][i % 3] for i in range(d)]}]
        for r in (1e-12, 1e-3, 1e9):
            for name in ('ball', 'bicone', 'cylinder'):
                yield [name, d, {'radius': r}]
            yield ['cube', d, {'edge': r}]
            yield ['cuboid', d, {'edges': [r * (1 + i) for i in range(d)]}]


def shape(spec, conv=None):
    from causets.shapes import CoordinateShape
    name, d, kw = spec
    kw = dict(kw)
    if conv is not None:
        for k in ('center', 'edges'):
            if k in kw:
                kw[k] = conv(kw[k])
    return CoordinateShape(d, name, **kw)


def close(a, b, scale=0.0, tol=1e-11):
    return abs(float(a) - b) <= tol * max(scale, abs(b))


def check_shape(spec, ctx):
    name, d, kw = spec
    given = {k: (list(v) if isinstance(v, list) else v)
             for k, v in kw.items()}
    conv = [None, tuple, np.array][(d + len(kw)) % 3]
    S = shape(spec, conv)
    ctx.states += 1
    ctx.eq(kw, given, 'arguments modified')
    p = geo.params(spec)
    ctx.eq(S.Dim, d, 'Dim')
    ctx.eq(S.Name, 'bicone' if name == 'diamond' else name, 'Name')
    ctx.eq(len(S.Center), d, 'length of Center')
    for i in range(d):
        ctx.ck(close(S.Center[i], p['center'][i]), '%s: Center %s', spec,
               S.Center)
    # parameters
    for k in ('radius', 'hollow', 'duration'):
        if k in p:
            ctx.ck(close(S.Parameter(k), p[k]), '%s: parameter %s is %s', spec,
                   k, S.Parameter(k))
    if name == 'cube':
        ctx.ck(close(S.Parameter('edge'), p['edges'][0]), '%s: edge', spec)
    if name == 'cuboid':
        ctx.eq([float(e) for e in S.Parameter('edges')],
               [float(e) for e in p['edges']], 'edges')
    big = geo.scale(spec)
    # volume
    V = geo.volume(spec)
    for again in range(2):
        v = float(S.Volume)
        ctx.ck(abs(v - V) <= (1e-8 if p.get('hollow', 0.0) > 0.99 else 1e-10) * V,
               '%s: Volume %s instead of %s', spec, v, V)
    # limits
    for i in range(d):
        lo, hi = S.Limits(i)
        want = geo.extent(spec, i)
        if not (close(lo, want[0], big) and close(hi, want[1], big)):
            ctx.ck(False, '%s: Limits(%d) = (%s, %s) instead of %s', spec, i,
                   lo, hi, want)
        ctx.transitions += 1
    for i in (-1, -d, d, d + 1, d + 7):
        ctx.raises(ValueError, lambda: S.Limits(i), '%s: Limits(%d)'
                   % (spec, i))
    # largest half edge
    for m in range(1, min(d, 3) + 1):
        for dims in permutations(range(d), m):
            dims = list(dims)
            want = max(geo.half_extent(spec, i) for i in dims)
            got = float(S.MaxEdgeHalf(list(dims)))
            ctx.transitions += 1
            if m == 1:
                ok = got >= want * (1 - 1e-11)
            else:
                ok = close(got, want)
            if not ok:
                ctx.ck(False, '%s: MaxEdgeHalf(%s) = %s instead of %s', spec,
                       dims, got, want)
    # texts
    for f in (str, repr):
        t = f(S)
        ctx.ck(isinstance(t, str) and len(t) > 0, '%s: %s', spec, f.__name__)
    ctx.eq('hollow' in str(S), p.get('hollow', 0.0) > 0,
           'str of %s: "hollow"', spec)
    ctx.ck(S.Name in str(S) and str(d) in str(S), 'str of %s: %s', spec,
           str(S))
    # the centre is not shared with the argument
    if 'center' in kw:
        c = np.array(kw['center'], dtype=float)
        from causets.shapes import CoordinateShape
        T = CoordinateShape(d, name, **dict(kw, center=c))
        c += 100.0
        ctx.ck(close(T.Center[0], p['center'][0]),
               '%s: Center is shared with the argument', spec)
    # neither are the parameters
    share = {k: np.array(v, dtype=float) for k, v in kw.items()}
    if name == 'cuboid':
        from causets.shapes import CoordinateShape
        share.setdefault('edges', np.ones(d))
        T = CoordinateShape(d, name, **share)
        for a in share.values():
            a += 50.0
        ctx.transitions += 1
        ctx.ck(all(close(a, b) for a, b in zip(T.Parameter('edges'),
                                               p['edges'])) and
               abs(float(T.Volume) - V) <= 1e-10 * V and
               all(close(T.Limits(i)[k], geo.extent(spec, i)[k], big)
                   for i in range(d) for k in (0, 1)),
               '%s: the parameters are shared with the arguments', spec)


# --- the volume is the number of lattice cells -------------------------------

def gen_cells(n):
    def gen():
        for d in (1, 2, 3):
            for s in specs((d,)):
                c = s[2].get('center', [1.5])
                if c[0] != 1.5 or s[2].get('radius', 2.5) != 2.5 and d == 3:
                    continue
                yield s + [n[d]]
    return gen


def check_cells(case, ctx):
    name, d, kw, n = case
    spec = [name, d, kw]
    p = geo.params(spec)
    V = float(shape(spec).Volume)
    lim = [shape(spec).Limits(i) for i in range(d)]
    # cells of a box that is larger than the region
    ax, cell = [], 1.0
    for i in range(d):
        lo, hi = float(lim[i][0]), float(lim[i][1])
        w = hi - lo
        lo, w = lo - 0.1 * w, 1.2 * w
        cell *= w / n
        ax.append(lo + w * (np.arange(n) + 0.5) / n)
    G = np.meshgrid(*ax, indexing='ij')
    Y = [g - c for g, c in zip(G, p['center'])]
    if 'edges' in p:
        I = np.ones(G[0].shape, dtype=bool)
        for y, e in zip(Y, p['edges']):
            I &= np.abs(y) <= e / 2
    else:
        r, h = p['radius'], p['hollow']
        z = np.sqrt(sum(y * y for y in Y[1:])) if d > 1 else 0 * Y[0]
        if name == 'ball':
            g = np.sqrt(Y[0] ** 2 + z ** 2)
        elif name == 'cylinder':
            g = z
        else:
            g = np.abs(Y[0]) + z
        I = (g <= r) & (g >= h * r)
        if name == 'cylinder':
            I &= np.abs(Y[0]) <= p['duration'] / 2
    v = float(I.sum()) * cell
    # cells at the boundary of the region
    box = cell * n ** d
    ctx.states += n ** d
    tol = {1: 4.0 / n, 2: 5.0 / n, 3: 6.0 / n}[d] * box
    ctx.ck(abs(v - V) <= tol, '%s: Volume %s, but the cells of the region '
           'have %s', spec, V, v)
    # the limits are the extent of the cells
    for i in range(d):
        o = tuple(k for k in range(d) if k != i)
        occ = np.flatnonzero(I.any(axis=o) if d > 1 else I)
        a, b = ax[i][occ[0]], ax[i][occ[-1]]
        w = (ax[i][-1] - ax[i][0]) / (n - 1)
        k = 1.5 if d == 1 or name in ('cube', 'cuboid') else 3.0
        if name == 'cylinder' and i > 0 or name == 'ball':
            k = 3.0
        ctx.ck(abs(a - float(lim[i][0])) <= k * w and
               abs(b - float(lim[i][1])) <= k * w,
               '%s: Limits(%d) are %s, cells in (%s, %s)', spec, i, lim[i], a,
               b)


# --- validation --------------------------------------------------------------

def gen_valid():
    for d in (-2, -1, 0, 1, 2, 3, 5):
        for name in ('ball', 'bicone', 'diamond', 'cylinder', 'cube', 'cuboid',
                     'banana', '', 'Ball', 'sphere'):
            yield ['name', d, name, {}]
    for d in (1, 2, 3, 4):
        for name in ('ball', 'bicone', 'diamond', 'cylinder'):
            for r in (-1.0, -1e-60, 0.0, 0, 1e-60, 1e-6, 1, 5):
                for h in (None, -1.0, -1e-60, 0.0, 0, 1e-60, 0.5, 0.999,
                          1 - 1e-9, 1.0, 1, 1 + 1e-9, 1.1, 7):
                    for u in ((None, -1.0, 0.0, 0, 1e-6, 3) if
                              name == 'cylinder' else (None,)):
                        kw = {'radius': r}
                        if h is not None:
                            kw['hollow'] = h
                        if u is not None:
                            kw['duration'] = u
                        yield ['range', d, name, kw]
        for e in (-1.0, -1e-60, 0.0, 0, 1e-60, 1e-6, 1, 5):
            yield ['range', d, 'cube', {'edge': e}]
        for k in range(0, d + 2):
            for v in product((-1.0, 0.0, 0.5), repeat=k):
                yield ['range', d, 'cuboid', {'edges': list(v)}]
        yield ['range', d, 'cuboid', {'edges': 1.0}]
        for name in ('ball', 'bicone', 'diamond', 'cylinder', 'cube',
                     'cuboid'):
            for k in range(0, 7):
                yield ['center', d, name, {'center': [0.5] * k}]
            yield ['center', d, name, {'center': 0.5}]
            yield ['center', d, name, {'center': 'x'}]
            yield ['center', d, name, {'center': [[0.0] * d]}]


def check_valid(case, ctx):
    kind, d, name, kw = case
    ok = d >= 1 and name in ('ball', 'bicone', 'diamond', 'cylinder', 'cube',
                             'cuboid')
    if 'radius' in kw:
        ok = ok and kw['radius'] > 0
    if 'hollow' in kw:
        ok = ok and 0 <= kw['hollow'] < 1
    if 'duration' in kw:
        ok = ok and kw['duration'] > 0
    if 'edge' in kw:
        ok = ok and kw['edge'] > 0
    if 'edges' in kw:
        e = kw['edges']
        ok = ok and isinstance(e, list) and len(e) == d and min(e) > 0
    if 'center' in kw:
        c = kw['center']
        ok = ok and isinstance(c, list) and len(c) == d and \
            not isinstance(c[0], list)
    ctx.states += 1
    if ok:
        S = shape([name, d, kw])
        ctx.eq((S.Dim, S.Name), (d, 'bicone' if name == 'diamond' else name),
               'shape of %s', case)
        ctx.ck(isinstance(str(S) + repr(S), str), 'text')
    else:
        ctx.raises(ValueError, lambda: shape([name, d, kw]),
                   'CoordinateShape%s' % (case[1:],))


def families(tier):
    t = tier == 'thorough'
    dims = (1, 2, 3, 4, 5, 6, 7, 8) + ((9, 10, 11, 12) if t else ())
    n = {1: 2000, 2: 800, 3: 120} if t else {1: 1000, 2: 300, 3: 60}
    return [
        Family('queries', lambda: specs(dims), check_shape,
               'all combinations of shapes, dimensions %s, radii, hollowness, '
               'durations, edges and centres of the lists' % (dims,)),
        Family('extremes', extremes, check_shape,
               'far centres, small, large and thin regions'),
        Family('cells', gen_cells(n), check_cells,
               'all cells of a lattice around the shape: %s per axis' % n),
        Family('validation', gen_valid, check_valid,
               'all combinations of parameter values around the ends of the '
               'documented ranges'),
    ]
