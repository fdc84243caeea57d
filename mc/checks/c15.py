'''C15: causality agrees with the light cones of the metric.'''
from fractions import Fraction
from itertools import product
import numpy as np
from mc.core import Family
from mc import lightcone as lc, lattices

PROPERTY = 'C15'
RULE = ('states: points of the lattices; transitions: compared pair answers; a '
        'trace is one point tested against all points of the lattice')
ASSUMPTIONS = ['pairs closer than 1e-9 to a light cone of a curved spacetime '
               'are not compared (rounding); lightlike pairs of flat '
               'spacetimes are',
               'points exactly on a black hole horizon or singularity are '
               'excluded']
MARGIN = 1e-9


def pair(f, x, y, want, ctx, what):
    got = f(x, y)
    ctx.transitions += 1
    if len(got) != 2 or (bool(got[0]), bool(got[1])) != want:
        ctx.eq(tuple(map(bool, got)), want, '%s Causality(%s, %s)', what,
               list(map(float, x)), list(map(float, y)))


# --- flat --------------------------------------------------------------------

def cases_flat(specs):
    '''dim, period, tmax, xmax, scale, shift'''
    def gen():
        for spec in specs:
            dim, per, tmax, xmax, scale, shift, all_pairs = spec
            pts = lattices.flat_points(dim, tmax, xmax)
            if all_pairs:
                for x in pts:
                    yield [spec, x]
            else:
                yield [spec, [0] * dim]
                yield [spec, pts[0]]
                yield [spec, pts[-1]]
                yield [spec, pts[len(pts) // 3]]
    return gen


def check_flat(case, ctx):
    (dim, per, tmax, xmax, scale, shift, _), x = case
    M = lc.make('flat', dim, per if per is None or isinstance(per, list) else
                float(per))
    f = M.Causality()
    if per is None:
        periods = None
    else:
        P = per if isinstance(per, list) else [per] * (dim - 1)
        # the oracle works in lattice units
        periods = [Fraction(p).limit_denominator(64) /
                   Fraction(scale).limit_denominator(64) for p in P]
    X = np.array([c * scale + shift for c in x], dtype=float)
    ctx.states += 1
    for y in lattices.flat_points(dim, tmax, xmax):
        rel, m = lc.flat(x, y, periods)
        Y = np.array([c * scale + shift for c in y], dtype=float)
        pair(f, X, Y, lc.answer(rel), ctx, 'flat %d %s' % (dim, per))


# --- curved ------------------------------------------------------------------

def cases_curved(specs):
    def gen():
        for kind, dim, par, size in specs:
            for x in lattices.curved_points(kind, dim, par, size):
                yield [kind, dim, par, size, x]
    return gen


def check_curved(case, ctx):
    kind, dim, par, size, x = case
    f = lc.make(kind, dim, par).Causality()
    o = lc.of(kind, par)
    X = np.array(x)
    ctx.states += 1
    for y in lattices.curved_points(kind, dim, par, size):
        rel, m = o(x, y)
        if m < MARGIN:
            ctx.count('pairs too close to a light cone')
            continue
        pair(f, X, np.array(y), lc.answer(rel), ctx, '%s %d %s' %
             (kind, dim, par))


# --- close to the light cone -------------------------------------------------

def cases_near(specs):
    def gen():
        for kind, dim, par, t0 in specs:
            for a in product(near_xs(kind), repeat=dim - 1):
                yield [kind, dim, par, list(a), t0]
    return gen


def near_xs(kind):
    return (-1.5, -0.4, 0.0, 0.7, 1.1) if kind == 'flat' else \
        lattices.CURVED_X[kind, 0]


def check_near(case, ctx):
    '''times just before and just after light arrives, found by bisection in
    the oracle'''
    kind, dim, par, a, s = case
    f = lc.make(kind, dim, par).Causality()
    if kind == 'flat':
        per = par if par is None or isinstance(par, list) else \
            [par] * (dim - 1)
        o0 = lc.of(kind, per)

        def o(x, y):
            r, m = o0(x, y)
            return r, float(m)
        par = 1.0
    else:
        o = lc.of(kind, par)
    x = [s * par] + [c * par for c in a]
    ctx.states += 1
    for b in product(near_xs(kind), repeat=dim - 1):
        y = [c * par for c in b]
        # all changes of the relation along the worldline of y
        ts = np.linspace(-6.0 * par, 6.0 * par, 41) + (s + 0.013) * par
        rels = [o(x, [t] + y)[0] for t in ts]
        for t0, t1, r0, r1 in zip(ts, ts[1:], rels, rels[1:]):
            if r0 == r1:
                continue
            for _ in range(60):
                tm = 0.5 * (t0 + t1)
                if o(x, [tm] + y)[0] == r0:
                    t0 = tm
                else:
                    t1 = tm
            d = (1e-5,) if abs(s) > 1 else (1e-5, 2e-8)
            for t in [t0 - e * par for e in d] + [t1 + e * par for e in d]:
                Y = [t] + y
                r, m = o(x, Y)
                if m < 1e-8 * par or r == 2:
                    continue
                pair(f, np.array(x), np.array(Y), lc.answer(r), ctx,
                     '%s %d %s near the cone' % (kind, dim, par))


# --- far away ----------------------------------------------------------------

def cases_far(specs):
    def gen():
        for kind, dim, par in specs:
            for t in (0.0, 13.0, -20.0, 37.5, -700.0, 5000.0):
                yield [kind, dim, par, t]
    return gen


def check_far(case, ctx):
    '''pairs that are separated by long times'''
    kind, dim, par, t = case
    f = lc.make(kind, dim, par).Causality()
    o = lc.of(kind, par)
    pos = list(product(near_xs(kind), repeat=dim - 1))
    u = 1.0 if kind == 'flat' else par
    ctx.states += 1
    for a in pos:
        x = [t * u] + [c * u for c in a]
        for d in (-1e5, -2000.0, -800.0, -355.0, -60.0, -19.5, -8.0,
                  8.0, 19.5, 38.0, 70.0, 356.0, 711.0, 1500.0, 2e4):
            for b in pos:
                y = [(t + d) * u] + [c * u for c in b]
                r, m = o(x, y)
                if r == 2 or m < MARGIN:
                    continue
                pair(f, np.array(x), np.array(y), lc.answer(r), ctx,
                     '%s %d %s far away' % (kind, dim, par))


# --- description -------------------------------------------------------------

def check_params(case, ctx):
    from causets import spacetimes as st
    from causets.shapes import CoordinateShape
    S = st
    one = ctx.eq

    def desc(M, dim, name, metric, shape, **par):
        one((M.Dim, M.Name, M.MetricName), (dim, name, metric), 'description')
        for k, v in par.items():
            p = M.Parameter(k)
            ok = np.array_equal(np.array(p, dtype=float),
                                np.array(v, dtype=float))
            ctx.ck(ok, 'parameter %s of %s is %r, not %r' % (k, name, p, v))
        D = M.DefaultShape()
        ctx.ck(isinstance(D, CoordinateShape), 'default shape')
        one((D.Dim, D.Name), (dim, shape), 'default shape of ' + name)
        ctx.ck(str(dim) in str(M) and name in str(M), 'text of ' + name)
        ctx.ck(isinstance(repr(M), str), 'representation of ' + name)
        ctx.states += 1
        return M

    for d in (1, 2, 3, 4, 5):
        sh = 'diamond' if d == 2 else 'bicone'
        M = S.FlatSpacetime(d)
        shapes = {CoordinateShape(d, 'diamond').Name}
        desc(M, d, 'flat', 'Minkowski', shapes.pop(), isPeriodic=False)
        desc(S.FlatSpacetime(d, -1.0), d, 'flat', 'Minkowski',
             CoordinateShape(d, 'diamond').Name, isPeriodic=False)
        desc(S.FlatSpacetime(d, 2.0), d, 'flat', 'Minkowski', 'cube',
             isPeriodic=True, period=[2.0] * (d - 1))
        for pers in product((0.0, 1.5, -0.75), repeat=d - 1):
            per = any(p > 0 for p in pers)
            M = desc(S.FlatSpacetime(d, pers), d, 'flat', 'Minkowski',
                     'cube' if per else CoordinateShape(d, 'diamond').Name,
                     isPeriodic=per)
            if per:
                desc(M, d, 'flat', 'Minkowski', 'cube', period=pers)
        for bad in ((1.0,) * d, 'x', [1.0] * (d - 1), None):
            ctx.raises(ValueError, lambda: S.FlatSpacetime(d, bad),
                       'period %r' % (bad,))
        if d > 1:
            for r in (0.5, 1.0, 3.0):
                desc(S.deSitterSpacetime(d, r), d, 'de Sitter', 'static',
                     'cylinder', r_dS=r)
                desc(S.AntideSitterSpacetime(d, r), d, 'Anti-de Sitter',
                     'static', 'cylinder', r_AdS=r)
            desc(S.deSitterSpacetime(d), d, 'de Sitter', 'static', 'cylinder',
                 r_dS=1.0)
            desc(S.AntideSitterSpacetime(d), d, 'Anti-de Sitter', 'static',
                 'cylinder', r_AdS=0.5)
            for r in (0.0, -1.0):
                ctx.raises(ValueError, lambda: S.deSitterSpacetime(d, r),
                           'radius %s' % r)
                ctx.raises(ValueError, lambda: S.AntideSitterSpacetime(d, r),
                           'radius %s' % r)
        if d != 2:
            ctx.raises(ValueError, lambda: S.BlackHoleSpacetime(d),
                       'black hole dimension %d' % d)
    for bad in (0, -1):
        ctx.raises(ValueError, lambda: S.FlatSpacetime(bad), 'dimension')
    for bad in (1, 0):
        ctx.raises(ValueError, lambda: S.deSitterSpacetime(bad), 'dimension')
        ctx.raises(ValueError, lambda: S.AntideSitterSpacetime(bad),
                   'dimension')
    desc(S.BlackHoleSpacetime(2), 2, 'black hole', 'Eddington-Finkelstein',
         'cylinder', r_S=0.5)
    for m in ('Eddington-Finkelstein', 'Schwarzschild'):
        for r in (0.25, 2.0):
            desc(S.BlackHoleSpacetime(2, r, m), 2, 'black hole', m, 'cylinder',
                 r_S=r)
            desc(S.BlackHoleSpacetime(2, r_S=r, metric=m), 2, 'black hole', m,
                 'cylinder', r_S=r)
    ctx.raises(ValueError, lambda: S.BlackHoleSpacetime(2, 0.5, 'Kruskal'),
               'unsupported metric')
    for r in (0.0, -1.0):
        ctx.raises(ValueError, lambda: S.BlackHoleSpacetime(2, r), 'radius')


def check_base(case, ctx):
    '''one-dimensional spacetimes: time only'''
    for M in (lc.make('flat', 1, None), lc.make('flat', 1, [])):
        f = M.Causality()
        for a in range(-3, 4):
            for b in range(-3, 4):
                pair(f, np.array([a / 4.]), np.array([b / 4.]),
                     (a <= b, a > b), ctx, 'one-dimensional')
    ctx.states += 7


def families(tier):
    q = tier == 'quick'
    flat = [
        # dim, period, tmax, xmax, scale, shift, all pairs
        [2, None, 5, 5, 1.0, 0.0, True], [2, None, 4, 4, 0.1, 0.0, True],
        [2, None, 4, 4, 0.25, 1000.0, True],
        [3, None, 2, 2, 1.0, 0.0, True], [3, None, 2, 2, 0.1, -0.3, True],
        [3, None, 6, 6, 1.0, 0.0, False], [3, None, 5, 5, 0.1, 0.0, False],
        [4, None, 1, 1, 0.5, 0.0, True], [4, None, 3, 3, 1.0, 0.0, False],
        [4, None, 3, 3, 0.1, 0.0, False], [5, None, 2, 2, 0.5, 0.0, False],
        [2, 1.0, 6, 6, 0.25, 0.0, True], [2, 2.0, 5, 5, 0.5, 0.0, True],
        [2, [1.5], 3, 8, 0.25, 0.25, True], [2, [0.0], 3, 3, 0.5, 0.0, True],
        [2, -1.0, 3, 3, 0.5, 0.0, True],
        [2, 1.25, 2, 14, 0.5, 0.0, True],
        [3, 1.0, 2, 2, 0.25, 0.0, True], [3, [1.0, 0.0], 2, 2, 0.5, 0.0, True],
        [3, [0.0, 1.0], 2, 2, 0.5, 0.0, True],
        [3, [1.5, 2.0], 3, 7, 0.5, 0.0, False],
        [3, [0.5, 3.0], 4, 6, 0.25, 0.5, False],
        [4, 1.0, 3, 3, 0.25, 0.0, False],
        [4, [0.0, 1.5, 0.5], 3, 3, 0.25, 0.0, False],
        [4, [2.0, 0.0, 0.0], 2, 4, 0.5, 0.0, False],
        [5, [0.0, 1.0, 0.0, 1.0], 2, 2, 0.25, 0.0, False],
        # only positive periods count
        [3, [1.0, -0.75], 2, 2, 0.5, 0.0, True],
        [3, [-2.0, -1.0], 2, 2, 0.5, 0.0, True],
        [3, -1.0, 2, 2, 0.5, 0.0, True],
        [4, [-1.5, 0.0, 1.5], 2, 4, 0.5, 0.0, False],
        # many dimensions
        [6, None, 1, 1, 0.5, 0.0, False], [7, None, 2, 1, 1.0, 0.0, False],
        [8, None, 2, 1, 0.5, 0.0, False],
        [6, [0.0, 0.75, 0.0, 0.0, 0.75], 1, 1, 0.5, 0.0, False],
        [7, [0.0, 0.0, 0.0, 0.0, 0.0, 1.5], 1, 1, 0.5, 0.0, False],
        [8, [0.0, 0.0, 0.0, 0.0, 0.75, 0.0, 0.0], 1, 1, 0.5, 0.0, False]]
    if not q:
        flat += [[2, None, 12, 12, 1.0, 0.0, True],
                 [3, None, 4, 4, 1.0, 0.0, True],
                 [4, None, 2, 2, 1.0, 0.0, True],
                 [3, None, 13, 13, 1.0, 0.0, False],
                 [4, None, 6, 6, 1.0, 0.0, False],
                 [5, None, 3, 3, 1.0, 0.0, False],
                 [2, 1.75, 5, 20, 0.25, 0.0, True],
                 [3, [1.5, 0.75], 3, 4, 0.25, 0.0, True],
                 [4, [1.5, 0.75, 0.0], 4, 4, 0.25, 0.0, False]]
    curved = []
    for kind in ('dS', 'AdS'):
        for par in (1.0, 0.5, 3.0):
            curved += [[kind, 2, par, 1], [kind, 3, par, 0]]
        curved += [[kind, 4, 1.0, 0]] if not q else []
        curved += [[kind, 3, 2.0, 1]] if not q else []
    for kind in ('EF', 'S'):
        for par in (1.0, 0.5, 2.0):
            curved.append([kind, 2, par, 1])
    near = [[k, 2, p, 0.0] for k in ('dS', 'AdS', 'EF', 'S') for p in (1.0, 0.5)] \
        + [[k, 3, p, 0.0] for k in ('dS', 'AdS') for p in ((1.0, 2.0) if not q else
                                                      (2.0,))] \
        + [[k, 2, p, 0.0] for k in ('dS', 'AdS', 'EF', 'S')
           for p in (0.7, 1.9, 3.3, 0.01, 250.0)] \
        + [['flat', 2, None, 0.0], ['flat', 2, 1.3, 0.0],
           ['flat', 3, None, 0.0], ['flat', 3, [0.8, 0.0], 0.0]] + \
        [[k, 2, p, s] for k, s in (('dS', 7.0), ('dS', -5.0), ('dS', 30.0),
                                   ('dS', -900.0), ('AdS', 50.0),
                                   ('AdS', -700.0),
                                   ('EF', -300.0), ('S', 300.0),
                                   ('flat', 1000.0)) for p in (1.0, 20.0)] + \
        [['dS', 3, 1.0, -6.0], ['AdS', 3, 1.0, 9.0]] + \
        ([] if q else [['flat', 3, 1.7, 0.0], ['flat', 4, None, 0.0],
                       ['flat', 4, [0.0, 2.3, 0.9], 0.0]])
    f = [Family('flat', cases_flat(flat), check_flat,
                'Minkowski and periodic lattices in dimension 2-5'),
         Family('curved', cases_curved(curved), check_curved,
                'all pairs of the lattices of de Sitter, anti-de Sitter and '
                'black hole spacetimes'),
         Family('near', cases_near(near), check_near,
                'times 1e-5 and 2e-8 before and after the light arrives, for all pairs '
                'of lattice positions'),
         Family('far', cases_far([[k, 2, p] for k in ('dS', 'AdS', 'EF', 'S')
                                  for p in (1.0, 0.7, 5.0)] +
                                 [['dS', 3, 1.0], ['AdS', 3, 0.5],
                                  ['flat', 2, None], ['flat', 3, None]]),
                check_far, 'pairs separated by times of 8 to 1e5 in units of '
                'the length parameter'),
         Family('line', lambda: [0], check_base, 'one dimension'),
         Family('parameters', lambda: [0], check_params,
                'all spacetimes, descriptions and rejected parameters')]
    if q:
        f.append(Family('curved4', cases_curved4(('dS', 'AdS')), check_curved4,
                        'dimension 4, one point against a lattice'))
    return f


def cases_curved4(kinds):
    def gen():
        for kind in kinds:
            pts = lattices.curved_points(kind, 4, 1.0, xs=(-0.5, 0.0, 0.3, 0.6),
                                         ts=(-1.2, -0.4, 0.1, 0.9))
            for x in pts[::5]:
                yield [kind, x]
    return gen


def check_curved4(case, ctx):
    kind, x = case
    f = lc.make(kind, 4, 1.0).Causality()
    o = lc.of(kind, 1.0)
    ctx.states += 1
    for y in lattices.curved_points(kind, 4, 1.0, xs=(-0.5, 0.0, 0.3, 0.6),
                                    ts=(-1.2, -0.4, 0.1, 0.9)):
        rel, m = o(x, y)
        if m >= MARGIN:
            pair(f, np.array(x), np.array(y), lc.answer(rel), ctx, kind)
