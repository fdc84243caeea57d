'''C14: embedded causets carry exactly the spacetime causality.'''
from itertools import permutations, product, combinations
import math
import numpy as np
from mc.core import Family
from mc import lightcone as lc, lattices, obs
from mc.impl import Idx, reset
from mc.order import Poset

PROPERTY = 'C14'
RULE = ('states: events embedded; transitions: compared answers; a trace is '
        'one history of creating / relating / discarding events, or one '
        'combination of constructor arguments, or one permutation')
ASSUMPTIONS = ['curved spacetimes: point sets with a pair closer than 1e-9 to '
               'a light cone are not used (rounding)',
               'coincident points have exactly one direction, either one']

SPACES = [('flat', 2, None), ('flat', 2, 3), ('flat', 3, None),
          ('flat', 3, [2, 0]), ('dS', 2, 1.5), ('dS', 3, 2.0),
          ('AdS', 2, 1.0), ('AdS', 3, 2.0), ('EF', 2, 1.0), ('S', 2, 2.0)]


def points(sp, k):
    '''a small set of points with all kinds of relations, including
    coincident ones'''
    kind, dim, par = sp
    if kind == 'flat':
        base = [(0, 0), (1, 1), (2, 0), (1, -1), (0, 3), (3, 1), (0, 0), (5, 4)]
        pts = [list(map(float, b)) + [float((i * i) % 3)] * (dim - 2)
               for i, b in enumerate(base)]
        pts[6] = list(pts[0])
    elif kind in ('dS', 'AdS'):
        base = [(0, 0), (.9, .3), (.35, -.4), (-2, .7), (2.5, .25), (.35, .6),
                (0, 0), (-.9, -.3)]
        pts = [[par * t, par * x] + [par * 0.1 * (i % 4)] * (dim - 2)
               for i, (t, x) in enumerate(base)]
        pts[6] = list(pts[0])
    else:
        base = [(0, .5), (.9, .3), (.35, 1.4), (-2, .7), (2.5, 2.25),
                (.35, -.6), (0, .5), (1.9, -1.3)]
        pts = [[par * t, par * x] for t, x in base]
    return pts[:k]


def oracle(sp):
    kind, dim, par = sp
    per = None
    if kind == 'flat' and par is not None:
        per = par if isinstance(par, list) else [par] * (dim - 1)
    if kind == 'flat':
        return lambda x, y: lc.flat(x, y, per)
    return lc.of(kind, par)


def ids(evs):
    return {id(e) for e in evs}


def check_related(C, evs, coords, o, ctx, tag='', cached=None):
    '''the relation of all events (evs[i] at coords[i]) and their links'''
    n = len(evs)
    up = [0] * n
    dn = [0] * n
    ctx.states += n
    for i in range(n):
        for j in range(i + 1, n):
            rel, margin = o(coords[i], coords[j])
            ab, ba = evs[i] < evs[j], evs[j] < evs[i]
            ctx.transitions += 1
            if rel == 2:
                ok = ab != ba
            else:
                if margin < 1e-9 and o is not lc.flat and rel != 2 \
                        and isinstance(margin, float):
                    ctx.count('too close')
                    ok = not (ab and ba)
                else:
                    ok = (ab, ba) == (rel == -1, rel == 1)
            if not ok:
                ctx.ck(False, '%sevents at %s, %s: precedes %s, succeeds %s '
                       '(expected relation %s)' % (tag, coords[i], coords[j],
                                                   ab, ba, rel))
            if ab:
                up[i] |= 1 << j
                dn[j] |= 1 << i
            if ba:
                up[j] |= 1 << i
                dn[i] |= 1 << j
    # what has been observed is an order, and all queries follow from it
    for i in range(n):
        for j in range(n):
            if dn[i] >> j & 1 and dn[j] & ~dn[i]:
                ctx.ck(False, '%sthe relation is not transitive at %s > %s'
                       % (tag, coords[i], coords[j]))
    P = Poset(dn)
    X = Idx(evs)
    for i in range(n):
        ctx.eq(X.m(evs[i].Past), dn[i], '%sPast of %s', tag, coords[i])
        ctx.eq(X.m(evs[i].Future), up[i], '%sFuture of %s', tag, coords[i])
    obs.links(P, evs, ctx, tag, ('LinkPast', 'LinkFuture', 'isLink',
                                 'LinkPastCard'))
    total = sum(bin(m).count('1') for m in P.ldn)
    ctx.eq(C.LinkCount(), total, '%sLinkCount', tag)


# --- histories ---------------------------------------------------------------

def check_created(C, got, rows, before, labels, ctx, tag):
    '''returned set: one new event per row, labelled in the order of the rows.
    Returns the events in the order of the rows'''
    got = set(got)
    ctx.eq(len(got), len(rows), '%snumber of new events', tag)
    ctx.ck(not (ids(got) & ids(before)), tag + 'an old event is returned')
    ctx.ck(ids(got) <= ids(C), tag + 'a new event is not contained')
    ctx.eq(C.Card, len(before) + len(rows), '%sCard', tag)
    by = {}
    for e in got:
        by.setdefault(e.Label, []).append(e)
    out = []
    for l, r in zip(labels, rows):
        es = by.get(l, [])
        if labels.count(l) == 1:
            ctx.eq(len(es), 1, '%snumber of new events labelled %r', tag, l)
            e = es[0]
        else:
            e = next((e for e in es if list(e.Coordinates) == [
                float(c) for c in r]), None)
            ctx.ck(e is not None, '%sno event labelled %r at %s', tag, l, r)
            es.remove(e)
        ctx.eq([float(c) for c in e.Coordinates], [float(c) for c in r],
               '%scoordinates of event %r', tag, l)
        ctx.eq(e.isEmbedded, True, '%sisEmbedded', tag)
        ctx.eq(e.CoordinatesDim, len(r), '%sCoordinatesDim', tag)
        out.append(e)
    return out


OPS = ['c1', 'c1n', 'c2', 'c2n', 'cA', 'cf', 'c0', 'r', 'rn', 'd', 'q', 'u',
       'm']


def gen_hist(spaces, depth):
    def gen():
        for s in spaces:
            for d in range(1, depth + 1):
                for ops in product(range(len(OPS)), repeat=d):
                    names = [OPS[k] for k in ops]
                    if names[0] in ('r', 'rn', 'd', 'q', 'u', 'm') and d > 1:
                        continue
                    yield [s, names]
    return gen


def check_hist(case, ctx):
    from causets.embeddedcauset import EmbeddedCauset
    s, ops = case
    sp = SPACES[s]
    kind, dim, par = sp
    o = oracle(sp)
    pts = points(sp, 8)
    M = lc.make(kind, dim, par)
    reset()
    C = EmbeddedCauset(spacetime=M)
    evs, coords = [], []
    k = 0

    def nxt(m):
        nonlocal k
        r = [pts[(k + i) % len(pts)] for i in range(m)]
        k += m
        return [list(x) for x in r]
    for pos, op in enumerate(ops):
        tag = 'after %s: ' % ops[:pos + 1]
        if op[0] == 'c':
            rows = nxt({'1': 1, '2': 2, 'A': 3, 'f': 2, '0': 0}[op[1]])
            n0 = C.Card
            kw = {}
            lab = [n0 + 1 + i for i in range(len(rows))]
            arg = rows
            if op == 'cA':
                arg = np.array(rows)
            if op == 'cf':
                kw['labelFormat'] = 'e{}'
                lab = ['e%d' % l for l in lab]
                arg = [np.array(r) for r in rows]
            if op.endswith('n'):
                kw['relate'] = False
            before = list(C)
            old = {(id(a), id(b)) for a in before for b in before if a < b}
            given = [list(r) for r in rows]
            got = C.create(arg, **kw)
            new = check_created(C, got, given, before, lab, ctx, tag)
            # the arguments are not modified, and not shared
            ctx.eq([[float(c) for c in r] for r in arg],
                   [[float(c) for c in r] for r in given],
                   '%sargument of create', tag)
            evs += new
            coords += given
            got = set(got)
            got.clear()
            if op.endswith('n'):
                ctx.eq({(id(a), id(b)) for a in C for b in C if a < b}, old,
                       '%srelations although relating was deferred', tag)
            else:
                check_related(C, evs, coords, o, ctx, tag)
        elif op in ('r', 'rn'):
            C.relate(**({} if op == 'r' else {'link': False}))
            check_related(C, evs, coords, o, ctx, tag)
        elif op == 'd' and evs:
            e = evs.pop(0)
            coords.pop(0)
            C.discard([e])
        elif op == 'q' and evs:
            C.LinkCount()
            [x.LinkPast for x in evs]
        elif op == 'u':
            C.unlink()
        elif op == 'm' and evs:
            # an event moves (the relations follow later)
            coords[-1], = nxt(1)
            evs[-1].embed(coords[-1], reembed=True)
        ctx.eq(ids(C), ids(evs), '%sevents', tag)
        ctx.eq(C.Card, len(evs), '%sCard', tag)
        density(C, len(evs), ctx, tag)
    C.relate()
    check_related(C, evs, coords, o, ctx, 'finally: ')


def volume(shape):
    return float(shape.Volume)


def density(C, n, ctx, tag):
    V = volume(C.Shape)
    ctx.ck(abs(C.Density - n / V) <= 1e-9 * max(1.0, n / V), '%sDensity %s',
           tag, C.Density)
    l = C.LengthScale
    want = 0.0 if n == 0 else (V / n) ** (1.0 / C.Dim)
    ctx.ck(abs(l - want) <= 1e-9 * max(1.0, want),
           '%sLengthScale %s instead of %s', tag, l, want)


# --- large sets --------------------------------------------------------------

def flat_set(dim, t, x, par, scale=1.0):
    return ['flat', dim, par, [[c * scale for c in p] for p in
                               lattices.flat_points(dim, t, x)]]


def curved_set(kind, dim, par, size, stride=1):
    pts = lattices.curved_points(kind, dim, par, size)
    if kind == 'dS':
        pts = [p for p in pts if sum(c * c for c in p[1:]) < par * par]
    return [kind, dim, par, pts[::stride]]


def gen_big(tier):
    def gen():
        S = [flat_set(1, 4, 0, None), flat_set(2, 3, 3, None),
             flat_set(2, 3, 4, 3.0), flat_set(2, 4, 4, None, 0.25),
             flat_set(3, 1, 1, None), flat_set(3, 1, 2, [3.0, 0.0]),
             flat_set(3, 1, 2, [0.0, 2.0]), flat_set(4, 1, 1, None),
             curved_set('dS', 2, 1.0, 0), curved_set('dS', 3, 2.0, 0, 3),
             curved_set('AdS', 2, 1.5, 0), curved_set('AdS', 3, 1.0, 0, 3),
             curved_set('EF', 2, 1.0, 0), curved_set('S', 2, 0.5, 0),
             curved_set('dS', 4, 1.0, 0, 11), curved_set('AdS', 4, 1.0, 0, 11)]
        L = [flat_set(1, 70, 0, None), flat_set(2, 5, 6, None),
             flat_set(2, 8, 7, 3.0), flat_set(3, 2, 2, None),
             curved_set('dS', 2, 1.0, 1), curved_set('EF', 2, 1.0, 1)]
        for k, s in enumerate(L):
            yield s + [('list', 'array', 'reverse', 'halves', 'init')[k % 5]]
        if tier == 'thorough':
            S += [flat_set(2, 6, 6, None), flat_set(2, 4, 7, 4.0),
                  flat_set(3, 2, 2, None), flat_set(3, 2, 2, 3.0),
                  flat_set(4, 1, 1, 2.0), curved_set('dS', 2, 1.0, 1),
                  curved_set('AdS', 2, 1.5, 1), curved_set('EF', 2, 1.0, 1),
                  curved_set('S', 2, 1.0, 1), curved_set('dS', 3, 1.0, 1, 5),
                  curved_set('AdS', 3, 1.0, 1, 5)]
        for s in S:
            for how in ('list', 'array', 'reverse', 'halves', 'init'):
                yield s + [how]
    return gen


def check_big(case, ctx):
    from causets.embeddedcauset import EmbeddedCauset
    kind, dim, par, pts, how = case
    M = lc.make(kind, dim, par)
    o = oracle((kind, dim, par))
    reset()
    pts = [list(p) for p in pts]
    if how == 'reverse':
        pts = pts[::-1]
    if how == 'init':
        C = EmbeddedCauset(spacetime=M, coordinates=np.array(pts))
        got = set(C)
        new = check_created(C, got, pts, [], list(range(1, len(pts) + 1)),
                            ctx, '')
    else:
        C = EmbeddedCauset(spacetime=M)
        if how == 'halves':
            h = len(pts) // 2
            got = C.create(pts[:h])
            new = check_created(C, got, pts[:h], [],
                                list(range(1, h + 1)), ctx, '')
            got = C.create(pts[h:])
            new += check_created(C, got, pts[h:], new,
                                 list(range(h + 1, len(pts) + 1)), ctx, '')
        else:
            got = C.create(np.array(pts) if how == 'array' else pts)
            new = check_created(C, got, pts, [],
                                list(range(1, len(pts) + 1)), ctx, '')
    check_related(C, new, pts, o, ctx)


# --- close to the light cone -------------------------------------------------

CLOSE = [('flat', 2, None), ('flat', 2, 3.0), ('flat', 3, None),
         ('flat', 3, [2.5, 0.0]), ('flat', 4, None), ('dS', 2, 1.5),
         ('dS', 3, 1.0), ('AdS', 2, 2.0), ('AdS', 3, 1.0), ('S', 2, 1.0)]


def gen_close():
    for s in range(len(CLOSE)):
        for base in (0.0, 37.0):
            for a in (0.31, 0.7, 0.9):
                for eps in (1e-6, 1e-8):
                    if CLOSE[s][0] != 'flat' and (base or eps < 1e-6):
                        continue  # rounding of the curved time scales
                    for how in ('list', 'array', 'sprinkled'):
                        yield [s, base, a, eps, how]


def check_close(case, ctx):
    '''light arrives just before or after the event'''
    from causets.embeddedcauset import EmbeddedCauset
    from causets.sprinkledcauset import SprinkledCauset
    s, base, a, eps, how = case
    kind, dim, par = sp = CLOSE[s]
    t, x0, x1 = a, 0.0, a
    if kind == 'dS':
        t, x1 = par * math.atanh(a), par * a
    elif kind == 'AdS':
        t, x1 = par * math.atan(a), par * a
    elif kind == 'S':
        x0, x1 = 1.5 * par, (1.5 + a) * par
        t = x1 - x0 + par * math.log((x1 - par) / (x0 - par))
    rest = [0.0] * (dim - 2)
    rows = [[base, x0] + rest, [base + t - eps, x1] + rest,
            [base + t + eps, x1] + rest, [base - t + eps, x1] + rest,
            [base - t - eps, x1] + rest]
    if kind != 'S':
        rows += [[base + t - 3 * eps, -x1] + rest,
                 [base + t + 3 * eps, -x1] + rest]
    M = lc.make(kind, dim, par)
    C = (SprinkledCauset if how == 'sprinkled' else EmbeddedCauset)(
        spacetime=M)
    got = C.create(rows if how == 'list' else np.array(rows))
    n = len(rows)
    new = check_created(C, got, rows, [], list(range(1, n + 1)), ctx, '')
    check_related(C, new, rows, oracle(sp), ctx)


# --- constructor arguments ---------------------------------------------------

NAMES = [['flat', 'FlatSpacetime'], ['Minkowski', 'FlatSpacetime'],
         ['dS', 'deSitterSpacetime'], ['de Sitter', 'deSitterSpacetime'],
         ['AdS', 'AntideSitterSpacetime'],
         ['Anti-de Sitter', 'AntideSitterSpacetime'],
         ['black hole', 'BlackHoleSpacetime'],
         ['Schwarzschild', 'BlackHoleSpacetime']]
CLASSDIMS = {'FlatSpacetime': (1, 2, 3, 4, 5), 'deSitterSpacetime': (2, 3, 4),
             'AntideSitterSpacetime': (2, 3, 4), 'BlackHoleSpacetime': (2,)}


def gen_ctor():
    spaces = [None] + ['n:' + n for n, _ in NAMES] + ['n:banana', 'n:'] + \
        ['o:flat1', 'o:flat2', 'o:flat3', 'o:flat4', 'o:dS2', 'o:dS3',
         'o:AdS2', 'o:AdS3', 'o:EF2', 'o:S2']
    shapes = [None, 'n:cube', 'n:diamond', 'n:cylinder', 'n:ball', 'n:cuboid',
              'n:banana', 'o:2', 'o:3', 'o:1', 'o:4']
    coords = [None, 'l2', 'l3', 'a2', 'a3', 'a1d', 'la2', 'la3', 'mixed',
              'a1', 's2', 's3', 't3']
    dims = [-1, 0, 1, 2, 3, 4]
    for a, b, c, d in product(spaces, shapes, coords, dims):
        yield [a, b, c, d]


def check_ctor(case, ctx):
    from causets.embeddedcauset import EmbeddedCauset
    from causets.shapes import CoordinateShape
    a, b, c, d = case
    ctx.states += 1
    kw = {}
    spdim = shdim = None
    cls = 'FlatSpacetime'
    bad = False
    if a is not None:
        if a.startswith('o:'):
            kind, spdim = a[2:-1], int(a[-1])
            kw['spacetime'] = lc.make(kind, spdim, None if kind == 'flat'
                                      else 1.25)
            cls = None
        else:
            kw['spacetime'] = a[2:]
            cls = dict(NAMES).get(a[2:])
            bad = bad or cls is None
    if b is not None:
        if b.startswith('o:'):
            shdim = int(b[2:])
            kw['shape'] = CoordinateShape(shdim, 'cube', edge=2.5)
        else:
            kw['shape'] = b[2:]
            bad = bad or b[2:] == 'banana'
    X = {None: None, 'l2': [[0.0, 0.0], [0.5, 0.1]],
         'l3': [[0.0, 0.0, 0.0], [0.5, 0.1, 0.2]],
         'a2': np.array([[0.0, 0.0], [0.5, 0.1]]),
         'a3': np.array([[0.0, 0.0, 0.1], [0.5, 0.1, 0.1]]),
         'a1': np.array([[0.0], [0.5]]),
         'a1d': np.array([0.0, 0.5]),
         'la2': [np.array([0.0, 0.0]), np.array([0.5, 0.1])],
         'la3': [np.array([0.0, 0.0, 0.0]), np.array([0.5, 0.1, 0.3])],
         's2': [[0.25, 0.5]], 's3': np.array([[0.25, 0.5, 0.75]]),
         't3': [[0.0, 0.0, 0.1], [0.5, 0.1, 0.1], [3.0, 0.1, 0.1]],
         'mixed': [[0.0, 0.0], [0.5, 0.1, 0.2]]}[c]
    cdims = None
    if c is not None:
        kw['coordinates'] = X
        cdims = {'l2': {2}, 'l3': {3}, 'a2': {2}, 'a3': {3}, 'a1': {1},
                 'la2': {2}, 'la3': {3}, 'mixed': {2, 3}, 'a1d': set(),
                 's2': {2}, 's3': {3}, 't3': {3}}[c]
    kw['dim'] = d
    # the dimension that the arguments determine
    dim = None
    if d > 0:
        dim = d
    elif spdim is not None:
        dim = spdim
    elif shdim is not None:
        dim = shdim
    elif c is not None:
        if c == 'a1d':
            return      # no dimension to be determined
        dim = 2 if c == 'mixed' else next(iter(cdims))
    else:
        dim = 2
    if spdim is not None and spdim != dim:
        bad = True
    if shdim is not None and shdim != dim:
        bad = True
    if cdims is not None and cdims != {dim}:
        bad = True
    if cls is not None and dim not in CLASSDIMS[cls]:
        bad = True
    if bad:
        ctx.raises(ValueError, lambda: EmbeddedCauset(**kw),
                   'constructor with %s' % case)
        return
    C = EmbeddedCauset(**kw)
    ctx.eq(C.Dim, dim, 'Dim for %s', case)
    ctx.eq(C.Spacetime.Dim, dim, 'Spacetime.Dim for %s', case)
    ctx.eq(C.Shape.Dim, dim, 'Shape.Dim for %s', case)
    if spdim is not None:
        ctx.ck(C.Spacetime is kw['spacetime'], 'other spacetime object')
    else:
        ctx.eq(type(C.Spacetime).__name__, cls, 'spacetime for %s', case)
    if shdim is not None:
        ctx.ck(C.Shape is kw['shape'], 'other shape object')
    elif b is not None:
        ctx.eq(C.Shape.Name, {'diamond': 'bicone'}.get(b[2:], b[2:]),
               'shape for %s', case)
    else:
        D = C.Spacetime.DefaultShape()
        ctx.eq((C.Shape.Name, C.Shape.Dim, list(C.Shape.Center)),
               (D.Name, D.Dim, list(D.Center)), 'default shape for %s', case)
        default(C.Spacetime, C.Shape, ctx)
    n = 0 if c is None else len(X)
    ctx.eq(C.Card, n, 'Card for %s', case)
    if n:
        ctx.eq({(e.Label, tuple(map(float, e.Coordinates))) for e in C},
               {(i + 1, tuple(map(float, x))) for i, x in enumerate(X)},
               'events for %s', case)
    density(C, n, ctx, 'constructed with %s: ' % case)


def default(M, D, ctx):
    '''the default region of a spacetime'''
    flat = type(M).__name__ == 'FlatSpacetime'
    name = ('cube' if M.Parameter('isPeriodic') else 'bicone') if flat else \
        'cylinder'
    ctx.eq((D.Name, D.Dim, [float(x) for x in D.Center]),
           (name, M.Dim, [0.0] * M.Dim), 'default shape of %s', repr(M))
    par = {'cube': {'edge': 1.0}, 'bicone': {'radius': 1.0, 'hollow': 0.0},
           'cylinder': {'radius': 1.0, 'hollow': 0.0, 'duration': 2.0}}[name]
    for k, v in par.items():
        ctx.eq(float(D.Parameter(k)), v, '%s of the default shape of %s', k,
               repr(M))


def gen_default():
    for d in (1, 2, 3, 4, 5):
        yield ['flat', d, None]
        if d > 1:
            yield ['flat', d, [2.0] * (d - 1)]
            yield ['flat', d, [0.0] * (d - 1)]
            for j in range(d - 1):
                yield ['flat', d, [0.5 if k == j else 0.0
                                   for k in range(d - 1)]]
            for p in (0.0, 1.5):
                yield ['flat', d, p]
    for d in (2, 3, 4):
        for r in (0.5, 1.0, 3.0):
            yield ['ds', d, r]
            yield ['ads', d, r]
        yield ['bh', d, [0.5, 'Eddington-Finkelstein']]
        yield ['bh', d, [0.5, 'Schwarzschild']]


def check_default(case, ctx):
    from causets.embeddedcauset import EmbeddedCauset
    from causets import spacetimes as st
    kind, d, par = case
    if kind == 'bh' and d != 2:
        return
    mk = lambda: (st.FlatSpacetime(d) if par is None else
                  st.FlatSpacetime(d, tuple(par) if isinstance(
                      par, list) else par)) if kind == 'flat' else \
        st.deSitterSpacetime(d, par) if kind == 'ds' else \
        st.AntideSitterSpacetime(d, par) if kind == 'ads' else \
        st.BlackHoleSpacetime(d, par[0], par[1])
    for rnd in range(2):
        M = mk()
        ctx.states += 1
        default(M, M.DefaultShape(), ctx)
        M = mk()
        C = EmbeddedCauset(spacetime=M)
        default(M, C.Shape, ctx)
        ctx.eq(C.Dim, d, 'Dim')


# --- rejected coordinates ----------------------------------------------------

def gen_wrong():
    """rows that have not the dimension of the spacetime"""
    for s, (kind, dim, par) in enumerate(SPACES):
        for pre in (0, 3):
            for m in (1, 2, 3):
                for lens in product(range(0, dim + 3), repeat=m):
                    if set(lens) == {dim}:
                        continue
                    for how in ('list', 'rows', 'array', 'deferred', 'iter'):
                        if how == 'array' and len(set(lens)) > 1:
                            continue
                        yield [s, pre, list(lens), how]


def check_wrong(case, ctx):
    from causets.embeddedcauset import EmbeddedCauset
    s, pre, lens, how = case
    sp = SPACES[s]
    pts = points(sp, 8)
    M = lc.make(*sp)
    reset()
    C = EmbeddedCauset(spacetime=M)
    evs, coords = [], []
    if pre:
        coords = [list(p) for p in pts[:pre]]
        evs = check_created(C, C.create(coords), coords, [],
                            list(range(1, pre + 1)), ctx, '')
    full = [list(pts[pre + i]) + [0.25, 0.5] for i in range(len(lens))]
    rows = [r[:l] for r, l in zip(full, lens)]
    kw = {}
    arg = rows
    if how == 'rows':
        arg = [np.array(r) for r in rows]
    elif how == 'array':
        arg = np.array(rows)
    elif how == 'deferred':
        kw['relate'] = False
    elif how == 'iter':
        arg = iter(rows)
    ctx.states += 1
    ctx.raises(ValueError, lambda: C.create(arg, **kw),
               'create with rows of the lengths %s in %s' % (lens, sp))
    ctx.eq(ids(C), ids(evs), 'events after rejected coordinates')
    check_related(C, evs, coords, oracle(sp), ctx, 'after a rejected create: ')
    density(C, pre, ctx, 'after a rejected create: ')
    # and the next one is as if nothing happened
    new = check_created(C, C.create(pts[4:6]), pts[4:6], evs,
                        [pre + 1, pre + 2], ctx, 'after a rejected create: ')
    check_related(C, evs + new, coords + pts[4:6], oracle(sp), ctx,
                  'after a rejected create: ')


# --- density and length scale ------------------------------------------------

SHAPES = [['cube', {'edge': 3.0}, lambda d: 3.0 ** d],
          ['ball', {'radius': 2.0}, lambda d: (math.pi * 2.0 ** 2 if d == 2
                                               else 4 / 3 * math.pi * 8.0)],
          ['bicone', {'radius': 2.0}, lambda d: (8.0 if d == 2 else
                                                 2 / 3 * math.pi * 8.0)],
          ['cylinder', {'radius': 2.0, 'duration': 3.0},
           lambda d: (12.0 if d == 2 else math.pi * 4 * 3.0)],
          ['cuboid', {}, lambda d: 1.0]]


def gen_density():
    for s in range(len(SHAPES)):
        for d in (2, 3):
            for n in (0, 1, 2, 5, 8, 27):
                yield [s, d, n]


def check_density(case, ctx):
    from causets.embeddedcauset import EmbeddedCauset
    from causets.shapes import CoordinateShape
    s, d, n = case
    name, kw, vol = SHAPES[s]
    C = EmbeddedCauset(shape=CoordinateShape(d, name, **kw))
    C.create([[0.1 * i] + [0.0] * (d - 1) for i in range(n)])
    ctx.states += 1
    V = vol(d)
    ctx.ck(abs(C.Density - n / V) < 1e-9 * max(1.0, n / V), 'Density of %s is %s', case,
           C.Density)
    want = 0.0 if n == 0 else (V / n) ** (1 / d)
    ctx.ck(abs(C.LengthScale - want) < 1e-9 * max(1.0, want), 'LengthScale of %s is %s', case,
           C.LengthScale)
    if n > 2:
        C.discard(list(C)[:2])
        ctx.ck(abs(C.Density - (n - 2) / V) < 1e-9 * max(1.0, n / V),
               'Density after discarding is %s', C.Density)


# --- relabel -----------------------------------------------------------------

def gen_relabel(nmax):
    def gen():
        for n in range(0, nmax + 1):
            for p in product(range(min(n, 4)), repeat=n):
                for dim in (0, 1, 2, None):
                    for desc in (False, True, None):
                        yield [list(p), dim, desc]
                        if n > 2 and n < nmax and desc in (None, n > 3):
                            for fine in (1e-6, 1e-9, 1e-12, 1e5):
                                yield [list(p), dim, desc, fine]
    return gen


def check_relabel(case, ctx):
    from causets.embeddedcauset import EmbeddedCauset
    p, dim, desc = case[:3]
    n = len(p)
    d = 0 if dim is None else dim
    coords = []
    for i, v in enumerate(p):
        c = [float(i % 2), float(-i), float(i * i)]
        c[d] = v * 0.5 - 1.0
        if len(case) > 3:       # nearly the same, or huge
            c[d] = 1.0 + v * case[3]
        coords.append(c)
    reset()
    C = EmbeddedCauset(dim=3)
    if n:
        C.create(coords, labelFormat='x{}')
    at = {e.Label: i for i, e in ((int(e.Label[1:]) - 1, e) for e in C)}
    evs = {int(e.Label[1:]) - 1: e for e in C}
    ev0 = ids(C)
    before = {(id(a), id(b)) for a in C for b in C if a < b}
    kw = {}
    if dim is not None:
        kw['dim'] = dim
    if desc is not None:
        kw['descending'] = desc
    C.relabel(**kw)
    ctx.states += 1
    ctx.eq(ids(C), ev0, 'events after relabelling')
    ctx.eq(sorted(int(e.Label) for e in C), list(range(1, n + 1)), 'labels')
    seq = [coords[i][d] for i, e in sorted(
        evs.items(), key=lambda t: int(t[1].Label))]
    ctx.eq(seq, sorted(seq, reverse=bool(desc)),
           'coordinates in the order of the labels of %s', case)
    ctx.eq({i: [float(c) for c in e.Coordinates] for i, e in evs.items()},
           {i: c for i, c in enumerate(coords)}, 'coordinates')
    ctx.eq({(id(a), id(b)) for a in C for b in C if a < b}, before, 'relations')


# --- permutations ------------------------------------------------------------

def gen_perm(nmax, formats):
    def gen():
        for n in range(nmax + 1):
            for p in permutations(range(1, n + 1)):
                for r in (None, 1.0, 2.5, 0.01):
                    for f in formats:
                        if n == nmax and (r == 0.01 or f is not None):
                            continue
                        yield [list(p), r, f]
    return gen


def gen_perm_large():
    for p, k in ((11, 3), (67, 2), (101, 37), (103, 7), (131, 53), (257, 100)):
        for r in (None, 2.5, 2e-5):
            for f in (None, 'e{:03d}'):
                yield [[k * i % p for i in range(1, p)], r, f]


def check_perm(case, ctx):
    from causets.embeddedcauset import EmbeddedCauset
    p, r, f = case
    n = len(p)
    kw = {}
    if r is not None:
        kw['radius'] = r
    if f is not None:
        kw['labelFormat'] = f
    reset()
    arg = list(p)
    C = EmbeddedCauset.FromPermutation(arg, **kw)
    R = 1.0 if r is None else r
    ctx.eq(arg, p, 'argument')
    ctx.eq(C.Card, n, 'Card')
    ctx.states += n
    ctx.eq((C.Dim, C.Shape.Name, type(C.Spacetime).__name__),
           (2, 'bicone', 'FlatSpacetime'), 'embedding')
    ctx.ck(abs(C.Shape.Parameter('radius') - R) < 1e-12 * R, 'radius')
    by = {e.Label: e for e in C}
    lab = [(i if f is None else f.format(i)) for i in range(1, n + 1)]
    ctx.eq(set(by), set(lab), 'labels')
    pos = {v: k for k, v in enumerate(p)}
    dn = []
    for j in range(1, n + 1):
        dn.append(sum(1 << (i - 1) for i in range(1, j) if pos[i] < pos[j]))
    P = Poset(dn)
    evs = [by[l] for l in lab]
    X = Idx(evs)
    for i in range(n):
        ctx.eq(X.m(evs[i].Past), dn[i], 'past of %d in permutation %s', i + 1,
               p)
        t, x = map(float, evs[i].Coordinates)
        ctx.ck(abs(t) + abs(x) < R, 'event %d at %s outside the diamond', i + 1,
               (t, x))
    obs.links(P, evs, ctx, '', ('LinkPast', 'LinkFuture'))


def families(tier):
    t = tier == 'thorough'
    every = list(range(len(SPACES)))
    return [
        Family('histories', gen_hist(every, 3),
               check_hist, 'every sequence of up to 3 of the operations %s in '
               'each of %d spacetimes' % (OPS, len(SPACES))),
        Family('histories4', gen_hist(every if t else [1], 4), check_hist,
               'every sequence of up to 4 operations (quick: periodic flat '
               'spacetime)'),
        Family('lattices', gen_big(tier), check_big,
               'all points of coordinate lattices created at once or in two '
               'batches'),
        Family('close', gen_close, check_close,
               'events 1e-6 and 1e-8 before and after the light arrives'),
        Family('constructor', gen_ctor, check_ctor,
               'all combinations of spacetime, shape, coordinates and dim '
               'arguments of the lists'),
        Family('wrong dimension', gen_wrong, check_wrong,
               'up to 3 rows of all lengths up to dim + 2 that are not all of '
               'the right dimension'),
        Family('density', gen_density, check_density,
               '5 shapes, d=2,3, up to 27 events'),
        Family('default', gen_default, check_default,
               'default regions of spacetimes'),
        Family('relabel', gen_relabel(6 if t else 5), check_relabel,
               'all assignments of up to 4 distinct coordinate values to n '
               'events, each coordinate, both orders'),
        Family('large permutations', gen_perm_large, check_perm,
               'permutations of 10 to 256'),
        Family('permutations', gen_perm(7 if t else 6,
                                        (None, '{:02d}', 'e{}')), check_perm,
               'all permutations of up to %d integers' % (7 if t else 6)),
    ]
