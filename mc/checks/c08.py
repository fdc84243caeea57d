'''C08: causal intervals, their perimeter and interior, smallest intervals.'''
from mc.core import Family
from mc.order import Poset, bits, labelled, unlabelled, big_family, \
    huge_family, giant_family, popcount
from mc.impl import build, Idx, Causet

PROPERTY = 'C08'
RULE = ('states: (order, pair of events[, search set, intersection set]); '
        'transitions: compared answers; a trace is one order with all queries')
ASSUMPTIONS = ['search sets are tested for spacelike pairs, and for related '
               'pairs that are both in the search set']


def intact(P, ev, X, ctx):
    for i, e in enumerate(ev):
        if X.m(e.Past) != P.dn[i] or X.m(e.Future) != P.up[i]:
            ctx.ck(False, 'relations of event %d changed' % i)
    ctx.transitions += 1


def intervals(P, ev, X, ctx):
    n = P.n
    ldn, lup = P.lk
    for i in range(n):
        a = ev[i]
        for j in range(n):
            if n > 64 and (7 * i + j) % (11 if n < 500 else 101):
                continue
            b = ev[j]
            w = P.interval(i, j)
            lt = P.lt(i, j)
            inner = w & ~(1 << i | 1 << j)
            per = lup[i] & ldn[j] if lt else 0
            inside = inner & ~per
            wopen = 1 << i if i == j else inner
            R = Causet.Interval(a, b)
            R2 = Causet.Interval(a, b, includeBoundary=False)
            R3 = Causet.PerimetralEvents(a, b)
            R4 = Causet.InternalEvents(a, b)
            got = (X.strict(R), X.strict(R2), X.strict(R3), X.strict(R4),
                   Causet.IntervalCard(a, b), Causet.IntervalCard(a, b, False),
                   Causet.PerimetralEventCount(a, b),
                   Causet.InternalEventCount(a, b))
            want = (w, wopen, per, inside, popcount(w), popcount(wopen),
                    popcount(per), popcount(inside))
            ctx.transitions += 8
            if got != want:
                ctx.eq(got, want, '(Interval, open Interval, Perimetral, '
                       'Internal, counts) of %d, %d', i, j)
            for r in (R, R2, R3, R4):
                r.clear()
                r.update(ev)
    intact(P, ev, X, ctx)


def smallest(P, i, j, A, I):
    '''A search set, I intersection set (None: everything, and the whole
    interval)'''
    full = P.full
    isect = full if I is None else I
    if P.lt(j, i):
        i, j = j, i
    if P.le(i, j):
        return popcount(P.interval(i, j) & isect)
    S = full if A is None else A
    p = P.dn[i] & P.dn[j] & S
    f = P.up[i] & P.up[j] & S
    if not p and not f:
        return 0
    if not p:
        return min(popcount(P.dn[e] & isect) for e in bits(f))
    if not f:
        return min(popcount(P.up[e] & isect) for e in bits(p))
    return min(popcount(P.interval(x, y) & isect) for x in bits(p)
               for y in bits(f))


def check_small(P, S, ev, X, i, j, A, I, ctx):
    if P.related(i, j) or i == j:
        if A is not None and not (A >> i & 1 and A >> j & 1):
            return
    kw = {}
    if A is not None:
        kw['searching'] = a = X.s(A)
    if I is not None:
        kw['intersecting'] = b = X.s(I)
    ctx.states += 1
    ctx.transitions += 1
    got = S.SmallestIntervalCard(ev[i], ev[j], **kw)
    want = smallest(P, i, j, A, I)
    if got != want:
        ctx.eq(got, want, 'SmallestIntervalCard(%d, %d, %s, %s)', i, j, A, I)
    if A is not None and X.m(a) != A or I is not None and X.m(b) != I:
        ctx.ck(False, 'SmallestIntervalCard changed its argument')


def cases(src, sizes, route, mode):
    def gen():
        for n in sizes:
            for dn in src(n):
                yield [list(dn), route, mode]
    return gen


def check(case, ctx):
    dn, route, mode = case
    P = Poset(dn)
    n = P.n
    ev = build(P, route)
    X = Idx(ev)
    S = Causet(set(ev))
    intervals(P, ev, X, ctx)
    full = P.full
    if mode == 'all':
        sets = [(A, I) for A in [None] + list(range(1 << n))
                for I in [None] + list(range(1 << n))]
    elif mode == 'one':
        sets = [(None, None)] + [(A, None) for A in range(1 << n)] + \
            [(None, I) for I in range(1 << n)] + \
            [(A, A) for A in range(1 << n)] + \
            [(A, full & ~A) for A in range(1 << n)]
    elif mode in ('huge', 'giant'):
        k = full & ~(1 << n // 2)
        sets = [(None, None), (k, None), (full, k)]
    else:
        sets = [(None, None), (full, full)] + \
            [(full & ~(1 << k), None) for k in range(n)] + \
            [(None, full & ~(1 << k)) for k in range(n)]
    for i in range(n):
        for j in range(n):
            if mode == 'huge' and (3 * i + j) % 4 and \
                    not P.related(i, j):
                continue
            if mode == 'giant' and (i * n + 3 * j) % (97 if n < 500 else 4999):
                continue
            for A, I in sets:
                check_small(P, S, ev, X, i, j, A, I, ctx)
    intact(P, ev, X, ctx)


def families(tier):
    q = tier == 'quick'
    f = [Family('all4', cases(labelled, (0, 1, 2, 3), 'full', 'all'),
                check, 'labelled n<=3, all search x intersection sets'),
         Family('all4u', cases(unlabelled if q else labelled, (4,), 'mid',
                               'all'), check,
                'n=4, all search x intersection sets'),
         Family('five', cases(labelled, (5,), 'full', 'few'), check,
                'labelled n=5, search/intersection sets less one event'),
         Family('fiveu', cases(unlabelled, (5,), 'links', 'one'), check,
                'unlabelled n=5, all search or all intersection sets'),
         Family('six', cases(unlabelled, (6, 7) if q else (6, 7, 8), 'links',
                             'few'), check,
                'unlabelled n=6, 7 (8)'),
         Family('big', lambda: ([list(dn), 'mid', 'few']
                                for dn in big_family()), check,
                'parametric families n<=12'),
         Family('huge', lambda: ([list(dn), r, 'huge']
                                 for dn in huge_family()
                                 for r in ('full', 'links')), check,
                'orders of 16 to 33 events, two listings'),
         Family('giant', lambda: ([list(dn), ('full', 'links')[k % 2], 'giant']
                                  for k, dn in enumerate(giant_family())),
                check, 'orders of 66 to 523 events')]
    if not q:
        f += [Family('all5u', cases(unlabelled, (5,), 'full', 'all'), check,
                     'unlabelled n=5, all search x intersection sets'),
              Family('six1', cases(unlabelled, (6,), 'full', 'one'), check,
                     'unlabelled n=6, all search or all intersection sets')]
    return f
