'''C09: path enumeration and rank.'''
import math
from mc.core import Family
from mc.order import Poset, bits, labelled, unlabelled, big_family, \
    huge_family, giant_family, popcount
from mc.impl import build, Idx, Causet

PROPERTY = 'C09'
RULE = ('states: (order, pair of events, length option); transitions: compared '
        'answers; a trace is one order with all queries')
ASSUMPTIONS = ['path lengths are numbers of events']


def options(n, ranges):
    yield 'any', lambda k, ks: True
    yield 'min', lambda k, ks: k == min(ks)
    yield 'max', lambda k, ks: k == max(ks)
    yield 'timegeo', lambda k, ks: k == max(ks)
    for l in range(0, n + 2):
        yield l, lambda k, ks, l=l: k == l
        yield [l], lambda k, ks, l=l: k == l
    if ranges:
        for lo in range(0, n + 2):
            for hi in range(lo, n + 2):
                yield [lo, hi], lambda k, ks, a=lo, b=hi: a <= k <= b
        yield [3, 2], lambda k, ks: False


def paths(P, ev, X, i, j, opts, ctx):
    a, b = ev[i], ev[j]
    ps = P.link_paths(i, j)
    ks = [len(p) for p in ps]
    of = X.of
    for opt, sel in opts:
        want = sorted(p for p in ps if sel(len(p), ks))
        got = []
        it = Causet.Paths(a, b) if opt == 'any' else \
            Causet.Paths(a, b, length=opt)
        for p in it:
            got.append(tuple(of.get(id(e), -1) for e in p))
            if len(got) > len(ps):
                break
        ctx.states += 1
        ctx.transitions += 1
        if sorted(got) != want:
            ctx.eq(sorted(got), want, 'Paths(%d, %d, %r)', i, j, opt)
    r = P.rank(i, j)
    got = a.Rank(b)
    ctx.transitions += 1
    if got != (math.inf if r is None else r):
        ctx.eq(got, math.inf if r is None else float(r), 'Rank(%d, %d)', i, j)


def cases(src, sizes, route, ranges, pairs='all'):
    def gen():
        for n in sizes:
            for dn in src(n):
                yield [list(dn), route, ranges]
    return gen


def check(case, ctx):
    dn, route, ranges = case
    P = Poset(dn)
    n = P.n
    ev = build(P, route)
    if sum(dn) % 2:
        Causet(set(ev)).link()
    X = Idx(ev)
    opts = list(options(n, ranges))
    few = [o for o in opts if o[0] in ('any', 2, 'min')]
    for i in range(n):
        for j in range(n):
            paths(P, ev, X, i, j, opts if P.le(i, j) else few, ctx)
    for i, e in enumerate(ev):
        if X.m(e.Past) != P.dn[i] or X.m(e.Future) != P.up[i]:
            ctx.ck(False, 'relations of event %d changed' % i)


def check_rank(case, ctx):
    '''rank on fresh events, first query'''
    dn, _, _ = case
    P = Poset(dn)
    n = P.n
    ev = build(P)
    for i in range(n):
        for j in range(n):
            if P.le(i, j) and n <= 6:
                ev = build(P)
            r = P.rank(i, j)
            ctx.states += 1
            ctx.eq(ev[i].Rank(ev[j]), math.inf if r is None else r,
                   'Rank(%d, %d)', i, j)


def check_huge(case, ctx):
    dn, route, _ = case
    P = Poset(dn)
    n = P.n
    ev = build(P, route)
    X = Idx(ev)
    top = [1] * n  # (bound of) the number of link paths to other events
    for i in sorted(range(n), key=lambda i: popcount(P.up[i])):
        top[i] += sum(top[j] for j in bits(P.lup[i]))
    for i in range(n):
        for j in range(n):
            if (i + j) % 3 and not P.le(i, j):
                continue
            if n > 64 and (top[i] > 3000 or (i * 7 + j) % 13):
                continue
            r = P.rank(i, j)
            ctx.eq(ev[i].Rank(ev[j]), math.inf if r is None else r,
                   'Rank(%d, %d)', i, j)
            if top[i] > 300 or (i * 5 + j) % 4:
                continue
            r = 0 if r is None else r
            opts = [o for o in options(r + 3, False)
                    if not isinstance(o[0], int) or o[0] in (1, r, r + 1)]
            opts = [o for o in opts if not isinstance(o[0], list) or
                    o[0][0] > r]
            opts.append(([2, r], lambda k, ks, r=r: 2 <= k <= r))
            opts.append(([r + 1, n], lambda k, ks, r=r: r + 1 <= k <= n))
            paths(P, ev, X, i, j, opts, ctx)


def check_errors(case, ctx):
    ev = build(Poset((0, 1, 3)))
    for bad in (None, 2.5, (1, 2), {3}):
        ctx.raises(ValueError, lambda: list(Causet.Paths(ev[0], ev[2], bad)),
                   'Paths with length %r' % (bad,))


def families(tier):
    q = tier == 'quick'
    f = [Family('ranges5', cases(labelled, (0, 1, 2, 3, 4, 5), 'full', True),
                check, 'labelled posets n<=5, all pairs, all ranges'),
         Family('ranges7', cases(unlabelled, (6, 7) if q else (6, 7, 8), 'mid',
                                 True), check,
                'unlabelled posets n=6, 7 (8), all pairs, all ranges'),
         Family('rank', cases(unlabelled, (2, 3, 4, 5, 6, 7), '', False),
                check_rank, 'ranks on fresh events, unlabelled n<=7'),
         Family('rank8', cases(unlabelled, (8,), '', False),
                check_rank, 'ranks, unlabelled n=8'),
         Family('big', lambda: ([list(dn), 'links', dn and len(dn) <= 10]
                                for dn in big_family() if len(dn) < 13), check,
                'parametric families n<=12'),
         Family('huge', cases(lambda n: huge_family(), (0,), 'full', False),
                check_huge, 'orders of 16 to 33 events, two listings'),
         Family('giant', cases(lambda n: giant_family(200), (0,), 'links',
                               False), check_huge,
                'orders of 66 to 140 events'),
         Family('errors', lambda: [0], check_errors, 'unsupported lengths')]
    if not q:
        f.append(Family('ranges6', cases(labelled, (6,), 'full', False), check,
                        'labelled posets n=6, all pairs, all lengths'))
    return f
