'''C02: links are always the transitive reduction of the current relations.'''
from itertools import product
from mc.core import Family
from mc.order import (Poset, bits, labelled, unlabelled, big_family, popcount,
                      huge_family, giant_family, few_sets,
                      mask, closure)
from mc import hist, obs
from mc.impl import mk, build, reset, Idx, Causet, CausetEvent, ROUTES

PROPERTY = 'C02'
RULE = ('states: reference partial orders with a link-cache state; '
        'transitions: answers of the real code compared; a trace is one '
        'history of create/link/unlink/query/disjoin/merge operations')
ASSUMPTIONS = ['histories create no causal loop',
               'relations are compared after every history, too']


def run(ops):
    '''ops: ['c', P, F] ['l', x] ['u', x] ['d', x] ['q', x] ['m', A, B]'''
    n = sum(1 for o in ops if o[0] == 'c')
    reset(n)
    ev = []
    for op in ops:
        t = op[0]
        if t == 'c':
            ev.append(mk(len(ev), past={ev[i] for i in bits(op[1])},
                         future={ev[i] for i in bits(op[2])}))
        elif t == 'l':
            ev[op[1]].link()
        elif t == 'u':
            ev[op[1]].unlink()
        elif t == 'd':
            ev[op[1]].disjoin()
        elif t == 'q':
            ev[op[1]].LinkFuture
        elif t == 'm':
            Causet.merge({ev[i] for i in bits(op[1])},
                         {ev[i] for i in bits(op[2])})
    return ev


def model(ops):
    dn = ()
    for op in ops:
        if op[0] == 'c':
            dn = hist.m_create(dn, op[1], op[2])
        elif op[0] == 'd':
            dn = hist.m_disjoin(dn, op[1])
        elif op[0] == 'm':
            dn = hist.m_merge(dn, op[1], op[2])
    return dn


def verify(P, ev, ctx, relations=True, queries=obs.QUERIES):
    obs.links(P, ev, ctx, queries=queries)
    if relations:
        X = Idx(ev)
        for i, e in enumerate(ev):
            if X.m(e.Past) != P.dn[i] or X.m(e.Future) != P.up[i]:
                ctx.ck(False, 'relations of event %d changed' % i)
        ctx.transitions += 2 * len(ev)


# --- link times --------------------------------------------------------------

def creation_ops(dn):
    '''create 0, 1, .. in this order with closed past and future'''
    P = Poset(dn)
    return [['c', P.dn[i] & (1 << i) - 1, P.up[i] & (1 << i) - 1]
            for i in range(P.n)]


def cases_linktimes(n, disjoins):
    def gen():
        for dn in labelled(n):
            for times in product(*[range(k, n + 1) for k in range(n)]):
                yield [list(dn), list(times), disjoins]
    return gen


def check_linktimes(case, ctx):
    dn, times, nd = case
    n = len(dn)
    base = creation_ops(dn)
    ops0 = []
    for k, op in enumerate(base):
        ops0.append(op)
        ops0 += [['l', x] for x in range(n) if times[x] == k]
    tails = [[]]
    if nd >= 1:
        tails += [[['d', x]] for x in range(n)]
    if nd >= 2:
        tails += [[['d', x], ['d', y]] for x in range(n) for y in range(n)
                  if x != y]
    for tail in tails:
        ops = ops0 + tail
        P = Poset(model(ops))
        ctx.states += 1
        verify(P, run(ops), ctx, queries=(
            'LinkPast', 'LinkFuture', 'isPastLink', 'isFutureLink', 'isLink'))


# --- general histories -------------------------------------------------------

def extra_ops(n, dn):
    for x in range(n):
        yield ['l', x]
        yield ['u', x]
        yield ['d', x]
        yield ['q', x]
    for x in range(n):
        for y in range(n):
            if x != y and hist.m_merge(dn, 1 << x, 1 << y) is not None:
                yield ['m', 1 << x, 1 << y]


def step(dn, op):
    if op[0] == 'd':
        return hist.m_disjoin(dn, op[1])
    if op[0] == 'm':
        return hist.m_merge(dn, op[1], op[2])
    return dn


def cases_general(n, extras):
    def rec(ops, dn, k):
        if len(dn) == n:
            yield ops
        if k < extras:
            for op in extra_ops(len(dn), dn):
                yield from rec(ops + [op], step(dn, op), k + 1)
        if len(dn) < n:
            seen = set()
            for P, F in hist.creations(len(dn)):
                new = hist.m_create(dn, P, F)
                if new is not None and new not in seen:
                    seen.add(new)
                    yield from rec(ops + [['c', P, F]], new, k)
    return lambda: rec([], (), 0)


def check_general(ops, ctx):
    P = Poset(model(ops))
    ctx.states += 1
    verify(P, run(ops), ctx, queries=(
        'LinkFuture', 'LinkPast', 'isFutureLink', 'isPastLink', 'LinkCone',
        'isLink'))


# --- bridges -----------------------------------------------------------------

def cases_bridge(sizes, tails):
    def gen():
        for n in sizes:
            for dn in labelled(n):
                for P, F in hist.creations(n):
                    if hist.m_create(dn, P, F) is not None:
                        yield [list(dn), P, F, tails]
    return gen


def check_bridge(case, ctx):
    '''an event created between (any) events of an order, of which some have
    been linked before'''
    dn, P, F, tails = case
    n = len(dn)
    new = hist.m_create(tuple(dn), P, F)
    end = [[]] + ([[['d', x]] for x in range(n + 1)] if tails else [])
    for linked in range(1 << n):
        ops = creation_ops(dn) + [['l', x] for x in bits(linked)] + \
            [['c', P, F]]
        for tail in end:
            Q = Poset(hist.m_disjoin(new, tail[0][1]) if tail else new)
            ctx.states += 1
            verify(Q, run(ops + tail), ctx, queries=(
                'LinkPast', 'LinkFuture', 'isPastLink', 'isFutureLink'))


# --- lazy queries ------------------------------------------------------------

def cases_lazy(sizes, routes):
    def gen():
        for n in sizes:
            for dn in labelled(n):
                for r in routes:
                    for q in obs.QUERIES:
                        yield [list(dn), r, q]
    return gen


def check_lazy(case, ctx):
    dn, route, q = case
    P = Poset(dn)
    ev = build(P, route)
    ctx.states += 1
    if route in ('full', 'links', 'up', 'mid'):
        for e in ev:
            ctx.ck(not e.hasBeenLinked(), 'new event has been linked')
    obs.link_query(P, ev, Idx(ev), q, ctx, 'first query: ')
    verify(P, ev, ctx)
    for e in ev:
        e.unlink()
        e.unlink()
        ctx.ck(not e.hasBeenLinked(), 'unlinked event has been linked')
    for e in ev:
        e.link()
        e.link()
        ctx.ck(e.hasBeenLinked(), 'linked event has not been linked')
    verify(P, ev, ctx)


# --- merge -------------------------------------------------------------------

def cases_merge_all(maxn):
    def gen():
        ps = [dn for n in range(maxn + 1) for dn in labelled(n)]
        for a in ps:
            for b in ps:
                yield [list(a), list(b)]
    return gen


def check_merge_all(case, ctx):
    a, b = case
    n, m = len(a), len(b)
    A, B = Poset(a), Poset(b)
    full = (1 << n) - 1
    joined = Poset(tuple(a) + tuple(d << n | full for d in b))
    apart = Poset(tuple(a) + tuple(d << n for d in b))
    for linked in range(1 << n + m):
        for disjoint in (False, True):
            if disjoint and linked not in (0, (1 << n + m) - 1):
                continue
            ev = build(A) + build(B, label=lambda i: n + i + 1)
            for i in bits(linked):
                ev[i].link()
            S, T = Causet(set(ev[:n])), Causet(set(ev[n:]))
            if linked & 1:
                R = Causet.merge(S, T, disjoint)
            else:
                R = Causet.merge(iter(ev[:n]), list(ev[n:]),
                                 disjoint=disjoint)
            ctx.eq(Idx(ev).m(R), (1 << n + m) - 1, 'events of the merged set')
            ctx.eq(R.Card, n + m, 'cardinality of the merged set')
            ctx.states += 1
            verify(apart if disjoint else joined, ev, ctx, queries=(
                'LinkPast', 'LinkFuture'))
            ctx.eq(Idx(ev).m(S), full, 'first argument changed')


def cases_merge_pool(n):
    def gen():
        for dn in labelled(n):
            for A in range(1 << n):
                for B in range(1 << n):
                    if not A & B and hist.m_merge(dn, A, B) is not None:
                        yield [list(dn), A, B]
    return gen


def check_merge_pool(case, ctx):
    dn, A, B = case
    n = len(dn)
    P = Poset(dn)
    R = Poset(hist.m_merge(tuple(dn), A, B))
    for linked in range(1 << n):
        ev = build(P)
        X = Idx(ev)
        for i in bits(linked):
            ev[i].link()
        S = Causet.merge(X.s(A), X.s(B))
        ctx.states += 1
        if A and B:
            ctx.eq(X.m(S), R.conn(A | B), 'events of the merged set')
        verify(R, ev, ctx, queries=('LinkPast', 'LinkFuture'))


# --- causets -----------------------------------------------------------------

def cases_causet(sizes):
    def gen():
        for n in sizes:
            for dn in labelled(n):
                for D in range(1 << n):
                    yield [list(dn), D]
    return gen


def check_causet(case, ctx):
    dn, D = case
    n = len(dn)
    P = Poset(dn)
    for linked in range(1 << n):
        ev = build(P)
        X = Idx(ev)
        S = Causet(set(ev))
        for i in bits(linked):
            ev[i].link()
        S.discard(X.s(D))
        ctx.states += 1
        S.link()
        for i in bits(P.full & ~D):
            ctx.ck(ev[i].hasBeenLinked(), 'not linked by Causet.link')
        verify(P, ev, ctx, queries=('LinkPast', 'LinkFuture'))
        S.unlink()
        for i in bits(P.full & ~D):
            ctx.ck(not ev[i].hasBeenLinked(), 'linked after Causet.unlink')
        S.unlink()
        S.link()
        S.link()
        S.add(X.s(D), unlink=bool(linked & 1))
        if linked & 1 and any(e.hasBeenLinked() for e in ev):
            ctx.ck(False, 'linked after Causet.add that resets the links')
        verify(P, ev, ctx, queries=('LinkFuture', 'LinkPast'))
        [e.LinkPast for e in ev]
        S.discard(X.s(D), unlink=True)
        if any(ev[i].hasBeenLinked() for i in bits(P.full & ~D)):
            ctx.ck(False, 'linked after Causet.discard that resets the links')
        S.link()
        verify(P, ev, ctx, queries=('LinkFuture', 'LinkPast'))


def cases_static(src, sizes, routes):
    def gen():
        for n in sizes:
            for dn in src(n):
                for r in routes:
                    yield [list(dn), r]
    return gen


def check_static(case, ctx):
    dn, route = case
    P = Poset(dn)
    n = P.n
    ctx.states += 1
    total = sum(popcount(x) for x in P.ldn)
    for bulk in (False, True):
        ev = build(P, route)
        S = Causet(set(ev))
        if bulk:
            S.link()
            for e in ev:
                ctx.ck(e.hasBeenLinked(), 'not linked by Causet.link')
        ctx.eq(S.LinkCount(), total, 'LinkCount')
        X = Idx(ev)
        if n <= 5:
            for s in range(1 << n):
                ctx.eq(S.LinkCount(X.s(s)),
                       sum(popcount(P.ldn[i] & s) for i in bits(s)),
                       'LinkCount(%d)', s)
        verify(P, ev, ctx, queries=obs.QUERIES if n <= 5 else
               [q for q in obs.QUERIES if q != 'LinkCountOf'])


def cases_big():
    for dn in big_family():
        for r in ROUTES:
            yield [list(dn), r]


def cases_huge():
    for dn in huge_family():
        for r in ROUTES:
            yield [list(dn), r]


def cases_giant():
    for k, dn in enumerate(giant_family()):
        yield [list(dn), ROUTES[k % 5]]


def check_huge(case, ctx):
    check_static(case, ctx)
    dn, route = case
    P = Poset(dn)
    for first in (True, False):
        ev = build(P, route)
        X = Idx(ev)
        S = Causet(set(ev))
        if first:
            for e in ev[::2]:
                e.link()
        for s in few_sets(P):
            ctx.states += 1
            ctx.eq(S.LinkCount(X.s(s)),
                   sum(popcount(P.ldn[i] & s) for i in bits(s)),
                   'LinkCount(%d)', s)
        if not first:
            for e in ev[1::3]:
                e.unlink()
            S.unlink()
            verify(P, S.link() or ev, ctx, queries=[
                q for q in obs.QUERIES if q != 'LinkCountOf'])


def families(tier):
    q = tier == 'quick'
    f = [
        Family('lazy', cases_lazy((0, 1, 2, 3, 4), ROUTES), check_lazy,
               'labelled posets n<=4, every link query asked first, 5 routes'),
        Family('linktimes3', cases_linktimes(3, 2), check_linktimes,
               'n=3, every link time of every event, <=2 disjoins'),
        Family('linktimes4', cases_linktimes(4, 2), check_linktimes,
               'n=4, every link time of every event, <=2 disjoins'),
        Family('general2', cases_general(2, 4), check_general,
               '2 creates, <=4 other operations anywhere'),
        Family('general3', cases_general(3, 3 if q else 4), check_general,
               '3 creates, <=3 (4) other operations anywhere'),
        Family('bridge3', cases_bridge((0, 1, 2, 3), True), check_bridge,
               'an event created anywhere in an order n<=3, all linked '
               'subsets, <=1 disjoin'),
        Family('bridge4', cases_bridge((4,), not q), check_bridge,
               'an event created anywhere in an order n=4, all linked '
               'subsets (<=1 disjoin)'),
        Family('merge', cases_merge_all(3), check_merge_all,
               'pairs of labelled posets n<=3, all linked subsets'),
        Family('mergepool3', cases_merge_pool(3), check_merge_pool,
               'merges within posets n=3, all linked subsets'),
        Family('mergepool4', cases_merge_pool(4), check_merge_pool,
               'merges within posets n=4, all linked subsets'),
        Family('causet', cases_causet((0, 1, 2, 3, 4)),
               check_causet, 'bulk link/unlink after discarding any subset, '
               'all cached subsets, n<=4'),
        Family('static', cases_static(labelled, (0, 1, 2, 3, 4, 5),
                                      ('full', 'matrix')), check_static,
               'labelled posets n<=5'),
        Family('static7', cases_static(unlabelled, (6, 7) if q else (6, 7, 8),
                                       ('full', 'mid')), check_static,
               'unlabelled posets n=6, 7 (8)'),
        Family('big', cases_big, check_static, 'parametric families n<=12'),
        Family('huge', cases_huge, check_huge,
               'orders of 16 to 33 events, two listings, 5 routes'),
        Family('giant', cases_giant, check_huge,
               'orders of 66 to 523 events')]
    if not q:
        f += [Family('general4', cases_general(4, 2), check_general,
                     '4 creates, <=2 other operations anywhere'),
              Family('causet5', lambda: ([list(dn), D] for dn in unlabelled(5)
                                         for D in range(32)), check_causet,
                     'bulk link/unlink, unlabelled n=5')]
    return f
