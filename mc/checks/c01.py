'''C01: the event relation is one strict partial order for every history.'''
from itertools import product
from mc.core import Family
from mc.order import Poset, bits, labelled, unlabelled, big_family, popcount, \
    huge_family, giant_family, few_sets, chain, antichain
from mc import hist, obs
from mc.impl import mk, build, reset, Idx, Causet, ROUTES, SCHEDULED

PROPERTY = 'C01'
RULE = ('states: reference partial orders reached; transitions: answers of the '
        'real code compared; a trace is one complete operation history (or '
        'construction route) replayed on the real code')
ASSUMPTIONS = ['histories create no causal loop (the class documents that '
               'consistency is the caller\'s responsibility)',
               'set iteration orders are scheduled through event hashes']


def run_history(ops, hashes=None, linked=None, pack=set):
    '''linked: number of operations after which all events are linked'''
    reset(len(ops))
    ev = []
    for p, op in enumerate(ops):
        if p == linked:
            for e in ev:
                e.link()
        if op[0] == 'c':
            k = len(ev)
            ev.append(mk(hashes[k] if hashes else k,
                         past=pack(ev[i] for i in bits(op[1])),
                         future=pack(ev[i] for i in bits(op[2]))))
        elif op[0] == 'd':
            ev[op[1]].disjoin()
    return ev


def model(ops):
    dn = ()
    for op in ops:
        dn = hist.m_create(dn, op[1], op[2]) if op[0] == 'c' \
            else hist.m_disjoin(dn, op[1])
    return dn


def check_history(case, ctx):
    ops, rev = case
    n = sum(1 for o in ops if o[0] == 'c')
    h = list(range(n))[::-1] if rev else None
    ev = run_history(ops, h)
    P = Poset(model(ops))
    ctx.states += 1
    obs.relations(P, ev, ctx, subsets=n <= 4)
    X = Idx(ev)
    for linked in range(0 if rev else 1, len(ops)):
        # .. and with remembered links; past and future are any iterables
        ev = run_history(ops, h, linked, iter if rev else list)
        X = Idx(ev)
        got = [(X.m(e.Past), X.m(e.Future)) for e in ev]
        ctx.eq(got, list(zip(P.dn, P.up)), 'relations, linked after %d '
               'operations', linked)


def cases_hist(creates, disjoins, length, mincreates=0):
    def gen():
        for ops, dn in hist.histories(creates, disjoins, length):
            if len(dn) >= mincreates:
                yield [ops, 0]
                if len(dn) > 2:
                    yield [ops, 1]
    return gen


def check_route(case, ctx):
    dn, route = case
    P = Poset(dn)
    ev = build(P, route)
    ctx.states += 1
    obs.relations(P, ev, ctx, subsets=P.n <= 5)


def cases_huge():
    for dn in huge_family():
        for r in ROUTES:
            yield [list(dn), r]


def cases_giant():
    for k, dn in enumerate(giant_family()):
        yield [list(dn), ROUTES[k % 5]]
        yield [list(dn), ROUTES[(k + 2) % 5]]


def check_hubs(case, ctx):
    '''an event that is put between two orders relates them'''
    kind, m, n = case
    a = chain(m) if kind & 1 else antichain(m)
    b = chain(n) if kind & 2 else antichain(n)
    full = (1 << m) - 1
    A = build(Poset(a), 'full')
    B = build(Poset(b), 'up')
    reset(3)
    h = mk(m + n, past=A[::-1] if kind & 4 else set(A),
           future=iter(B) if kind & 4 else B)
    P = Poset(tuple(a) + tuple(full | x << m | 1 << m + n for x in b) +
              (full,))
    ctx.states += 1
    obs.relations(P, A + B + [h], ctx, subsets=False)


def check_huge(case, ctx):
    dn, route = case
    P = Poset(dn)
    ev = build(P, route)
    ctx.states += 1
    obs.relations(P, ev, ctx, subsets=False)
    X = Idx(ev)
    for s in few_sets(P):
        S = X.s(s)
        for i in range(0, P.n, 3 if P.n < 64 else 17):
            ctx.eq((X.strict(ev[i].Spacelike(S)), ev[i].SpacelikeCard(S)),
                   (s & ~P.cone(i), popcount(s & ~P.cone(i))),
                   'Spacelike(%d) of event %d', s, i)
        ctx.eq(X.strict(S), s, 'argument of Spacelike')


def cases_routes(sizes, routes, src=labelled):
    def gen():
        for n in sizes:
            for dn in src(n):
                for r in routes:
                    yield [list(dn), r]
    return gen


def cases_big():
    for dn in big_family():
        for r in ROUTES:
            yield [list(dn), r]


def cases_merge(n):
    def gen():
        for dn in labelled(n):
            for A in range(1 << n):
                for B in range(1 << n):
                    if not A & B and hist.m_merge(dn, A, B) is not None:
                        yield [list(dn), A, B]
    return gen


def check_merge(case, ctx):
    '''merging two sets of events puts everything up to the first set before
    everything from the second set on - or nothing, if merged as disjoint'''
    dn, A, B = case
    n = len(dn)
    for disjoint in (False, True):
        P = Poset(dn if disjoint else hist.m_merge(tuple(dn), A, B))
        for linked in (0, (1 << n) - 1):
            ev = build(Poset(dn))
            for i in bits(linked):
                ev[i].link()
            R = Causet.merge([ev[i] for i in bits(A)],
                             {ev[i] for i in bits(B)}, disjoint)
            ctx.states += 1
            obs.relations(P, ev, ctx, subsets=False)
            m = Idx(ev).m(R)
            if (A | B) & ~m:
                ctx.ck(False, 'merged events are missing in %s', m)


def families(tier):
    f = [Family('histories4', cases_hist(4, 2, 6),
                check_history,
                'all histories of <=4 creates and <=2 disjoins, 2 hash orders'),
         Family('routes', cases_routes((0, 1, 2, 3, 4, 5), ROUTES), check_route,
                'all labelled posets n<=5 by 5 construction routes'),
         Family('merge4', cases_merge(4), check_merge,
                'every disjoint pair of event sets of every labelled order '
                'n=4'),
         Family('big', cases_big, check_route, 'parametric families, n<=12'),
         Family('huge', cases_huge, check_huge,
                'orders of 16 to 33 events, two listings, 5 routes'),
         Family('giant', cases_giant, check_huge,
                'orders of 66 to 523 events, two routes'),
         Family('hubs', lambda: product(range(8), (1, 9, 70, 140), (1, 8, 69)),
                check_hubs, 'an event created between two chains or '
                'antichains of 1 to 140 events')]
    if tier == 'quick':
        f.append(Family('histories5', cases_hist(5, 0, 5, 5), check_history,
                        'all histories of 5 creates'))
        f.append(Family('unlabelled', cases_routes((6,), ROUTES, unlabelled),
                        check_route, 'unlabelled posets n=6'))
    else:
        f.append(Family('histories5d', cases_hist(5, 2, 7, 5), check_history,
                        'all histories of 5 creates and <=2 disjoins'))
        f.append(Family('routes6', cases_routes((6,), ('full', 'mid', 'up')),
                        check_route, 'all labelled posets n=6'))
        f.append(Family('unlabelled', cases_routes((6, 7, 8), ROUTES,
                                                   unlabelled),
                        check_route, 'unlabelled posets n=6..8'))
    return f
