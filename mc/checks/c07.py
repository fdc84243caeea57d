'''C07: set-level past, future, cone and spacelike queries.'''
from mc.core import Family
from mc.order import Poset, bits, labelled, unlabelled, big_family, \
    huge_family, giant_family, few_sets
from mc.impl import build, mk, Idx, Causet

PROPERTY = 'C07'
RULE = ('states: (order, event set) pairs; transitions: compared sets; a trace '
        'is one order with all queries')
ASSUMPTIONS = []
QS = ('PastOf', 'FutureOf', 'ConeOf')


def want(P, q, s, present, intersect):
    def one(i):
        m = {'PastOf': P.dn[i], 'FutureOf': P.up[i],
             'ConeOf': P.dn[i] | P.up[i]}[q]
        return m | 1 << i if present else m
    sets = [one(i) for i in bits(s)]
    if not sets:
        return 0
    r = sets[0]
    for x in sets[1:]:
        r = r & x if intersect else r | x
    return r


def call(q, A, present, intersect, how):
    f = getattr(Causet, q)
    if how == 0:
        return f(A, includePresent=present, intersect=intersect)
    if how == 1:
        return f(A, present, intersect)
    # defaults
    kw = {}
    if present != (q == 'ConeOf'):
        kw['includePresent'] = present
    if intersect:
        kw['intersect'] = True
    return f(A, **kw)


def intact(P, ev, X, ctx, what):
    for i, e in enumerate(ev):
        if X.m(e.Past) != P.dn[i] or X.m(e.Future) != P.up[i] or \
                len(e.Past) != len(list(bits(P.dn[i]))):
            ctx.ck(False, '%s changed the relations of event %d' % (what, i))
    ctx.transitions += 1


def queries(P, ev, X, s, ctx, alias=True):
    foreign = mk(P.n + 1) if alias else None
    for q in QS:
        for present in (False, True):
            for inter in (False, True):
                w = want(P, q, s, present, inter)
                A = X.s(s)
                for how in (0, 1, 2) if alias else (0,):
                    R = call(q, A, present, inter, how)
                    ctx.transitions += 1
                    if not isinstance(R, set) or X.strict(R) != w:
                        ctx.eq(X.strict(R), w,
                               '%s(%d, present=%s, intersect=%s)', q, s,
                               present, inter)
                    if X.strict(A) != s:
                        ctx.eq(X.strict(A), s, '%s changed its argument', q)
                    if alias:
                        R.add(foreign)
                        R.difference_update(ev)
                        if X.strict(A) != s:
                            ctx.ck(False, '%s returned its argument' % q)
                        for i, e in enumerate(ev):
                            if foreign in e.Past or foreign in e.Future or \
                                    len(e.Past) + len(e.Future) != \
                                    bin(P.dn[i] | P.up[i]).count('1'):
                                ctx.ck(False, '%s(%d, present=%s, intersect='
                                       '%s) aliases a past or future'
                                       % (q, s, present, inter))


def cases(src, sizes, route, alias):
    def gen():
        for n in sizes:
            for dn in src(n):
                yield [list(dn), route, alias]
    return gen


def check(case, ctx):
    dn, route, alias = case
    P = Poset(dn)
    n = P.n
    ev = build(P, route)
    X = Idx(ev)
    S = Causet(set(ev))
    for s in range(1 << n) if n <= 8 else \
            small_sets(P) if n <= 12 else few_sets(P):
        ctx.states += 1
        queries(P, ev, X, s, ctx, alias)
        A = X.s(s)
        R = S.SpacelikeTo(A)
        w = P.full & ~want(P, 'ConeOf', s, True, False)
        ctx.eq(X.strict(R), w, 'SpacelikeTo(%d)', s)
        R.update(ev)
        ctx.eq(X.strict(A), s, 'SpacelikeTo changed its argument')
        ctx.eq(X.strict(S), P.full, 'causet after SpacelikeTo')
    intact(P, ev, X, ctx, 'set queries')


def small_sets(P):
    n = P.n
    out = {0, P.full}
    for i in range(n):
        for j in range(n):
            out |= {1 << i | 1 << j, P.interval(i, j), P.cone(i)}
    out |= set(P.antichains())
    return sorted(out)


def check_part(case, ctx):
    '''SpacelikeTo of a causet with discarded events'''
    dn, D = case
    P = Poset(dn)
    ev = build(P)
    X = Idx(ev)
    S = Causet(set(ev))
    S.discard(X.s(D))
    for s in range(1 << P.n):
        ctx.states += 1
        w = P.full & ~D & ~want(P, 'ConeOf', s, True, False)
        ctx.eq(X.strict(S.SpacelikeTo(X.s(s))), w, 'SpacelikeTo(%d)', s)


def families(tier):
    q = tier == 'quick'
    f = [Family('alias', cases(labelled, (0, 1, 2, 3, 4), 'full', True), check,
                'every event set of labelled posets n<=4, aliasing tested'),
         Family('sets5', cases(labelled, (5,), 'mid', False), check,
                'every event set of labelled posets n=5'),
         Family('sets6', cases(unlabelled, (6,) if q else (6, 7, 8), 'links',
                               False),
                check, 'every event set of unlabelled posets n=6 (7, 8)'),
         Family('partial', lambda: ([list(dn), D] for n in (1, 2, 3, 4)
                                    for dn in labelled(n)
                                    for D in range(1 << n)), check_part,
                'n<=4 after discarding any subset'),
         Family('big', lambda: ([list(dn), 'full', False]
                                for dn in big_family()), check,
                'parametric families n<=12: pairs, intervals, antichains'),
         Family('huge', lambda: ([list(dn), 'mid', False]
                                 for dn in huge_family()), check,
                'orders of 16 to 33 events, two listings'),
         Family('giant', lambda: ([list(dn), ('full', 'matrix')[k % 2], False]
                                  for k, dn in enumerate(giant_family())),
                check, 'orders of 66 to 523 events')]
    if not q:
        f.append(Family('alias5', cases(labelled, (5,), 'full', True), check,
                        'labelled n=5, aliasing tested'))
    return f
