'''C06: chain, antichain and path tests, infinities and components.'''
from mc.core import Family
from mc.order import Poset, bits, labelled, unlabelled, big_family, \
    huge_family, giant_family, few_sets, popcount
from mc.impl import build, Idx, Causet, CausetEvent

PROPERTY = 'C06'
RULE = ('states: (order, event subset) pairs; transitions: compared answers; a '
        'trace is one order with all queries on the given subsets')
ASSUMPTIONS = ['tests of a whole causet are asked for causets that are closed '
               'cones (as constructed)']


def is_path(P, s):
    return s != 0 and P.is_chain(s) and \
        sum(popcount(P.ldn[i] & s) for i in bits(s)) == popcount(s) - 1


def subset_queries(P, S, ev, X, s, ctx, kinds=True):
    A = X.s(s)
    chain, anti, path = P.is_chain(s), P.is_antichain(s), is_path(P, s)
    args = [A]
    if kinds:
        args += [X.l(s), cset(A)]
    for arg in args:
        got = (S.isChain(arg), S.isAntichain(arg), S.isPath(arg))
        if got != (chain, anti, path):
            ctx.eq(got, (chain, anti, path),
                   '(isChain, isAntichain, isPath) of %d (%s)', s,
                   type(arg).__name__)
    mn, mx = P.minimal(s), P.maximal(s)
    got = (X.strict(Causet.PastInfOf(A)), X.strict(Causet.FutureInfOf(A)),
           Causet.PastInfCardOf(A), Causet.FutureInfCardOf(A))
    want = (mn, mx, popcount(mn), popcount(mx))
    if got != want:
        ctx.eq(got, want, '(PastInfOf, FutureInfOf, cards) of %d', s)
    comp = sorted(P.components(s))
    D = S.disjoint(A)
    ctx.ck(isinstance(D, list) and all(isinstance(x, set) for x in D),
           'disjoint is no list of sets')
    if sorted(X.strict(x) for x in D) != comp:
        ctx.eq(sorted(X.strict(x) for x in D), comp, 'disjoint(%d)', s)
    if S.isDisjoint(A) != (len(comp) > 1):
        ctx.eq(S.isDisjoint(A), len(comp) > 1, 'isDisjoint(%d)', s)
    if X.strict(A) != s:
        ctx.eq(X.strict(A), s, 'argument changed')
    ctx.transitions += 3 * len(args) + 6


def cset(A):
    S = Causet()
    S.add(A)
    return S


def whole_queries(P, S, X, ctx):
    f = P.full
    ctx.eq((S.isChain(), S.isAntichain(), S.isPath()),
           (P.is_chain(f), P.is_antichain(f), is_path(P, f)),
           '(isChain, isAntichain, isPath) of the causet')
    mn, mx = P.minimal(f), P.maximal(f)
    ctx.eq((X.strict(S.PastInf), X.strict(S.FutureInf), S.PastInfCard,
            S.FutureInfCard), (mn, mx, popcount(mn), popcount(mx)),
           'infinities and their cardinalities')
    comp = sorted(P.components(f))
    ctx.eq(sorted(X.strict(x) for x in S.disjoint()), comp, 'disjoint()')
    ctx.eq(S.isDisjoint(), len(comp) > 1, 'isDisjoint()')
    ctx.eq(X.strict(S), f, 'causet changed')


def cases(src, sizes, route, subsets):
    def gen():
        for n in sizes:
            for dn in src(n):
                yield [list(dn), route, subsets]
    return gen


def check(case, ctx):
    dn, route, subsets = case
    P = Poset(dn)
    ev = build(P, route)
    X = Idx(ev)
    S = Causet(set(ev))
    whole_queries(P, S, X, ctx)
    rng = range(1 << P.n) if subsets else ()
    for s in rng:
        ctx.states += 1
        subset_queries(P, S, ev, X, s, ctx, kinds=P.n <= 4)
    whole_queries(P, S, X, ctx)


def check_foreign(case, ctx):
    '''subsets of another causet / of a causet after discarding events'''
    dn, D = case
    P = Poset(dn)
    ev = build(P)
    X = Idx(ev)
    S = Causet(set(ev))
    S.discard(X.s(D))
    for s in range(1 << P.n):
        ctx.states += 1
        subset_queries(P, S, ev, X, s, ctx, kinds=False)
    # components of what remains
    m = P.full & ~D
    ctx.eq(sorted(X.strict(x) for x in S.disjoint()),
           sorted(P.components(m)), 'disjoint() after discard')
    ctx.eq((S.isChain(S), S.isAntichain(S), S.isPath(S)),
           (P.is_chain(m), P.is_antichain(m), is_path(P, m)),
           'tests of the remaining events')
    ctx.eq(X.strict(S), m, 'causet changed')


def cases_big():
    for dn in big_family():
        yield [list(dn), 'full', False]


def check_big(case, ctx):
    dn, route, _ = case
    P = Poset(dn)
    ev = build(P, route)
    X = Idx(ev)
    S = Causet(set(ev))
    whole_queries(P, S, X, ctx)
    # every antichain, interval, cone, link path, and each less one event
    sets = set(P.antichains())
    for i in range(P.n):
        sets |= {P.dn[i], P.up[i], P.cone(i)}
        for j in bits(P.up[i]):
            sets.add(P.interval(i, j))
            for p in P.link_paths(i, j)[:50]:
                m = sum(1 << k for k in p)
                sets.add(m)
                sets |= {m & ~(1 << k) for k in p}
    for s in sets:
        ctx.states += 1
        subset_queries(P, S, ev, X, s, ctx, kinds=False)


def check_huge(case, ctx):
    dn, route = case
    P = Poset(dn)
    ev = build(P, route)
    X = Idx(ev)
    S = Causet(set(ev))
    whole_queries(P, S, X, ctx)
    sets = set(few_sets(P))
    for i in (0, P.n // 2, P.n - 1):  # some saturated chains
        s = 1 << i
        while P.ldn[i]:
            i = max(bits(P.ldn[i]))
            s |= 1 << i
            if P.n < 500 or popcount(s) % 32 == 1 or not P.ldn[i]:
                sets |= {s, s & (s - 1), s & ~(1 << i), s | 1 << P.n - 1}
    for s in sets:
        ctx.states += 1
        subset_queries(P, S, ev, X, s, ctx, kinds=False)


def families(tier):
    q = tier == 'quick'
    f = [Family('subsets', cases(labelled, (0, 1, 2, 3, 4, 5), 'full', True),
                check, 'every subset of labelled posets n<=5'),
         Family('subsets6', cases(unlabelled, (6,) if q else (6, 7, 8), 'mid',
                                  True), check,
                'every subset of unlabelled posets n=6 (7, 8)'),
         Family('whole', cases(unlabelled, (7,), 'links', False),
                check, 'unlabelled posets n=7, whole causet'),
         Family('discard', lambda: ([list(dn), D] for n in (1, 2, 3, 4)
                                    for dn in (labelled(n) if n < 4 or not q
                                               else unlabelled(n))
                                    for D in range(1 << n)),
                check_foreign, 'n<=4 after discarding any subset'),
         Family('big', cases_big, check_big,
                'parametric families n<=12: antichains, intervals, paths'),
         Family('huge', lambda: ([list(dn), r] for dn in huge_family()
                                 for r in ('full', 'matrix')), check_huge,
                'orders of 16 to 33 events, two listings'),
         Family('giant', lambda: ([list(dn), ('full', 'matrix')[k % 2]]
                                  for k, dn in enumerate(giant_family())),
                check_huge, 'orders of 66 to 523 events')]
    if not q:
        f.append(Family('labelled6', cases(labelled, (6,), 'full', True),
                        check, 'every subset of labelled posets n=6'))
    return f
