'''C10: layers, ranks, and layerings.'''
from itertools import permutations, product
from mc.core import Family
from mc.order import Poset, bits, labelled, unlabelled, big_family, \
    huge_family, giant_family, few_sets, popcount
from mc.impl import build, Idx, Causet

PROPERTY = 'C10'
RULE = ('states: (order, event set, layer range); transitions: compared '
        'answers; a trace is one order with all queries')
ASSUMPTIONS = ['for event sets that are no antichain, a range that includes '
               'past and future layers is the union of both parts',
               'the layering is asked for the entire causet and for convex '
               'event sets']


def numbers(P, s, up, rank):
    '''dict event -> number (>= 0) of the events in S or after S (before S if
    not up)'''
    out = {}
    for b in range(P.n):
        base = (P.dn[b] if up else P.up[b]) & s
        if base:
            if rank:
                out[b] = max(P.rank(a, b) if up else P.rank(b, a)
                             for a in bits(base))
            else:
                out[b] = max(popcount(P.interval(a, b) if up else
                                      P.interval(b, a))
                             for a in bits(base)) - 1
        elif s >> b & 1:
            out[b] = 0
    return out


def want(fut, past, first, last):
    m = 0
    if first <= 0:
        for i, k in past.items():
            if first <= -k <= min(0, last):
                m |= 1 << i
    if last > 0:
        for i, k in fut.items():
            if max(0, first) <= k <= last:
                m |= 1 << i
    return m


GIANT = ((-1, None), (0, None), (2, None), (-70, 70), (1, 200), (60, 66))


def layers(P, ev, X, s, ctx, lim, step=1):
    A = X.s(s)
    pairs = GIANT if P.n > 64 else [
        (first, last) for first in range(-lim, lim + 1, step)
        for last in [None] + list(range(first - 1, lim + 1, step))]
    for name, rank in (('Layers', False), ('Ranks', True)):
        f = getattr(Causet, name)
        fut, past = numbers(P, s, True, rank), numbers(P, s, False, rank)
        for first, last in pairs:
            R = f(A, first) if last is None else f(A, first, last)
            w = 0
            l = first if last is None else last
            if s and first <= l:
                w = want(fut, past, first, l)
            ctx.states += 1
            ctx.transitions += 1
            if not isinstance(R, set) or X.strict(R) != w:
                ctx.eq(X.strict(R), w, '%s(%d, %s, %s)', name, s, first, last)
            R.clear()
            if X.strict(A) != s:
                ctx.ck(False, '%s changed its argument' % name)


def number_lists(P, ev, X, lists, ctx):
    memo = {}
    for l in lists:
        s = 0
        for i in l:
            s |= 1 << i
        L = [ev[i] for i in l]
        for name, rank in (('LayerNumbers', False), ('RankNumbers', True)):
            f = getattr(Causet, name)
            for reverse in (False, True):
                key = s, rank, reverse
                if key not in memo:
                    memo[key] = numbers(P, s, not reverse, rank)
                nums = memo[key]
                w = [-nums[i] if reverse else nums[i] for i in l]
                R = f(L, reverse=True) if reverse else f(L)
                ctx.transitions += 1
                if R != w:
                    ctx.eq(R, w, '%s(%s, reverse=%s)', name, l, reverse)
        if [X.of[id(e)] for e in L] != list(l):
            ctx.ck(False, 'list changed')


def layered(P, ev, X, ctx):
    S = Causet(set(ev))
    for reverse in (False, True):
        w = []
        rest = P.full
        while rest:
            m = P.maximal(rest) if reverse else P.minimal(rest)
            w.append(m)
            rest &= ~m
        for args in ((), (None,), (set(ev),)):
            R = S.layered(*args, reverse=reverse) if reverse or args else \
                S.layered()
            ctx.states += 1
            ctx.eq([X.strict(x) for x in R], w, 'layered(reverse=%s)', reverse)
            for x in R:
                x.clear()
            ctx.eq(X.strict(S), P.full, 'causet after layered')
    return S


def layered_part(P, ev, X, S, ctx, subsets):
    '''layering of convex parts: those that contain the intervals of their
    events'''
    for s in subsets:
        convex = all(P.interval(i, j) & ~s == 0 for i in bits(s)
                     for j in bits(P.up[i] & s))
        if not convex or s in (0, P.full):
            continue
        for reverse in (False, True):
            w = []
            rest = s
            while rest:
                m = P.maximal(rest) if reverse else P.minimal(rest)
                w.append(m)
                rest &= ~m
            A = X.s(s)
            R = S.layered(A, reverse=reverse)
            ctx.states += 1
            ctx.eq([X.strict(x) for x in R], w, 'layered(%d, reverse=%s)', s,
                   reverse)
            ctx.eq(X.strict(A), s, 'argument of layered')


def intact(P, ev, X, ctx):
    for i, e in enumerate(ev):
        if X.m(e.Past) != P.dn[i] or X.m(e.Future) != P.up[i]:
            ctx.ck(False, 'relations of event %d changed' % i)
    ctx.transitions += 1


def cases(src, sizes, route, mode):
    def gen():
        for n in sizes:
            for dn in src(n):
                yield [list(dn), route, mode]
    return gen


def check(case, ctx):
    dn, route, mode = case
    P = Poset(dn)
    n = P.n
    ev = build(P, route)
    X = Idx(ev)
    S = layered(P, ev, X, ctx)
    layered_part(P, ev, X, S, ctx, few_sets(P) if n > 6 else
                 range(1 << n))
    if mode == 'layered':
        return
    if mode == 'huge':
        slim = n < 64 or sum(map(popcount, P.dn)) < 4000
        for k, s in enumerate(few_sets(P)):
            if s and k % (3 if n < 64 else 7) == 0 and \
                    (slim or popcount(s) < 9):
                layers(P, ev, X, s, ctx, n // 3, 4)
        number_lists(P, ev, X, ([list(range(n))[::-1 if n > 64 else 1]]
                                if slim else []) +
                     [list(bits(s)) for s in few_sets(P)[::5]
                      if slim or popcount(s) < 40], ctx)
        intact(P, ev, X, ctx)
        return
    if mode == 'all':
        subsets = range(1 << n)
    else:
        subsets = [s for s in P.antichains() if s]
    for s in subsets:
        layers(P, ev, X, s, ctx, min(n, 4) + 1 if mode == 'all' else n)
    lists = [[], list(range(n)), list(range(n))[::-1]]
    if mode == 'all':
        lists += [list(bits(s)) for s in range(1 << n)]
        if n <= 4:
            lists += [list(p) for p in permutations(range(n))]
            lists += [list(p) for p in product(range(n), repeat=3)] if n else []
    else:
        lists += [list(bits(P.cone(i))) for i in range(n)]
    number_lists(P, ev, X, lists, ctx)
    intact(P, ev, X, ctx)


def families(tier):
    q = tier == 'quick'
    f = [Family('all4', cases(labelled, (0, 1, 2, 3, 4), 'full', 'all'), check,
                'labelled n<=4, all event sets, all ranges, all listings'),
         Family('all5', cases(unlabelled if q else labelled, (5,), 'mid',
                              'all'), check,
                'n=5, all event sets, all ranges'),
         Family('anti', cases(unlabelled, (6,) if q else (6, 7), 'links',
                              'anti'), check,
                'unlabelled n=6 (7), all antichains, all ranges'),
         Family('layered', cases(unlabelled, (7, 8), 'up', 'layered'),
                check, 'unlabelled n=7, 8: layering'),
         Family('layered5', cases(labelled, (5,), 'full', 'layered'),
                check, 'labelled n=5: layering'),
         Family('big', lambda: ([list(dn), 'full', 'anti'] for dn in
                                big_family() if len(dn) <= 12), check,
                'parametric families n<=12'),
         Family('huge', cases(lambda n: huge_family(), (0,), 'full', 'huge'),
                check, 'orders of 16 to 33 events, two listings'),
         Family('giant', cases(lambda n: giant_family(), (0,), 'full', 'huge'),
                check, 'orders of 66 to 523 events')]
    return f
