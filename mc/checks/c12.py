'''C12: the central antichain.'''
from mc.core import Family
from mc.order import Poset, bits, labelled, unlabelled, big_family, \
    huge_family, giant_family, popcount
from mc.impl import build, Idx, Causet

PROPERTY = 'C12'
RULE = ('states: (order, member set, specified event); transitions: checked '
        'answers; a trace is one order with all specified events')
ASSUMPTIONS = ['ties are broken arbitrarily']


def verify(P, S, members, ev, X, k, ctx):
    A = S.CentralAntichain() if k is None else S.CentralAntichain(ev[k])
    m = X.strict(A)
    ctx.states += 1
    ctx.transitions += 4
    what = 'CentralAntichain(%s) = %d ' % (k, m)
    if not isinstance(A, set) or m & ~members:
        ctx.ck(False, what + 'is not a set of events of the causet')
    if not P.is_antichain(m):
        ctx.ck(False, what + 'is no antichain')
    d = [popcount(P.dn[i]) - popcount(P.up[i]) for i in range(P.n)]
    d0 = 0 if k is None else d[k]
    for i in bits(members & ~m):
        rel = (P.dn[i] | P.up[i]) & m
        if not rel:
            ctx.ck(False, what + 'is not maximal, %d can be added' % i)
        if min(abs(d[j] - d0) for j in bits(rel)) > abs(d[i] - d0):
            ctx.ck(False, what + 'is not most balanced: event %d' % i)
    if k is not None and members >> k & 1 and not m >> k & 1:
        ctx.ck(False, what + 'does not contain the specified event')
    A.clear()
    if X.strict(S) != members:
        ctx.ck(False, what + 'aliases the causet')


def cases(src, sizes, route):
    def gen():
        for n in sizes:
            for dn in src(n):
                yield [list(dn), route, 0]
    return gen


def check(case, ctx):
    dn, route, D = case
    P = Poset(dn)
    ev = build(P, route)
    X = Idx(ev)
    S = Causet(set(ev))
    if D:
        S.discard(X.s(D))
    m = P.full & ~D
    for k in [None] + list(bits(m))[::1 if P.n < 64 else 15]:
        verify(P, S, m, ev, X, k, ctx)
    for i, e in enumerate(ev):
        if X.m(e.Past) != P.dn[i] or X.m(e.Future) != P.up[i]:
            ctx.ck(False, 'relations of event %d changed' % i)


def families(tier):
    q = tier == 'quick'
    f = [Family('labelled', cases(labelled, (0, 1, 2, 3, 4, 5), 'full'), check,
                'labelled posets n<=5, every specified event'),
         Family('unlabelled', cases(unlabelled, (6, 7, 8), 'mid'), check,
                'unlabelled posets n<=8, every specified event'),
         Family('discard', lambda: ([list(dn), 'full', D]
                                    for dn in labelled(4)
                                    for D in range(1, 16)), check,
                'labelled n=4 after discarding any subset'),
         Family('big', lambda: ([list(dn), r, 0] for dn in big_family()
                                for r in ('full', 'matrix')), check,
                'parametric families n<=12'),
         Family('huge', lambda: ([list(dn), r, D] for dn in huge_family()
                                 for r in ('full', 'matrix')
                                 for D in (0, (1 << len(dn)) // 7)), check,
                'orders of 16 to 33 events, two listings'),
         Family('giant', lambda: ([list(dn), 'full', D] for dn in giant_family()
                                  for D in (0, (1 << len(dn)) // 7)), check,
                'orders of 66 to 523 events')]
    if not q:
        f.append(Family('labelled6', cases(labelled, (6,), 'full'), check,
                        'labelled posets n=6'))
    return f
