'''C05: named constructors build exactly the advertised order.'''
from itertools import combinations, permutations
from mc.core import Family
from mc.order import Poset, bits, closure, chain, antichain
from mc.impl import reset, Idx, Causet

PROPERTY = 'C05'
RULE = ('states: reference orders; transitions: compared answers; a trace is '
        'one constructor call')
ASSUMPTIONS = ['permutations contain each of 1..n once']
FORMATS = (None, '', 'x{}', '{:03d}', '{0}/{0}', 'same')


def compare(S, keys, dn, labels, ctx, what):
    '''labels: label of event i; keys: None or how to identify event i'''
    n = len(dn)
    evs = list(S)
    ctx.eq(len(evs), n, what + ': number of events')
    ctx.eq(S.Card, n, what + ': Card')
    by = {}
    for e in evs:
        by.setdefault(e.Label, []).append(e)
    if len(by) == n:
        ctx.eq(sorted(map(str, by)), sorted(map(str, labels)),
               what + ': labels')
        for l in labels:
            ctx.ck(l in by and type(by[l][0].Label) is type(l),
                   '%s: label %r missing' % (what, l))
        ev = [by[l][0] for l in labels]
        X = Idx(ev)
        P = Poset(dn)
        for i in range(n):
            ctx.eq(X.m(ev[i].Past), P.dn[i], '%s: past of %r', what, labels[i])
            ctx.eq(X.m(ev[i].Future), P.up[i], '%s: future of %r', what,
                   labels[i])
            ctx.ck(not ev[i].isEmbedded, what + ': embedded')
        return ev
    # events cannot be told apart by label: compare up to isomorphism
    ctx.eq(sorted(map(str, (e.Label for e in evs))),
           sorted(map(str, labels)), what + ': labels')
    X = Idx(evs)
    from mc.order import canonical
    got = tuple(X.m(e.Past) for e in evs)
    ctx.eq(tuple(X.m(e.Future) for e in evs), Poset(got).up, what + ': futures')
    if n <= 7:
        ctx.eq(canonical(got), canonical(dn), what + ': order')
    else:
        sig = lambda d: sorted((bin(a).count('1'), bin(b).count('1'))
                               for a, b in zip(d, Poset(d).up))
        ctx.eq(sig(got), sig(dn), what + ': order')
    return evs


def fresh(make, ctx, what):
    A, B = list(make()), list(make())
    ctx.ck(not set(map(id, A)) & set(map(id, B)), what + ': events shared')
    ids = set(map(id, A))
    for e in A:
        for x in e.Past | e.Future:
            ctx.ck(id(x) in ids, what + ': foreign relations')


def fmt(f, i):
    return i if f is None else None if f == '' else f.format(i)


def cases_perm(ns, formats):
    def gen():
        for n in ns:
            for p in permutations(range(1, n + 1)):
                yield [list(p), list(formats)]
    return gen


def check_perm(case, ctx):
    p, formats = case
    n = len(p)
    dn = tuple(sum(1 << i for i in range(n)
                   if i < j and p.index(i + 1) < p.index(j + 1))
               for j in range(n))
    ctx.states += 1
    for f in formats:
        reset()
        q = list(p)
        S = Causet.FromPermutation(q) if f is None \
            else Causet.FromPermutation(q, f)
        ctx.ck(q == p, 'permutation changed')
        compare(S, None, dn, [fmt(f, i + 1) for i in range(n)], ctx,
                'FromPermutation')
    fresh(lambda: Causet.FromPermutation(p), ctx, 'FromPermutation')


def cases_perm_large():
    for p in (11, 13, 17, 23, 29):
        for k in range(1, p):
            yield [[k * i % p for i in range(1, p)], FORMATS]
    for p, k in ((67, 2), (101, 37), (131, 53), (257, 100)):
        yield [[k * i % p for i in range(1, p)], FORMATS[:3]]


def cases_lines(maxn):
    return lambda: [[n, f] for n in list(range(maxn + 1)) +
                    [64, 65, 100, 101, 129, 257] for f in FORMATS]


def check_lines(case, ctx):
    n, f = case
    ctx.states += 2
    for make, dn, what in ((Causet.NewChain, chain(n), 'NewChain'),
                           (Causet.NewAntichain, antichain(n),
                            'NewAntichain')):
        reset()
        S = make(n) if f is None else make(n, f)
        compare(S, None, dn, [fmt(f, i + 1) for i in range(n)], ctx, what)
        fresh(lambda: make(n, f), ctx, what)


def cases_fence(maxl, maxh):
    return lambda: [[l, h, c] for l in range(-1, maxl + 1)
                    for h in range(-1, maxh + 1) for c in (True, False)] + \
        [[l, h, c] for l, h in ((65, 1), (33, 3), (2, 40), (11, 11), (129, 1))
         for c in (True, False)]


def fence(length, height, closed):
    if length < 1 or height < 0:
        return ()
    pairs = []
    for h in range(height):
        for l in range(length):
            pairs.append((h * length + l, (h + 1) * length + l))
            if l > 0:
                pairs.append((h * length + l - 1, (h + 1) * length + l))
            elif closed:
                pairs.append((h * length + length - 1, (h + 1) * length + l))
    return tuple(closure(length * (height + 1), pairs))


def check_fence(case, ctx):
    l, h, c = case
    dn = fence(l, h, c)
    lab = list(range(1, len(dn) + 1))
    ctx.states += 1
    reset()
    compare(Causet.NewFence(l, h, c), None, dn, lab, ctx, 'NewFence')
    fresh(lambda: Causet.NewFence(l, height=h, closed=c), ctx, 'NewFence')
    if h == 1:
        compare(Causet.NewFence(l, closed=c), None, dn, lab, ctx,
                'NewFence default height')
        if c:
            compare(Causet.NewFence(l), None, dn, lab, ctx, 'NewFence')
            compare(Causet.NewCrown(l), None, dn, lab, ctx, 'NewCrown')
            if l == 3:
                compare(Causet.NewCrown(), None, dn, lab, ctx, 'NewCrown()')
    elif c:
        compare(Causet.NewFence(l, h), None, dn, lab, ctx, 'NewFence')


def check_simplex(case, ctx):
    d, central = case
    faces = [f for k in range(1, d + 2 if central or d == 0 else d + 1)
             for f in combinations(range(1, d + 2), k)]
    dn = tuple(sum(1 << i for i, f in enumerate(faces)
                   if set(f) < set(g)) for g in faces)
    lab = ['-'.join(map(str, f)) for f in faces]
    ctx.states += 1
    reset()
    compare(Causet.NewSimplex(d, central), None, dn, lab, ctx, 'NewSimplex')
    if central:
        compare(Causet.NewSimplex(d), None, dn, lab, ctx, 'NewSimplex')
    fresh(lambda: Causet.NewSimplex(d, includeCentralFace=central), ctx,
          'NewSimplex')


def families(tier):
    q = tier == 'quick'
    return [
        Family('permutation', cases_perm(range(6 if q else 7), FORMATS),
               check_perm, 'all permutations n<=5 (6), 6 label formats'),
        Family('permutation7', cases_perm((6, 7) if q else (7, 8), (None,)),
               check_perm, 'all permutations n<=7 (8)'),
        Family('permlarge', cases_perm_large, check_perm,
               'permutations i -> k i of 10 to 28 events'),
        Family('lines', cases_lines(24 if q else 50), check_lines,
               'chains and antichains n<=24 (50), 6 label formats'),
        Family('fence', cases_fence(7 if q else 12, 5 if q else 7),
               check_fence, 'fences: length<=7 (12), height<=5 (7)'),
        Family('simplex', lambda: [[d, c] for d in range(0, 11)
                                   for c in (True, False)], check_simplex,
               'simplices of dimension <=7 (8)')]
