'''C13: distances along antichains, and antipaths.'''
import json
import os
from itertools import permutations, combinations
import numpy as np
from mc.core import Family
from mc.order import Poset, bits, labelled, unlabelled, big_family, popcount, \
    crown, closure, huge_family, giant_family, few_sets
from mc.impl import build, mk, Idx, Causet

PROPERTY = 'C13'
RULE = ('states: (order, antichain, counting, recursion); transitions: '
        'compared entries and path sets; a trace is one order with all its '
        'antichains')
ASSUMPTIONS = ['the thickened slices are those of Layers(slice, -1, 1)',
               'antipaths along zigzag distances']


def layers(P, s):
    '''layer numbers -1 to 1 of s: union of past and future part'''
    m = 0
    for i in range(P.n):
        f, p = P.up[i] & s, P.dn[i] & s
        inside = s >> i & 1
        if f:
            if max(popcount(P.interval(i, j)) for j in bits(f)) == 2:
                m |= 1 << i
        elif inside:
            m |= 1 << i
        if p:
            if max(popcount(P.interval(j, i)) for j in bits(p)) == 2:
                m |= 1 << i
        elif inside:
            m |= 1 << i
    return m


def spanned(P, i, j, slc, ac):
    '''smallest number of antichain events in an interval spanned within the
    slice, 0 if there is none'''
    p, f = P.dn[i] & P.dn[j] & slc, P.up[i] & P.up[j] & slc
    if not p and not f:
        return 0
    if not p:
        return min(popcount(P.dn[e] & ac) for e in bits(f))
    if not f:
        return min(popcount(P.up[e] & ac) for e in bits(p))
    return min(popcount(P.interval(x, y) & ac) for x in bits(p)
               for y in bits(f))


def reference(P, els, zigzag, recursive):
    '''dict of distances'''
    ac = sum(1 << i for i in els)
    D = {(i, j): 0 if i == j else -1 for i in els for j in els}
    slc, thick = ac, layers(P, ac)
    while popcount(slc) < popcount(thick):
        slc = thick
        for i, j in combinations(els, 2):
            if D[i, j] < 1:
                d = spanned(P, i, j, slc, ac) - 1
                D[i, j] = D[j, i] = min(1, d) if zigzag else d
        if not recursive:
            break
        for k in range(1, len(els)):
            new = [(i, j) for i in els for j in els if D[i, j] < 0 and
                   any(D[i, m] == k and D[m, j] == 1 for m in els)]
            for i, j in new:
                D[i, j] = D[j, i] = k + 1
        thick = layers(P, slc)
    return D


def shortest(D, els, i, j):
    '''all shortest sequences of unit steps'''
    if i == j:
        return [(i,)]
    level = [(i,)]
    while level:
        level = [p + (k,) for p in level for k in els
                 if D[p[-1], k] == 1 and k not in p]
        hit = [p for p in level if p[-1] == j]
        if hit:
            return hit
    return []


def distances(P, S, ev, X, els, perms, ctx):
    for zig in (True, False):
        for rec in (True, False):
            want = reference(P, els, zig, rec)
            for p in perms:
                L = [ev[i] for i in p]
                kw = {}
                if not zig:
                    kw['counting'] = 'intersection'
                elif p[:1] == els[:1]:
                    kw['counting'] = 'ziczac'
                if not rec:
                    kw['recursive'] = False
                D = S.DistanceMatrix(L if len(p) % 2 else tuple(L), **kw)
                ctx.states += 1
                ctx.transitions += 1
                w = [[want[i, j] for j in p] for i in p]
                if D.shape != (len(p), len(p)) or D.tolist() != w:
                    ctx.eq(D.tolist(), w, 'DistanceMatrix(%s, %s)', list(p), kw)
                if not np.issubdtype(D.dtype, np.integer):
                    ctx.ck(False, 'distances of type %s' % D.dtype)


def antipaths(P, S, ev, X, els, ctx, given):
    D = reference(P, els, True, True)
    foreign = [i for i in range(P.n) if i not in els]
    L = [ev[i] for i in els]
    for i in els:
        for j in els:
            want = sorted(shortest(D, els, i, j)) if D[i, j] >= 0 else []
            for along, M in ((L, None), (set(L), None),
                             (L[::-1], S.DistanceMatrix(L[::-1])),
                             ('iter', None))[:given]:
                kw = {} if M is None else {'distances': M}
                if along == 'iter':     # can be consumed only once
                    along = (e for e in L)
                got = []
                for p in S.Antipaths(ev[i], ev[j], along, **kw):
                    got.append(tuple(X.of[id(e)] for e in p))
                    if len(got) > len(want):
                        break
                ctx.transitions += 1
                if sorted(got) != want:
                    ctx.eq(sorted(got), want, 'Antipaths(%d, %d, %s)', i, j,
                           els)
        for j in foreign:
            for a, b in ((i, j), (j, i)):
                ctx.eq(list(S.Antipaths(ev[a], ev[b], L)), [],
                       'Antipaths(%d, %d, %s)', a, b, els)
    # distances counted differently: paths along the antichain that arrive
    for rec in (True, False) if given > 1 else (True,):
        D = reference(P, els, False, rec)
        M = S.DistanceMatrix(L, counting='intersection', recursive=rec)
        for i in els:
            for j in els:
                got = [[X.of[id(e)] for e in p] for p in
                       S.Antipaths(ev[i], ev[j], L, distances=M)]
                ctx.transitions += 1
                want = [[i]] if i == j else [[i, j]] if D[i, j] == 1 else \
                    [] if D[i, j] < 0 else got
                if got != want or D[i, j] >= 0 and not got:
                    ctx.eq(got, want, 'Antipaths(%d, %d, %s) by intersections',
                           i, j, els)
                for p in got:
                    if p[0] != i or p[-1] != j or len(set(p)) < len(p) or \
                            not set(p) <= set(els) or got.count(p) > 1:
                        ctx.ck(False, 'Antipaths(%d, %d, %s) by intersections '
                               'yields %s' % (i, j, els, p))
    for j in foreign:
        ctx.eq(list(S.Antipaths(ev[j], ev[j], L)), [],
               'Antipaths(%d, %d, %s)', j, j, els)


def cases(src, sizes, route, allperms):
    def gen():
        for n in sizes:
            for dn in src(n):
                yield [list(dn), route, allperms]
    return gen


def some_antichains(P):
    L = sorted({P.minimal(s) for s in few_sets(P)},
               key=lambda s: (popcount(s), s))
    return L[::12] + L[-3:]


def check(case, ctx):
    dn, route, mode = case
    P = Poset(dn)
    ev = build(P, route)
    X = Idx(ev)
    S = Causet(set(ev))
    for m in P.antichains() if mode != 'huge' else \
            some_antichains(P):
        els = tuple(bits(m))
        if mode == 'huge':
            if len(els) > 12:
                els = els[::len(els) // 6]
            distances(P, S, ev, X, els, [els[::-1]], ctx)
            if len(els) > 3:
                antipaths(P, S, ev, X, els[:9 if P.n < 64 else 6], ctx, 1)
            continue
        if mode == 'perms':
            perms = list(permutations(els))
        elif mode == 'rev':
            perms = [els, els[::-1]]
        elif P.maximal(m) == m and any(
                not (P.dn[i] | P.up[i] | 1 << i) & m for i in range(P.n)):
            continue  # only maximal antichains
        else:
            perms = [els]
        distances(P, S, ev, X, els, perms, ctx)
        if mode == 'perms' and len(els) == 0:
            continue
        antipaths(P, S, ev, X, els, ctx, 4 if mode == 'perms' else 1)
    for i, e in enumerate(ev):
        if X.m(e.Past) != P.dn[i] or X.m(e.Future) != P.up[i]:
            ctx.ck(False, 'relations of event %d changed' % i)
    ctx.raises(ValueError, lambda: S.DistanceMatrix([], counting='zigzag?'),
               'unsupported counting')


def zigzag_posets(k):
    '''bipartite orders: k antichain events, joined pairwise by common future
    or past events, for every graph on k vertices'''
    pairs = list(combinations(range(k), 2))
    for g in range(1 << len(pairs)):
        rel = []
        n = k
        for t, (i, j) in enumerate(pairs):
            if g >> t & 1:
                if t % 2:
                    rel += [(i, n), (j, n)]
                else:
                    rel += [(n, i), (n, j)]
                n += 1
        yield closure(n, rel)


def cases_atlas(k, kinds=(0, 1, 2)):
    '''every graph of k vertices (up to their listing; 7: connected, of
    diameter 3 and more), joined by future events, past events, or both in
    turns'''
    with open(os.path.join(os.path.dirname(os.path.dirname(__file__)), 'data',
                           'graphs.json')) as f:
        codes = json.load(f)[str(k)]

    def gen():
        for g in codes:
            edges = [(i, j) for i in range(k) for j in range(i + 1, k)
                     if g >> i * k + j & 1]
            for kind in kinds:
                rel = []
                for n, (i, j) in enumerate(edges, k):
                    if kind == 0 or kind == 2 and n % 2:
                        rel += [(i, n), (j, n)]
                    else:
                        rel += [(n, i), (n, j)]
                yield [list(closure(k + len(edges), rel)), k]
    return gen


def cases_graph(k):
    return lambda: ([dn, k] for dn in zigzag_posets(k))


def check_graph(case, ctx):
    dn, k = case
    P = Poset(dn)
    ev = build(P)
    X = Idx(ev)
    S = Causet(set(ev))
    els = tuple(range(k))
    distances(P, S, ev, X, els, [els, els[::-1]], ctx)
    antipaths(P, S, ev, X, els, ctx, 4)


def check_fence(case, ctx):
    '''long crowns and open fences: the distance is the number of steps along
    the fence'''
    n, closed, below = case
    P = Poset(crown(n, closed))
    ev = build(P, 'links')
    X = Idx(ev)
    S = Causet(set(ev))
    els = sorted(bits(P.minimal(P.full) if below else
                      P.maximal(P.full)))
    nb = {i: [j for j in els if j != i and (P.up[i] & P.up[j] or
                                            P.dn[i] & P.dn[j])] for i in els}

    def steps(i):
        D, level, k = {i: 0}, [i], 0
        while level:
            k += 1
            level = {b for a in level for b in nb[a] if b not in D}
            D.update((b, k) for b in level)
        return D
    F = {i: steps(i) for i in els}
    L = [ev[i] for i in els]
    D = S.DistanceMatrix(L)
    ctx.states += 1
    ctx.transitions += len(els) ** 2
    for a, i in enumerate(els):
        for b, j in enumerate(els):
            if D[a, b] != F[i].get(j, -1):
                ctx.eq(int(D[a, b]), F[i].get(j, -1), 'distance of %d and %d',
                       i, j)
    i = els[0]
    far = max(F[i].values())
    for j in els:
        if F[i][j] not in (1, far - 1, far):
            continue
        want = [(i,)]
        while want[0][-1] != j:
            want = [p + (k,) for p in want for k in nb[p[-1]]
                    if F[k][j] == F[p[-1]][j] - 1]
        got = [tuple(X.of[id(e)] for e in p)
               for p in S.Antipaths(ev[i], ev[j], L, distances=D)]
        ctx.transitions += 1
        ctx.eq(sorted(got), sorted(want), 'Antipaths(%d, %d)', i, j)


def cases_fence(long):
    def gen():
        for n in long:
            yield [n, False, True]
        for n in range(40, 7, -1):
            for closed in (True, False):
                for below in (True, False):
                    yield [n, closed, below]
    return gen


def big():
    for n in (3, 4, 5, 6, 7):
        for closed in (True, False):
            yield list(crown(n, closed))
    for dn in big_family():
        yield list(dn)


def families(tier):
    q = tier == 'quick'
    f = [Family('perms4', cases(labelled, (0, 1, 2, 3, 4), 'full', 'perms'),
                check, 'labelled n<=4, all antichains in all listings'),
         Family('perms5', cases(unlabelled, (5,) if q else (5, 6), 'mid',
                                'perms'), check,
                'unlabelled n=5 (6), all antichains in all listings'),
         Family('rev6', cases(unlabelled, (6,) if q else (6, 7), 'links',
                              'rev'), check,
                'unlabelled n=6 (7), all antichains, 2 listings'),
         Family('max7', cases(unlabelled, (7,) if q else (7, 8), 'full', 'max'),
                check, 'unlabelled n=7 (8), maximal antichains'),
         Family('graphs', cases_graph(4), check_graph,
                'all connection graphs of 4 antichain events'),
         Family('graphs5', cases_graph(5), check_graph,
                'all connection graphs of 5 antichain events'),
         Family('atlas6', cases_atlas(6), check_graph,
                'all connection graphs of 6 antichain events up to listing'),
         Family('atlas7', cases_atlas(7, (2,) if q else (0, 1, 2)), check_graph,
                'connection graphs of 7 antichain events of diameter >= 3'),
         Family('big', lambda: ([dn, 'full', 'max'] for dn in big()), check,
                'crowns up to 2 x 7, parametric families'),
         Family('huge', cases(lambda n: huge_family(), (0,), 'full', 'huge'),
                check, 'orders of 16 to 33 events, two listings'),
         Family('giant', cases(lambda n: giant_family(300), (0,), 'full', 'huge'),
                check, 'orders of 66 to 261 events'),
         Family('fences', cases_fence((134,) if q else (260, 134)),
                check_fence, 'open fences and crowns of 2 x 8 to 2 x 40 and '
                '2 x 134 (260) events')]
    if not q:
        f += [Family('labelled5', cases(labelled, (5,), 'full', 'rev'), check,
                     'labelled n=5, all antichains'),
              Family('graphs6', cases_graph(6), check_graph,
                     'all connection graphs of 6 antichain events')]
    return f
