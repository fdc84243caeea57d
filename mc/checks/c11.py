'''C11: sorting by causality and by labels.'''
from itertools import product
from mc.core import Family
from mc.order import Poset, bits, labelled, natural, unlabelled, big_family, \
    huge_family, giant_family, few_sets, popcount
from mc.impl import build, mk, reset, Idx, Causet

PROPERTY = 'C11'
RULE = ('states: (order, labelling, event subset); transitions: checked sorted '
        'lists; a trace is one labelled order with all subsets')
ASSUMPTIONS = ['sorting by labels is asked for labels of one comparable type']


def causal(P, S, X, s, ctx):
    for reverse in (False, True):
        if s is None:
            L = S.sortedByCausality(reverse=reverse) if reverse else \
                S.sortedByCausality()
            m = P.full
        else:
            A = X.s(s)
            L = S.sortedByCausality(A, reverse=reverse)
            m = s
            if X.m(A) != s:
                ctx.ck(False, 'sortedByCausality changed its argument')
        ctx.transitions += 1
        if not isinstance(L, list) or X.strict(L) != m:
            ctx.eq(X.strict(L), m, 'events sorted by causality')
        seen = 0
        before = P.up if reverse else P.dn
        for e in L:
            i = X.of[id(e)]
            if before[i] & m & ~seen:
                ctx.ck(False, 'sortedByCausality(%s, reverse=%s) is no linear '
                       'extension: %s' % (s, reverse, [X.of[id(x)] for x in L]))
            seen |= 1 << i


def lab(code, i):
    return {0: None, 1: 1, 2: 2, 3: 10, 4: 'b', 5: 'a', 6: 0}[code[i]]


def cases_lab(src, n, values):
    def gen():
        for dn in src(n):
            for code in product(values, repeat=n):
                yield [list(dn), list(code)]
    return gen


def check_lab(case, ctx):
    dn, code = case
    P = Poset(dn)
    n = P.n
    ev = build(P, label=lambda i: lab(code, i))
    X = Idx(ev)
    S = Causet(set(ev))
    for s in [None] + list(range(1 << n)):
        ctx.states += 1
        causal(P, S, X, s, ctx)
    ctx.eq(X.strict(S), P.full, 'causet after sorting')


def cases_order(src, sizes):
    def gen():
        for n in sizes:
            for dn in src(n):
                yield list(dn)
    return gen


def check_order(dn, ctx):
    '''the initial order (labels, or hashes) is all permutations over all
    labelled posets'''
    P = Poset(dn)
    n = P.n
    for label in (lambda i: i + 1, lambda i: None):
        ev = build(P, label=label)
        X = Idx(ev)
        ctx.states += 1
        causal(P, Causet(set(ev)), X, None, ctx)


def check_big(dn, ctx):
    P = Poset(dn)
    n = P.n
    for f in (lambda i: i, lambda i: -i, lambda i: None, lambda i: 0,
              lambda i: i * 7 % n, lambda i: i * 5 % 11, lambda i: 'n%d' % i,
              lambda i: (None, 0, i)[i * 5 % 3]):
        ev = build(P, label=f)
        X = Idx(ev)
        ctx.states += 1
        S = Causet(set(ev))
        causal(P, S, X, None, ctx)
        for s in few_sets(P) if n > 12 else ():
            ctx.states += 1
            causal(P, S, X, s, ctx)
        if n > 12 and f(0) is not None and f(1) is not None:
            for rev in (False, True):
                for s in few_sets(P)[::7]:
                    L = S.sortedByLabels(X.s(s), rev)
                    if X.strict(L) != s or [e.Label for e in L] != \
                            sorted((f(i) for i in bits(s)), reverse=rev):
                        ctx.ck(False, 'sortedByLabels(%d, %s)' % (s, rev))


def cases_bylab(n, values):
    def gen():
        for code in product(values, repeat=n):
            yield list(code)
    return gen


def check_bylab(code, ctx):
    n = len(code)
    labels = ([lab(code, i) for i in range(n)], [str(c) * 2 for c in code],
              [c / 4. for c in code], [-10 * c for c in code],
              ['one-and-the-same-beginning-%d' % c for c in code],
              [10 ** 15 + c for c in code], [1e-9 * c for c in code])
    for L in labels:
        if None in L:
            continue
        reset(n)
        ev = [mk(i, label=L[i]) for i in range(n)]
        X = Idx(ev)
        S = Causet(set(ev))
        for s in [None] + list(range(1 << n)):
            m = P = (1 << n) - 1 if s is None else s
            for reverse in (False, True):
                A = None if s is None else X.s(s)
                R = S.sortedByLabels(A, reverse) if A is not None else \
                    S.sortedByLabels(reverse=reverse)
                ctx.states += 1
                ctx.transitions += 1
                want = sorted((L[i] for i in bits(m)), reverse=reverse)
                if not isinstance(R, list) or X.strict(R) != m or \
                        [e.Label for e in R] != want:
                    ctx.eq([e.Label for e in R], want,
                           'sortedByLabels(%s, reverse=%s)', s, reverse)
                if s is not None and X.m(A) != s:
                    ctx.ck(False, 'sortedByLabels changed its argument')
        ctx.eq(X.strict(S), (1 << n) - 1, 'causet after sorting')


def families(tier):
    q = tier == 'quick'
    f = [Family('labels3', cases_lab(labelled, 3, (0, 1, 2, 3, 4, 5, 6)),
                check_lab, 'labelled n<=3 by 7^n labellings, all subsets'),
         Family('labels4', cases_lab(labelled, 4, (0, 1, 6) if q else
                                     (0, 1, 2, 4, 6)), check_lab,
                'labelled n=4 by 3^4 (5^4) labellings, all subsets'),
         Family('order6', cases_order(labelled, (0, 1, 2, 3, 4, 5, 6)),
                check_order,
                'labelled posets n<=6, by label and unlabelled'),
         Family('order8', cases_order(unlabelled, (7,) if q else (7, 8)),
                check_order, 'unlabelled posets n=7 (8)'),
         Family('big', lambda: (list(dn) for dn in big_family()), check_big,
                'parametric families n<=12, 8 labellings'),
         Family('huge', lambda: (list(dn) for dn in huge_family()), check_big,
                'orders of 16 to 33 events, two listings, 8 labellings'),
         Family('giant', lambda: (list(dn) for dn in giant_family()), check_big,
                'orders of 66 to 523 events, 8 labellings'),
         Family('bylabel', cases_bylab(4, (1, 2, 3)), check_bylab,
                '4 events, labels of 7 types, all subsets'),
         Family('bylabelstr', cases_bylab(4, (4, 5)), check_bylab,
                '4 events, string labels'),
         Family('bylabel12', cases_bylab(1 if q else 5, (1, 2, 3)),
                check_bylab, 'further sizes')]
    return f
