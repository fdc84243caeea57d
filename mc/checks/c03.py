'''C03: causets are closed cones and behave as mathematical sets.'''
from itertools import product
from mc.core import Family
from mc.order import Poset, bits, labelled, unlabelled, popcount, \
    giant_family, huge_family, few_sets
from mc.impl import mk, build, reset, Idx, Causet, CausetEvent

PROPERTY = 'C03'
RULE = ('states: (order, member set) pairs; transitions: compared answers; a '
        'trace is one construction / operator / add-discard history')
ASSUMPTIONS = ['arguments are events of one pool (of two independent pools in '
               'the operator family)']


def members(S, X, want, ctx, what):
    got = list(iter(S))
    ctx.eq(X.strict(got), want, what)
    ctx.eq(S.Card, popcount(want), what + ': Card')
    ctx.eq(Causet.len(S), popcount(want), what + ': len')
    for i, e in enumerate(X.ev):
        if (e in S) != bool(want >> i & 1):
            ctx.ck(False, what + ': membership of event %d' % i)
    ctx.transitions += len(X.ev)


def rels(P, ev, X, ctx):
    for i, e in enumerate(ev):
        if X.m(e.Past) != P.dn[i] or X.m(e.Future) != P.up[i]:
            ctx.ck(False, 'relations of event %d changed' % i)
    ctx.transitions += 2 * len(ev)


# --- construction ------------------------------------------------------------

def cases_cons(src, sizes):
    def gen():
        for n in sizes:
            for dn in src(n):
                yield list(dn)
    return gen


def check_cons(dn, ctx):
    P = Poset(dn)
    n = P.n
    ev = build(P)
    X = Idx(ev)
    for s in range(1 << n):
        arg = X.s(s)
        want = P.conn(s)
        S = Causet(arg)
        ctx.states += 1
        members(S, X, want, ctx, 'Causet of %d' % s)
        ctx.ck(isinstance(repr(S), str), 'repr')
        ctx.eq(X.m(arg), s, 'constructor changed its argument')
        T = Causet(arg)
        # independence of argument and other causets
        other = mk(n + 1)
        Y = Idx(ev + [other])
        arg.add(other)
        members(S, Y, want, ctx, 'Causet after changing the argument')
        arg.clear()
        S.add([other])
        members(T, Y, want, ctx, 'other causet after add')
        members(S, Y, want | 1 << n, ctx, 'causet after add')
        T.discard(X.ev)
        members(T, Y, 0, ctx, 'causet after discard')
        members(S, Y, want | 1 << n, ctx, 'other causet after discard')
        E = Causet()
        members(E, Y, 0, ctx, 'empty causet')
        E.add(X.s(s))
        members(E, Y, s, ctx, 'extended empty causet')
        members(Causet(), Y, 0, ctx, 'next empty causet')
    rels(P, ev, X, ctx)


def cases_large():
    for dn in huge_family()[::3] + giant_family():
        yield list(dn)


def check_large(dn, ctx):
    '''large orders: construction, operators, changes, finding'''
    P = Poset(dn)
    n = P.n
    ev = build(P, label=lambda i: i % (n - 3) + 1)
    X = Idx(ev)
    sets = few_sets(P)[::5 if n > 64 else 9]
    for k, s in enumerate(sets):
        ctx.states += 1
        arg = X.s(s)
        want = P.conn(s)
        S = Causet(arg)
        members(S, X, want, ctx, 'Causet of %d' % s)
        ctx.eq(X.strict(arg), s, 'argument of the constructor')
        t = sets[(3 * k + 1) % len(sets)]
        for kind in ('set', 'causet', 'list'):
            A = cset(X, s)
            y = operand(X, t, kind)
            for R, w, what in ((A - y, s & ~t, '-'), (A | y, s | t, '|'),
                               (A & y, s & t, '&'), (A ^ y, s ^ t, '^'),
                               (y - A, t & ~s, 'r-'), (y | A, s | t, 'r|'),
                               (y & A, s & t, 'r&'), (y ^ A, s ^ t, 'r^'),
                               (A.difference(y), s & ~t, 'difference'),
                               (A.union(y), s | t, 'union'),
                               (A.intersection(y), s & t, 'intersection'),
                               (A.symmetric_difference(y), s ^ t,
                                'symmetric_difference')):
                ctx.eq(X.strict(R), w, '%s %s %s', s, what, t)
                ctx.ck(isinstance(R, (set, frozenset)), what + ' is no set')
            members(A, X, s, ctx, 'operand')
            ctx.eq(X.strict(y), t, 'other operand')
            A.add(y)
            members(A, X, s | t, ctx, 'causet after add')
            A.discard(y)
            members(A, X, s & ~t, ctx, 'causet after discard')
            ctx.eq(X.strict(y), t, 'argument of add/discard')
        A = cset(X, s)
        for l in (1, 2, n // 2, n - 3, n, 'x'):
            w = sum(1 << i for i in bits(s) if ev[i].Label == l)
            if w:
                ctx.ck(w >> X.of[id(A.find(l))] & 1, 'find(%s)' % (l,))
            else:
                ctx.raises(ValueError, lambda: A.find(l), 'find(%s)' % (l,))
            ctx.eq(X.strict(A.findAll(l)), w, 'findAll(%s)', l)
        L = list(range(1, n, 2))
        ctx.eq(X.strict(A.findAny(*L)),
               sum(1 << i for i in bits(s) if ev[i].Label in L), 'findAny')
    rels(P, ev, X, ctx)


# --- operators ---------------------------------------------------------------

KINDS = ('set', 'frozenset', 'list', 'tuple', 'causet', 'iter')


def operand(X, m, kind):
    if kind == 'set':
        return X.s(m)
    if kind == 'frozenset':
        return frozenset(X.s(m))
    if kind == 'list':
        return X.l(m)
    if kind == 'tuple':
        return tuple(X.l(m))
    if kind == 'iter':
        return iter(X.l(m))
    return cset(X, m)


def cset(X, m):
    S = Causet()
    S.add(X.s(m))
    return S


def cases_ops(n):
    def gen():
        for dn in ((0,) * n, tuple((1 << i) - 1 for i in range(n)),
                   (0,) * (n - 1) + ((1 << n - 1) - 1,)):
            for a in range(1 << n):
                for b in range(1 << n):
                    yield [list(dn), a, b]
    return gen


def check_ops(case, ctx):
    dn, a, b = case
    P = Poset(dn)
    ev = build(P)
    X = Idx(ev)
    S = cset(X, a)
    ctx.states += 1
    ops = (('-', lambda x, y: x - y, a & ~b, b & ~a),
           ('|', lambda x, y: x | y, a | b, a | b),
           ('&', lambda x, y: x & y, a & b, a & b),
           ('^', lambda x, y: x ^ y, a ^ b, a ^ b))
    named = (('difference', a & ~b), ('union', a | b), ('intersection', a & b),
             ('symmetric_difference', a ^ b))

    def one(R, want, what, *args):
        ctx.ck(isinstance(R, (set, frozenset)), what + ' is no set')
        ctx.eq(X.strict(R), want, what)
        members(S, X, a, ctx, 'operand after ' + what)
        for y in args:
            if not isinstance(y, type(iter([]))):
                ctx.eq(X.strict(y), b, 'other operand after ' + what)
            ctx.ck(R is not y, what + ' returned its operand')
        # a new set
        if isinstance(R, set):
            R.clear()
            members(S, X, a, ctx, 'operand after changing the result')
            for y in args:
                if not isinstance(y, type(iter([]))):
                    ctx.eq(X.strict(y), b,
                           'other operand after changing result of ' + what)

    for kind in KINDS:
        for name, f, left, right in ops:
            y = operand(X, b, kind)
            one(f(S, y), left, 'causet %s %s' % (name, kind), y)
            y = operand(X, b, kind)
            one(f(y, S), right, '%s %s causet' % (kind, name), y)
        for name, want in named:
            y = operand(X, b, kind)
            one(getattr(S, name)(y), want, '%s(%s)' % (name, kind), y)
    # the causet itself as operand
    if a == b:
        one(S - S, 0, 'S - S')
        one(S | S, a, 'S | S')
        one(S & S, a, 'S & S')
        one(S ^ S, 0, 'S ^ S')
        S.add(S)
        members(S, X, a, ctx, 'S after S.add(S)')
        S.discard(S)
        members(S, X, 0, ctx, 'S after S.discard(S)')
    rels(P, ev, X, ctx)


# --- add and discard histories -----------------------------------------------

def cases_adddisc(n, depth):
    def rec(ops, k):
        yield ops
        if k < depth:
            for t in 'ad':
                for m in range(1 << n):
                    for kind in ('set', 'causet', 'list'):
                        if kind == 'list' and popcount(m) != 1:
                            continue
                        yield from rec(ops + [[t, m, kind]], k + 1)

    def gen():
        for dn in unlabelled(n):
            for ops in rec([], 0):
                yield [list(dn), ops]
    return gen


def check_adddisc(case, ctx):
    dn, ops = case
    P = Poset(dn)
    ev = build(P)
    X = Idx(ev)
    S = Causet(X.s(1))
    T = Causet(X.s(1))
    m0 = m = P.conn(1)
    for k, (t, arg, kind) in enumerate(ops):
        y = operand(X, arg, kind)
        if t == 'a':
            S.add(y, unlink=True) if k % 2 else S.add(y)
            m |= arg
        else:
            S.discard(y, unlink=True) if k % 2 else S.discard(y)
            m &= ~arg
        ctx.eq(X.strict(y), arg, 'argument of add/discard')
        ctx.states += 1
    members(S, X, m, ctx, 'causet after add/discard')
    members(T, X, m0, ctx, 'independent causet after add/discard')
    rels(P, ev, X, ctx)


# --- find --------------------------------------------------------------------

LABELS = (None, 1, 0, '1', 'a')


def cases_find(n):
    def gen():
        for labels in product(range(5), repeat=n):
            for m in range(1 << n):
                yield [list(labels), m]
    return gen


def check_find(case, ctx):
    labels, m = case
    lab = [LABELS[k] for k in labels]
    n = len(lab)
    reset(n)
    ev = []
    for i in range(n):
        ev.append(mk(i, label=lab[i]) if lab[i] is not None or i % 2
                  else mk(i))
    X = Idx(ev)
    S = cset(X, m)
    ctx.states += 1
    for l in LABELS + ('zz', 3, '', 'None'):
        want = sum(1 << i for i in bits(m) if lab[i] == l)
        if want:
            ctx.ck(want >> X.of[id(S.find(l))] & 1, 'find(%s)' % (l,))
        else:
            ctx.raises(ValueError, lambda: S.find(l), 'find(%s)' % (l,))
        ctx.eq(X.strict(S.findAny(l)), want, 'findAny(%s)', l)
        R = S.findAll(l)
        ctx.eq(X.strict(R), want, 'findAll(%s)', l)
        ctx.ck(isinstance(R, set), 'findAll is no set')
        for k in LABELS:
            want2 = want | sum(1 << i for i in bits(m) if lab[i] == k)
            ctx.eq(X.strict(S.findAny(l, k)), want2, 'findAny(%s, %s)', l, k)
            ctx.eq(X.strict(S.findAll(l, k)), want2, 'findAll(%s, %s)', l, k)
    ctx.eq(X.strict(S.findAny()), 0, 'findAny()')
    ctx.eq(X.strict(S.findAll()), 0, 'findAll()')
    ctx.eq(X.strict(S.findAll(*LABELS)), m, 'findAll(all)')
    members(S, X, m, ctx, 'causet after find')


def families(tier):
    q = tier == 'quick'
    return [
        Family('construct', cases_cons(labelled, (0, 1, 2, 3, 4) if q else
                                       (0, 1, 2, 3, 4, 5)), check_cons,
               'every subset of labelled posets n<=4 (5)'),
        Family('construct6', cases_cons(unlabelled, (5, 6) if q else (6, 7)),
               check_cons, 'every subset of unlabelled posets n=5,6 (6,7)'),
        Family('operators', cases_ops(4 if q else 5), check_ops,
               'all pairs of subsets of 4 (5) events, 6 operand kinds'),
        Family('adddiscard2', cases_adddisc(2, 3 if q else 4), check_adddisc,
               'histories of <=3 (4) add/discard on 2 events'),
        Family('adddiscard3', cases_adddisc(3, 2 if q else 3), check_adddisc,
               'histories of <=2 (3) add/discard on 3 events'),
        Family('large', cases_large, check_large,
               'orders of 16 to 523 events: construction, operators, changes, '
               'find'),
        Family('find', cases_find(4), check_find,
               'all labellings of 4 events by None, 1, 0, \'1\' and \'a\', all member sets')]
