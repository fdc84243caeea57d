'''C04: matrices and files describe exactly the causet and round-trip.'''
import os
from itertools import permutations
import numpy as np
from mc import core
from mc.core import Family
from mc.order import Poset, bits, closure, labelled, unlabelled, canonical, \
    big_family, huge_family, giant_family, popcount
from mc.impl import build, reset, Idx, Causet

PROPERTY = 'C04'
RULE = ('states: matrices / orders; transitions: compared entries and sets; a '
        'trace is one matrix parsed or one causet written and read back')
ASSUMPTIONS = ['files are written to a scratch directory of the check']


def loaded(C, ctx, ncol):
    '''dn of a causet read from a matrix'''
    by = {}
    for e in C:
        by[e.Label] = e
    ctx.eq(sorted(by), list(range(1, ncol + 1)), 'labels')
    ctx.eq(C.Card, ncol, 'number of events')
    ev = [by[i + 1] for i in range(ncol)]
    X = Idx(ev)
    dn = tuple(X.m(e.Past) for e in ev)
    up = tuple(X.m(e.Future) for e in ev)
    return ev, dn, up


def cases_matrix(shapes, diag):
    def gen():
        for r, c in shapes:
            cells = [(i, j) for i in range(r) for j in range(c)
                     if diag or i != j]
            for k in range(1 << len(cells)):
                yield [r, c, diag, k]
    return gen


def check_matrix(case, ctx):
    r, c, diag, code = case
    cells = [(i, j) for i in range(r) for j in range(c) if diag or i != j]
    marked = [cells[t] for t in range(len(cells)) if code >> t & 1]
    ctx.states += 1
    dts = (bool, int) if code % 3 == 0 else (bool,)
    for dt in dts:
        M = np.zeros((r, c), dtype=dt)
        for i, j in marked:
            M[i, j] = 1
        keep = M.copy()
        for future in (False, True):
            reset()
            if future:
                def make():
                    return Causet.FromFutureMatrix(M.T)
            else:
                def make():
                    return Causet.FromPastMatrix(M)
            if r > c:
                ctx.raises(ValueError, make, 'matrix with more rows')
                continue
            want = closure(c, [(j, i) for i, j in marked])
            if want is None:
                ctx.raises(ValueError, make, 'matrix with a causal loop')
                continue
            ev, dn, up = loaded(make(), ctx, c)
            if dn != tuple(want):
                ctx.eq(dn, tuple(want), 'pasts of the events')
            if up != Poset(want).up:
                ctx.eq(up, Poset(want).up, 'futures of the events')
            ctx.transitions += 2
        ctx.ck((M == keep).all(), 'input matrix changed')


def link_check(P, M, perm, ctx, what):
    n = len(perm)
    ctx.eq(M.shape, (n, n), what + ' shape')


def cases_out(src, sizes, mode):
    def gen():
        for n in sizes:
            for dn in src(n):
                yield [list(dn), mode]
    return gen


def as_rows(M):
    return tuple(sum(1 << j for j in range(M.shape[1]) if M[i, j])
                 for i in range(M.shape[0]))


def check_out(case, ctx):
    dn, mode = case
    P = Poset(dn)
    n = P.n
    ev = build(P, 'full' if sum(dn) % 2 else 'mid')
    S = Causet(set(ev))
    X = Idx(ev)
    ldn, lup = P.lk
    lists = list(permutations(range(n))) if mode == 'perms' else \
        [tuple(range(n)), tuple(range(n))[::-1]]
    if mode == 'perms':
        lists += [tuple(bits(s)) for s in range(1 << n)]
    tabs = (('PastMatrix', P.dn), ('FutureMatrix', P.up),
            ('LinkPastMatrix', ldn), ('LinkFutureMatrix', lup))
    ctx.states += 1
    for p in lists:
        L = [ev[i] for i in p]
        for name, tab in tabs:
            M = getattr(S, name)(L)
            ctx.transitions += 1
            if M.shape != (len(p), len(p)) or M.dtype != bool:
                ctx.ck(False, '%s: shape %s, type %s' % (name, M.shape,
                                                         M.dtype))
            want = tuple(sum(1 << b for b, j in enumerate(p)
                             if tab[i] >> j & 1) for i in p)
            if as_rows(M) != want:
                ctx.eq(as_rows(M), want, '%s of listing %s', name, p)
        if [id(e) for e in L] != [id(ev[i]) for i in p]:
            ctx.ck(False, 'listing changed')
    # by default: some linear extension
    dflt = []
    for name, tab in tabs:
        M = getattr(S, name)()
        Mi = getattr(S, name)(dtype=int)
        ctx.ck(M.dtype == bool and Mi.dtype == int, name + ' type')
        ctx.ck((M == Mi.astype(bool)).all(), name + ' with dtype=int')
        low = name in ('PastMatrix', 'LinkPastMatrix')
        for i in range(n):
            for j in range(n):
                if M[i, j] and not (j < i if low else i < j):
                    ctx.ck(False, 'default %s is no linear extension' % name)
        ctx.eq(M.shape, (n, n), name)
        dflt.append(M)
    c = canonical(P.dn)
    ctx.eq(canonical(as_rows(dflt[0])), c, 'default PastMatrix')
    ctx.ck((dflt[0].T == dflt[1]).all(), 'default FutureMatrix')
    ctx.ck((dflt[2].T == dflt[3]).all(), 'default LinkFutureMatrix')
    # reading what was produced, links or relations
    for M, make in ((dflt[0], Causet.FromPastMatrix),
                    (dflt[1], Causet.FromFutureMatrix),
                    (dflt[2], Causet.FromPastMatrix),
                    (dflt[3], Causet.FromFutureMatrix)):
        _, d, u = loaded(make(M), ctx, n)
        ctx.eq(canonical(d), c, 'causet of a produced matrix')
        ctx.eq(u, Poset(d).up, 'futures of a produced matrix')


LABELS = ('numbers', 'none', 'same', 'mixed', 'str')


def label(kind, i, n):
    return {'numbers': n - i, 'none': None, 'same': 5,
            'mixed': (None, 3, 'x')[i % 3], 'str': 'e%d' % (7 * i % 5)}[kind]


def cases_file(src, sizes, labels):
    def gen():
        for n in sizes:
            for dn in src(n):
                for l in labels:
                    yield [list(dn), l]
    return gen


def check_file(case, ctx):
    dn, lab = case
    P = Poset(dn)
    n = P.n
    ev = build(P, label=lambda i: label(lab, i, n))
    S = Causet(set(ev))
    f = os.path.join(core.scratch(), 'c04_%d.csv' % os.getpid())
    c = canonical(P.dn)
    ctx.states += 1
    S.saveAsCSV(f)
    with open(f) as fh:
        rows = [r for r in fh.read().split('\n') if r]
    ctx.eq([set(r.split(',')) <= {'0', '1'} for r in rows], [True] * n,
           'lines of the file')
    ctx.eq([len(r.split(',')) for r in rows], [n] * n, 'columns of the file')
    ctx.eq(sum(r.count('1') for r in rows), sum(popcount(d) for d in dn),
           'relations in the file')
    _, d, u = loaded(Causet.FromTextFile(f), ctx, n)
    ctx.eq(canonical(d), c, 'causet read from its file')
    ctx.eq(u, Poset(d).up, 'futures of the events of a file')
    _, d, u = loaded(Causet.FromTextFile(f, isPastMatrix=False), ctx, n)
    ctx.eq(canonical(u), c, 'causet read as future matrix')
    # links, other delimiter and orientation
    M = S.LinkFutureMatrix()
    with open(f, 'w') as fh:
        for i in range(n):
            fh.write(';'.join(str(int(x)) for x in M[i]) + '\n')
    _, d, u = loaded(Causet.FromTextFile(f, False, ';'), ctx, n)
    ctx.eq(canonical(d), c, 'causet read from its link file')
    # files with the first rows (or columns) only
    for r in range(1, n):
        if any(P.dn[r:]):
            continue
        for past in (True, False):
            with open(f, 'w') as fh:
                for i in range(r if past else n):
                    fh.write(','.join(
                        str((P.dn[i] >> j if past else P.dn[j] >> i) & 1)
                        for j in range(n if past else r)) + '\n')
            _, d, u = loaded(Causet.FromTextFile(f, isPastMatrix=past), ctx, n)
            ctx.eq(d, P.dn, 'causet read from %d %s of a matrix', r,
                   'rows' if past else 'columns')
            ctx.states += 1
            err = False
            try:
                Causet.FromTextFile(f, isPastMatrix=not past)
            except ValueError:
                err = True
            ctx.ck(err, 'too many rows for a past matrix (or columns for a '
                   'future matrix) are accepted')
    ctx.eq(S.Card, n, 'events after saving')
    os.remove(f)


def cases_big():
    for dn in big_family() + huge_family() + giant_family():
        yield [list(dn), 'none']


def check_big(case, ctx):
    dn, _ = case
    P = Poset(dn)
    n = P.n
    ctx.states += 1
    for src in (P.dn, P.ldn):
        M = np.zeros((n, n), dtype=bool)
        for i in range(n):
            for j in bits(src[i]):
                M[i, j] = True
        for make, A in ((Causet.FromPastMatrix, M),
                        (Causet.FromFutureMatrix, M.T)):
            _, d, u = loaded(make(A), ctx, n)
            ctx.eq((d, u), (P.dn, P.up), 'causet of a matrix')
        for i in range(n) if n < 13 else range(0, n, 5 if n < 64 else 49):
            for j in bits(P.dn[i]):
                if n > 12 and (i + j) % (4 if n < 64 else 31):
                    continue
                A = M.copy()
                A[j, i] = True
                ctx.raises(ValueError, lambda: Causet.FromPastMatrix(A),
                           'loop through %d and %d' % (j, i))
    S = Causet(set(build(P, label=None)))
    ctx.eq(sorted(popcount(x) for x in as_rows(S.PastMatrix())),
           sorted(popcount(x) for x in P.dn), 'default past matrix')
    M = S.LinkPastMatrix()
    R = S.PastMatrix()
    ctx.eq(closure(n, [(j, i) for i in range(n) for j in range(n)
                       if M[i, j]]), list(as_rows(R)), 'closure of links')
    if n < 14:
        return
    # files, relations and links, of large causets
    ev = build(P)
    S = Causet(set(ev))
    f = os.path.join(core.scratch(), 'c04_%d.csv' % os.getpid())
    S.saveAsCSV(f)
    with open(f) as fh:
        rows = [r.split(',') for r in fh.read().split('\n') if r]
    ctx.eq([len(r) for r in rows], [n] * n, 'columns of the file')
    _, d, u = loaded(Causet.FromTextFile(f), ctx, n)
    ctx.eq([[int(x) for x in r] for r in rows],
           [[x >> j & 1 for j in range(n)] for x in d], 'relations of a file')
    key = lambda Q: sorted((popcount(Q.dn[i]), popcount(Q.up[i]),
                            popcount(Q.ldn[i]), popcount(Q.lup[i]))
                           for i in range(n))
    ctx.eq(key(Poset(d)), key(P), 'causet read from its file')
    ctx.eq(u, Poset(d).up, 'futures of a file')
    p = sorted(range(n), key=lambda i: i * 7 % (n + 1))
    with open(f, 'w') as fh:
        for i in range(n):
            fh.write(';'.join(str(P.ldn[j] >> i & 1) for j in range(n)) + '\n')
    _, d, u = loaded(Causet.FromTextFile(f, False, ';'), ctx, n)
    ctx.eq((d, u), (P.dn, P.up), 'causet read from a link file')
    os.remove(f)
    L = [ev[i] for i in p]
    for name, tab in (('PastMatrix', P.dn), ('FutureMatrix', P.up),
                      ('LinkPastMatrix', P.ldn), ('LinkFutureMatrix', P.lup)):
        for q in (p, p[: n // 2]):
            ctx.eq(as_rows(getattr(S, name)([ev[i] for i in q])),
                   tuple(sum(1 << b for b, j in enumerate(q)
                             if tab[i] >> j & 1) for i in q), name)


def families(tier):
    q = tier == 'quick'
    sq = [(n, n) for n in range(1, 4)]
    rect = [(r, c) for r in range(0, 4) for c in range(1, 5) if r < c
            and r * c <= 12]
    bad = [(2, 1), (3, 1), (3, 2), (4, 3) if not q else (4, 2)]
    f = [
        Family('matrix', cases_matrix([(0, 0)] + sq + rect, True),
               check_matrix, 'all logical matrices 3x3, and r x c, r<c<=4'),
        Family('matrix4', cases_matrix([(4, 4)], q is False or True),
               check_matrix, 'all logical 4x4 matrices'),
        Family('morerows', cases_matrix(bad, True), check_matrix,
               'all logical matrices with more rows than columns, small'),
        Family('output', cases_out(labelled, (0, 1, 2, 3, 4), 'perms'),
               check_out, 'labelled posets n<=4, all listings'),
        Family('output5', cases_out(labelled, (5,), 'default'), check_out,
               'labelled posets n=5'),
        Family('file', cases_file(labelled, (0, 1, 2, 3, 4), LABELS),
               check_file, 'labelled posets n<=4, 5 labellings'),
        Family('file6', cases_file(unlabelled, (5, 6), ('numbers', 'none')),
               check_file, 'unlabelled posets n=5, 6'),
        Family('big', cases_big, check_big, 'parametric families n<=523, every '
               'single added loop (n<=12)')]
    if not q:
        f += [Family('matrix5', cases_matrix([(5, 5)], False), check_matrix,
                     'all logical 5x5 matrices with zero diagonal'),
              Family('matrix35', cases_matrix([(3, 5)], False), check_matrix,
                     'all logical 3x5 matrices without own entries'),
              Family('output5p', cases_out(labelled, (5,), 'perms'), check_out,
                     'labelled posets n=5, all listings'),
              Family('file7', cases_file(unlabelled, (7,), LABELS),
                     check_file, 'unlabelled posets n=7')]
    return f
