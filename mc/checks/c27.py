'''C27: questions have no side effects, and nothing is remembered.

Every query of the public interface is executed (with all its arguments) on
small causets, in all ordered pairs, and before and after every kind of change.
The answers have to be those of an identical causet that was never asked.
'''
from itertools import combinations, permutations, product
import os
import zlib
import numpy as np
from mc.core import Family, Violation, short
from mc.order import (Poset, bits, mask, popcount, unlabelled, labelled,
                      chain, extensions, grid, boolean, layered_complete, closure)
from mc.hist import m_merge
from mc import core, draw, lightcone as lc, geometry as geo
from mc.impl import build, mk, reset, Idx, Causet, CausetEvent

PROPERTY = 'C27'
RULE = ('states: causets in which a query was executed (with all arguments); '
        'transitions: compared answers; a trace is one sequence of queries and '
        'changes executed on the real code')
ASSUMPTIONS = ['answers whose choice or order is not determined (central '
               'antichain, linear extension, order of paths) are compared up '
               'to that freedom',
               'whether links are cached (hasBeenLinked) is not an answer, '
               'the links are']


# --- universes ---------------------------------------------------------------

POINTS = [[0.0, 0.0], [1.0, 0.5], [0.25, -1.5], [2.0, 0.0], [1.0, -2.0],
          [0.0, 0.0], [3.0, 1.0]]


class U:
    def __init__(self, spec):
        self.args = []
        self.rev = False
        self.spec = spec
        kind = spec[0]
        self.kind = kind
        if kind == 'abs':
            self.ev = build(Poset(spec[1]))
            self.C = Causet(set(self.ev))
        else:
            from causets.embeddedcauset import EmbeddedCauset
            from causets.sprinkledcauset import SprinkledCauset
            from causets.shapes import CoordinateShape
            reset(0)
            sh = CoordinateShape(2, 'cube', edge=8.0)
            self.C = EmbeddedCauset(shape=sh) if kind == 'emb' else \
                SprinkledCauset(shape=sh)
            if spec[1]:
                self.C.create([POINTS[i] for i in spec[1]])
            self.ev = sorted(self.C, key=lambda e: e.Label)
        for x in spec[2:]:
            change(self, x)

    @property
    def X(self):
        return Idx(self.ev)

    @property
    def n(self):
        return len(self.ev)

    def r(self, xs):
        '''the arguments of a query, in either order'''
        xs = list(xs)
        return xs[::-1] if self.rev else xs

    def S(self, m):
        '''set argument, which the query must not change'''
        s = {self.ev[i] for i in bits(m)}
        self.args.append((s, m))
        return s

    def L(self, m):
        s = [self.ev[i] for i in bits(m)]
        self.args.append((s, m))
        return s

    def check_args(self, what):
        X = self.X
        for s, m in self.args:
            if len(s) != popcount(m) or X.m(s) != m or \
                    (isinstance(s, list) and [X.of[id(e)] for e in s]
                     != list(bits(m))):
                raise Violation('%s changed its argument' % what)
        self.args = []

    def member(self):
        return self.X.m(self.C)

    def dn(self):
        X = self.X
        return [X.m(e.Past) for e in self.ev]

    def antichains(self, low=2):
        P = Poset(self.dn())
        return [a for a in P.antichains(self.member()) if popcount(a) >= low]

    def snapshot(self):
        X = self.X

        def one(e):
            c = tuple(e.Coordinates) if e.isEmbedded else None
            return (X.m(e.Past), X.m(e.Future), len(e.Past), len(e.Future),
                    e.Label, c, tuple(e.Position))
        s = [X.m(self.C), self.C.Card] + [one(e) for e in self.ev]
        if self.kind != 'abs':
            s.append(self.C.Shape.Volume)
        if self.kind == 'spr':
            s.append(self.C.Intensity)
        return s

    def cached(self):
        '''the links that are cached have to be right'''
        X = self.X
        P = Poset(self.dn())
        for i, e in enumerate(self.ev):
            if e.hasBeenLinked():
                if X.m(e.LinkPast) != P.ldn[i] or X.m(e.LinkFuture) != P.lup[i]:
                    raise Violation('cached links of event %d are wrong' % i)


def canon(u, r):
    '''answers without identities and without undetermined order'''
    if isinstance(r, (bool, np.bool_)):
        return bool(r)
    if isinstance(r, (int, float, np.integer, np.floating)):
        return float(r)
    if r is None or isinstance(r, str):
        return r
    of = u.X.of
    if isinstance(r, CausetEvent):
        if id(r) in of:
            return of[id(r)]
        X = u.X
        return ('copy', r.Label, X.m(r.Past), X.m(r.Future),
                X.m(r.LinkPast), X.m(r.LinkFuture), r.isEmbedded)
    if isinstance(r, np.ndarray):
        return r.tolist()
    if isinstance(r, (set, frozenset, Causet)):
        return ('set',) + tuple(sorted(canon(u, x) for x in r))
    if isinstance(r, (list, tuple)):
        return tuple(canon(u, x) for x in r)
    return ('other', type(r).__name__)


# --- the queries; each yields (answer, spoilable) for all its arguments ------

def ev_all(name, fresh=False, call=False):
    def q(u):
        for e in u.r(u.ev):
            v = getattr(e, name)
            yield v() if call else v
    q.fresh = fresh
    return q


def ev_pairs(name):
    def q(u):
        for a in u.r(u.ev):
            for b in u.r(u.ev):
                yield getattr(a, name)(b)
    return q


def small(u, limit=16):
    n = u.n
    if n <= 4:
        return range(1 << n)
    out = {0, (1 << n) - 1}
    for i in range(n):
        for j in range(i + 1):
            out.add(1 << i | 1 << j)
    return sorted(out)


def sets_(f, fresh=False):
    def q(u):
        for m in u.r(small(u)):
            yield f(u, m)
    q.fresh = fresh
    return q


def pairs_(f, fresh=False):
    def q(u):
        for a in u.r(u.ev):
            for b in u.r(u.ev):
                yield f(u, a, b)
    q.fresh = fresh
    return q


def one_(f, fresh=False):
    def q(u):
        yield f(u)
    q.fresh = fresh
    return q


def multi(f, fresh=False):
    def q(u):
        for x in f(u):
            yield x
    q.fresh = fresh
    return q


def spacelike(u):
    for e in u.r(u.ev):
        for m in u.r(small(u)):
            yield e.Spacelike(u.S(m))


def spacelikecard(u):
    for e in u.r(u.ev):
        for m in u.r(small(u)):
            yield e.SpacelikeCard(u.S(m))


def compare(u):
    for a in u.r(u.ev):
        for b in u.r(u.ev):
            yield (a < b, a <= b, a > b, a >= b, a == b, a != b)


def setof(name):
    def f(u):
        g = getattr(Causet, name)
        for m in u.r(small(u)):
            for p in u.r((False, True)):
                for i in u.r((False, True)):
                    yield g(u.S(m), includePresent=p, intersect=i)
    return multi(f, True)


def layers(name):
    def f(u):
        g = getattr(Causet, name)
        for a in u.r(u.antichains(1)):
            for first, last in u.r(((0, None), (-1, None), (1, None),
                                    (-2, 2), (-1, 1), (2, None))):
                yield g(u.S(a), first, last)
    return multi(f, True)


def numbers(name):
    def f(u):
        g = getattr(Causet, name)
        for m in u.r(small(u)):
            for r in u.r((False, True)):
                yield g(u.L(m), r)
    return multi(f, True)


def central(u):
    P = Poset(u.dn())
    M = u.member()
    X = u.X
    for e in u.r([None] + [u.ev[i] for i in bits(M)]):
        A = u.C.CentralAntichain(e)
        m = X.strict(A)
        bad = []
        if m & ~M or not P.is_antichain(m):
            bad.append('no antichain')
        for i in bits(M & ~m):
            if not P.cone(i) & m:
                bad.append('not maximal')
        if bad:
            raise Violation('central antichain is %s' % bad)
        yield A


def paths(u):
    for a in u.r(u.ev):
        for b in u.r(u.ev):
            for l in u.r(('any', 'min', 'max', 2, [1, 3])):
                yield sorted(canon(u, p)
                             for p in Causet.Paths(a, b, l))


def sic(u):
    for a in u.r(u.ev):
        for b in u.r(u.ev):
            M = (1 << u.n) - 1
            for args in u.r(((), (M,), (M, M & ~1))):
                yield u.C.SmallestIntervalCard(a, b, *map(u.S, args))


def dist(u):
    for a in u.r(u.antichains()):
        for c in u.r(('ziczac', 'intersection')):
            for r in u.r((True, False)):
                yield u.C.DistanceMatrix(u.L(a), counting=c, recursive=r)


def antipaths(u):
    for a in u.r(u.antichains()):
        l = u.L(a)
        for x in u.r(l):
            for y in u.r(l):
                yield sorted(canon(u, p) for p in u.C.Antipaths(x, y, l))


def sortlab(u):
    for rev in u.r((False, True)):
        for s in u.r((None, 5)):
            r = u.C.sortedByLabels(None if s is None else
                                   u.S(s & (1 << u.n) - 1), reverse=rev)
            yield r


def sortlab_c(u, r):
    return [e.Label for e in r], u.X.strict(r)


def sortcau(u):
    P = Poset(u.dn())
    for rev in u.r((False, True)):
        for s in u.r((None, 3, 6)):
            m = u.member() if s is None else s & (1 << u.n) - 1
            r = u.C.sortedByCausality(None if s is None else u.S(m),
                                      reverse=rev)
            idx = [u.X.of[id(e)] for e in r]
            if mask(idx) != m or len(idx) != popcount(m):
                raise Violation('sortedByCausality misses events')
            for i in range(len(idx)):
                for j in range(i):
                    lo, hi = (j, i) if rev else (i, j)
                    if P.lt(idx[lo], idx[hi]):
                        raise Violation('sortedByCausality: wrong order')
            yield r


def matrices(name):
    def f(u):
        full = (1 << u.n) - 1
        for x in u.r((0, 1)):
            yield getattr(u.C, name)(u.L(full)) if x == 0 else \
                np.array(sorted(getattr(u.C, name)().sum(axis=0)))
    return multi(f, True)


def layered(u):
    for r in u.r((False, True)):
        for m in u.r((None, (1 << u.n) - 1 & ~2)):
            yield u.C.layered(None if m is None else u.S(m), r)


def finds(u):
    labels = sorted({str(e.Label): e.Label for e in u.ev}.items())
    for _, l in u.r(labels):
        for k in u.r((0, 1, 2)):
            if k == 0:
                try:
                    yield u.C.find(l).Label
                except ValueError:
                    yield None
            elif k == 1:
                yield u.C.findAll(l)
            else:
                yield set(u.C.findAny(l, 2))


def csv(u):
    f = os.path.join(core.scratch(), 'c27_%d.csv' % os.getpid())
    u.C.saveAsCSV(f)
    if not u.C.Card:
        os.remove(f)
        yield 0
        return
    m = np.loadtxt(f, delimiter=',', ndmin=2)
    os.remove(f)
    yield [float(m.shape[0]), float(m.sum())] + sorted(m.sum(axis=0).tolist())


OPERATORS = (
    lambda C, s: C - s, lambda C, s: s - C, lambda C, s: C | s,
    lambda C, s: s | C, lambda C, s: C & s, lambda C, s: s & C,
    lambda C, s: C ^ s, lambda C, s: s ^ C,
    lambda C, s: C.difference(s), lambda C, s: C.intersection(s),
    lambda C, s: C.symmetric_difference(s), lambda C, s: C.union(s))


def ops(u):
    full = (1 << u.n) - 1
    for m in u.r((0, 3 & full, full)):
        s = u.S(m)
        for f in u.r(OPERATORS):
            yield f(u.C, s)


def disj(u):
    for m in u.r([None] + list(small(u))):
        yield u.C.disjoint() if m is None else u.C.disjoint(u.S(m))


def disj_c(u, r):
    return sorted(canon(u, x) for x in r)


def isX(name):
    def f(u):
        for m in u.r([None] + list(small(u))):
            yield getattr(u.C, name)() if m is None else \
                getattr(u.C, name)(u.S(m))
    return f


def isX_list(name):
    def f(u):
        for m in u.r(small(u)):
            yield getattr(u.C, name)(u.L(m))
    return f


def members(u):
    yield [e in u.C for e in u.ev]
    yield set(u.C)
    yield len(list(u.C))
    yield Causet.len(u.C)


def text(u):
    for e in u.r(u.ev):
        yield str(e)
        yield ''.join(sorted(repr(e)))
    yield ''.join(sorted(repr(u.C)))


def record(u):
    for e in u.r(u.ev):
        yield (e.Label, e.isEmbedded, float(e.CoordinatesDim),
               tuple(e.Coordinates) if e.isEmbedded else None,
               tuple(e.Position))


def linkcount(u):
    for m in u.r([None] + list(small(u))):
        if m is None:
            yield u.C.LinkCount()
        else:
            yield u.C.LinkCount(u.S(m))
            yield CausetEvent.LinkCountOf(u.S(m))


def do(f):
    '''computing or forgetting links is not a change'''
    def g(u):
        f(u)
        yield None
    return g


def geometry(u):
    C = u.C
    yield (C.Dim, C.Density, C.LengthScale if C.Card else None, C.Shape.Name,
           C.Spacetime.Name, C.Spacetime.Dim)
    if u.kind == 'spr':
        yield C.Intensity


Q = {
    'Past': ev_all('Past'), 'Future': ev_all('Future'),
    'Cone': ev_all('Cone', True), 'PresentOrPast': ev_all('PresentOrPast', True),
    'PresentOrFuture': ev_all('PresentOrFuture', True),
    'PastCard': ev_all('PastCard'), 'FutureCard': ev_all('FutureCard'),
    'ConeCard': ev_all('ConeCard'), 'LinkPast': ev_all('LinkPast'),
    'LinkFuture': ev_all('LinkFuture'), 'LinkCone': ev_all('LinkCone', True),
    'LinkPastCard': ev_all('LinkPastCard'),
    'LinkFutureCard': ev_all('LinkFutureCard'),
    'LinkConeCard': ev_all('LinkConeCard'),
    'isPastLink': ev_pairs('isPastLink'),
    'isFutureLink': ev_pairs('isFutureLink'),
    'isLinkedTo': ev_pairs('isLinkedTo'),
    'isCausalTo': ev_pairs('isCausalTo'),
    'isSpacelikeTo': ev_pairs('isSpacelikeTo'), 'Rank': ev_pairs('Rank'),
    'isLink': pairs_(lambda u, a, b: CausetEvent.isLink(a, b)),
    'compare': compare, 'Spacelike': multi(spacelike, True),
    'SpacelikeCard': spacelikecard, 'copy': ev_all('copy', False, True),
    'text': text, 'record': record,
    'event.link': do(lambda u: [e.link() for e in u.ev]),
    'event.unlink': do(lambda u: [e.unlink() for e in u.ev]),
    'link': do(lambda u: u.C.link()), 'unlink': do(lambda u: u.C.unlink()),
    'members': members, 'operators': multi(ops, True),
    'LinkCount': linkcount, 'find': finds,
    'PastMatrix': matrices('PastMatrix'),
    'FutureMatrix': matrices('FutureMatrix'),
    'LinkPastMatrix': matrices('LinkPastMatrix'),
    'LinkFutureMatrix': matrices('LinkFutureMatrix'), 'saveAsCSV': csv,
    'isChain': isX('isChain'), 'isAntichain': isX('isAntichain'),
    'isPath': isX_list('isPath'), 'isDisjoint': isX('isDisjoint'),
    'disjoint': multi(disj, True),
    'PastInf': one_(lambda u: u.C.PastInf, True),
    'FutureInf': one_(lambda u: u.C.FutureInf, True),
    'PastInfCard': one_(lambda u: u.C.PastInfCard),
    'FutureInfCard': one_(lambda u: u.C.FutureInfCard),
    'PastInfOf': sets_(lambda u, m: Causet.PastInfOf(u.S(m)), True),
    'FutureInfOf': sets_(lambda u, m: Causet.FutureInfOf(u.S(m)), True),
    'PastInfCardOf': sets_(lambda u, m: Causet.PastInfCardOf(u.S(m))),
    'FutureInfCardOf': sets_(lambda u, m: Causet.FutureInfCardOf(u.S(m))),
    'PastOf': setof('PastOf'), 'FutureOf': setof('FutureOf'),
    'ConeOf': setof('ConeOf'),
    'SpacelikeTo': sets_(lambda u, m: u.C.SpacelikeTo(u.S(m)), True),
    'Interval': pairs_(lambda u, a, b: Causet.Interval(a, b), True),
    'Interior': pairs_(lambda u, a, b: Causet.Interval(a, b, False), True),
    'IntervalCard': pairs_(lambda u, a, b: (Causet.IntervalCard(a, b),
                                            Causet.IntervalCard(a, b, False))),
    'Perimetral': pairs_(lambda u, a, b: Causet.PerimetralEvents(a, b), True),
    'PerimetralCount': pairs_(
        lambda u, a, b: Causet.PerimetralEventCount(a, b)),
    'Internal': pairs_(lambda u, a, b: Causet.InternalEvents(a, b), True),
    'InternalCount': pairs_(lambda u, a, b: Causet.InternalEventCount(a, b)),
    'CentralAntichain': multi(central, True),
    'Layers': layers('Layers'), 'Ranks': layers('Ranks'),
    'LayerNumbers': numbers('LayerNumbers'),
    'RankNumbers': numbers('RankNumbers'), 'Paths': paths,
    'SmallestIntervalCard': sic, 'DistanceMatrix': multi(dist, True),
    'Antipaths': antipaths, 'sortedByLabels': multi(sortlab, True),
    'sortedByCausality': multi(sortcau, True), 'layered': multi(layered, True),
}
QE = dict(Q, geometry=geometry)
FREE = {'CentralAntichain': lambda u, r: None, 'sortedByLabels': sortlab_c,
        'sortedByCausality': lambda u, r: u.X.strict(r),
        'disjoint': disj_c}


def catalogue(u):
    return Q if u.kind == 'abs' else QE


def spoil(r, u):
    '''change an answer that belongs to the caller'''
    if isinstance(r, set):
        r.clear()
        r.add(mk(97))
    elif isinstance(r, list):
        for x in r:
            if isinstance(x, (set, list)):
                spoil(x, u)
        r.reverse()
        if r:
            r.pop()
    elif isinstance(r, np.ndarray):
        if r.flags.writeable:
            r[...] = 1 - r


def ask(u, name, spoiling=False):
    '''all answers of one query'''
    q = catalogue(u)[name]
    c = FREE.get(name, canon)
    out = []
    try:
        for r in q(u):
            out.append(c(u, r))
            u.check_args(name)
            if spoiling:
                spoil(r, u)
    except (ValueError, TypeError, AttributeError, IndexError,
            ZeroDivisionError, KeyError) as e:
        out.append(('raised', type(e).__name__))
    u.args = []
    return out


# --- changes -----------------------------------------------------------------

def change(u, op):
    k = op[0]
    n = u.n
    if k == 'new':
        D, F = op[1], op[2]
        e = mk(n, past={u.ev[i] for i in bits(D)},
               future={u.ev[i] for i in bits(F)}, label=n + 1)
        u.ev.append(e)
        if len(op) == 3:
            u.C.add({e})
    elif k == 'disjoin':
        u.ev[op[1]].disjoin()
    elif k == 'discard':
        u.C.discard({u.ev[i] for i in bits(op[1])}, unlink=bool(op[2]))
    elif k == 'add':
        u.C.add({u.ev[i] for i in bits(op[1])}, unlink=bool(op[2]))
    elif k == 'merge':
        u.C = Causet.merge({u.ev[i] for i in bits(op[1])},
                           {u.ev[i] for i in bits(op[2])})
    elif k == 'linkone':
        u.ev[op[1]].link()
    elif k == 'clink':
        u.C.link()
    elif k == 'label':
        u.ev[op[1]].Label = op[2]
    elif k == 'embed':
        u.ev[op[1]].embed([float(x) for x in op[2]], reembed=True)
    elif k == 'disembed':
        u.ev[op[1]].disembed()
    elif k == 'position':
        u.ev[op[1]].Position = (op[2], -1.0)
    elif k == 'create':
        reset(n)
        u.ev.extend(sorted(u.C.create([POINTS[i] for i in op[1]],
                                      relate=op[2]),
                           key=lambda e: e.Label))
    elif k == 'relate':
        u.C.relate(link=op[1])
    elif k == 'relabel':
        u.C.relabel(op[1], op[2])
    else:
        raise ValueError(k)


def changes_abs(dn, deep=False):
    n = len(dn)
    yield ['clink']
    for x in extensions(tuple(dn)):
        D = x[n]
        yield ['new', D, mask(i for i in range(n) if x[i] >> n & 1)]
    for i in range(n):
        yield ['disjoin', i]
        yield ['label', i, 10 - i]
        if i == 0 or deep:
            yield ['linkone', i]
            yield ['embed', i, [1, 2]]
            yield ['position', i, 3.0]
        yield ['new', 1 << i, 0, 'outside']
    for m in range(1, 1 << n):
        if popcount(m) <= 2 or m == (1 << n) - 1:
            yield ['discard', m, m & 1]
    full = (1 << n) - 1
    for A in range(1, full + 1):
        for B in range(1, full + 1):
            if A & B == 0 and (popcount(A) == 1 or popcount(B) == 1):
                if m_merge(tuple(dn), A, B) not in (None, tuple(dn)):
                    yield ['merge', A, B]


def changes_emb(pts):
    for i in range(len(POINTS)):
        yield ['create', [i], True]
    yield ['create', [4, 6], True]
    yield ['create', [1], False]
    yield ['relate', False]
    yield ['relate', True]
    for d in (0, 1):
        for r in (False, True):
            yield ['relabel', d, r]
    for i in range(len(pts)):
        yield ['discard', 1 << i, 0]
        yield ['discard', 1 << i, 1]
        yield ['disjoin', i]
        yield ['embed', i, [3, -0.5]]
        yield ['label', i, 40]
    yield ['new', 1, 0] if pts else ['new', 0, 0]


# --- families ----------------------------------------------------------------

def same(got, want, ctx, msg, *args):
    ctx.transitions += len(want) + 1
    if got != want:
        for i, (g, w) in enumerate(zip(got, want)):
            if g != w:
                ctx.eq(g, w, msg + ', answer %d', *(args + (i,)))
        ctx.eq(got, want, msg, *args)


def cases_pairs(universes):
    def gen():
        for spec in universes():
            for q in (Q if spec[0] == 'abs' else QE):
                yield [spec, q]
    return gen


_base = {}


def base(spec):
    '''answers of a causet that is asked only this'''
    key = repr(spec)
    if key not in _base:
        if len(_base) > 50:
            _base.clear()
        d = {}
        for q in (Q if spec[0] == 'abs' else QE):
            d[q] = ask(U(spec), q)
        _base[key] = d
    return _base[key]


def check_pairs(case, ctx):
    '''q1 before every other query'''
    spec, q1 = case
    want = base(spec)
    s0 = U(spec).snapshot()
    for q2 in want:
        u = U(spec)
        ctx.states += 1
        same(ask(u, q1), want[q1], ctx, '%s', q1)
        same(u.snapshot(), s0, ctx, 'state after %s', q1)
        same(ask(u, q2), want[q2], ctx, '%s after %s', q2, q1)
        u.cached()


def check_battery(case, ctx):
    '''all queries one after the other, beginning with q1'''
    spec, q1 = case
    want = base(spec)
    names = list(want)
    k = names.index(q1)
    u = U(spec)
    s0 = u.snapshot()
    prev = 'nothing'
    for q in names[k:] + names[:k + 1]:
        ctx.states += 1
        same(ask(u, q), want[q], ctx, '%s after %s ...', q, prev)
        same(u.snapshot(), s0, ctx, 'state after %s', q)
        u.cached()
        prev = q


def check_alias(case, ctx):
    '''changing the answers does not change the causet or later answers'''
    spec, q1 = case
    if not getattr(catalogue(U(spec[:2]))[q1], 'fresh', False):
        return
    want = base(spec)
    u = U(spec)
    ctx.states += 1
    s0 = u.snapshot()
    same(ask(u, q1, True), want[q1], ctx, '%s while its earlier answers are '
         'changed', q1)
    same(u.snapshot(), s0, ctx, 'state after changing the answers of %s', q1)
    u.cached()
    for q in want:
        same(ask(u, q), want[q], ctx, '%s after changing the answers of %s',
             q, q1)


def cases_change(universes, depth=1):
    def gen():
        for spec in universes():
            ch = list(changes_abs(spec[1]) if spec[0] == 'abs' else
                      changes_emb(spec[1]))
            for op in ch:
                yield [spec, [op]]
    return gen


def check_change(case, ctx):
    '''query, change, query: as if the first had not been asked'''
    spec, ch = case
    for q in (Q if spec[0] == 'abs' else QE):
        ctx.states += 1
        u, v = U(spec), U(spec)
        for op in ch:
            ask(u, q)
            change(u, op)
            change(v, op)
        # the last question before the changes is the first after them
        u.rev = v.rev = True
        same(ask(u, q), ask(v, q), ctx, '%s after asking it, %s', q, ch)
        same(u.snapshot(), v.snapshot(), ctx, 'state after %s, %s', q, ch)
        if not any(op[0] == 'create' and not op[2] for op in ch):
            u.cached()


def cases_change2(universes):
    def gen():
        for spec in universes():
            if spec[0] == 'abs':
                for op in changes_abs(spec[1]):
                    v = U(spec)
                    change(v, op)
                    dn = v.dn()
                    for op2 in changes_abs(dn, True):
                        yield [spec, [op, op2]]
            else:
                for op in changes_emb(spec[1]):
                    for op2 in changes_emb(spec[1]):
                        yield [spec, [op, op2]]
    return gen


def changes_large(dn):
    '''changes of larger orders: each event is taken out, put back, or
    replaced at another place; new events between and beside all pairs'''
    P = Poset(dn)
    n = len(dn)

    def new(a, b):
        D = P.dn[a] | 1 << a if a is not None else 0
        F = P.up[b] | 1 << b if b is not None else 0
        return ['new', D, F]
    R = [None] + list(range(n))
    for i in range(n):
        yield [['disjoin', i]]
        yield [['disjoin', i], ['new', P.dn[i], P.up[i]]]
        yield [['discard', 1 << i, i & 1]]
        for j in range(n):
            if i != j and not P.up[j] >> i & 1:
                if not P.up[i] >> j & 1:
                    yield [['merge', 1 << i, 1 << j]]
                yield [new(i, j)]
                # another event takes over: i leaves, a new one below j
                yield [['disjoin', i], ['new', 0, (P.up[j] | 1 << j)
                                        & ~(1 << i)]]
                yield [['disjoin', i], ['new', (P.dn[j] | 1 << j)
                                        & ~(1 << i), 0]]
    for i in range(n):     # a shortcut (or detour) replaces an event
        for k in range(n):
            for j in bits(P.dn[k]):
                if i not in (j, k) and P.dn[k] >> i & 1 and P.up[j] >> i & 1:
                    yield [['disjoin', i], ['new', (P.dn[j] | 1 << j)
                                            & ~(1 << i),
                                            (P.up[k] | 1 << k) & ~(1 << i)]]
    for a in R:
        yield [new(a, None)]
        yield [new(None, a)]


def cases_large(orders):
    def gen():
        for dn in orders:
            seen = set()
            for ch in changes_large(dn):
                if repr(ch) not in seen:
                    seen.add(repr(ch))
                    yield [['abs', list(dn)], ch]
    return gen


def check_large(case, ctx):
    '''all queries, changes, all queries, in both directions'''
    spec, ch = case
    names = [q for q in Q if q not in HEAVY]
    u, v = U(spec), U(spec)
    for q in names:
        ask(u, q)
    for op in ch:
        change(u, op)
        change(v, op)
    ctx.states += 1
    same(u.snapshot(), v.snapshot(), ctx, 'state after queries and %s', ch)
    if zlib.crc32(repr(ch).encode()) & 1:  # half of them backwards
        u.rev = v.rev = True
        names = names[::-1]
    for q in names:
        same(ask(u, q), ask(v, q), ctx, '%s after all queries, %s', q, ch)
    u.cached()


HEAVY = ()


def check_all_change(case, ctx):
    '''all queries between all changes'''
    spec, ch = case
    u, v = U(spec), U(spec)
    names = list(Q if spec[0] == 'abs' else QE)
    for op in ch:
        for q in names:
            ask(u, q)
        change(u, op)
        change(v, op)
    ctx.states += 1
    same(u.snapshot(), v.snapshot(), ctx, 'state after queries and %s', ch)
    if zlib.crc32(repr(ch).encode()) & 1:  # half of them backwards
        u.rev = True
        names = names[::-1]
    for q in names:
        w = U(spec)
        for op in ch:
            change(w, op)
        w.rev = u.rev
        same(ask(u, q), ask(w, q), ctx, '%s after all queries, %s', q, ch)


# --- interleaved iterators ---------------------------------------------------

def iterators(u):
    '''(name, function that starts the iterator) with at least two results'''
    out = []
    for i, a in enumerate(u.ev):
        for j, b in enumerate(u.ev):
            for l in ('any', 'min', 'max', [3, 4]):
                out.append((['Paths', i, j, l],
                            lambda a=a, b=b, l=l: Causet.Paths(a, b, l)))
    for ac in u.antichains():
        li = [u.ev[k] for k in bits(ac)]
        for a, b in permutations(li, 2):
            out.append((['Antipaths', u.X.m(li), u.X.of[id(a)],
                         u.X.of[id(b)]],
                        lambda a=a, b=b, li=li: u.C.Antipaths(a, b, li)))
    out.append((['iter'], lambda: iter(u.C)))
    out.append((['findAny'], lambda: u.C.findAny(1, 2, 3, 4)))
    res = []
    for name, f in out:
        full = [canon(u, x) for x in f()]
        if len(full) >= 2:
            res.append((name, f, full))
    return res


def cases_inter(src):
    def gen():
        for dn in src():
            yield [list(dn)]
    return gen


def check_inter(case, ctx, cap=3):
    dn = case[0]
    u = U(['abs', dn])
    its = iterators(u)
    for (n1, f1, r1), (n2, f2, r2) in product(its, its):
        k1, k2 = min(len(r1), cap), min(len(r2), cap)
        for pos in combinations(range(k1 + k2), k1):
            ctx.states += 1
            g1, g2 = f1(), f2()
            o1, o2 = [], []
            for t in range(k1 + k2):
                if t in pos:
                    o1.append(canon(u, next(g1)))
                else:
                    o2.append(canon(u, next(g2)))
            # the rest, or abandoned
            if len(pos) and pos[0] == 0:
                o1 += [canon(u, x) for x in g1]
                w1, w2 = r1, r2[:k2]
            else:
                o2 += [canon(u, x) for x in g2]
                w1, w2 = r1[:k1], r2
            ctx.transitions += 2
            if o1 != w1 or o2 != w2:
                same([o1, o2], [w1, w2], ctx, '%s and %s interleaved at %s',
                     n1, n2, pos)
    for name, f, r in its:
        same([canon(u, x) for x in f()], r, ctx, '%s again', name)


# --- requests that are rejected ----------------------------------------------

def rejected(u):
    '''(what, call, exceptions)'''
    n = u.n
    C = u.C
    ev = u.ev
    full = set(ev)
    any_ = (ValueError, AttributeError, TypeError, IndexError, KeyError)
    yield 'find', lambda: C.find('no such label'), ValueError
    yield 'DistanceMatrix', lambda: C.DistanceMatrix(
        ev[:1], counting='nonsense'), ValueError
    yield 'FromPastMatrix', lambda: Causet.FromPastMatrix(np.ones((2, 2))), \
        ValueError
    yield 'FromPastMatrix rows', lambda: Causet.FromPastMatrix(
        np.zeros((3, 2))), ValueError
    for k, e in enumerate(ev):
        yield 'Paths', lambda e=e: list(C.Paths(e, e, None)), ValueError
        for pos in ((), (1.0,), (1.0, 2.0, 3.0)):
            yield 'Position', lambda e=e, pos=pos: setattr(
                e, 'Position', pos), ValueError
            yield 'position of a new event', lambda pos=pos: CausetEvent(
                past={ev[k]}, position=pos), ValueError
            yield 'position of a new event', lambda pos=pos: CausetEvent(
                future=full, position=pos), ValueError
        yield 'past of a new event', lambda: CausetEvent(
            past=[ev[k], 'nonsense']), any_
        yield 'future of a new event', lambda: CausetEvent(
            past=[ev[k]], future=[None]), any_
        if e.isEmbedded:
            yield 'embed', lambda e=e: e.embed([9.0, 9.0]), AttributeError
        else:
            yield 'Coordinates', lambda e=e: e.Coordinates, AttributeError
            yield 'disembed', lambda e=e: e.disembed(), AttributeError
    if u.kind != 'abs':
        yield 'Parameter', lambda: C.Shape.Parameter('nonsense'), any_
        yield 'Limits', lambda: C.Shape.Limits(7), any_
    if u.kind != 'abs':
        for rows in ([[1.0]], [[1.0, 2.0, 3.0]], [[1.0, 2.0], [3.0]],
                     [[1.0, 2.0], []], [[1.0, 2.0, 3.0], [1.0, 2.0]]):
            for rel in (True, False):
                yield 'create', lambda r=rows, rel=rel: C.create(
                    r, relate=rel), ValueError
        yield 'create', lambda: C.create(np.ones((3, 3))), ValueError
    if u.kind == 'spr':
        from causets.shapes import CoordinateShape
        yield 'sprinkle', lambda: C.sprinkle(-1), ValueError
        yield 'intensify', lambda: C.intensify(-0.5), ValueError
        yield 'intensify', lambda: C.intensify(float('nan')), ValueError
        yield 'intensify', lambda: C.intensify(float('inf')), ValueError
        for d in (1, 3):
            for name in ('cube', 'ball', 'bicone', 'cylinder'):
                sh = CoordinateShape(d, name)
                yield 'sprinkle', lambda sh=sh: C.sprinkle(2, shape=sh), \
                    ValueError
                yield 'intensify', lambda sh=sh: C.intensify(
                    4.0, shape=sh), ValueError


def unembedded(u, ctx):
    '''relating and creating is impossible if an event has no coordinates'''
    for k in range(-1, u.n):
        v = U(u.spec)
        e = CausetEvent(past=set() if k < 0 else {v.ev[k]} | v.ev[k].Past,
                        label='x')
        v.C.add([e])
        v.ev.append(e)
        s0 = v.snapshot()
        calls = [('relate', lambda: v.C.relate()),
                 ('relate', lambda: v.C.relate(link=False)),
                 ('create', lambda: v.C.create([[0.25, 0.125]])),
                 ('create', lambda: v.C.create([[0.25, 0.125],
                                                [9.0, -0.5]]))]
        if u.kind == 'spr':
            from mc.tape import Tape
            for n in (0, 1, 3):
                calls += [('sprinkle', lambda n=n: v.C.sprinkle(
                    n, rng=Tape([0.3, 0.6]))),
                          ('intensify', lambda n=n: v.C.intensify(
                              2.5, rng=Tape([0.3, 0.6], poisson=[n])))]
        for what, f in calls:
            ctx.states += 1
            ctx.raises(AttributeError, f, '%s with an event that is not '
                       'embedded' % what)
            same(v.snapshot(), s0, ctx, 'state after the rejected %s with an '
                 'event that is not embedded', what)
            v.cached()


def check_rejected(case, ctx):
    spec = case[0]
    u = U(spec)
    s0 = u.snapshot()
    k = 0
    for what, f, exc in rejected(u):
        ctx.states += 1
        ctx.raises(exc, f, '%s (request %d)' % (what, k))
        same(u.snapshot(), s0, ctx, 'state after the rejected request %s',
             what)
        u.cached()
        k += 1
    want = base(spec)
    for q in want:
        same(ask(u, q), want[q], ctx, '%s after rejected requests', q)
    if u.kind != 'abs':
        unembedded(u, ctx)


# --- independent instances ---------------------------------------------------

SPECS = [('flat', 2, None), ('flat', 2, 3), ('flat', 2, 1.5), ('flat', 3, None),
         ('flat', 3, [2, 0]), ('flat', 3, [0, 2]), ('flat', 3, 1),
         ('flat', 4, None), ('flat', 4, [1, 0, 2]), ('dS', 2, 1.0),
         ('dS', 2, 2.0), ('dS', 3, 1.0), ('dS', 4, 1.5), ('AdS', 2, 1.0),
         ('AdS', 2, 2.5), ('AdS', 3, 1.0), ('EF', 2, 1.0), ('EF', 2, 2.0),
         ('S', 2, 1.0), ('S', 2, 2.0)]


def sample(dim, k):
    out = []
    for i in range(k):
        out.append([0.37 * i * (-1) ** (i // 2)] +
                   [(((i + 1) * (j + 2) * 7) % 11 - 5) * 0.171
                    for j in range(dim - 1)])
    return out


def overwrite(f):
    '''the caller changes an array or list that was an answer'''
    try:
        r = f()
    except KeyError:
        return
    if isinstance(r, np.ndarray) and r.flags.writeable:
        r[...] = 0.875
    elif isinstance(r, list):
        r[:] = [0.875] * len(r)


def check_instances(case, ctx):
    '''several spacetimes at the same time do not influence each other'''
    order = [SPECS[i] for i in case]
    fs = []
    for kind, dim, par in order:
        M = lc.make(kind, dim, par)
        fs.append((M, M.Causality()))
        str(M), repr(M), M.DefaultShape()
        for k in ('period', 'isPeriodic', 'r_dS', 'r_AdS', 'r_S'):
            overwrite(lambda: M.Parameter(k))
        overwrite(lambda: M.DefaultShape().Center)
    for rnd in range(2):
        for (kind, dim, par), (M, f) in zip(order, fs):
            per = par
            if kind == 'flat' and par is not None and \
                    not isinstance(par, list):
                per = [par] * (dim - 1)
            o = lc.of(kind, per)
            g = M.Causality() if rnd else f
            for x in sample(dim, 6):
                for y in sample(dim, 6):
                    rel, m = o(x, y)
                    if float(m) < 1e-9:
                        continue
                    X, Y = np.array(x), np.array(y)
                    got = g(X, Y)
                    ctx.transitions += 1
                    if tuple(map(bool, got)) != lc.answer(rel):
                        ctx.eq(tuple(map(bool, got)), lc.answer(rel),
                               '%s with %s: Causality(%s, %s)',
                               [kind, dim, par], order, x, y)
                    if X.tolist() != x or Y.tolist() != y:
                        ctx.ck(False, 'Causality changed its argument')
    ctx.states += 1


CONES = [('flat', 2, 1.5), ('flat', 3, None), ('flat', 3, [2, 0]),
         ('flat', 3, [0, 2]), ('flat', 3, [1, 3]), ('flat', 4, [1, 0, 2]),
         ('dS', 3, 1.0), ('EF', 2, 1.0)]


def conedims(kind, dim):
    two = [list(p) for p in permutations(range(dim), 2)]
    three = [list(p) for p in permutations(range(dim), 3)]
    if dim == 4:
        two = [p for p in two if 0 in p]
        three = [p for p in three if p[0] < p[-1]]
    return two + three


def gen_cones(k):
    def g():
        for i, (kind, dim, par) in enumerate(CONES):
            D = conedims(kind, dim)
            for j in (range(2, k + 1) if dim <= 3 else (2,)):
                for s in product(range(len(D)), repeat=j):
                    yield [i, list(s)]
    return g


def drawn(spy):
    out = []
    for p in spy.patches:
        out += [np.array(v).tobytes() for v in draw.polygons(p)]
        out.append(str(p.get_facecolor()))
    for X, Y, Z, kw in spy.surfaces:
        out += [np.array(v).tobytes() for v in (X, Y, Z)]
        out.append(str(sorted(kw.items())))
    return out


_alone = {}


def check_cones(case, ctx):
    '''handles that draw cones, for several dimensions, of one spacetime'''
    i, seq = case
    kind, dim, par = CONES[i]
    D = conedims(kind, dim)
    pts = [[0.1 + 0.05 * k for k in range(dim)],
           [-0.2] + [0.31 - 0.2 * k for k in range(dim - 1)]]
    if kind == 'EF':
        pts = [[0.1, 2.5], [-0.3, -4.0]]

    def plotter(M, j, spy):
        dims = list(D[j])
        color = {'color' if len(dims) == 3 else 'facecolor': (0.5, 0.25, 0.1)}
        sign = 1 - 2 * (j % 2)
        return M.ConePlotter(dims, color, sign, spy,
                             (lambda r: 0.7) if j % 3 == 0 else None, 6), sign

    def use(cone, sign, k):
        p = np.array(pts[k])
        return cone(p, p[0] + sign * (0.4 + 0.2 * k))

    def alone(j, k):
        if (i, j, k) not in _alone:
            spy = draw.Spy()
            use(*plotter(lc.make(kind, dim, par), j, spy), k)
            _alone[i, j, k] = drawn(spy)
        return _alone[i, j, k]
    M = lc.make(kind, dim, par)
    ctx.states += 1
    hs = []
    for n, j in enumerate(seq):
        spy = draw.Spy()
        hs.append((j, spy, plotter(M, j, spy)))
        # used at once, and again when there are others
        for m, (j2, spy2, h) in enumerate(hs):
            k = (n + m) % 2
            del spy2.patches[:], spy2.surfaces[:]
            use(*h, k)
            ctx.transitions += 1
            if drawn(spy2) != alone(j2, k):
                ctx.ck(False, '%s: cone for the dimensions %s differs when '
                       'handles for %s exist', CONES[i], D[j2],
                       [D[a] for a in seq[:n + 1]])


SHAPES = [['cube', 2, {'edge': 2.0}], ['cube', 3, {'edge': 0.5}],
          ['cuboid', 2, {'edges': [1.0, 3.0]}],
          ['cuboid', 3, {'edges': [1.0, 3.0, 2.0]}],
          ['ball', 2, {'radius': 2.0}], ['ball', 3, {'radius': 1.0,
                                                     'hollow': 0.5}],
          ['bicone', 2, {'radius': 1.5}], ['diamond', 3, {'radius': 2.0}],
          ['cylinder', 3, {'radius': 1.0, 'duration': 3.0, 'hollow': 0.25}],
          ['cylinder', 2, {'radius': 2.0, 'duration': 1.0}]]


def shape_answers(s, keys):
    out = [s.Dim, s.Name, float(s.Volume), float(s.MaxEdgeHalf(
        list(range(s.Dim)))), np.array(s.Center, float).tolist(), str(s),
        repr(s)]
    for d in range(s.Dim):
        out.append([float(x) for x in s.Limits(d)])
    for k in keys:
        out.append(np.array(s.Parameter(k), float).tolist())
    return out


def check_shapes(case, ctx):
    '''queries of shapes, with centre lists that are changed later'''
    from causets.shapes import CoordinateShape
    from causets.spacetimes import FlatSpacetime
    alone = []
    objs = []
    for i in case:
        name, d, kw = SHAPES[i]
        c = [0.5 * k - 1 for k in range(d)]
        kw = {k: (list(v) if isinstance(v, list) else v)
              for k, v in kw.items()}
        s = CoordinateShape(d, name, center=c, **kw)
        objs.append((s, c, kw, sorted(kw)))
        alone.append(shape_answers(s, sorted(kw)))
    for s, c, kw, keys in objs:
        c[0] = 77.0
        for k in kw:
            if isinstance(kw[k], list):
                kw[k][0] = 55.0
    for rnd in range(2):
        for (s, c, kw, keys), a in zip(objs, alone):
            ctx.states += 1
            same(shape_answers(s, keys), a, ctx, 'answers of %s', SHAPES[case[0]])
            for k in keys:
                overwrite(lambda: s.Parameter(k))
            overwrite(lambda: s.Center)
            for k in range(s.Dim):
                overwrite(lambda: s.Limits(k))
    for rep in range(2):
        d = SHAPES[case[0]][1]
        same(shape_answers(FlatSpacetime(d).DefaultShape(), ['radius']),
             shape_answers(CoordinateShape(d, 'diamond'), ['radius']), ctx,
             'default shape')


def uni(ns, *states):
    def gen():
        for n in ns:
            for dn in unlabelled(n):
                for st in states or ((),):
                    if n == 0 and any(o[0] == 'linkone' for o in st):
                        continue
                    yield ['abs', list(dn)] + list(st)
    return gen


def emb(kinds, subsets):
    def gen():
        for k in kinds:
            for s in subsets:
                yield [k, list(s)]
    return gen


EMB = [(), (0,), (0, 1), (0, 1, 2), (0, 3, 4), (0, 1, 2, 3), (0, 5, 1)]


def families(tier):
    t = tier == 'thorough'
    L = ([], [['clink']], [['linkone', 0]])
    more = [layered_complete(2, 2), grid(2, 3), boolean(3),
            layered_complete(1, 2, 2, 1), layered_complete(2, 2, 2)]
    f = [Family('pairs', cases_pairs(uni((0, 1, 2, 3), *L[:2])), check_pairs,
                'all ordered pairs of queries, orders n<=3, with and without '
                'links'),
         Family('sequence', cases_pairs(uni((4, 5) if t else (4,), *L)),
                check_battery,
                'all queries in cyclic sequences, orders n=4 (5), no, one, or '
                'all events linked'),
         Family('alias', cases_pairs(uni((0, 1, 2, 3, 4) if t else (0, 1, 2, 3),
                                         *L[:2])), check_alias,
                'answers changed by the caller'),
         Family('embedded alias', cases_pairs(emb(('emb', 'spr'), EMB)),
                check_alias, 'answers of embedded causets changed by the '
                'caller'),
         Family('change', cases_change(uni((0, 1, 2, 3), *L[:2])),
                check_change, 'query, change, query: all queries, all changes, '
                'orders n<=3'),
         Family('change2', cases_change2(uni((1, 2, 3) if t else (1, 2))),
                check_change if t else check_all_change,
                'two changes with queries before each'),
         Family('change4', cases_change(uni((4, 5) if t else (4,))),
                check_all_change, 'all queries, change, all queries: n=4 (5)'),
         Family('larger', cases_large([chain(5), chain(6)] + more),
                check_large, 'all queries, one or two changes, all queries: '
                'orders of 5 to 8 events'),
         Family('embedded', cases_pairs(emb(('emb', 'spr'), EMB[:5])),
                check_battery, 'embedded and sprinkled causets: sequences'),
         Family('embedded change', cases_change(emb(('emb', 'spr'), EMB)),
                check_change if t else check_all_change,
                'embedded and sprinkled causets: query, change, query'),
         Family('rejected', lambda: ([s] for s in list(uni(
             (0, 1, 2, 3, 4))()) + list(emb(('emb', 'spr'), EMB)())),
             check_rejected, 'requests that are rejected'),
         Family('interleaved', cases_inter(
             lambda: [dn for n in ((3, 4, 5) if t else (3, 4))
                      for dn in unlabelled(n)] + (more if t else more[:2])),
             check_inter, 'all interleavings of the first 3 steps of any two '
             'iterators'),
         Family('instances', lambda: (list(c) for c in (
             permutations(range(len(SPECS)), 2))), check_instances,
             'all ordered pairs of spacetimes alive together'),
         Family('cones', gen_cones(3 if t else 2), check_cones,
                'all sequences of 2 (3) handles to draw cones'),
         Family('shapes', lambda: (list(c) for c in permutations(
             range(len(SHAPES)), 2)), check_shapes,
             'all ordered pairs of shapes alive together')]
    return f
