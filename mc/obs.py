'''Compare every relation / link query of the public interface with the model.'''
import math
from mc.order import Poset, bits, mask, popcount
from mc.impl import Idx, Causet, CausetEvent


def relations(P, ev, ctx, subsets=True, tag=''):
    '''every relation query about the events ev against poset P'''
    n = P.n
    X = Idx(ev)
    for i in range(n):
        a = ev[i]
        dn, up, me = P.dn[i], P.up[i], 1 << i
        for got, want, q in (
                (X.m(a.Past), dn, 'Past'), (X.m(a.Future), up, 'Future'),
                (X.m(a.Cone), dn | up | me, 'Cone'),
                (X.m(a.PresentOrPast), dn | me, 'PresentOrPast'),
                (X.m(a.PresentOrFuture), up | me, 'PresentOrFuture'),
                (a.PastCard, popcount(dn), 'PastCard'),
                (a.FutureCard, popcount(up), 'FutureCard'),
                (a.ConeCard, popcount(dn | up) + 1, 'ConeCard')):
            if got != want or len(a.Past) != popcount(dn):
                ctx.eq(got, want, '%s%s of event %d', tag, q, i)
        ctx.transitions += 8
        for j in range(n):
            b = ev[j]
            lt = bool(dn >> j & 1)      # j < i
            gt = bool(up >> j & 1)      # j > i
            got = (b < a, b <= a, b > a, b >= a, a.isCausalTo(b),
                   a.isSpacelikeTo(b), a == b, a != b)
            same = i == j
            want = (lt, lt or same, gt, gt or same, lt or gt or same,
                    not (lt or gt or same), same, not same)
            ctx.transitions += 8
            if got != want:
                names = ('<', '<=', '>', '>=', 'isCausalTo', 'isSpacelikeTo',
                         '==', '!=')
                for g, w, nm in zip(got, want, names):
                    if g != w:
                        ctx.eq(g, w, '%sevent %d %s event %d', tag,
                               j, nm, i)
        if subsets:
            rel = dn | up | me
            for s in range(1 << n):
                S = X.s(s)
                ctx.transitions += 2
                sp = a.Spacelike(S)
                if X.m(sp) != s & ~rel:
                    ctx.eq(X.m(sp), s & ~rel, '%sSpacelike(%d) of event %d',
                           tag, s, i)
                k = a.SpacelikeCard(S)
                if k != popcount(s & ~rel):
                    ctx.eq(k, popcount(s & ~rel),
                           '%sSpacelikeCard(%d) of event %d', tag, s, i)
                if X.m(S) != s:
                    ctx.eq(X.m(S), s, 'argument of Spacelike modified')


QUERIES = ('LinkPast', 'LinkFuture', 'LinkCone', 'LinkPastCard',
           'LinkFutureCard', 'LinkConeCard', 'isPastLink', 'isFutureLink',
           'isLinkedTo', 'isLink', 'LinkCountOf')


def link_query(P, ev, X, q, ctx, tag=''):
    n = P.n
    ldn, lup = P.lk
    if q == 'LinkPast':
        for i in range(n):
            ctx.eq(X.m(ev[i].LinkPast), ldn[i], '%sLinkPast of %d', tag, i)
    elif q == 'LinkFuture':
        for i in range(n):
            ctx.eq(X.m(ev[i].LinkFuture), lup[i], '%sLinkFuture of %d', tag, i)
    elif q == 'LinkCone':
        for i in range(n):
            ctx.eq(X.m(ev[i].LinkCone), ldn[i] | lup[i], '%sLinkCone of %d',
                   tag, i)
    elif q == 'LinkPastCard':
        for i in range(n):
            ctx.eq(ev[i].LinkPastCard, popcount(ldn[i]), '%sLinkPastCard of %d',
                   tag, i)
    elif q == 'LinkFutureCard':
        for i in range(n):
            ctx.eq(ev[i].LinkFutureCard, popcount(lup[i]),
                   '%sLinkFutureCard of %d', tag, i)
    elif q == 'LinkConeCard':
        for i in range(n):
            ctx.eq(ev[i].LinkConeCard, popcount(ldn[i]) + popcount(lup[i]),
                   '%sLinkConeCard of %d', tag, i)
    elif q == 'isPastLink':
        for i in range(n):
            for j in range(n):
                ctx.eq(bool(ev[i].isPastLink(ev[j])), bool(ldn[i] >> j & 1),
                       '%s%d.isPastLink(%d)', tag, i, j)
    elif q == 'isFutureLink':
        for i in range(n):
            for j in range(n):
                ctx.eq(bool(ev[i].isFutureLink(ev[j])), bool(lup[i] >> j & 1),
                       '%s%d.isFutureLink(%d)', tag, i, j)
    elif q == 'isLinkedTo':
        for i in range(n):
            for j in range(n):
                ctx.eq(bool(ev[i].isLinkedTo(ev[j])),
                       bool((ldn[i] | lup[i]) >> j & 1),
                       '%s%d.isLinkedTo(%d)', tag, i, j)
    elif q == 'isLink':
        for i in range(n):
            for j in range(n):
                ctx.eq(bool(CausetEvent.isLink(ev[i], ev[j])),
                       bool(lup[i] >> j & 1), '%sisLink(%d, %d)', tag, i, j)
    elif q == 'LinkCountOf':
        for s in range(1 << n):
            S = X.s(s)
            ctx.eq(CausetEvent.LinkCountOf(S),
                   sum(popcount(ldn[i] & s) for i in bits(s)),
                   '%sLinkCountOf(%d)', tag, s)


def links(P, ev, ctx, tag='', queries=QUERIES):
    X = Idx(ev)
    for q in queries:
        link_query(P, ev, X, q, ctx, tag)


def is_cached(e):
    return e.hasBeenLinked()
