'''C26: events are consistent records of embedding, position and label.'''
from itertools import product
import math
import numpy as np
from mc.core import Family
from mc.order import Poset, bits, labelled, unlabelled
from mc.impl import build, Idx, CausetEvent, ROUTES, Causet
from mc import obs

PROPERTY = 'C26'
RULE = ('states: record states; transitions: compared answers; a trace is one '
        'history of operations on an event, or one event of an order copied')
ASSUMPTIONS = ['labels are integers, strings or None']

A, B, E3 = [1.0, 2.0], [0.5, -1.5, 3.0], []

# name, kind of container
CREATE = [{}, {'coordinates': 'A'}, {'coordinates': 'B'},
          {'coordinates': 'tA'}, {'coordinates': 'nA'}, {'coordinates': 'gA'},
          {'position': 'P'}, {'position': 'nP', 'coordinates': 'A',
                              'label': 7}, {'label': 'x'},
          {'position': 'gP', 'label': 3}]
VAL = {'A': [1.0, 2.0], 'B': [0.5, -1.5, 3.0, 0.1, 2.5e-13, -123456789.1], 'C': [4.0], 'P': [3.0, -2.0],
       'Q': [0.1, 1e6 + 1 / 3]}


def container(code):
    '''(object passed, values, mutate function or None)'''
    v = VAL[code[-1]]
    if code[0] == 't' and len(code) > 1:
        return tuple(v), v, None
    if code[0] == 'n' and len(code) > 1:
        a = np.array(v)
        return a, v, lambda: a.__iadd__(100.0)
    if code[0] == 'g' and len(code) > 1:
        return (x for x in v), v, None
    a = list(v)

    def mut():
        a[0] = -99.0
        a.append(5.0)
    return a, v, mut


OPS = ['eA', 'eB', 'enA', 'etC', 'rA', 'rB', 'rgA', 'rnC', 'd', 'pP', 'pnQ',
       'pgP', 'p0', 'p1', 'p3', 'pn3', 'mut', 'l5', 'lz', 'lN', 'l0']


def gen_rec(depth):
    def gen():
        for c in range(len(CREATE)):
            for d in range(0, depth + 1):
                for ops in product(range(len(OPS)), repeat=d):
                    yield [c, [OPS[o] for o in ops]]
    return gen


def observe(e, co, pos, lab, ctx, tag):
    ctx.states += 1
    ctx.transitions += 6
    if bool(e.isEmbedded) != (co is not None):
        ctx.eq(e.isEmbedded, co is not None, '%sisEmbedded', tag)
    if e.CoordinatesDim != (0 if co is None else len(co)):
        ctx.eq(e.CoordinatesDim, 0 if co is None else len(co),
               '%sCoordinatesDim', tag)
    if co is None:
        try:
            r = e.Coordinates
        except AttributeError:
            pass
        else:
            ctx.ck(False, '%sCoordinates of an event without embedding: %r',
                   tag, r)
    elif [float(x) for x in e.Coordinates] != co:
        ctx.eq([float(x) for x in e.Coordinates], co, '%sCoordinates', tag)
    if [float(x) for x in e.Position] != pos:
        ctx.eq([float(x) for x in e.Position], pos, '%sPosition', tag)
    if e.Label != lab or type(e.Label) is not type(lab):
        ctx.eq(e.Label, lab, '%sLabel', tag)
    t, r = str(e), repr(e)
    if not (isinstance(t, str) and isinstance(r, str) and t and r):
        ctx.ck(False, '%stexts %r, %r', tag, t, r)
    if lab and (str(lab) not in t or str(lab) not in r):
        ctx.ck(False, '%sthe label is not in the texts %r, %r', tag, t, r)


def attr_error(f, ctx, tag):
    try:
        f()
    except AttributeError:
        return
    ctx.ck(False, tag + 'AttributeError not raised')


def check_rec(case, ctx):
    c, ops = case
    spec = CREATE[c]
    muts = []
    kw = {}
    co, pos, lab = None, [0.0, 0.0], spec.get('label')
    for k, v in spec.items():
        if k == 'label':
            kw[k] = v
            continue
        obj, vals, mut = container(v)
        kw[k] = obj
        if mut:
            muts.append(mut)
        if k == 'coordinates':
            co = list(vals)
        else:
            pos = list(vals)
    e = CausetEvent(**kw)
    if not ops:
        for m in muts:
            m()
        observe(e, co, pos, lab, ctx, 'created with %s: ' % spec)
        return
    for k, op in enumerate(ops):
        tag = 'created with %s, after %s: ' % (spec, ops[:k + 1])
        if op[0] in 'er':
            obj, vals, mut = container(op[1:])
            re = {'reembed': True} if op[0] == 'r' else {}
            if co is not None and not re:
                attr_error(lambda: e.embed(obj), ctx, tag)
            else:
                e.embed(obj, **re)
                co = list(vals)
                if mut:
                    muts.append(mut)
        elif op == 'd':
            if co is None:
                attr_error(e.disembed, ctx, tag)
            else:
                e.disembed()
                co = None
        elif op in ('p0', 'p1', 'p3', 'pn3'):
            bad = {'p0': [], 'p1': [1.0], 'p3': [1.0, 2.0, 3.0],
                   'pn3': np.array([1.0, 2.0, 3.0])}[op]
            try:
                e.Position = bad
            except ValueError:
                pass
            else:
                ctx.ck(False, tag + 'ValueError not raised')
        elif op[0] == 'p':
            obj, vals, mut = container(op[1:])
            e.Position = obj
            pos = list(vals)
            if mut:
                muts.append(mut)
        elif op == 'mut':
            for m in muts:
                m()
            muts = []
        elif op[0] == 'l':
            lab = {'l5': 5, 'lz': 'z', 'lN': None, 'l0': 0}[op]
            e.Label = lab
        if k == len(ops) - 1:
            for m in muts:
                m()
            observe(e, co, pos, lab, ctx, tag)


def gen_badpos():
    for v in ([], [1.0], [1.0, 2.0, 3.0], [0.0] * 4):
        for kind in ('list', 'tuple', 'array', 'generator'):
            for past in (False, True):
                yield [v, kind, past]


def check_badpos(case, ctx):
    '''a position that is no pair is rejected at creation, and a rejected
    event does not become related'''
    v, kind, past = case
    obj = {'list': list, 'tuple': tuple, 'array': np.array,
           'generator': iter}[kind](v)
    a = CausetEvent(label='a')
    kw = {'past': {a}} if past else {}
    ctx.states += 1
    ctx.raises(ValueError, lambda: CausetEvent(position=obj, **kw),
               'position %s' % (v,))
    ctx.eq(set(a.Future), set(), 'future of an event')


# --- copies ------------------------------------------------------------------

LABELS = [None, 1, 'x', '7', 0, -3, '', 'long-' * 30, 10 ** 25, ' a b ', 'A']


def gen_copy(sizes, src, routes):
    def gen():
        for n in sizes:
            for dn in src(n):
                for r in routes:
                    yield [list(dn), r]
    return gen


def check_copy(case, ctx):
    dn, route = case
    P = Poset(dn)
    n = P.n
    for k in range(n):
        for mode in ('fresh', 'linked', 'unlinked', 'queried'):
            ev = build(P, route)
            X = Idx(ev)
            for i, e in enumerate(ev):
                e.Label = LABELS[(i + k) % 4]
                if i == k:
                    e.Label = LABELS[(k + len(dn) + sum(dn)) % 7]
                if i % 2 == k % 2:
                    e.embed([float(i), float(k)])
                    e.Position = [2.0, 3.0]
            if mode == 'linked':
                for e in ev:
                    e.link()
            elif mode == 'unlinked':
                for e in ev:
                    e.link()
                for e in ev:
                    e.unlink()
            elif mode == 'queried':
                ev[k].LinkPast
                ev[k].LinkFuture
            o = ev[k]
            emb = o.isEmbedded
            c = o.copy()
            ctx.states += 1
            tag = '%s %s copy of %d: ' % (dn, mode, k)
            ctx.ck(c is not o and isinstance(c, CausetEvent), tag + 'type')
            ctx.ck(c.Label == o.Label and type(c.Label) is type(o.Label),
                   tag + 'label')
            ctx.ck(not c.isEmbedded and c.CoordinatesDim == 0,
                   tag + 'embedded')
            attr_error(lambda: c.Coordinates, ctx, tag)
            ctx.eq(o.isEmbedded, emb, '%soriginal embedded', tag)
            if mode == 'fresh':
                for lab in LABELS:
                    o.Label = lab
                    d = o.copy().Label
                    ctx.ck(d == lab and type(d) is type(lab),
                           tag + 'label %r' % (lab,))
                o.Label = c.Label

            def same(x, what):
                ctx.transitions += 4
                if X.m(x.Past) != P.dn[k] or X.m(x.Future) != P.up[k]:
                    ctx.ck(False, tag + what + ': past %s, future %s' % (
                        X.m(x.Past), X.m(x.Future)))
                if X.m(x.LinkPast) != P.ldn[k] or \
                        X.m(x.LinkFuture) != P.lup[k]:
                    ctx.ck(False, tag + what + ': links %s, %s' % (
                        X.m(x.LinkPast), X.m(x.LinkFuture)))
            same(c, 'copy')
            same(o, 'original')
            obs.relations(P, ev, ctx, False, tag)
            if not (str(c) == str(o) and repr(c)):
                ctx.ck(False, tag + 'texts')
            # own sets: the original changes, the copy does not
            if mode in ('linked', 'queried'):
                o.unlink()
                same(c, 'copy after unlinking the original')
            CausetEvent(past={o})
            if X.of and len(c.Future) != bin(P.up[k]).count('1'):
                ctx.ck(False, tag + 'future of the copy changes with the '
                       'original')
            o.disjoin()
            if X.m(c.Past) != P.dn[k] or X.m(c.Future) != P.up[k]:
                ctx.ck(False, tag + 'the copy changes when the original is '
                       'disjoined')
            for what in ('future', 'past', 'both', 'below', 'disjoin',
                         'unlink', 'neighbours'):
                ev = build(P, route)
                X = Idx(ev)
                if mode == 'linked':
                    for e in ev:
                        e.link()
                o = ev[k]
                if mode == 'queried':
                    o.LinkPast
                c = o.copy()
                same(c, 'copy')
                if mode in ('linked', 'queried'):
                    same(o, 'original')
                if what == 'future':
                    CausetEvent(past=[o])
                elif what == 'past':
                    CausetEvent(future=[o])
                elif what == 'both':
                    CausetEvent(past=[o], future=list(o.Future))
                elif what == 'below':
                    CausetEvent(past=list(o.Past), future=[o])
                elif what == 'disjoin':
                    o.disjoin()
                elif what == 'unlink':
                    o.unlink()
                    o.LinkPast
                else:
                    for i in bits(P.dn[k] | P.up[k]):
                        ev[i].disjoin()
                for q, m in (('Past', P.dn[k]), ('Future', P.up[k]),
                             ('LinkPast', P.ldn[k]),
                             ('LinkFuture', P.lup[k])):
                    r = getattr(c, q)
                    if len(r) != bin(m).count('1') or X.m(r) != m:
                        ctx.ck(False, tag + '%s of the copy changes with the '
                               'original (%s)' % (q, what))
                ctx.transitions += 4
            # and the other way round
            ev = build(P, route)
            X = Idx(ev)
            if mode == 'linked':
                for e in ev:
                    e.link()
            o = ev[k]
            c = o.copy()
            c.disjoin()
            same(o, 'original after disjoining the copy')
            obs.relations(P, ev, ctx, False, tag)
            c2 = o.copy()
            c2.embed([5.0])
            c2.Label = 'other'
            c2.Position = [9.0, 9.0]
            ctx.ck(not o.isEmbedded and list(o.Position) == [0.0, 0.0] and
                   o.Label != 'other', tag + 'record of the original')
            # a default position handed out is not that of other events
            p = o.Position
            if isinstance(p, list):
                p[0] = 7.0
                ctx.eq(list(c.Position), [0.0, 0.0], '%sPosition of the copy '
                       'after changing the list got from the original', tag)


def gen_text():
    for n in range(0, 4):
        for dn in labelled(n):
            yield list(dn)


def check_text(dn, ctx):
    P = Poset(dn)
    for lab in (None, lambda i: i + 1, lambda i: 'n%d' % i):
        for link in (False, True):
            for emb in (False, True):
                ev = build(P, 'full', lab)
                S = Causet(set(ev))
                if link:
                    S.link()
                for i, e in enumerate(ev):
                    if emb:
                        e.embed([float(i), 0.5])
                    t, r = str(e), repr(e)
                    ctx.transitions += 2
                    ctx.states += 1
                    if not t or not r or '\n' in t:
                        ctx.ck(False, 'texts %r, %r', t, r)
                    for j in range(P.n):
                        w = lab and str(ev[j].Label) in r.replace(
                            repr(e.Coordinates) if emb else '', '')
                        if lab and P.ldn[i] >> j & 1 and not w:
                            ctx.ck(False, 'link to %d is missing in %r', j, r)


def families(tier):
    t = tier == 'thorough'
    return [
        Family('records', gen_rec(4 if t else 3), check_rec,
               'every way to create and every sequence of up to %d of %d '
               'operations' % (4 if t else 3, len(OPS))),
        Family('badposition', gen_badpos, check_badpos, 'rejected positions'),
        Family('copies', gen_copy((1, 2, 3, 4), labelled, ('full', 'links')
                                  if t else ('full',)), check_copy,
               'every event of every labelled order n<=4, four link states'),
        Family('copies5', gen_copy((5, 6) if t else (5,), unlabelled,
                                   ROUTES if t else ('mid',)), check_copy,
               'every event of every order n<=%d' % (6 if t else 5)),
        Family('texts', gen_text, check_text, 'every labelled order n<=3'),
    ]
