'''C21: plots show every event, label, link and cone at its place, once.'''
from itertools import combinations, permutations, product
import math
import numpy as np
from mc.core import Family
from mc.order import Poset, bits, labelled
from mc.impl import build, CausetEvent
from mc import draw, lightcone as lc, geometry as geo
import matplotlib
matplotlib.use('Agg')
from matplotlib import pyplot as plt
from causets import causetplotting as cp
from causets.embeddedcauset import EmbeddedCauset
from causets.colorschemes import convertColorsInDict

PROPERTY = 'C21'
RULE = ('states: (causet, container, plot options, times); transitions: '
        'compared artists and properties; a trace is one plot by the real '
        'code on recording axes (family real: on matplotlib axes)')
ASSUMPTIONS = ['no event occurs twice in a list of events',
               'dynamic mode: a link from an event at the time slice to an '
               'invisible event on the other side may be a single point',
               'exponential fading by e-folds or half-times',
               'time depth zero is not explored in dynamic mode']

EVENTS = {'linewidth': 2.0, 'linestyle': '', 'marker': 'o', 'markersize': 7.0,
          'markeredgecolor': 'cs:black', 'markerfacecolor': 'cs:core'}
LINKS = {'linewidth': 2.0, 'linestyle': '-', 'color': 'cs:blue',
         'marker': 'o', 'markersize': 5.0, 'markeredgecolor': 'cs:blue',
         'markerfacecolor': 'cs:cyan'}
LABELS = {'verticalalignment': 'top', 'horizontalalignment': 'right'}
OPT = {'events': [None, True, False, {'markersize': 3.0, 'alpha': 0.5},
                  {'markerfacecolor': 'cs:red', 'marker': 's'}],
       'links': [None, True, False, {'linewidth': 1.0, 'color': 'cs:green'},
                 {'linestyle': ':'}],
       'labels': [None, True, False, {'horizontalalignment': 'center'},
                  {'color': 'cs:blue'}]}
BASE = {'events': EVENTS, 'links': LINKS, 'labels': LABELS}


def style(kind, opt):
    '''None if switched off'''
    if opt is False:
        return None
    s = dict(BASE[kind])
    if isinstance(opt, dict):
        s.update(opt)
    return convertColorsInDict(s)


def fade(kind, v, depth, amax, dim):
    '''acceptable values of the fading function'''
    if depth and v * depth < 0:
        return (0.0,)
    if kind == 'linear':
        return (amax * (1 - v / depth),)
    if kind == 'exponential':
        return (amax * math.exp(-v / depth), amax * 2 ** (-v / depth))
    return (amax / (max(v, 0.0) + 1) ** (dim - 1),)


class Scene:
    '''events in plotting order (None: unknown order), their coordinates,
    labels and the pairs that are linked'''

    def __init__(self, E, events, coords, links, shape=None, spacetime=None):
        self.E, self.events, self.shape = E, events, shape
        self.C = [list(map(float, c)) for c in coords]
        self.links = {frozenset(p) for p in links}
        self.n = len(coords)
        self.spacetime = spacetime
        self.labels = [e.Label for e in events]


def flat_links(pts):
    n = len(pts)
    dn = [0] * n
    for i in range(n):
        for j in range(n):
            if i != j and lc.flat(pts[i], pts[j])[0] == -1:
                dn[j] |= 1 << i
    P = Poset(dn)
    return P, [(i, j) for j in range(n) for i in bits(P.ldn[j])]


def scene(desc):
    '''desc: [container, data, ...]'''
    kind = desc[0]
    if kind == 'perm':          # embedded causet from a permutation
        C = EmbeddedCauset.FromPermutation(desc[1])
        n = len(desc[1])
        ev = [C.find(i + 1) for i in range(n)]
        pts = perm_points(desc[1])
        P, L = flat_links(pts)
        return Scene(C, ev, stored(ev, pts), L, ['bicone', 2, {}],
                     C.Spacetime)
    if kind == 'pts':           # embedded causet from coordinates
        pts = desc[1]
        from causets.shapes import CoordinateShape
        d = len(pts[0])
        spec = ['cuboid', d, {'edges': [3.0, 5.0, 2.0, 4.0][:d],
                              'center': [0.5, -1.0, 0.25, 0.0][:d]}]
        S = CoordinateShape(d, 'cuboid', **spec[2])
        C = EmbeddedCauset(shape=S, coordinates=pts)
        ev = [C.find(i + 1) for i in range(len(pts))]
        P, L = flat_links(pts)
        return Scene(C, ev, pts, L, spec, C.Spacetime)
    if kind == 'sub':           # list of some events of an embedded causet
        s = scene(desc[1])
        ks = desc[2]
        L = [(ks.index(a), ks.index(b)) for a, b in map(tuple, s.links)
             if a in ks and b in ks]
        return Scene([s.events[k] for k in ks], [s.events[k] for k in ks],
                     [s.C[k] for k in ks], L, None, s.spacetime)
    if kind == 'lab':           # events with other labels
        s = scene(desc[1])
        for e, l in zip(s.events, desc[2]):
            e.Label = l
        s.labels = [e.Label for e in s.events]
        return s
    if kind == 'one':           # a single event
        s = scene(desc[1])
        k = desc[2]
        return Scene(s.events[k], [s.events[k]], [s.C[k]], [], None,
                     s.spacetime)
    # 'pos': events with positions
    dn, pos, order = desc[1:4]
    P = Poset(dn)
    ev = build(P)
    for e, p in zip(ev, pos):
        e.Position = p
    L = [(order.index(i), order.index(j)) for j in range(P.n)
         for i in bits(P.ldn[j]) if i in order and j in order]
    return Scene([ev[k] for k in order], [ev[k] for k in order],
                 [pos[k] for k in order], L, None, None)


def stored(ev, pts):
    '''the coordinates of the events up to rounding'''
    return [list(e.Coordinates) if close(e.Coordinates, p) else p
            for e, p in zip(ev, pts)]


def perm_points(P):
    n = len(P)
    pts = [None] * n
    for i, p in enumerate(P):
        u, v = (p - 0.5) / n, (i + 0.5) / n
        pts[p - 1] = [u + v - 1.0, u - v]
    return pts


def close(a, b, eps=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and (a.size == 0 or
                                   float(np.abs(a - b).max()) <= eps)


def same_style(kw, want, skip=()):
    keys = set(kw) | set(want)
    return all(k in skip or (k in kw and k in want and
                             (kw[k] == want[k] or isinstance(
                                 want[k], float) and
                              abs(kw[k] - want[k]) < 1e-9))
               for k in keys)


def run(sc, opts, time, spy, how='plot'):
    kw = {}
    for k, v in opts.items():
        if v is not None:
            kw[k] = dict(v) if isinstance(v, dict) else \
                list(v) if isinstance(v, list) else v
    before = repr(kw)
    if how == 'plotter':
        P = cp.Plotter(sc.E, spy, sc.spacetime
                       if isinstance(sc.E, (list, CausetEvent)) else None,
                       **kw)
        out = [P(t) for t in time]
    else:
        if time is not None:
            kw['time'] = time
            before = repr(kw)
        if isinstance(sc.E, (list, CausetEvent)) and sc.spacetime is not None:
            out = cp.plot(sc.E, spy, spacetime=sc.spacetime, **kw)
        else:
            out = cp.plot(sc.E, spy, **kw)
    return out, (repr(kw) == before)


def judge(sc, opts, time, lines, texts, H, ctx, tag):
    '''lines and texts drawn by one call; H: returned dictionary'''
    dims = opts.get('dims') or [1, 0]
    dim = len(dims)
    ev, lk, lb = (style(k, opts.get(k)) for k in ('events', 'links',
                                                  'labels'))
    dyn = 'timedepth' in opts
    n = sc.n
    vis = [True] * n
    al = [(1.0,)] * n
    t0 = None
    if dyn:
        t0 = 0.0 if time is None else float(np.ravel(time)[0])
        amax = ev.get('alpha', 1.0) if ev else 1.0
        kind = opts.get('timefade') or 'linear'
        dist = [c[0] - t0 for c in sc.C]
        al = [fade(kind, v, opts['timedepth'], amax, dim) for v in dist]
        vis = [a[0] > 0 for a in al]
    xy = [[c[d] for d in dims] for c in sc.C]
    keys = {k for k, s in (('events', ev), ('links', lk), ('labels', lb))
            if s is not None}
    if {k for k in H if k in BASE} != keys:
        ctx.eq(sorted(H), sorted(keys), '%shandles', tag)
    marks = [r for r in lines if len(r['X']) == 1]
    segs = [r for r in lines if len(r['X']) > 1]
    ordered = isinstance(sc.E, (list, CausetEvent))
    # events
    got = []
    if ev is None:
        ctx.ck(not marks, tag + 'events are drawn')
    else:
        hs = H['events']
        ctx.ck(len(hs) == n, '%s%d event handles', tag, len(hs))
        ctx.ck(len(marks) == sum(vis), '%s%d markers are drawn instead of %d',
               tag, len(marks), sum(vis))
        used = set()
        for i, h in enumerate(hs):
            if h is None:
                got.append(None)
                continue
            r = h[0].rec
            ctx.ck(len(h) == 1 and any(r is m for m in marks) and
                   id(r) not in used, tag + 'event handle %d' % i)
            used.add(id(r))
            k = [j for j in range(n) if vis[j] and close(r['X'][0], xy[j])]
            ctx.ck(k, '%sno event at the marker %s', tag, r['X'])
            got.append((r, k))
        ctx.ck(len(used) == len(marks), tag + 'markers without handle')
        match(got, n, vis, ordered, ctx, tag + 'events: ')
        for g in got:
            if g is None:
                continue
            kw = dict(g[0]['kw'])
            if dyn:
                a = kw.pop('alpha', None)
                ctx.ck(a is not None and any(abs(a - w) < 1e-9 for j in g[1]
                                             for w in al[j]),
                       '%sopacity %s of the event at %s', tag, a, g[0]['X'])
            w = dict(ev)
            if dyn:
                w.pop('alpha', None)
            ctx.ck(same_style(kw, w), '%sevent style %s', tag, kw)
        ctx.transitions += 3 * n
    # labels
    if lb is None:
        ctx.ck(not texts, tag + 'labels are drawn')
    else:
        hs = H['labels']
        ctx.ck(len(hs) == n and len(texts) == sum(vis),
               '%s%d labels are drawn instead of %d', tag, len(texts),
               sum(vis))
        lgot = []
        used = set()
        for i, h in enumerate(hs):
            if h is None:
                lgot.append(None)
                continue
            r = h.rec
            ctx.ck(any(r is t for t in texts) and id(r) not in used,
                   tag + 'label handle')
            used.add(id(r))
            k = [j for j in range(n) if vis[j] and close(r['X'], xy[j]) and
                 r['s'].strip() == str(sc.labels[j])]
            ctx.ck(k, '%sthe text %r at %s belongs to no event', tag, r['s'],
                   r['X'])
            ctx.ck(same_style(r['kw'], lb), '%slabel style %s', tag, r['kw'])
            lgot.append((r, k))
        match(lgot, n, vis, ordered, ctx, tag + 'labels: ')
        if ev is not None:
            for g, l in zip(got, lgot):
                ctx.ck((g is None) == (l is None) and (
                    g is None or set(g[1]) & set(l[1])),
                    tag + 'the handles of events and labels differ in order')
        ctx.transitions += 3 * n
    # links
    if lk is None:
        ctx.ck(not segs, tag + 'links are drawn')
        return
    hs = [h for h in H['links'] if h is not None]
    ctx.ck(len(H['links']) == len(sc.links), '%s%d link handles instead of %d',
           tag, len(H['links']), len(sc.links))
    ctx.ck(len(hs) == len(segs) and len({id(h[0].rec) for h in hs}) ==
           len(segs) and all(any(h[0].rec is s for s in segs) for h in hs),
           tag + 'link handles')
    todo = list(segs)
    for p in sorted(map(sorted, sc.links)):
        i, j = p
        want, must = link_of(sc, i, j, xy, dyn, t0, vis, al, opts, ev, lk, dim)
        hit = None
        for s in todo:
            if want is not None and fits(s, want, xy, lk, dyn):
                hit = s
                break
        if hit is not None:
            todo = [s for s in todo if s is not hit]
        elif must and want is not None:
            ctx.ck(False, '%sthe link of %s and %s is missing or differs '
                   'from %s: %s' % (tag, sc.C[i], sc.C[j], want,
                                    [(s['X'].tolist(), s['kw'])
                                     for s in todo]))
    if todo:
        ctx.ck(False, '%sthe line %s %s is no link' % (
            tag, todo[0]['X'].tolist(), todo[0]['kw']))
    ctx.transitions += 2 * len(sc.links)


def link_of(sc, i, j, xy, dyn, t0, vis, al, opts, ev, lk, dim):
    '''(ends, alphas, widths, marked) or None; and whether it is required'''
    if not dyn:
        return (xy[i], xy[j], None, None, None), True
    ti, tj = sc.C[i][0] - t0, sc.C[j][0] - t0
    kind = opts.get('timefade') or 'linear'
    lw = lk.get('linewidth', 0.0)

    def width(t):
        return fade(kind, t, opts['timedepth'], lw, dim)
    if vis[i] and vis[j]:
        k, t = (i, ti) if abs(ti) > abs(tj) else (j, tj)
        if abs(abs(ti) - abs(tj)) < 1e-12:
            return (xy[i], xy[j], al[i] + al[j], width(ti) + width(tj),
                    False), True
        return (xy[i], xy[j], al[k], width(t), False), True
    if vis[i] == vis[j]:
        return None, False
    if vis[j]:
        i, j, ti, tj = j, i, tj, ti
    # i is visible, j is not
    if abs(ti) < 1e-12:
        return (xy[i], xy[i], al[i] + (0.0,), width(ti), True), False
    if ti * tj > 0:
        return None, False
    if tj == 0:
        return None, False
    f = ti / (ti - tj)
    cut = [a + f * (b - a) for a, b in zip(xy[i], xy[j])]
    return (xy[i], cut, al[i], width(ti), True), True


def fits(s, want, xy, lk, dyn):
    a, b, alphas, widths, marked = want
    X = s['X']
    kw = dict(s['kw'])
    if not (close(X[0], a) and close(X[-1], b) or
            close(X[0], b) and close(X[-1], a)):
        return False
    me = kw.pop('markevery', None)
    u, v = np.array(X[0]), np.array(X[-1])
    L = float(np.dot(v - u, v - u))
    last = 0.0
    for p in X[1:-1]:
        # further points have to be events on the way
        w = np.array(p)
        if L > 0:
            f = float(np.dot(w - u, v - u)) / L
            if not (last - 1e-9 <= f <= 1 + 1e-9):
                return False
            last = f
            if np.abs(u + f * (v - u) - w).max() > 1e-3 * L**0.5:
                return False
        if not any(close(p, q) for q in xy):
            return False
    if dyn:
        al, lw = kw.pop('alpha', None), kw.pop('linewidth', None)
        if al is None or not any(abs(al - x) < 1e-9 for x in alphas) or \
                lw is None or not any(abs(lw - x) < 1e-9 for x in widths):
            return False
        if marked and not (me is not None and len(me) == 1 and
                           close(X[me[0]], b)):
            return False
        if not marked and me != []:
            return False
        return same_style(kw, {k: x for k, x in lk.items()
                               if k not in ('alpha', 'linewidth')})
    if me is None or me != list(range(1, len(X) - 1)):
        return False
    return same_style(kw, lk)


def match(got, n, vis, ordered, ctx, tag):
    '''every visible event once (in order)'''
    if ordered:
        for i, g in enumerate(got):
            ctx.ck((g is not None) == vis[i] and (g is None or i in g[1]),
                   '%shandle %d is of another event', tag, i)
        return
    # events at the same plotted place may be exchanged: count per place
    for i in range(n):
        if vis[i]:
            grp = [g for g in got if g is not None and i in g[1]]
            m = max([len(g[1]) for g in grp] + [0])
            ctx.ck(grp and len(grp) <= m, tag + 'event %d is drawn %d times'
                   % (i, len(grp)))


def check_axis(sc, opts, spy, ctx, tag):
    dims = opts.get('dims') or [1, 0]
    lim = opts.get('axislim')
    want = {}
    if lim == 'shape':
        for a, d in zip('xyz', dims):
            if len(dims) == 2:
                want[a] = geo.extent(sc.shape, d)
            else:
                h = max(geo.half_extent(sc.shape, k) for k in dims)
                c = geo.params(sc.shape)['center'][d]
                want[a] = (c - h, c + h)
    elif lim:
        want = {k[0]: v for k, v in lim.items()}
    ctx.ck(set(want) == set(spy.limits) and
           all(close(want[k], spy.limits[k], 1e-5) for k in want),
           '%slimits %s instead of %s', tag, spy.limits, want)
    asp = None if len(dims) == 3 else opts.get('aspect') or ['equal', 'box']
    ctx.ck(spy.aspect == asp, '%saspect %s', tag, spy.aspect)
    ctx.ck(spy.axis_on, tag + 'axes switched off')


def undecided(desc, sc, opts, time):
    '''whether rounding decides if an event is visible or at the slice'''
    if 'timedepth' not in opts:
        return False
    t0 = 0.0 if time is None else float(np.ravel(time)[0])
    dep = opts['timedepth']
    while desc[0] in ('sub', 'one', 'lab'):
        desc = desc[1]
    dyadic = desc[0] != 'perm' or len(desc[1]) != 3
    for c in sc.C:
        v = c[0] - t0
        if dep and abs(v - dep) < 1e-9:
            return True
        if dyadic and (16 * c[0]).is_integer() and (16 * t0).is_integer():
            continue    # exact
        if abs(v) < 1e-9:
            return True
    return False


def untouched(sc, ctx, tag):
    for e, c, l in zip(sc.events, sc.C, sc.labels):
        x = e.Coordinates if sc.spacetime is not None else e.Position
        ctx.ck(close(x, c) and e.Label == l, tag + 'an event is changed')
    if isinstance(sc.E, EmbeddedCauset):
        ctx.ck(sc.E.Card == sc.n, tag + 'the causet is changed')


def check_plot(case, ctx):
    desc, opts, time = case
    sc = scene(desc)
    if undecided(desc, sc, opts, time):
        return
    spy = draw.PlotSpy()
    tag = '%s, options %s, time %s: ' % (desc, opts, time)
    H, kept = run(sc, opts, time, spy)
    ctx.states += 1
    ctx.ck(kept, tag + 'the options of the caller are changed')
    judge(sc, opts, time, spy.lines, spy.texts, H, ctx, tag)
    check_axis(sc, opts, spy, ctx, tag)
    untouched(sc, ctx, tag)
    ctx.ck(not spy.patches and not spy.surfaces, tag + 'cones are drawn')


# --- cones -------------------------------------------------------------------

PCONE = {2: {'edgecolor': 'cs:yellow', 'facecolor': 'none', 'alpha': 0.1},
         3: {'edgecolor': 'none', 'color': 'cs:yellow', 'alpha': 0.1}}


def cone_style(opt, dim):
    if opt in (None, False):
        return None
    s = dict(PCONE[dim])
    if isinstance(opt, dict):
        s.update(opt)
    return convertColorsInDict(s)


def times_of(time):
    t = [0.0] if time is None else [float(x) for x in np.ravel(time)]
    return t[0], t[-1]


def check_cones(case, ctx):
    desc, opts, time = case
    sc = scene(desc)
    if undecided(desc, sc, opts, time):
        return
    spy = draw.PlotSpy()
    tag = '%s, options %s, time %s: ' % (desc, opts, time)
    H, kept = run(sc, opts, time, spy)
    ctx.states += 1
    ctx.ck(kept, tag + 'the options of the caller are changed')
    judge(sc, opts, time, spy.lines, spy.texts, H, ctx, tag)
    judge_cones(sc, opts, time, spy.patches, spy.surfaces, H, ctx, tag)


def judge_cones(sc, opts, time, got_p, got_s, H, ctx, tag):
    dims = opts.get('dims') or [1, 0]
    dim = len(dims)
    M = sc.spacetime
    if M is None:
        from causets.spacetimes import FlatSpacetime
        M = FlatSpacetime(max(dims) + 1)
    total = 0
    used = []
    for key, sign, t in zip(('pastcones', 'futurecones'), (-1, 1),
                            times_of(time)):
        st = cone_style(opts.get(key), dim)
        if st is None:
            ctx.ck(key not in H, '%shandles of %s', tag, key)
            continue
        ref = draw.PlotSpy()
        want = []
        for c in sc.C:
            r = sign * (t - c[0])
            if r <= 0:
                continue
            kind = opts.get('conetimefade')
            kind = 'intensity' if kind is None else kind
            if kind in ('linear', 'exponential') and \
                    not opts.get('conetimedepth'):
                continue    # faded at once
            al = (st['alpha'],) if kind == '' else \
                fade(kind, r, abs(opts.get('conetimedepth') or 0.0),
                     st['alpha'], dim)
            if abs(al[0]) < 1e-9 or r < 1e-9:
                ctx.count('undecided')
                return      # rounding decides whether the cone is drawn
            if al[0] <= 0:
                continue
            k = len(ref.patches), len(ref.surfaces)
            o = M.ConePlotter(list(dims), dict(st), sign, ref)(
                np.array(c), t)
            if o is not None:
                want.append((al, ref.patches[k[0]:], ref.surfaces[k[1]:]))
        hs = H[key]
        ctx.ck(len(hs) == len(want), '%s%d %s instead of %d', tag, len(hs),
               key, len(want))
        left = list(hs)
        for al, P, S in want:
            hit = None
            for h in left:
                if dim == 2:
                    ok = close_nan(h.get_xy(), P[0].get_xy()) and any(
                        abs(h.get_alpha() - a) < 1e-9 for a in al) and \
                        rgb(h.get_edgecolor()) == rgb(P[0].get_edgecolor()) \
                        and rgb(h.get_facecolor()) == \
                        rgb(P[0].get_facecolor()) and \
                        h.get_linewidth() == P[0].get_linewidth()
                else:
                    ok = len(h) == len(S) and all(
                        all(np.array_equal(x, y) for x, y in zip(a[:3],
                                                                 b[:3]))
                        for a, b in zip(h, S))
                    if ok:
                        for a in h:
                            k = [s for s in got_s
                                 if all(x is y for x, y in zip(s[:3], a))]
                            w = dict(st)
                            ok = ok and len(k) == 1
                            if ok:
                                kw = dict(k[0][3])
                                x = kw.pop('alpha', None)
                                w.pop('alpha')
                                ok = kw == w and any(
                                    abs(x - b) < 1e-9 for b in al)
                if ok:
                    hit = h
                    break
            ctx.ck(hit is not None, '%sa cone of %s is missing', tag, key)
            left = [h for h in left if h is not hit]
        for h in hs:
            if dim == 2:
                ctx.ck(any(h is p for p in got_p), tag + 'handle of a cone')
                total += 1
            else:
                total += len(h)
    ctx.ck(total == (len(got_p) if dim == 2 else len(got_s)) and
           not (got_s if dim == 2 else got_p),
           tag + 'other objects are drawn')


def rgb(c):
    return tuple(np.round(c[:3], 9)) if len(c) else None


def close_nan(a, b):
    return a.shape == b.shape and np.allclose(a, b, rtol=0, atol=1e-9,
                                              equal_nan=True)


# --- plotters that are called several times ----------------------------------

def plain(spy, k=(0, 0, 0, 0)):
    return ([(r['X'].tolist(), sorted(r['kw'].items(), key=repr))
             for r in spy.lines[k[0]:]],
            [(r['X'].tolist(), r['s'], sorted(r['kw'].items(), key=repr))
             for r in spy.texts[k[1]:]],
            [(np.nan_to_num(p.get_xy(), nan=-77.0).tolist(), p.get_alpha())
             for p in spy.patches[k[2]:]],
            [([np.asarray(x).tolist() for x in s[:3]], sorted(
                s[3].items(), key=repr)) for s in spy.surfaces[k[3]:]])


def check_seq(case, ctx):
    desc, opts, times = case
    sc = scene(desc)
    if any(undecided(desc, sc, opts, t) for t in times):
        return
    kw = {k: v for k, v in opts.items() if v is not None}
    spy = draw.PlotSpy()
    M = sc.spacetime if isinstance(sc.E, (list, CausetEvent)) else None
    P = cp.Plotter(sc.E, spy, M, **kw)
    ctx.eq(plain(spy), ([], [], [], []), 'drawn before the first call')
    old = []
    for t in times:
        k = (len(spy.lines), len(spy.texts), len(spy.patches),
             len(spy.surfaces))
        tag = '%s, options %s, time %s of %s: ' % (desc, opts, t, times)
        H = P(t)
        ctx.states += 1
        judge(sc, opts, t, spy.lines[k[0]:], spy.texts[k[1]:], H, ctx, tag)
        judge_cones(sc, opts, t, spy.patches[k[2]:], spy.surfaces[k[3]:], H,
                    ctx, tag)
        fresh = draw.PlotSpy()
        cp.Plotter(sc.E, fresh, M, **kw)(t)
        ctx.ck(plain(fresh) == plain(spy, k),
               tag + 'the plot depends on earlier plots')
        for G, c in old:
            ctx.ck(G is not H and shallow(G) == c,
                   tag + 'the handles returned earlier are changed')
        old.append((H, shallow(H)))
    untouched(sc, ctx, '')


def shallow(H):
    return {k: [id(x) for x in v] for k, v in H.items()}


# --- diagrams ----------------------------------------------------------------

def check_diagram(case, ctx):
    dn, perm, ax, opts = case
    P = Poset(dn)
    # with different labels, the same label, without labels
    ev = build(P, ('full', 'mid', 'links')[(sum(dn) + len(perm or [])) % 3])
    n = P.n
    pos0 = [[float(i), 2.0 * i * i] for i in range(n)]
    for e, p in zip(ev, pos0):
        e.Position = p
    pos = perm_points(perm) if perm and len(perm) == n else pos0
    spy = draw.PlotSpy()
    kw = {k: v for k, v in opts.items() if v is not None}
    if ax:
        H = cp.plotDiagram(ev, list(perm), spy, **kw) if perm is not None \
            else cp.plotDiagram(ev, plotAxes=spy, **kw)
    else:
        import causets.causetplotting as mod
        old = mod.gca
        mod.gca = lambda *a, **k: spy
        try:
            H = cp.plotDiagram(ev, list(perm), **kw) if perm is not None \
                else cp.plotDiagram(ev, **kw)
        finally:
            mod.gca = old
    L = [(i, j) for j in range(n) for i in bits(P.ldn[j])]
    sc = Scene(ev, ev, pos, L)
    ctx.states += 1
    judge(sc, opts, None, spy.lines, spy.texts, H, ctx, 'diagram: ')
    ctx.ck(not spy.axis_on, 'the axes are visible')
    for e, p in zip(ev, pos):
        ctx.ck(close(list(e.Position), p), 'position %s instead of %s',
               e.Position, p)


# --- matplotlib axes ---------------------------------------------------------

def check_real(case, ctx):
    desc, opts, time, current = case
    sc = scene(desc)
    dims = opts.get('dims') or [1, 0]
    is3 = len(dims) == 3
    plt.close('all')
    fig, (a1, a2) = plt.subplots(1, 2, subplot_kw={
        'projection': '3d' if is3 else None})
    try:
        plt.sca(a1)
        kw = {k: v for k, v in opts.items() if v is not None}
        if time is not None:
            kw['time'] = time
        M = {'spacetime': sc.spacetime} \
            if isinstance(sc.E, (list, CausetEvent)) else {}
        H = cp.plot(sc.E, **M, **kw) if current else \
            cp.plot(sc.E, plotAxes=a2, **M, **kw)
        ax, other = (a1, a2) if current else (a2, a1)
        ctx.states += 1
        spy = draw.PlotSpy()
        cp.plot(sc.E, spy, **M, **kw)

        def data(l):
            return np.array(l.get_data_3d() if is3 else l.get_data()).T
        got = sorted((np.round(data(l), 9).tolist(), l.get_alpha() or -1,
                      l.get_linewidth(), l.get_marker())
                     for l in ax.lines)
        want = sorted((np.round(r['X'], 9).tolist(),
                       r['kw'].get('alpha') or -1,
                       r['kw']['linewidth'], r['kw']['marker'])
                      for r in spy.lines)
        ctx.eq(got, want, 'lines')
        ctx.eq(sorted(t.get_text() for t in ax.texts),
               sorted(r['s'] for r in spy.texts), 'texts')
        ctx.eq(len(ax.patches), len(spy.patches), 'patches')
        ctx.eq(len(ax.collections), len(spy.surfaces), 'surfaces')
        ctx.eq([len(other.lines), len(other.texts), len(other.patches),
                len(other.collections)], [0] * 4, 'objects in other axes')
        hl = [h for k in ('events', 'links') for h in H.get(k, [])
              if h is not None]
        ctx.ck(len(hl) == len(ax.lines) and all(
            any(h[0] is l for l in ax.lines) for h in hl), 'handles of lines')
        ctx.ck(all(any(h is t for t in ax.texts)
                   for h in H.get('labels', []) if h is not None),
               'handles of texts')
        if spy.limits:
            for a, v in spy.limits.items():
                ctx.ck(close(getattr(ax, 'get_%slim' % a)(), v, 1e-6),
                       'axis limits')
        fig.canvas.draw()
    finally:
        plt.close('all')


# --- cases -------------------------------------------------------------------

LAT2 = [[t, x] for t in (-1.0, 0.0, 0.5, 1.5) for x in (-0.5, 0.0, 0.5)]
LAT3 = [[t, x, y] for t in (-1.0, 0.0, 1.5) for x in (0.0, 0.5)
        for y in (-0.25, 0.0)]


def descs(tier, small=False):
    for n in range(1, 5 if tier or not small else 4):
        for p in permutations(range(1, n + 1)):
            yield ['perm', list(p)]
    for k in (2, 3) if small else (2, 3, 4):
        for s in combinations(LAT2[::2 if small else 1], k):
            if k == 4 and not tier and s[0] != LAT2[0]:
                continue
            yield ['pts', [list(p) for p in s]]
    for k in (2, 3) if small or not tier else (2, 3, 4):
        for s in combinations(LAT3[::2 if small else 1], k):
            yield ['pts', [list(p) for p in s]]


def subs():
    for p in permutations(range(1, 4)):
        d = ['perm', list(p)]
        for k in range(0, 4):
            for s in permutations(range(3), k):
                yield ['sub', d, list(s)]
        for k in range(3):
            yield ['one', d, k]
    base = ['pts', [[-1.0, 0.0, 0.0], [0.0, 0.5, 0.0], [1.5, 0.5, -0.25]]]
    for k in range(1, 4):
        for s in permutations(range(3), k):
            yield ['sub', base, list(s)]
    for n in range(1, 4):
        for dn in labelled(n):
            pos = [[0.0, 1.0], [0.5, -0.5], [0.5, 0.25]][:n]
            for o in permutations(range(n)):
                yield ['pos', list(dn), pos, list(o)]


def dimsets(desc):
    d = 2
    s = desc
    while s[0] in ('sub', 'one', 'lab'):
        s = s[1]
    if s[0] == 'pts':
        d = len(s[1][0])
    out = [None, [0, 1]]
    if d == 3:
        out += [[1, 2], [2, 0], [1, 2, 0], [0, 2, 1], [2, 1, 0], [2, 0, 1]]
    return out


def gen_static(tier):
    def g():
        for d in list(descs(tier)) + list(subs()):
            for dims in dimsets(d):
                yield [d, {'dims': dims}, None]
    return g


def gen_options():
    ds = [['perm', [1]], ['perm', [2, 1, 3]], ['perm', [1, 2, 3]],
          ['pts', [[-1.0, 0.0, 0.0], [0.0, 0.5, 0.0], [1.5, 0.5, -0.25]]],
          ['sub', ['perm', [2, 1, 3]], [2, 0]],
          ['pos', [0, 1, 1], [[0.0, 0.0], [1.0, 0.5], [1.0, -0.5]],
           [2, 0, 1]]]
    for d in ds:
        for ev, lk, lb in product(*[OPT[k] for k in ('events', 'links',
                                                     'labels')]):
            for dims in dimsets(d)[:1] + (dimsets(d)[4:5]):
                for dyn in ({}, {'timedepth': 2.0}, {'timedepth': -1.5}):
                    yield [d, dict({'dims': dims, 'events': ev, 'links': lk,
                                    'labels': lb}, **dyn), 0.25]
        for dims in dimsets(d):
            for asp in (None, ['auto'], ['equal', 'datalim']):
                yield [d, {'dims': dims, 'aspect': asp}, None]
            lims = [{'xlim': (-1.0, 2.0), 'ylim': (0.5, 3.0),
                     'zlim': (-5.0, -1.0)}]
            if d[0] in ('perm', 'pts'):
                lims.append('shape')
            for lim in lims:
                if lim != 'shape' and len(dims or [1, 0]) == 2:
                    lim = {k: v for k, v in lim.items() if k != 'zlim'}
                yield [d, {'dims': dims, 'axislim': lim}, None]


def gen_many():
    pts = [[0.5 * i, 0.75 * j] for j in range(11) for i in range(7)]
    p67 = [29 * i % 67 for i in range(1, 67)]
    p131 = [53 * i % 131 for i in range(1, 131)]
    d3 = [[0.5 * i, 0.75 * j, 0.25 * k] for i in range(5) for j in range(5)
          for k in range(4)]
    for d in (['pts', pts], ['perm', p67], ['perm', p131], ['pts', d3],
              ['sub', ['perm', p131], [k * 3 % 130 for k in range(70)]]):
        for dims in dimsets(d)[::3]:
            yield [d, {'dims': dims}, None]
            for dep in (1.0, -0.75):
                yield [d, {'dims': dims, 'timedepth': dep}, 0.26]


def gen_collinear():
    '''links that pass other events'''
    F = [c for k in (1, 2, 3) for c in permutations(
        (0.25, 0.5, 0.75, -0.5, 1.5, 1.0), k) if k < 3 or c[0] == 0.5]
    for v in product((-1.0, 0.0, 2.0), repeat=2):
        if not any(v):
            continue
        for fs in F:
            pos = [[0.5 + f * x for x in v] for f in (0.0, 1.0) + fs]
            n = len(pos)
            # apart from the link: unrelated, or a chain
            for dn in ([0, 1] + [0] * (n - 2),
                       [0, 1, 0] + [4 + (8 if k else 0)
                                    for k in range(n - 3)]):
                for o in (list(range(n)), list(range(n))[::-1]):
                    for dims in ([1, 0], [0, 1]):
                        yield [['pos', dn, pos, o], {'dims': dims}, None]
    # far apart in a direction that is not shown
    for v in product((-2.0, 2.0), (-1.0, 0.0, 1.0), (-0.5, 0.0, 1.5)):
        for fs in F:
            pts = [[0.5 + f * x for x in v] + [20.0 * k if k > 1 else 0.0]
                   for k, f in enumerate((0.0, 1.0) + fs)]
            n = len(pts)
            for o in (list(range(n)), list(range(n))[::-1]):
                for dims in ([1, 2, 0], [2, 0, 1], [0, 1]):
                    yield [['sub', ['pts', pts], o], {'dims': dims}, None]


def gen_scale():
    '''links close to other events, lengths of 1e-5 to 1e6'''
    P2 = [[0.0, 0.0], [1.0, 0.9], [0.2, 0.8], [0.55, 0.5], [0.7, 0.69]]
    P3 = [[0.0, 0.0, 0.0], [1.0, 0.5, 0.75], [0.2, 0.45, 0.7],
          [0.5, 0.25, 0.375], [0.6, 0.35, 0.4]]
    for s in (1e-5, 1e-4, 2.5e-4, 1e-3, 0.03, 1e3, 1e6):
        for P in (P2, P3) if s > 3e-5 else (P2,):
            for k in (2, 3, 4):
                for c in combinations(P, k):
                    d = ['pts', [[s * x for x in p] for p in c]]
                    for dims in dimsets(d)[::1 if k < 4 else 2]:
                        yield [d, {'dims': dims}, None]
        for k in (3, 4):
            for c in combinations(P2, k):
                for dn in ([0, 1, 0, 0], [0, 1, 1, 3], [0, 0, 1, 5]):
                    yield [['pos', dn[:k], [[s * x for x in p] for p in c],
                            list(range(k))], {}, None]


LABELLED = [[0, 'ab', -3], ['x y', 0, 2.5], [7, '7', 0]]


def gen_labels():
    ds = [['perm', [2, 1, 3]], ['perm', [1, 2, 3]],
          ['pts', [[-1.0, 0.0, 0.0], [0.0, 0.5, 0.0], [1.5, 0.5, -0.25]]],
          ['sub', ['perm', [2, 1, 3]], [2, 0, 1]],
          ['pos', [0, 1, 1], [[0.0, 0.0], [1.0, 0.5], [1.0, -0.5]],
           [2, 0, 1]]]
    for d in ds:
        for l in LABELLED:
            for k in ([d] if d[0] != 'sub' else
                      [d, ['sub', ['lab', d[1], l], [1, 2]],
                       ['one', ['lab', d[1], l], 1]]):
                x = ['lab', k, l] if k is d else k
                for dims in dimsets(x):
                    for dyn in ({}, {'timedepth': 2.0}, {'timedepth': -1.5}):
                        yield [x, dict({'dims': dims}, **dyn), 0.25]


def gen_dynamic(tier):
    ts = (-1.0, -0.75, -0.5, 0.0, 0.25, 0.5, 1.5) if tier else \
        (-1.0, -0.5, 0.25, 0.5)
    deps = (0.5, 1.0, 2.0, -0.5, -1.5, -3.0) if tier else \
        (0.5, 2.0, -1.5)

    def g():
        for d in list(descs(tier, True)) + list(subs()):
            ds = dimsets(d)
            for dims in ds if tier else ds[:1] + ds[4:5]:
                for t in ts:
                    for depth in deps:
                        for f in (None, 'exponential', 'intensity'):
                            yield [d, {'dims': dims, 'timedepth': depth,
                                       'timefade': f}, t]
    return g


TIMES = [None, 0.5, [0.5], (0.5,), [-0.5, 0.75], (1.0, -0.25),
         [2.0, 2.0], -1.5]


def gen_cones():
    ds = [['perm', [2, 1, 3]], ['perm', [1, 2]],
          ['pts', [[-1.0, 0.0, 0.0], [0.0, 0.5, 0.0], [1.5, 0.5, -0.25]]],
          ['sub', ['perm', [2, 1, 3]], [2, 0]], ['one', ['perm', [1, 2]], 1],
          ['pos', [0, 1, 1], [[0.0, 0.0], [1.0, 0.5], [1.0, -0.5]],
           [2, 0, 1]]]
    for d in ds:
        for dims in dimsets(d)[:6]:
            for t in TIMES:
                for p, f in ((True, True), (True, False), (None, True),
                             ({'alpha': 0.8}, {'linewidth': 3.0}),
                             ({'edgecolor': 'cs:red'}, None)):
                    if dims and len(dims) == 3 and isinstance(f, dict):
                        f = {'alpha': 0.3}
                    for cf, cd in ((None, None), ('', None), ('linear', 1.25),
                                   ('exponential', -2.0),
                                   ('intensity', 1.0)):
                        if dims and len(dims) == 3 and (cf == 'exponential' or
                                                        p is None):
                            continue
                        yield [d, {'dims': dims, 'pastcones': p,
                                   'futurecones': f, 'conetimefade': cf,
                                   'conetimedepth': cd, 'labels': False}, t]
                # independent of the dynamic mode
                for dep, f, cf, cd in product(
                        (0.75, -1.5), (None, 'exponential'),
                        (None, 'linear', 'exponential'), (None, 1.25)):
                    if dims and len(dims) == 3 and cf == 'exponential':
                        continue
                    yield [d, {'dims': dims, 'pastcones': True,
                               'futurecones': {'alpha': 0.5},
                               'timedepth': dep, 'timefade': f,
                               'conetimefade': cf, 'conetimedepth': cd,
                               'labels': False}, t]


def gen_small():
    '''short times'''
    for d in (['pts', [[-4e-4, 0.0], [0.0, 2e-4], [6e-4, 2e-4]]],
              ['pts', [[-4e-4, 0.0, 0.0], [0.0, 2e-4, 0.0],
                       [6e-4, 2e-4, -1e-4]]]):
        for dims in dimsets(d):
            for t in (-4.5e-4, 0.5e-4, 3e-4):
                for dep in (8e-4, -5e-4, 3e-5):
                    for f in (None, 'exponential', 'intensity'):
                        yield [d, {'dims': dims, 'timedepth': dep,
                                   'timefade': f}, t]


def gen_seq():
    ds = [['perm', [2, 1, 3]], ['sub', ['perm', [1, 3, 2]], [2, 0, 1]],
          ['pts', [[-1.0, 0.0, 0.0], [0.0, 0.5, 0.0], [1.5, 0.5, -0.25]]]]
    pool = [-0.25, 0.5, [-0.75, 0.75], np.array([1.0])]
    pool = [-0.25, 0.5, [-0.75, 0.75], [1.0]]
    for d in ds:
        for dims in dimsets(d)[:1] + dimsets(d)[4:5]:
            for o in ({}, {'timedepth': 1.5}, {'timedepth': -2.0,
                                               'timefade': 'exponential'},
                      {'pastcones': True, 'conetimefade': 'linear',
                       'conetimedepth': 1.0},
                      {'pastcones': True, 'futurecones': {'alpha': 0.5},
                       'timedepth': 1.5}):
                for ts in product(pool, repeat=3):
                    if dims and len(dims) == 3 and ts[0] == ts[2] and \
                            'pastcones' in o:
                        continue
                    yield [d, dict({'dims': dims}, **o), list(ts)]


def gen_diagram():
    for n in range(0, 4):
        for dn in labelled(n):
            ps = [None, []] + [list(p) for p in
                               permutations(range(1, n + 1))] + \
                [list(range(1, n + 2))]
            for p in ps:
                for ax in (0, 1):
                    yield [list(dn), p, ax, {}]
                yield [list(dn), p, 1, {'labels': False,
                                        'links': {'linewidth': 1.0}}]


def gen_real():
    for d in (['perm', [2, 1, 3]], ['perm', [1, 2, 3]],
              ['pts', [[-1.0, 0.0, 0.0], [0.0, 0.5, 0.0],
                       [1.5, 0.5, -0.25]]],
              ['sub', ['perm', [2, 1, 3]], [2, 0, 1]]):
        for dims in dimsets(d):
            for cur in (0, 1):
                for o in ({}, {'timedepth': 1.5}, {'timedepth': -1.0},
                          {'pastcones': True, 'futurecones': True},
                          {'labels': False, 'axislim': 'shape'}):
                    if 'axislim' in o and d[0] == 'sub':
                        continue
                    if dims and len(dims) == 3 and cur and 'pastcones' in o:
                        continue
                    yield [d, dict({'dims': dims}, **o), 0.25, cur]


def gen_errors():
    for dims in ([], [0], [0, 1, 2, 3], [1, 0, 2, 1, 0]):
        yield [dims]


def check_errors(case, ctx):
    dims, = case
    sc = scene(['perm', [1, 2]])
    spy = draw.PlotSpy()
    ctx.states += 1
    ctx.raises(ValueError, lambda: cp.plot_parameters(dims=list(dims)),
               'plot_parameters')
    ctx.raises(ValueError, lambda: cp.plot(sc.E, spy, dims=list(dims)),
               'plot')
    ctx.eq(plain(spy), ([], [], [], []), 'objects drawn')


def families(tier):
    t = tier == 'thorough'
    return [
        Family('static', gen_static(t), check_plot,
               'permutations n<=4, lattice subsets in 2 and 3 dimensions, '
               'sub-lists in every order, diagrams'),
        Family('options', gen_options, check_plot,
               'all combinations of element options'),
        Family('labels', gen_labels, check_plot,
               'labels of other types and values'),
        Family('many', gen_many, check_plot, '66 to 130 events'),
        Family('collinear', gen_collinear, check_plot,
               'links that pass up to three events'),
        Family('scales', gen_scale, check_plot,
               'lengths of 1e-5 to 1e6, events close to links'),
        Family('dynamic', gen_dynamic(t), check_plot,
               'times x depths x fading functions'),
        Family('short times', gen_small, check_plot,
               'dynamic plots with depths of 3e-5 to 8e-4'),
        Family('cones', gen_cones, check_cones, 'cone options x times'),
        Family('sequences', gen_seq, check_seq,
               'all sequences of three times of one plotter'),
        Family('diagrams', gen_diagram, check_diagram,
               'plotDiagram of labelled orders n<=3, all permutations'),
        Family('errors', gen_errors, check_errors, 'dimensions'),
        Family('real', gen_real, check_real, 'on matplotlib axes'),
    ]
