'''C20: drawn light cones contain exactly the causally related points.'''
from itertools import permutations, product
import math
import numpy as np
from mc.core import Family
from mc import draw, lightcone as lc
import matplotlib
matplotlib.use('Agg')
from matplotlib import pyplot as plt
from matplotlib.patches import Patch

PROPERTY = 'C20'
RULE = ('states: (spacetime, event, slice, direction, plotted coordinates); '
        'transitions: probe points compared with the light cone oracle; a '
        'trace is one cone drawn by the real code on recording axes')
ASSUMPTIONS = ['probe points closer to the boundary of the cone than the '
               'sampling resolution are not compared',
               'de Sitter in four dimensions: events in the displayed '
               'plane only (other angles are not implemented)',
               'Schwarzschild cones inside of the horizon may exceed the time '
               'between event and slice (t is a space coordinate there)']
STYLE2 = {'facecolor': (0.25, 0.5, 0.75), 'linewidth': 2.5}
STYLE3 = {'color': 'red', 'edgecolor': 'blue'}
GIVEN = 0.625   # opacity that is replaced by the dynamic one


def rel_flat(org, dims, per, X):
    '''related(p) of points X (k x len(dims)) of the displayed coordinates:
    +1 future, -1 past, 0 unrelated; all hidden coordinates at the event'''
    dt = np.zeros(len(X))
    r2 = np.zeros(len(X))
    for c, d in enumerate(dims):
        s = X[:, c] - org[d]
        if d == 0:
            dt = s
            continue
        p = per[d - 1] if per else 0.0
        if p > 0:
            s = np.abs(s) % p
            s = np.minimum(s, p - s)
        r2 = r2 + s * s
    return dt, np.sqrt(r2)


def rel_bh(org, t, r, rS, ef):
    '''+1 future, -1 past, by the null coordinates of Kruskal: V increases
    along v; U is negative outside and positive inside of the horizon'''
    def vu(t, r):
        r = np.abs(r)
        with np.errstate(divide='ignore'):
            star = r + rS * np.log(np.abs(r / rS - 1))
        v = t + (r if ef else star)
        u = v - 2 * star
        return v, np.where(r > rS, 0.0, 1.0), np.where(r > rS, u, -u)
    t0, r0 = org
    if abs(r0) == rS:
        # only the horizon itself has the same U (zero)
        v = t + np.abs(r) - t0 - rS
        rel = np.where((np.abs(r) < rS) & (v > 0), 1,
                       np.where((np.abs(r) > rS) & (v < 0), -1, 0))
    else:
        v, s, u = vu(t, r)
        v0, s0, u0 = vu(np.array([t0]), np.array([r0]))
        later = (s > s0) | (s == s0) & (u >= u0)
        sooner = (s < s0) | (s == s0) & (u <= u0)
        rel = np.where((v >= v0) & later, 1,
                       np.where((v <= v0) & sooner, -1, 0))
    return np.where(r * r0 <= 0, 0, rel)


def hyp(o, p):
    '''hyperbolic distance in the Klein model'''
    no, np_ = 1 - np.dot(o, o), 1 - (p * p).sum(-1)
    c = (1 - p @ o) / np.sqrt(np.maximum(no * np_, 1e-300))
    d = np.arccosh(np.maximum(1.0, c))
    return np.where(np_ <= 0, np.inf, d)


def dist_dS(org, dims, al, X):
    '''smallest light travel time to any point with displayed space
    coordinates X'''
    o = np.array(org[1:]) / al
    n = len(o)
    P = np.zeros((len(X), n))
    free = [i for i in range(n) if i + 1 not in dims]
    for c, d in enumerate(dims):
        if d:
            P[:, d - 1] = X[:, c] / al
    if not free:
        return al * hyp(o, P)
    # the distance is convex along the hidden coordinate(s); hidden
    # coordinates in which the event is at zero stay at zero (symmetry)
    h = [i for i in free if o[i] != 0.0]
    if not h:
        return al * hyp(o, P)
    i = h[0]
    lim = np.sqrt(np.maximum(1 - (P * P).sum(-1), 0.0)) * (1 - 1e-9)
    lo, hi = -lim, lim.copy()
    for _ in range(60):
        a, b = lo + (hi - lo) / 3, hi - (hi - lo) / 3
        Pa, Pb = P.copy(), P.copy()
        Pa[:, i], Pb[:, i] = a, b
        da, db = hyp(o, Pa), hyp(o, Pb)
        lo, hi = np.where(da > db, a, lo), np.where(da > db, hi, b)
    P[:, i] = 0.5 * (lo + hi)
    return al * hyp(o, P)


def expected(kind, par, org, dims, sign, sl, X):
    '''tri-state of the probes: 1 covered, 0 not covered, -1 either'''
    if kind in ('EF', 'S'):
        t, r = X[:, dims.index(0)], X[:, dims.index(1)]
        rel = rel_bh(org, t, r, par, kind == 'EF')
        between = (min(org[0], sl) < t) & (t < max(org[0], sl))
        res = np.where(between, 1, 0)
        if kind == 'S':
            res[~between & (np.minimum(abs(org[1]), np.abs(r)) < par)] = -1
        res[rel != sign] = 0
        res[(r == 0.0) | (np.abs(r) == par)] = -1
        return res
    if kind == 'flat':
        dt, r = rel_flat(org, dims, par, X)
    else:
        r = dist_dS(org, dims, par, X)
        dt = X[:, dims.index(0)] - org[0] if 0 in dims else None
    if 0 not in dims:
        return (r < abs(sl - org[0])).astype(int)
    dt = sign * dt
    return ((dt > 0) & (dt > r) & (dt < abs(sl - org[0]))).astype(int)


def judge(cov, kind, par, org, dims, sign, sl, X, delta, ctx, tag):
    '''delta: neighbourhood (per displayed coordinate) in which the expected
    answer has to be constant'''
    e = expected(kind, par, org, dims, sign, sl, X)
    sure = e >= 0
    if kind == 'S':     # the boundary diverges at the horizon
        c = dims.index(1)
        sure &= np.abs(np.abs(X[:, c]) - par) > delta[c]
    for s in product((-1, 0, 1), repeat=len(dims)):
        if any(s):
            sure &= expected(kind, par, org, dims, sign, sl,
                             X + np.array(s) * delta) == e
    ctx.transitions += int(sure.sum())
    ctx.count('undecided', int((~sure).sum()))
    bad = sure & (cov != (e == 1))
    if bad.any():
        k = int(np.argmax(bad))
        ctx.ck(False, '%spoint %s of the coordinates %s is %s the cone but %s'
               % (tag, list(np.round(X[k], 6)), dims,
                  'in' if cov[k] else 'not in',
                  'related' if e[k] == 1 else 'not related'))
    return int((sure & (e == 1)).sum())


def delta_of(kind, par, org, dims, sl, n):
    r = abs(sl - org[0])
    d = []
    for c in dims:
        if kind == 'flat':
            h = 1e-6 if 0 in dims and len(dims) == 2 else \
                r * 1.5 * (1 - math.cos(2 * math.pi / n)) + 1e-6
        elif kind == 'dS':
            h = 2.0 * r / n + 0.004 * par + 1e-6 if len(org) > 2 or c == 0 \
                else 2.0 * r / n + 1e-6
        else:
            h = 1e-5 if c == 0 else 2.0 * (r + par) / n
        d.append(h)
    return np.array(d)


def axis_probe(kind, par, org, d, sl, m):
    r = abs(sl - org[0])
    if d == 0:
        lo, hi = min(org[0], sl) - 0.3 * r, max(org[0], sl) + 0.3 * r
    elif kind == 'flat':
        p = par[d - 1] if par else 0.0
        w = 1.25 * r if p <= 0 else min(1.25 * r, 1.0 * p)
        lo, hi = org[d] - w, org[d] + w
    elif kind == 'dS':
        lo, hi = -1.05 * par, 1.05 * par
    else:
        w = abs(org[1]) + 1.2 * r + par
        g = np.linspace(-w, w, m - 8) + 2 * w * 1.37e-4
        return np.sort(np.concatenate(
            [g, par * np.array([-1.37, -0.83, -0.51, -0.17, 0.19, 0.53, 0.79,
                                1.31])]))
    return np.linspace(lo, hi, m) + (hi - lo) * 1.37e-4


def call(st, dims, style, sign, alpha, size, spy):
    return st.ConePlotter(list(dims), style, sign, spy, alpha, size)


def reach(V, case, ctx, tag):
    '''the cone starts at the event and ends at the slice'''
    kind, dim, par, org, dims, sign, sl = case[:7]
    if 0 not in dims or kind == 'S' or kind == 'EF' and abs(org[1]) <= par:
        return      # other parts of these start or end elsewhere
    t = V[:, dims.index(0)]
    w = 1e-7 * (1.0 + abs(sl) + abs(org[0]))
    lo, hi = min(org[0], sl), max(org[0], sl)
    if abs(t.min() - lo) > w or abs(t.max() - hi) > w:
        ctx.ck(False, '%sdrawn from time %s to %s' % (tag, t.min(), t.max()))
    if kind == 'EF':
        return
    tip = V[np.abs(t - org[0]) <= w]
    o = np.array([org[d] for d in dims])
    per = kind == 'flat' and par is not None
    d = np.abs(tip - o).max(1)
    if (d.min() if per else d.max()) > 1e-6 * (1.0 + np.abs(o).max()):
        ctx.ck(False, tag + 'the tip of the cone is not at the event')
    if kind == 'dS' and dim == 2:
        x = V[:, dims.index(1)]
        a, b = math.atanh(org[1] / par), abs(sl - org[0]) / par
        lo, hi = par * math.tanh(a - b), par * math.tanh(a + b)
        if abs(x.min() - lo) > 1e-6 * par or abs(x.max() - hi) > 1e-6 * par:
            ctx.ck(False, '%sdrawn from position %s to %s' % (tag, x.min(),
                                                              x.max()))


def boundary(V, case, ctx, tag):
    '''de Sitter with the entire space displayed: each vertex is on the light
    cone (positions close to the horizon: as far as they are distinguished)'''
    kind, dim, par, org, dims, sign, sl = case[:7]
    if kind != 'dS' or dim != 3 or not {1, 2} <= set(dims):
        return
    P = V[:, [dims.index(1), dims.index(2)]] / par
    t = V[:, dims.index(0)] if 0 in dims else sl
    r2 = (P * P).sum(1)
    ctx.ck(r2.max() <= 1 + 1e-9, tag + 'drawn beyond of the horizon')
    err = np.abs(hyp(np.array(org[1:]) / par, P) - np.abs(t - org[0]) / par)
    err = np.where(r2 < 1 - 1e-7, err * (1 - r2), 0.0)
    k = int(np.argmax(err))
    ctx.ck(err[k] <= 1e-5, '%sthe vertex %s is not on the light cone', tag,
           V[k])


def check_cone(case, ctx):
    kind, dim, par, org, dims, sign, sl, size, fade = case
    st = lc.make(kind, dim, par)
    spy = draw.Spy()
    is3 = len(dims) == 3
    seen = []
    alpha = None
    if fade is not None:
        def alpha(r):
            seen.append(r)
            return fade
    tag = '%s cone of %s up to %s, ' % (st, org, sl)
    style = dict(STYLE3 if is3 else STYLE2)
    if fade is not None and size == 12:
        style['alpha'] = GIVEN / 2 if fade == 0.5 else GIVEN
    style0 = dict(style)
    given = list(dims)
    cone = call(st, given, style, sign, alpha, size, spy)
    ctx.states += 1
    at = np.array(org)
    out = cone(at, sl)
    ctx.eq(style, style0, tag + 'given style')
    ctx.eq(given, list(dims), tag + 'given dimensions')
    ctx.eq(at.tolist(), list(org), tag + 'given coordinates')
    empty = sign * (sl - org[0]) <= 0.0
    if not empty and fade is not None:
        ctx.ck(len(seen) == 1 and abs(seen[0] - abs(sl - org[0])) < 1e-9,
               '%sopacity requested for the sizes %s', tag, seen)
    empty = empty or (fade is not None and fade <= 0.0)
    if kind == 'dS':
        empty = empty or math.hypot(*org[1:]) >= par
    if empty:
        ctx.ck(out is None, '%sdrawn: %s', tag, out)
        ctx.ck(not spy.calls, '%scalls %s', tag, spy.calls)
        return
    ctx.ck(out is not None, tag + 'nothing is drawn')
    n = size if size > 0 else 128
    par_ = par
    if kind == 'flat' and par is not None:
        par_ = [par] * (dim - 1) if isinstance(par, float) else par
    delta = delta_of(kind, par_, org, dims, sl, n)
    if not is3:
        ctx.eq(spy.calls, ['add_patch'], tag + 'calls')
        ctx.ck(out is spy.patches[0] and isinstance(out, Patch),
               tag + 'the returned object is not the drawn patch')
        a = 1.0 if fade is None else fade
        want = STYLE2['facecolor'] + (a,)
        ctx.ck(np.allclose(out.get_facecolor(), want) and
               out.get_linewidth() == 2.5,
               '%sstyle %s, %s', tag, out.get_facecolor(),
               out.get_linewidth())
        G = [axis_probe(kind, par_, org, d, sl, 23) for d in dims]
        X = np.array(list(product(*G)))
        V = np.concatenate(draw.polygons(out))
        reach(V, case, ctx, tag)
        boundary(V, case, ctx, tag)
        # sub-paths that are separated by missing values
        cov = draw.winding(draw.polygons(out), X)
        k = judge(cov, kind, par_, org, list(dims), sign, sl, X, delta, ctx,
                  tag)
        ctx.count('covered probes', k)
        return
    ctx.ck(isinstance(out, list) and len(out) > 0, tag + 'no surfaces')
    ctx.eq(spy.calls, ['plot_surface'] * len(out), tag + 'calls')
    T = []
    for s, w in zip(spy.surfaces, out):
        ctx.ck(all(x is y or np.array_equal(x, y)
                   for x, y in zip(s[:3], w)),
               tag + 'the returned surface is not the drawn one')
        kw = dict(STYLE3) if fade is None else dict(STYLE3, alpha=fade)
        ctx.eq(s[3], kw, '%sstyle', tag)
        T.append(draw.triangles(s))
    V = np.concatenate([draw.grid(s).reshape(-1, 3) for s in out])
    reach(V, case, ctx, tag)
    boundary(V, case, ctx, tag)
    # sections along the time axis, or the last axis
    ax = dims.index(0) if 0 in dims else 2
    o = [k for k in range(3) if k != ax]
    for c in axis_probe(kind, par_, org, dims[ax], sl, 9):
        G = [axis_probe(kind, par_, org, dims[k], sl, 11) for k in o]
        Q = np.array(list(product(*G)))
        X = np.empty((len(Q), 3))
        X[:, o] = Q
        X[:, ax] = c

        def probe(shift):
            Y = X + shift
            cov = np.zeros(len(Y), bool)
            for t in T:
                cov |= draw.parity(draw.section(t, ax, c + shift[ax]),
                                   Y[:, o])
            return judge(cov, kind, par_, org, list(dims), sign, sl, Y, delta,
                         ctx, tag)
        ctx.count('covered probes', draw.turns(probe))


# --- cases -------------------------------------------------------------------

SLICES = (-1.7, -0.6, 0.25, 0.9, 2.2)


def flat_cases(tier, nd):
    def gen():
        ds = [d for d in (2, 3, 4) if d >= nd]
        for d in ds:
            pers = [None, 1.5]
            if d > 2:
                pers += [[0.0, 2.0] + [0.0] * (d - 3),
                         [2.5, -1.25] + [1.0] * (d - 3)]
            orgs = [[0.0] * d, [0.25, 0.7, -0.5, 0.3][:d],
                    [-0.5, -0.6, 0.4, 0.1][:d]]
            for dims in permutations(range(d), nd):
                for per in pers:
                    for org in orgs if nd == 2 or tier else orgs[1:2]:
                        for sl in SLICES:
                            for sign in (-1, 1):
                                if nd == 3 and not tier and \
                                        sign * (sl - org[0]) <= 0 and \
                                        dims != (0, 1, 2):
                                    continue
                                yield ['flat', d, per, org, list(dims), sign,
                                       sl, 40 if nd == 2 else 24, None]
    return gen


def style_cases():
    for sign in (-1, 1):
        for sl in SLICES:
            for fade in (None, 0.5, 0.0, -0.25, 1.0):
                for size in (-1, 0, 12):
                    for kind, d, par, org, dl in (
                            ('flat', 3, None, [0.25, 0.7, -0.5],
                             ([0, 1], [2, 1], [1, 0, 2])),
                            ('dS', 3, 1.5, [0.25, 0.7, -0.5],
                             ([0, 1], [2, 1], [1, 2, 0])),
                            ('dS', 2, 1.0, [0.25, 0.7], ([0, 1],)),
                            ('EF', 2, 0.75, [0.25, 1.7], ([1, 0],)),
                            ('S', 2, 0.75, [0.25, 1.7], ([1, 0],))):
                        for dims in dl:
                            if len(dims) == 3 and size < 0 and fade != 0.5:
                                continue
                            yield [kind, d, par, org, dims, sign, sl, size,
                                   fade]


def ds_cases(tier):
    def gen():
        for al in (1.0, 2.5) if tier else (1.0, 1.75):
            for d in (2, 3, 4):
                pos = {2: [[0.0], [0.3], [-0.8], [0.97], [1.0], [-1.2]],
                       3: [[0.0, 0.0], [0.3, 0.0], [0.0, -0.6], [0.5, 0.5],
                           [-0.7, 0.2], [0.8, -0.55], [0.6, 0.81],
                           [1.5, 0.0]],
                       4: [[0.0, 0.0, 0.0], [0.5, 0.0, 0.0], [0.0, -0.4, 0.0],
                           [0.3, 0.6, 0.0], [-0.6, 0.2, 0.0]]}[d]
                for q in pos:
                    for t0 in (0.0, 0.4):
                        org = [t0] + [c * al for c in q]
                        for nd in (2, 3):
                            for dims in permutations(range(d), nd):
                                if not ok_dims(d, q, dims):
                                    continue
                                for sl in SLICES if nd == 2 or tier else \
                                        (-0.6, 1.1):
                                    for sign in (-1, 1):
                                        if nd == 3 and \
                                                sign * (sl - t0) <= 0 and \
                                                dims[0] != 1:
                                            continue
                                        yield ['dS', d, al, org, list(dims),
                                               sign, sl,
                                               72 if nd == 2 else 24, None]
    return gen


def ok_dims(d, q, dims):
    if d == 2:
        return len(dims) == 2
    sp = [i for i in dims if i]
    if len(sp) == 3:
        return False        # not implemented
    if d == 3:
        return True
    # d = 4: the event has to lie in the displayed space, in the case of a
    # single space axis on this axis
    return all(c == 0.0 for i, c in enumerate(q) if i + 1 not in sp)


def bh_cases(tier):
    rs = (0.15, 0.3, 0.45, 0.55, 0.7, 1.0, 1.6, 2.5)
    if tier:
        rs = tuple(round(0.05 * k, 2) for k in range(1, 60) if k % 10)

    def gen():
        for rS in (0.5, 1.25):
            for kind in ('EF', 'S'):
                for r in rs + ((rS / 0.5 * 0.5,) if kind == 'EF' else ()):
                    for s in (1, -1):
                        if kind == 'S' and abs(r - rS) < 1e-9:
                            continue
                        for t0 in (0.0, -0.75):
                            for dt in (-2.5, -1.0, -0.3, -0.05, 0.0, 0.05,
                                       0.2, 0.6, 1.2, 3.0):
                                for sign in (-1, 1):
                                    for dims in ([0, 1], [1, 0]):
                                        yield [kind, 2, rS, [t0, s * r], dims,
                                               sign, t0 + dt, 250,
                                               None]
    return gen


def far_cases():
    '''time origins and slices far away, other scales'''
    for sign in (-1, 1):
        for kind, d, al, pos, dl in (
                ('dS', 2, 1.0, (0.3, -0.8), ((0, 1), (1, 0))),
                ('dS', 3, 2.5, (0.3, -0.4), ((0, 1), (2, 1), (1, 2, 0))),
                ('dS', 3, 1.0, (0.0, -0.8), ((0, 2), (1, 2))),
                ('flat', 2, None, (0.75, -3.0), ((0, 1), (1, 0))),
                ('flat', 3, 1.5, (0.75, 0.25), ((0, 1), (2, 1))),
                ('flat', 3, None, (0.75, 100.0), ((0, 2), (1, 2), (2, 0, 1))),
                ('EF', 2, 0.5, (0.3, 1.6, -1.6), ((0, 1), (1, 0))),
                ('EF', 2, 1.25, (0.3, 1.6), ((0, 1),)),
                ('S', 2, 0.5, (0.7, 1.6, -1.6), ((0, 1), (1, 0)))):
            for q in pos:
                org = [q * (al or 1.0) if kind == 'dS' else q] + \
                    [0.25] * (d - 2)
                for dims in dl:
                    for t0 in (-500.0, 40.0, 1000.0):
                        for r in (0.2, 1.1):
                            yield [kind, d, al, [t0] + org, list(dims), sign,
                                   t0 + sign * r, 250 if kind in ('EF', 'S')
                                   else 72 if len(dims) == 2 else 24, None]
                    for r in LONG[kind] if len(dims) < 3 else LONG[kind][1:]:
                        yield [kind, d, al, [0.25] + org, list(dims), sign,
                               0.25 + sign * r, 500, None]


def scaled_cases(tier):
    '''the same cones in other units of length'''
    def gen():
        for s in (0.01, 20.0, 1e3):
            k = 0
            for g in (flat_cases(0, 2), ds_cases(0), bh_cases(0)):
                for c in g():
                    k += 1
                    if k % (3 if tier else 17):
                        continue
                    c[3] = [s * x for x in c[3]]
                    c[6] *= s
                    if isinstance(c[2], list):
                        c[2] = [s * x for x in c[2]]
                    elif c[2] is not None:
                        c[2] *= s
                    yield c
    return gen


LONG = {'dS': (4.0, 8.0), 'flat': (1e-3, 30.0, 1e4), 'EF': (8.0, 30.0, 150.0),
        'S': (8.0, 30.0, 150.0)}


def check_calls(case, ctx):
    '''several cones of one plotter: each as from a new plotter'''
    kind, d, par, dims, fade, seq = case
    st = lc.make(kind, d, par)
    style = STYLE3 if len(dims) == 3 else STYLE2
    f = (lambda r: 1.0 - 0.5 * r) if fade else None
    spy = draw.Spy()
    cone = call(st, dims, style, 1, f, 10, spy)
    for org, sl in seq:
        o = np.array(org)
        a = cone(o, sl)
        ctx.ck(list(o) == list(org), 'the coordinates of the event change')
        fresh = draw.Spy()
        b = call(st, dims, style, 1, f, 10, fresh)(np.array(org), sl)
        ctx.states += 1
        ctx.transitions += 3
        if (a is None) != (b is None):
            ctx.ck(False, 'cone %s, %s depends on earlier ones' % (org, sl))
        if a is None:
            continue
        if len(dims) == 2:
            if not (np.array_equal(a.get_xy(), b.get_xy(), equal_nan=True) and
                    a.get_alpha() == b.get_alpha()):
                ctx.ck(False, 'cone %s, %s depends on earlier ones' % (
                    org, sl))
        else:
            k = len(fresh.surfaces)
            for u, v in zip(spy.surfaces[-k:], fresh.surfaces):
                if u[3] != v[3] or not all(
                        np.array_equal(x, y) for x, y in zip(u[:3], v[:3])):
                    ctx.ck(False, 'cone %s, %s depends on earlier ones' % (
                        org, sl))


def calls_cases():
    pool = [([0.0, 0.1, 0.2], 0.5), ([0.0, -0.3, 0.1], 1.5),
            ([0.25, 0.5, 0.0], 0.1), ([-1.0, 0.1, 0.2], 1.5)]
    for kind, d, par in (('flat', 3, None), ('flat', 3, 1.0), ('dS', 3, 1.0),
                         ('flat', 2, None), ('dS', 2, 1.0), ('EF', 2, 0.5),
                         ('S', 2, 0.5)):
        for dims in ([0, 1], [1, 0], [1, 2], [1, 2, 0]):
            if max(dims) >= d:
                continue
            for fade in (0, 1):
                for seq in product(pool, repeat=3):
                    yield [kind, d, par, dims, fade,
                           [[o[:d], s] for o, s in seq]]


def check_axes(case, ctx):
    '''without axes the current axes are used, and no others'''
    kind, d, par, org, dims = case
    st = lc.make(kind, d, par)
    plt.close('all')
    fig, (a1, a2) = plt.subplots(1, 2, subplot_kw={
        'projection': '3d' if len(dims) == 3 else None})
    try:
        plt.sca(a1)
        style = {'alpha': 0.5}
        for given in (None, a2):
            cone = st.ConePlotter(list(dims), dict(style), 1, given,
                                  samplingsize=6) if given is not None else \
                st.ConePlotter(list(dims), dict(style), 1, samplingsize=6)
            n1 = len(a1.patches) + len(a1.collections)
            n2 = len(a2.patches) + len(a2.collections)
            out = cone(np.array(org), org[0] + 0.5)
            m1 = len(a1.patches) + len(a1.collections) - n1
            m2 = len(a2.patches) + len(a2.collections) - n2
            k = len(out) if len(dims) == 3 else 1
            ctx.states += 1
            ctx.eq((m1, m2), (k, 0) if given is None else (0, k),
                   'objects drawn in the current and the other axes')
            if len(dims) == 2:
                ctx.ck(out.axes is (a1 if given is None else a2),
                       'axes of the patch')
    finally:
        plt.close('all')


def axes_cases():
    for kind, d, par, org in (('flat', 3, None, [0.0, 0.1, 0.2]),
                              ('flat', 3, 1.0, [0.0, 0.1, 0.2]),
                              ('dS', 3, 1.0, [0.0, 0.1, 0.2]),
                              ('EF', 2, 0.5, [0.0, 1.0]),
                              ('S', 2, 0.5, [0.0, 1.0])):
        for dims in ([0, 1], [1, 2], [0, 1, 2]):
            if max(dims) < d:
                yield [kind, d, par, org, dims]


def families(tier):
    t = tier == 'thorough'
    return [
        Family('flat 2D', flat_cases(t, 2), check_cone,
               'all ordered pairs of coordinates, periods, 23 x 23 probes'),
        Family('flat 3D', flat_cases(t, 3), check_cone,
               'all ordered triples of coordinates, 9 x 11 x 11 probes'),
        Family('de Sitter', ds_cases(t), check_cone, 'dimensions 2 to 4'),
        Family('black hole', bh_cases(t), check_cone,
               'both metrics, inside, outside and at the horizon'),
        Family('scales', scaled_cases(t), check_cone,
               'every 17th cone (thorough: 3rd) in units of 0.01, 20, 1000'),
        Family('far', far_cases, check_cone,
               'time origins -500 to 1000, sizes 1e-3 to 1e4'),
        Family('style', style_cases, check_cone,
               'opacity, sampling sizes, wrong side'),
        Family('calls', calls_cases, check_calls,
               'all sequences of three cones of one plotter'),
        Family('axes', axes_cases, check_axes, 'given and current axes'),
    ]
