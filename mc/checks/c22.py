'''C22: drawn shapes lie where the shape is.'''
from itertools import permutations, product
import math
import numpy as np
from mc.core import Family
from mc import draw, geometry as geo
import matplotlib
matplotlib.use('Agg')
from matplotlib import pyplot as plt
from matplotlib.patches import Patch

PROPERTY = 'C22'
RULE = ('states: (shape, plotted coordinates, style); transitions: compared '
        'probe points, vertices and extents; a trace is one plot by the real '
        'code on recording axes')
ASSUMPTIONS = ['probe points closer to the boundary than the resolution of '
               'the outline are not compared',
               'a hollow cylinder is a tube (hollow along all of its '
               'duration)']
RES = 1 - math.cos(math.pi / 128)


def make(spec):
    from causets.shapes import CoordinateShape
    name, d, kw = spec
    return CoordinateShape(d, name, **kw)


def snapshot(S):
    keys = ['radius', 'hollow', 'duration', 'edge', 'edges']
    out = [S.Name, S.Dim, list(map(float, S.Center))]
    for k in keys:
        try:
            out.append(np.array(S.Parameter(k), float).tolist())
        except KeyError:
            out.append(None)
    return out


def outside(spec, dims, X):
    '''of the central cut'''
    c = geo.params(spec)['center']
    r = np.empty(len(X))
    for i, x in enumerate(X):
        p = list(c)
        for k, v in zip(dims, x):
            p[k] = v
        r[i] = geo.outside_by(spec, p)
    return r


def corner_ok(spec, dims, v):
    return abs(outside(spec, dims, [v])[0])


STYLES = [{}, {'alpha': 0.5}, {'facecolor': (0.0, 1.0, 0.0),
                               'edgecolor': (1.0, 0.0, 0.0), 'alpha': 0.25,
                               'linewidth': 3.0}]


def check(case, ctx):
    spec, dims, st, m = case
    S = make(spec)
    before = snapshot(S)
    kw = dict(STYLES[st])
    scale = geo.scale(spec)
    eps = 1e-9 * scale
    for turn in range(2):
        tag = '%s, coordinates %s%s: ' % (
            spec, dims, ', plotted again' if turn else '')
        spy = draw.Spy()
        out = S.plot(list(dims), spy, **kw)
        ctx.states += 1
        ctx.eq(snapshot(S), before, tag + 'the shape after plotting')
        if turn and len(dims) == 3:
            ctx.ck(len(first) == len(out) and all(
                np.array_equal(np.broadcast_arrays(*a),
                               np.broadcast_arrays(*b))
                for a, b in zip(first, out)), tag + 'another surface')
            return
        if turn:
            ctx.ck(np.array_equal(np.concatenate(first), np.concatenate(
                draw.polygons(out))), tag + 'another outline')
            return
        if len(dims) == 2:
            first = two(spec, dims, kw, spy, out, m, eps, ctx, tag)
        else:
            three(spec, dims, kw, spy, out, m, eps, ctx, tag)
            first = out


def axis_grid(spec, k, m):
    lo, hi = geo.extent(spec, k)
    w = hi - lo
    # different offsets, such that no line of probes runs along a diagonal of
    # the triangulation
    return np.linspace(lo - 0.15 * w, hi + 0.15 * w, m) + \
        (1.7e-4 + 0.9e-4 * k) * w


def two(spec, dims, kw, spy, out, m, eps, ctx, tag):
    ctx.eq(spy.calls, ['add_patch'], tag + 'calls')
    ctx.ck(out is spy.patches[0] and isinstance(out, Patch),
           tag + 'the returned object is not the drawn patch')
    al = kw.get('alpha', 0.05)
    fc = tuple(kw.get('facecolor', (0.0, 0.0, 0.0))) + (al,)
    ec = tuple(kw.get('edgecolor', (0.0, 0.0, 0.0))) + (al,)
    ctx.ck(np.allclose(out.get_facecolor(), fc) and
           np.allclose(out.get_edgecolor(), ec) and out.get_alpha() == al and
           out.get_linewidth() == kw.get('linewidth',
                                         plt.rcParams['patch.linewidth']),
           '%sstyle %s %s', tag, out.get_facecolor(), out.get_edgecolor())
    P = draw.polygons(out)
    lo, hi = draw.extent(P)
    for i, k in enumerate(dims):
        a, b = geo.extent(spec, k)
        w = 2e-5 * (b - a) + eps    # approximation of arcs
        if abs(lo[i] - a) > w or abs(hi[i] - b) > w:
            ctx.ck(False, '%sspans %s to %s along coordinate %d instead of '
                   '%s to %s' % (tag, lo[i], hi[i], k, a, b))
    r = max(geo.half_extent(spec, k) for k in dims)
    v = np.concatenate(P)
    d = np.abs(outside(spec, dims, v))
    if (d > 1e-5 * r + eps).any():
        ctx.ck(False, '%sthe vertex %s is not on the boundary (%s)' % (
            tag, v[d.argmax()], d.max()))
    X = np.array(list(product(*[axis_grid(spec, k, m) for k in dims])))
    o = outside(spec, dims, X)
    sure = np.abs(o) > RES * r + eps
    cov = draw.winding(P, X)
    bad = sure & (cov != (o < 0))
    ctx.transitions += int(sure.sum()) + len(v)
    ctx.count('undecided', int((~sure).sum()))
    if bad.any():
        k = int(bad.argmax())
        ctx.ck(False, '%sthe point %s is %s the drawn outline' % (
            tag, X[k], 'in' if cov[k] else 'not in'))
    return P


def three(spec, dims, kw, spy, out, m, eps, ctx, tag):
    ctx.ck(isinstance(out, list) and len(out) > 0, tag + 'no surfaces')
    ctx.eq(spy.calls, ['plot_surface'] * len(out), tag + 'calls')
    want = {'edgecolor': None, 'color': 'black', 'alpha': 0.05}
    want.update(kw)
    for s, w in zip(spy.surfaces, out):
        ctx.ck(all(np.array_equal(x, y) for x, y in zip(s[:3], w)),
               tag + 'the returned surface is not the drawn one')
        ctx.eq(s[3], want, '%sstyle', tag)
    r = max(geo.half_extent(spec, k) for k in dims)
    v = np.concatenate([draw.grid(s).reshape(-1, 3) for s in out])
    lo, hi = v.min(0), v.max(0)
    for i, k in enumerate(dims):
        a, b = geo.extent(spec, k)
        w = RES * (b - a) + eps
        if abs(lo[i] - a) > w or abs(hi[i] - b) > w:
            ctx.ck(False, '%sspans %s to %s along coordinate %d instead of '
                   '%s to %s' % (tag, lo[i], hi[i], k, a, b))
    u = v[::max(1, len(v) // 400)]
    d = np.abs(outside(spec, dims, u))
    if (d > 1e-5 * r + eps).any():
        ctx.ck(False, '%sthe vertex %s is not on the boundary (%s)' % (
            tag, u[d.argmax()], d.max()))
    T = np.concatenate([draw.triangles(s) for s in out])
    n = 0
    # sections along all axes, with rays in both directions: a surface that
    # is not closed is open in some of them
    for ax, c in [(2, c) for c in axis_grid(spec, dims[2], m)] + \
            [(a, c) for a in (0, 1)
             for c in axis_grid(spec, dims[a], m)[1:-1:max(1, m // 4)]]:
        q = [k for k in range(3) if k != ax]
        Q = np.array(list(product(*[axis_grid(spec, dims[k], m)
                                    for k in q])))
        X = np.empty((len(Q), 3))
        X[:, q] = Q
        X[:, ax] = c

        def probe(shift):
            Y = X + shift * r
            o = outside(spec, dims, Y)
            sure = np.abs(o) > 3 * RES * r + eps
            seg = draw.section(T, ax, Y[0, ax])
            for turned in (False, True):
                cov = draw.parity(seg[:, :, ::-1], Y[:, q[::-1]]) if turned \
                    else draw.parity(seg, Y[:, q])
                bad = sure & (cov != (o < 0))
                if bad.any():
                    k = int(bad.argmax())
                    ctx.ck(False, '%sthe point %s is %s the drawn surface' % (
                        tag, Y[k], 'in' if cov[k] else 'not in'))
            return 2 * int(sure.sum())
        n += draw.turns(probe)
    ctx.transitions += n + len(u)


def specs(d, tier, nd=3):
    cs = [None, [0.5, -1.25, 2.0, 0.75][:d]]
    if tier or nd == 2:
        cs.append([-12345.7, 0.3, 876543.21, 10.0][:d])
    if tier:
        cs.append([-3.0, 0.25, -0.5, 10.0][:d])
    for c in cs:
        ck = {} if c is None else {'center': c}
        for name in ('ball', 'bicone', 'diamond', 'cylinder'):
            for r in (1.0, 2.5) + ((0.01, 40.0) if tier or nd == 2 else ()):
                for h in (0.0, 0.375, 0.9, 0.04) + ((0.1, 0.25) if tier else
                                                  ()):
                    kw = dict(ck, radius=r)
                    if h:
                        kw['hollow'] = h
                    if name == 'cylinder':
                        for l in (0.75, 6.0):
                            yield [name, d, dict(kw, duration=l)]
                    else:
                        yield [name, d, kw]
            yield [name, d, dict(ck)]
        for e in (1.0, 0.4, 3.0):
            yield ['cube', d, dict(ck, edge=e)]
        yield ['cuboid', d, dict(ck)]
        for es in permutations([0.5, 2.0, 1.25, 3.5][:d]):
            yield ['cuboid', d, dict(ck, edges=list(es))]


def gen(nd, dmax, m, tier):
    def g():
        for d in range(nd, dmax + 1):
            for dims in permutations(range(d), nd):
                for k, spec in enumerate(specs(d, tier, nd)):
                    yield [spec, list(dims), k % 3 if nd == 2 else k % 2, m]
    return g


# --- the outlines and surfaces themselves ------------------------------------

def gen_edges():
    for c in ([0.0, 0.0], [1.5, -2.0]):
        for r in (1.0, 0.25):
            for h in (0.0, 0.3):
                for s in (-1, 0, 1, 2, 3, 8, 9, 128, 300):
                    yield ['circle', c, r, h, s]
                    for q in (0.5, 2.0):
                        yield ['ellipse', c, [r, q], h, s]
                yield ['bicone', c, r, h, 0]
                for q in (0.5, 2.0):
                    yield ['cut', c, [r, q], h, 0]
                    yield ['rect', c, [r, q], 0.0, 0]
    for c in ([0.0, 0.0, 0.0], [1.5, -2.0, 0.5]):
        for r in (1.0, 0.25):
            for s in (-1, 0, 4, 16, 17, 301):
                yield ['ball', c, r, 0.0, s]
                for z in (0, 1, 2):
                    for q in (0.5, 2.0, -0.5):
                        yield ['cone', c, [r, q, z], 0.0, s]
                        if q > 0:
                            for h in (0.0, 0.3):
                                yield ['tube', c, [r, q, z], h, s]
            yield ['cubes', c, r, 0.0, 0]
            for q in (0.5, 2.0):
                yield ['cuboid', c, [r, q, 1.25], 0.0, 0]


def split(E):
    nan = np.isnan(E).all(1)
    out, cur = [], []
    for p, n in zip(E, nan):
        if n:
            out.append(np.array(cur))
            cur = []
        else:
            cur.append(p)
    return out + [np.array(cur)]


def close(a, b):
    return np.abs(np.asarray(a) - np.asarray(b)).max() < 1e-9


def check_edges(case, ctx):
    from causets import shapes as sh
    kind, c, r, h, s = case
    C = np.array(c)
    ctx.states += 1
    n = s if s > 0 else 128
    kw = {} if s == 0 else {'samplingsize': s}
    if h:
        kw['hollow'] = h
    if kind in ('circle', 'ellipse'):
        rr = [r, r] if kind == 'circle' else r
        E = sh.CircleEdge(C, r, **kw) if kind == 'circle' else \
            sh.EllipseEdge(C, np.array(r), **kw)
        P = split(E)
        ctx.eq(E.shape, (2 * n + 3 if h else n + 1, 2), 'size')
        ctx.eq(len(P), 2 if h else 1, 'parts')
        for k, p in enumerate(P):
            f = h if k else 1.0
            a = np.arctan2((p[:, 1] - c[1]) / rr[1], (p[:, 0] - c[0]) / rr[0])
            rad = np.hypot((p[:, 0] - c[0]) / rr[0], (p[:, 1] - c[1]) / rr[1])
            ctx.ck(close(rad, f), 'points off the curve')
            ctx.ck(close(p[0], p[-1]), 'open curve')
            if n > 2:
                step = np.diff(a)
                step = (step + math.pi) % (2 * math.pi) - math.pi
                ctx.ck(close(np.abs(step), 2 * math.pi / n) and
                       abs(abs(step.sum()) - 2 * math.pi) < 1e-6,
                       'angles')
                w = np.sign(step[0])
                if k:
                    ctx.ck(w == -w0, 'the interior is filled')
                w0 = w
    elif kind in ('bicone', 'cut', 'rect'):
        if kind == 'bicone':
            E = sh.BiconeEdge(C, r, **({'hollow': h} if h else {}))
            corners = [{(c[0] + a * f * r, c[1] + b * f * r) for a, b in
                        ((1, 0), (-1, 0), (0, 1), (0, -1))}
                       for f in ((1.0, h) if h else (1.0,))]
        elif kind == 'rect':
            E = sh.RectangleEdge(c[0], c[1], r[0], r[1])
            corners = [{(c[0] + a * r[0], c[1] + b * r[1])
                        for a in (0, 1) for b in (0, 1)}]
        else:
            E = sh.CylinderCutEdge(C, r[0], r[1], **(
                {'hollow': h} if h else {}))
            ends = [(-r[0], -h * r[0]), (h * r[0], r[0])] if h else \
                [(-r[0], r[0])]
            corners = [{(c[0] + a, c[1] + b * r[1]) for a in e
                        for b in (-0.5, 0.5)} for e in ends]
        P = split(E)
        ctx.eq(len(P), len(corners), 'parts')
        ctx.eq(E.shape, (11 if len(P) == 2 else 5, 2), 'size')
        for p, q in zip(P, corners):
            ctx.ck(close(p[0], p[-1]), 'open curve')
            ctx.ck(close(sorted(map(tuple, p[:4])), sorted(q)),
                   'corners %s instead of %s', p, q)
            # no diagonal of a rectangle is an edge
            ctx.ck(abs(area(p)) > 0.99 * abs(hull_area(q)), 'order of corners')
        if kind == 'bicone' and h:
            ctx.ck(area(P[0]) * area(P[1]) < 0, 'the interior is filled')
    else:
        surfaces(sh, kind, C, r, h, n, kw, ctx)


def area(p):
    x, y = p[:, 0], p[:, 1]
    return 0.5 * float(np.dot(x, np.roll(y, -1)) - np.dot(y, np.roll(x, -1)))


def hull_area(q):
    c = np.mean(list(q), axis=0)
    p = np.array(sorted(q, key=lambda v: math.atan2(v[1] - c[1],
                                                    v[0] - c[0])))
    return area(p)


def surfaces(sh, kind, C, r, h, n, kw, ctx):
    if kind == 'ball':
        S = sh.BallSurface(C, r, **kw)
        v = draw.grid(S[0]).reshape(-1, 3)
        ctx.ck(close(np.sqrt(((v - C) ** 2).sum(1)), r), 'radius')
        ctx.ck(close(v[:, 2].max(), C[2] + r) and
               close(v[:, 2].min(), C[2] - r), 'poles')
        ctx.eq(draw.grid(S[0]).shape[0], n + 1, 'size')
    elif kind in ('cone', 'tube'):
        R, H, z = r
        f = sh.OpenConeSurface if kind == 'cone' else sh.CylinderSurface
        S = f(C, R, H, zaxis=z, **kw) if z != 2 else f(C, R, H, **kw)
        g = draw.grid(S[0])
        ctx.eq(g.shape[:2], (2 if kind == 'cone' else 5 if h else 4, n + 1),
               'size')
        v = g.reshape(-1, 3) - C
        t = v[:, z]
        q = np.sqrt((v ** 2).sum(1) - t * t)
        if kind == 'cone':
            ctx.ck(close(q, np.abs(t / H) * R), 'off the cone')
            ctx.ck(close(t.min(), min(0, H)) and close(t.max(), max(0, H)),
                   'height')
        else:
            ctx.ck(np.all((np.abs(q - R) < 1e-7) | (np.abs(q - h * R) < 1e-7)),
                   'off the cylinder')
            ctx.ck(close(np.abs(t), H / 2) and close(t.min(), -H / 2) and
                   close(t.max(), H / 2), 'height')
        # the section circles
        T = draw.triangles(S[0])
        c0 = C[z] + (0.37 * H if kind == 'cone' else 0.07 * H)
        seg = draw.section(T, z, c0).reshape(-1, 2)
        o = [k for k in range(3) if k != z]
        d = np.sqrt(((seg - C[o]) ** 2).sum(1))
        if kind == 'cone':
            ctx.ck(len(d) and np.all(d < 0.37 * R + 1e-9) and
                   np.all(d > 0.36 * R * math.cos(math.pi / n)), 'section')
        else:
            ctx.ck(len(d) and np.all(d < R + 1e-9), 'section')
    else:
        e = np.array([r, r, r] if kind == 'cubes' else r)
        S = sh.CubeSurface(C, r) if kind == 'cubes' else \
            sh.CuboidSurface(C, e)
        v = np.concatenate([draw.grid(s).reshape(-1, 3) for s in S])
        ctx.ck(close(np.abs(v - C) * 2, e), 'corners')
        ctx.eq(len({tuple(p) for p in np.sign(v - C)}), 8, 'corners')
        T = np.concatenate([draw.triangles(s) for s in S])
        for z in range(3):
            o = [k for k in range(3) if k != z]
            for c0 in (-0.453, 0.013, 0.377):
                Q = np.array(list(product((-0.55, -0.45, 0.011, 0.46, 0.53),
                                          repeat=2)))
                w = (np.abs(Q) < 0.5).all(1)
                seg = draw.section(T, z, C[z] + c0 * e[z])
                Y = Q * e[o] + C[o]
                for g in (draw.parity(seg, Y),
                          draw.parity(seg[:, :, ::-1], Y[:, ::-1])):
                    ctx.ck((g == w).all(), 'section %s of axis %d', c0, z)


# --- current axes ------------------------------------------------------------

def axes_cases():
    for name in ('ball', 'bicone', 'cylinder', 'cube', 'cuboid'):
        for h in (0.0, 0.5):
            if name[0] == 'c' and name[1] == 'u' and h:
                continue
            for dims in ([0, 1], [1, 2], [0, 1, 2]):
                yield [[name, 3, {'hollow': h} if h else {}], dims]


def check_axes(case, ctx):
    spec, dims = case
    S = make(spec)
    plt.close('all')
    fig, (a1, a2) = plt.subplots(1, 2, subplot_kw={
        'projection': '3d' if len(dims) == 3 else None})
    try:
        plt.sca(a1)
        for given in (None, a2):
            n = [len(a.patches) + len(a.collections) for a in (a1, a2)]
            out = S.plot(list(dims)) if given is None else \
                S.plot(list(dims), plotAxes=given)
            m = [len(a.patches) + len(a.collections) - k
                 for a, k in zip((a1, a2), n)]
            k = len(out) if len(dims) == 3 else 1
            ctx.states += 1
            ctx.eq(m, [k, 0] if given is None else [0, k],
                   'objects drawn in the current and the other axes')
    finally:
        plt.close('all')


def families(tier):
    t = tier == 'thorough'
    return [
        Family('plane', gen(2, 4, 41 if t else 15, t), check,
               'all ordered pairs of coordinates, dimensions 2 to 4'),
        Family('space', gen(3, 4, 13 if t else 7, t), check,
               'all ordered triples of coordinates, dimensions 3 and 4'),
        Family('outlines', gen_edges, check_edges,
               'outlines and surfaces by themselves'),
        Family('axes', axes_cases, check_axes, 'given and current axes'),
    ]
