'''Stand-ins for matplotlib axes that record what is drawn, and the regions
covered by drawn patches and surfaces.'''
import math
import numpy as np
from mc.core import Violation


class Spy:
    '''records every call of a drawing method; returns a fresh handle'''

    def __init__(self, real=None):
        self.calls = []
        self.patches = []
        self.surfaces = []

    def add_patch(self, p):
        self.calls.append('add_patch')
        self.patches.append(p)
        return p

    add_artist = add_patch

    def plot_surface(self, X, Y, Z, **kw):
        self.calls.append('plot_surface')
        self.surfaces.append((X, Y, Z, dict(kw)))
        return ('surface', len(self.surfaces))


def polygons(patch):
    '''vertices of the sub-paths of a patch in data coordinates'''
    tr = patch.get_patch_transform()
    path = patch.get_path()
    out = []
    if path.codes is not None and any(c in (3, 4) for c in path.codes):
        path = path.transformed(tr)
        return [np.array(p) for p in
                path.to_polygons(closed_only=False)] if len(
                    path.vertices) > 400 else [flatten(path)]
    v = np.array(tr.transform(path.vertices))
    cur = []
    n = len(v)
    for i, p in enumerate(v):
        code = None if path.codes is None else path.codes[i]
        if code == 79:      # closing vertex, its position is ignored
            if i == n - 1:
                continue
        if code == 1 and cur:
            out.append(np.array(cur))
            cur = []
        if np.isnan(p).any():
            if cur:
                out.append(np.array(cur))
            cur = []
        else:
            cur.append(p)
    if cur:
        out.append(np.array(cur))
    return out


def flatten(path, n=16):
    '''polygon of a path of cubic curves (one sub-path)'''
    v, c = path.vertices, path.codes
    pts = [v[0]]
    i = 1
    while i < len(v):
        if c[i] == 4:
            p0, p1, p2, p3 = pts[-1], v[i], v[i + 1], v[i + 2]
            for k in range(1, n + 1):
                t = k / n
                pts.append((1 - t)**3 * p0 + 3 * (1 - t)**2 * t * p1 +
                           3 * (1 - t) * t * t * p2 + t**3 * p3)
            i += 3
        elif c[i] == 3:
            p0, p1, p2 = pts[-1], v[i], v[i + 1]
            for k in range(1, n + 1):
                t = k / n
                pts.append((1 - t)**2 * p0 + 2 * (1 - t) * t * p1 + t * t * p2)
            i += 2
        else:
            if c[i] != 79:
                pts.append(v[i])
            i += 1
    return np.array(pts)


def winding(polys, q):
    '''non-zero winding rule (as filled by matplotlib) for probes q (k x 2)'''
    q = np.asarray(q, float)
    w = np.zeros(len(q), int)
    for P in polys:
        if len(P) < 2:
            continue
        a = P
        b = np.roll(P, -1, axis=0)
        ay, by = a[:, 1][None, :], b[:, 1][None, :]
        y = q[:, 1][:, None]
        up = (ay <= y) & (by > y)
        dn = (by <= y) & (ay > y)
        with np.errstate(all='ignore'):
            x = a[:, 0][None, :] + (y - ay) / (by - ay) * \
                (b[:, 0] - a[:, 0])[None, :]
        right = x > q[:, 0][:, None]
        w += (up & right).sum(1) - (dn & right).sum(1)
    return w != 0


def extent(polys):
    v = np.concatenate(polys)
    return v.min(0), v.max(0)


def grid(S):
    '''(m x n x 3) vertices of a surface'''
    X, Y, Z = np.broadcast_arrays(*[np.asarray(a, float) for a in S[:3]])
    return np.stack([X, Y, Z], axis=-1)


def triangles(S):
    P = grid(S)
    a, b, c, d = P[:-1, :-1], P[1:, :-1], P[1:, 1:], P[:-1, 1:]
    t1 = np.stack([a, b, c], axis=2).reshape(-1, 3, 3)
    t2 = np.stack([a, c, d], axis=2).reshape(-1, 3, 3)
    return np.concatenate([t1, t2])


def section(tri, axis, c):
    '''segments in which triangles cut the plane x[axis] = c (no vertex lies
    on the plane); the coordinates of the other axes in ascending order'''
    o = [k for k in range(3) if k != axis]
    s = tri[:, :, axis] > c
    k = s.sum(1)
    out = []
    for one in (1, 2):
        T, m = tri[k == one], s[k == one]
        if not len(T):
            continue
        if one == 2:
            m = ~m
        i = m.argmax(1)
        r = np.arange(len(T))
        A, B, C = T[r, i], T[r, (i + 1) % 3], T[r, (i + 2) % 3]

        def cut(P, Q):
            t = ((c - P[:, axis]) / (Q[:, axis] - P[:, axis]))[:, None]
            return (P + t * (Q - P))[:, o]
        out.append(np.stack([cut(A, B), cut(A, C)], axis=1))
    return np.concatenate(out) if out else np.zeros((0, 2, 2))


def parity(seg, q):
    '''even-odd rule of unordered segments (a wall that is drawn several times
    counts once)'''
    q = np.asarray(q, float)
    if not len(seg):
        return np.zeros(len(q), bool)
    out = np.zeros(len(q), bool)
    rows = {}
    for k, y in enumerate(q[:, 1]):
        rows.setdefault(float(y), []).append(k)
    span = np.abs(seg).max() + 1.0
    for y, ks in rows.items():
        a, b = seg[:, 0], seg[:, 1]
        hit = (a[:, 1] <= y) != (b[:, 1] <= y)
        a, b = a[hit], b[hit]
        x = np.sort(a[:, 0] + (y - a[:, 1]) / (b[:, 1] - a[:, 1]) *
                    (b[:, 0] - a[:, 0]))
        if len(x) > 1:
            x = x[np.append(True, np.diff(x) > 1e-10 * span)]
        n = len(x) - np.searchsorted(x, q[ks, 0], side='right')
        out[ks] = n % 2 == 1
    return out


def turns(probe):
    '''probe(shift) with a slightly different shift of all probe points if it
    reports a violation: rays of probes that happen to run through vertices of
    a surface are undecided'''
    last = None
    for shift in (np.zeros(3), np.array([3.1e-5, -1.7e-5, 2.3e-5]),
                  np.array([-4.3e-5, 2.9e-5, 1.3e-5])):
        try:
            return probe(shift)
        except Violation as e:
            last = e
    raise last


class Handle:
    def __init__(self, rec):
        self.rec = rec


class PlotSpy(Spy):
    '''axes that record lines, texts, limits and aspect as well'''

    def __init__(self):
        super().__init__()
        self.lines = []      # records: dict(kind, X, kw, handle)
        self.texts = []
        self.limits = {}
        self.aspect = None
        self.axis_on = True

    def plot(self, *xs, **kw):
        for k in ('xs', 'ys', 'zs'):
            if k in kw:
                xs += (kw.pop(k),)
        rec = {'X': np.array([np.asarray(x, float).ravel() for x in xs]).T,
               'kw': dict(kw)}
        rec['kw'] = {k: list(v) if k == 'markevery' else v
                     for k, v in rec['kw'].items()}
        h = Handle(rec)
        rec['h'] = h
        self.lines.append(rec)
        return [h]

    def text(self, *args, **kw):
        for k in ('x', 'y', 'z', 's'):
            if k in kw:
                args += (kw.pop(k),)
        rec = {'X': np.array([float(a) for a in args[:-1]]),
               's': args[-1], 'kw': dict(kw)}
        h = Handle(rec)
        rec['h'] = h
        self.texts.append(rec)
        return h

    def set(self, **kw):
        for k, v in kw.items():
            getattr(self, 'set_' + k)(v)

    def _lim(self, k, *ab, **kw):
        ab += tuple(kw[n] for n in ('left', 'bottom', k + 'min', 'right',
                                    'top', k + 'max') if n in kw)
        self.limits[k] = tuple(map(float, ab[0] if len(ab) == 1 else ab))

    def set_xlim(self, *ab, **kw):
        self._lim('x', *ab, **kw)

    def set_ylim(self, *ab, **kw):
        self._lim('y', *ab, **kw)

    def set_zlim(self, *ab, **kw):
        self._lim('z', *ab, **kw)

    set_xlim3d, set_ylim3d, set_zlim3d = set_xlim, set_ylim, set_zlim

    def axis(self, arg=None, **kw):
        if arg in ('off', False):
            self.axis_on = False
        elif arg is not None and not isinstance(arg, str):
            for k in range(len(arg) // 2):
                self._lim('xyz'[k], *arg[2 * k:2 * k + 2])

    def set_aspect(self, *a, **kw):
        self.aspect = list(a) + sorted(kw.values())

    def set_axis_off(self):
        self.axis_on = False
