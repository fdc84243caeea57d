'''C16: causality is a partial order on every point set, with the symmetries
of the spacetime.'''
from itertools import permutations, product
import numpy as np
from mc.core import Family
from mc import lightcone as lc, lattices

PROPERTY = 'C16'
RULE = ('states: points; transitions: pair answers and triples checked for '
        'transitivity; a trace is one spacetime with all pairs and triples of '
        'a point lattice')
ASSUMPTIONS = ['triples and images with a pair closer than 1e-9 to a light '
               'cone are left out in curved spacetimes (rounding)']
EPS = 1e-9


def points(spec):
    kind, dim, par, size = spec
    if kind == 'flat':
        tmax, xmax, scale = size
        return [[c * scale for c in p]
                for p in lattices.flat_points(dim, tmax, xmax)]
    return lattices.curved_points(kind, dim, par, size)


def near(spec, pts):
    '''matrix of pairs that are too close to a light cone'''
    kind, dim, par, size = spec
    n = len(pts)
    N = np.zeros((n, n), dtype=bool)
    if kind == 'flat':
        return N
    o = lc.of(kind, par)
    for i, x in enumerate(pts):
        for j, y in enumerate(pts):
            N[i, j] = o(x, y)[1] < EPS
    return N


def relation(f, pts, ctx):
    n = len(pts)
    L = np.zeros((n, n), dtype=bool)   # first answer: x <= y
    G = np.zeros((n, n), dtype=bool)   # second answer: x > y
    A = [np.array(p, dtype=float) for p in pts]
    for i in range(n):
        for j in range(n):
            a = f(A[i], A[j])
            L[i, j], G[i, j] = bool(a[0]), bool(a[1])
    ctx.transitions += n * n
    ctx.states += n
    return L, G


def beyond(spec, p):
    kind, dim, par, size = spec
    return kind == 'dS' and sum(c * c for c in p[1:]) >= par * par


def images(spec, pts):
    '''index matrix of coincident images of periodic points'''
    kind, dim, par, size = spec
    n = len(pts)
    I = np.eye(n, dtype=bool)
    if kind == 'flat' and par is not None:
        per = par if isinstance(par, list) else [par] * (dim - 1)
        for i in range(n):
            for j in range(n):
                I[i, j] = pts[i][0] == pts[j][0] and all(
                    ((a - b) % p == 0 if p > 0 else a == b)
                    for a, b, p in zip(pts[i][1:], pts[j][1:], per))
    return I


def check_order(spec, ctx):
    kind, dim, par, size = spec
    f = lc.make(kind, dim, par).Causality()
    pts = points(spec)
    n = len(pts)
    L, G = relation(f, pts, ctx)
    N = near(spec, pts)
    I = images(spec, pts)
    out = np.array([beyond(spec, p) for p in pts])
    for i in range(n):
        want = (not out[i], False)
        if (L[i, i], G[i, i]) != want:
            ctx.eq((L[i, i], G[i, i]), want, 'Causality(x, x) at %s', pts[i])
    bad = np.argwhere(L & G)
    if len(bad):
        i, j = bad[0]
        ctx.ck(False, 'both answers for %s, %s' % (pts[i], pts[j]))
    off = ~I & ~N
    bad = np.argwhere((L & L.T) & off)
    if len(bad):
        i, j = bad[0]
        ctx.ck(False, 'antisymmetry: %s, %s' % (pts[i], pts[j]))
    bad = np.argwhere((G != L.T) & off)
    if len(bad):
        i, j = bad[0]
        ctx.ck(False, 'the answer for %s, %s does not fit to the exchanged '
               'arguments: %s, %s' % (pts[i], pts[j], (L[i, j], G[i, j]),
                                      (L[j, i], G[j, i])))
    if out.any() and (L[out].any() or L[:, out].any() or G[out].any()
                      or G[:, out].any()):
        ctx.ck(False, 'relation to a point beyond the horizon')
    # transitivity, over all triples
    S = (L & ~N)
    two = (S.astype(np.float32) @ S.astype(np.float32)) > 0
    bad = np.argwhere(two & ~L & ~N)
    ctx.transitions += int(S.sum()) * 2
    ctx.count('triples', n ** 3)
    if len(bad):
        i, k = bad[0]
        j = int(np.argwhere(S[i] & S[:, k])[0][0])
        ctx.ck(False, 'transitivity: %s <= %s <= %s' % (pts[i], pts[j],
                                                       pts[k]))


def transforms(spec):
    '''symmetries: name, function of points'''
    kind, dim, par, size = spec
    unit = 1.0 if kind == 'flat' else par
    for s in (-2.5, 0.75, 3.0, 40.0, -512.0):
        yield 'time translation by %s' % (s * unit), \
            (lambda p, s=s: [p[0] + s * unit] + p[1:]), 1
    yield 'time reversal', (lambda p: [-p[0]] + p[1:]), -1
    if dim == 1:
        return
    per = None
    if kind == 'flat' and par is not None:
        per = par if isinstance(par, list) else [par] * (dim - 1)
    for k in range(1, dim):
        yield 'reflection of coordinate %d' % k, \
            (lambda p, k=k: p[:k] + [-p[k]] + p[k + 1:]), 1
    for perm in permutations(range(1, dim)):
        if per is not None and any(per[a - 1] != per[b - 1]
                                   for a, b in zip(range(1, dim), perm)):
            continue
        if list(perm) != list(range(1, dim)):
            yield 'permutation %s' % (perm,), \
                (lambda p, perm=perm: [p[0]] + [p[k] for k in perm]), 1
    if kind == 'flat':
        for k in range(1, dim):
            for s in (0.5, -3.0, 8.25):
                yield 'translation of coordinate %d by %s' % (k, s), \
                    (lambda p, k=k, s=s: p[:k] + [p[k] + s] + p[k + 1:]), 1
    if dim > 2 and (per is None or not any(per)):
        c, s = 0.6, 0.8
        for a in range(1, dim):
            for b in range(a + 1, dim):
                def rot(p, a=a, b=b):
                    q = list(p)
                    q[a], q[b] = c * p[a] - s * p[b], s * p[a] + c * p[b]
                    return q
                yield 'rotation in plane %d, %d' % (a, b), rot, 1


def check_symmetry(spec, ctx):
    kind, dim, par, size = spec
    f = lc.make(kind, dim, par).Causality()
    pts = points(spec)
    L, G = relation(f, pts, ctx)
    N = near(spec, pts)
    I = images(spec, pts)
    out = [beyond(spec, p) for p in pts]
    for name, T, sign in transforms(spec):
        if name == 'time reversal' and kind in ('EF',):
            continue   # not static
        if name == 'time reversal' and kind == 'S':
            # a symmetry outside of the horizon, only
            ok = np.array([abs(p[1]) > par for p in pts])
            ok = ok[:, None] & ok[None, :]
        else:
            ok = np.ones(L.shape, dtype=bool)
        # a sample of each rotation plane is exact for flat lattices
        L2, G2 = relation(f, [T(p) for p in pts], ctx)
        if sign < 0:
            L2, G2 = L2.T, G2.T
        # sums of decimals are off by rounding for coincident images
        bad = np.argwhere((L != L2) & ~N & ~I & ok)
        if len(bad):
            i, j = bad[0]
            ctx.ck(False, '%s changes the relation of %s, %s from %s to %s'
                   % (name, pts[i], pts[j], L[i, j], L2[i, j]))


def check_monotone(spec, ctx):
    '''later points on the same worldline stay in the future'''
    kind, dim, par, size = spec
    f = lc.make(kind, dim, par).Causality()
    pts = points(spec)
    L, G = relation(f, pts, ctx)
    N = near(spec, pts)
    pos = {}
    for i, p in enumerate(pts):
        if kind in ('EF', 'S') and abs(p[1]) < par:
            continue
        if beyond(spec, p):
            continue
        pos.setdefault(tuple(p[1:]), []).append((p[0], i))
    for line in pos.values():
        line.sort()
        idx = [i for _, i in line]
        for (i, j) in zip(idx, idx[1:]):
            bad = np.argwhere(L[:, i] & ~L[:, j] & ~N[:, i] & ~N[:, j])
            if len(bad):
                ctx.ck(False, '%s precedes %s but not the later %s'
                       % (pts[bad[0][0]], pts[i], pts[j]))
            if not L[i, j]:
                ctx.ck(False, '%s does not precede the later %s'
                       % (pts[i], pts[j]))
            ctx.transitions += len(pts)


def specs(tier):
    q = tier == 'quick'
    out = [['flat', 1, None, [5, 0, 0.5]],
           ['flat', 2, None, [7, 7, 1.0]], ['flat', 2, None, [5, 5, 0.1]],
           ['flat', 3, None, [2, 2, 1.0]], ['flat', 3, None, [2, 2, 0.1]],
           ['flat', 4, None, [2, 1, 1.0]], ['flat', 5, None, [1, 1, 0.5]],
           ['flat', 2, 2.0, [5, 6, 0.5]], ['flat', 2, [1.5], [4, 7, 0.25]],
           ['flat', 2, 3.0, [3, 12, 1.0]],
           ['flat', 3, 1.5, [2, 3, 0.5]], ['flat', 3, [1.0, 0.0], [2, 2, 0.5]],
           ['flat', 3, [0.0, 2.0], [2, 3, 0.5]],
           ['flat', 4, 1.0, [2, 1, 0.5]],
           ['flat', 3, [-1.0, 1.5], [2, 2, 0.5]],
           ['flat', 4, [0.0, 0.75, 1.25], [1, 2, 0.25]]]
    for par in (1.0, 0.5):
        for kind in ('dS', 'AdS'):
            out += [[kind, 2, par, 1], [kind, 3, par, 0]]
        for kind in ('EF', 'S'):
            out += [[kind, 2, par, 1]]
    if not q:
        out += [['flat', 2, None, [15, 15, 1.0]],
                ['flat', 3, None, [4, 4, 1.0]],
                ['flat', 4, None, [3, 2, 1.0]],
                ['flat', 3, [1.5, 0.75], [4, 4, 0.25]],
                ['dS', 3, 1.0, 1], ['AdS', 3, 1.0, 1],
                ['dS', 4, 1.0, 0], ['AdS', 4, 1.0, 0]]
    return out


def small_specs(tier):
    out = [s for s in specs(tier) if s[0] != 'flat' or s[1] < 4]
    out += [['flat', 4, None, [1, 1, 1.0]], ['flat', 4, 1.0, [1, 1, 0.5]]]
    return [s for s in out if s != ['flat', 2, None, [15, 15, 1.0]] and
            s[1:] not in ([4, 1.0, 0], [3, 1.0, 1])]


def families(tier):
    return [Family('order', lambda: specs(tier), check_order,
                   'all pairs and triples of the point lattices'),
            Family('symmetry', lambda: small_specs(tier), check_symmetry,
                   'all pairs of the lattices and their images under '
                   'translations, reflections, rotations and permutations'),
            Family('monotone', lambda: small_specs(tier), check_monotone,
                   'all pairs and later points on the same worldline')]
