'''Reference geometry of the coordinate shapes (independent of the code).

A shape is described by [name, dim, params]; params in the documented keys.
'''
import math


def params(spec):
    name, d, kw = spec
    c = list(map(float, kw.get('center', [0.0] * d)))
    p = {'center': c}
    if name in ('ball', 'bicone', 'diamond', 'cylinder'):
        p['radius'] = float(kw.get('radius', 1.0))
        p['hollow'] = float(kw.get('hollow', 0.0))
        if name == 'cylinder':
            p['duration'] = float(kw.get('duration', 2 * p['radius']))
    elif name == 'cube':
        p['edges'] = [float(kw.get('edge', 1.0))] * d
    else:
        p['edges'] = list(map(float, kw.get('edges', [1.0] * d)))
    return p


def ball_volume(d):
    '''by the recursion V(d) = 2 pi / d V(d - 2)'''
    if d == 0:
        return 1.0
    if d == 1:
        return 2.0
    return 2 * math.pi / d * ball_volume(d - 2)


def volume(spec):
    name, d, kw = spec
    p = params(spec)
    if 'edges' in p:
        v = 1.0
        for e in p['edges']:
            v *= e
        return v
    r, h = p['radius'], p['hollow']
    if name == 'ball':
        return ball_volume(d) * r ** d * (1 - h ** d)
    if name == 'cylinder':
        return ball_volume(d - 1) * r ** (d - 1) * p['duration'] * \
            ((1 - h ** (d - 1)) if h > 0 else 1)
    # two cones of height r over a (d - 1)-ball of radius r
    return 2 * ball_volume(d - 1) * r ** d / d * (1 - h ** d)


def half_extent(spec, k):
    name, d, kw = spec
    p = params(spec)
    if 'edges' in p:
        return p['edges'][k] / 2
    if name == 'cylinder' and k == 0:
        return p['duration'] / 2
    return p['radius']


def extent(spec, k):
    c = params(spec)['center'][k]
    l = half_extent(spec, k)
    return c - l, c + l


def outside_by(spec, x):
    '''how far (in coordinate units, <= 0 if inside) the point is outside of
    the region or inside of the hollow interior'''
    name, d, kw = spec
    p = params(spec)
    y = [float(a) - b for a, b in zip(x, p['center'])]
    if any(math.isnan(a) for a in y):
        return math.inf
    if 'edges' in p:
        return max(abs(a) - e / 2 for a, e in zip(y, p['edges']))
    r, h = p['radius'], p['hollow']
    if name == 'ball':
        s = math.sqrt(sum(a * a for a in y))
        return max(s - r, h * r - s)
    s = math.sqrt(sum(a * a for a in y[1:]))
    if name == 'cylinder':
        out = abs(y[0]) - p['duration'] / 2
        if d > 1:
            out = max(out, s - r, h * r - s)
        return out
    g = abs(y[0]) + s
    return max(g - r, h * r - g)


def scale(spec):
    p = params(spec)
    return max(map(abs, p['center'])) + max(
        half_extent(spec, k) for k in range(spec[1]))


def _beta_half(x, k):
    '''distribution function of one coordinate of a uniform unit vector in R^k
    (k >= 2)'''
    # density proportional to (1 - x^2)^((k - 3) / 2)
    x = max(-1.0, min(1.0, x))
    def integral(p2, x):
        '''of (1 - s^2)^(p2 / 2) for s from 0 to x'''
        if p2 == -1:
            return math.asin(x)
        if p2 == 0:
            return x
        return (x * (1 - x * x) ** (p2 / 2) + p2 * integral(p2 - 2, x)) / (
            p2 + 1)
    return 0.5 + integral(k - 3, x) / (2 * integral(k - 3, 1.0))


def _direction(y):
    '''independent uniform features of the direction of y'''
    k = len(y)
    out = []
    if k == 0:
        return out
    for i in range(k - 2):
        n = math.sqrt(sum(a * a for a in y[i:]))
        out.append(_beta_half(y[i] / n if n > 0 else 0.0, k - i))
    if k == 1:
        # a sign, spread by the caller
        return [y[0]]
    out.append((math.atan2(y[-1], y[-2]) / (2 * math.pi)) % 1.0)
    return out


def features(spec, x):
    '''a map of the region to [0, 1]^dim that takes the uniform distribution
    to the uniform distribution'''
    name, d, kw = spec
    p = params(spec)
    y = [float(a) - b for a, b in zip(x, p['center'])]
    if 'edges' in p:
        return [a / e + 0.5 for a, e in zip(y, p['edges'])]
    r, h = p['radius'], p['hollow']
    if name == 'ball':
        return _ballfeatures(y, r, h)
    if name == 'cylinder':
        return [y[0] / p['duration'] + 0.5] + _ballfeatures(y[1:], r, h)
    # bicone
    t, z = abs(y[0]), math.sqrt(sum(a * a for a in y[1:]))
    g = t + z
    if d == 1:
        s = (g / r - h) / (1 - h)
        return [0.5 + math.copysign(s, y[0]) / 2]
    s = ((g / r) ** d - h ** d) / (1 - h ** d)
    u = t / g if g > 0 else 0.0
    f = 1 - (1 - u) ** (d - 1)         # P(|t| / g <= u)
    ft = 0.5 + math.copysign(f, y[0]) / 2
    if d == 2:
        # the sign of x and the gauge together
        return [ft, 0.5 + math.copysign(s, y[1]) / 2]
    return [ft, s] + _direction(y[1:])


def _ballfeatures(y, r, h):
    k = len(y)
    if k == 0:
        return []
    g = math.sqrt(sum(a * a for a in y)) / r
    s = (g ** k - h ** k) / (1 - h ** k)
    if k == 1:
        return [0.5 + math.copysign(s, y[0]) / 2]
    return [s] + _direction(y)
