'''Independent oracles of the causal relation between two points.

Each oracle returns a pair (relation, margin): relation is -1 if x is in the
causal past of y, +1 if it is in the causal future, 0 if neither (2 if x and y
coincide); margin says how far (in a suitable measure) the pair is from the
light cone or from any other point of discontinuity.  None stands for a pair
whose relation is not decided by the oracle (beyond a coordinate boundary).
'''
import math
from fractions import Fraction


def flat(x, y, periods=None):
    '''exact rational arithmetic'''
    d = [Fraction(b) - Fraction(a) for a, b in zip(x, y)]
    r2 = 0
    for i, s in enumerate(d[1:]):
        p = Fraction(periods[i]) if periods is not None else 0
        if p > 0:
            k = math.floor(s / p)
            s = min(abs(s - k * p), abs(s - (k + 1) * p))
        r2 += s * s
    q = d[0] * d[0] - r2
    if d[0] == 0 and r2 == 0:
        # one event, or an image of it
        return 2, Fraction(1)
    rel = 0 if q < 0 else (-1 if d[0] > 0 else 1)
    return rel, abs(q)


def _optical(x, y, alpha, dist):
    dt = y[0] - x[0]
    l = alpha * dist
    if list(x) == list(y):
        return 2, 1.0
    if abs(dt) < l:
        return 0, l - abs(dt)
    return (-1 if dt > 0 else 1), abs(dt) - l


def deSitter(x, y, alpha):
    '''static patch: the optical geometry is the hyperbolic space (Klein
    model), so light needs the time alpha * hyperbolic distance'''
    a = [c / alpha for c in x[1:]]
    b = [c / alpha for c in y[1:]]
    na, nb = 1 - sum(c * c for c in a), 1 - sum(c * c for c in b)
    if na <= 0 or nb <= 0:
        return 0, min(abs(na), abs(nb)) if min(abs(na), abs(nb)) > 0 else 1.0
    c = (1 - sum(p * q for p, q in zip(a, b))) / math.sqrt(na * nb)
    return _optical(x, y, alpha, math.acosh(max(1.0, c)))


def antideSitter(x, y, alpha):
    '''the optical geometry is a hemisphere'''
    a = [c / alpha for c in x[1:]]
    b = [c / alpha for c in y[1:]]
    na, nb = 1 + sum(c * c for c in a), 1 + sum(c * c for c in b)
    c = (1 + sum(p * q for p, q in zip(a, b))) / math.sqrt(na * nb)
    return _optical(x, y, alpha, math.acos(max(-1.0, min(1.0, c))))


def blackhole(x, y, rs, metric):
    '''null coordinates of Kruskal: V grows along v, U is negative outside and
    positive inside of the horizon; future directed causal curves do not
    decrease V and U.'''
    if x[1] * y[1] < 0:
        return 0, 1.0
    if list(x) == list(y):
        return 2, 1.0

    def vu(p):
        r = abs(p[1])
        rstar = r + rs * math.log(abs(r / rs - 1))
        v = p[0] + (r if metric == 'Eddington-Finkelstein' else rstar)
        u = v - 2 * rstar      # t - r* (outside), same formula inside
        # order U = -exp(-u/2rs) outside, +exp(-u/2rs) inside
        key = (0, u) if r > rs else (1, -u)
        return v, key
    vx, kx = vu(x)
    vy, ky = vu(y)
    m = abs(vx - vy)
    if kx[0] == ky[0]:
        m = min(m, abs(kx[1] - ky[1]))
    if vx <= vy and kx <= ky:
        return -1, m
    if vy <= vx and ky <= kx:
        return 1, m
    return 0, m


def of(kind, par):
    '''oracle function of a spacetime description'''
    if kind == 'flat':
        return lambda x, y: flat(x, y, par)
    if kind == 'dS':
        return lambda x, y: deSitter(x, y, par)
    if kind == 'AdS':
        return lambda x, y: antideSitter(x, y, par)
    if kind in ('EF', 'S'):
        m = 'Eddington-Finkelstein' if kind == 'EF' else 'Schwarzschild'
        return lambda x, y: blackhole(x, y, par, m)
    raise ValueError(kind)


def make(kind, dim, par):
    '''the spacetime under test'''
    from causets import spacetimes as st
    if kind == 'flat':
        if par is None:
            return st.FlatSpacetime(dim)
        if isinstance(par, (list, tuple)):
            return st.FlatSpacetime(dim, tuple(par))
        return st.FlatSpacetime(dim, float(par))
    if kind == 'dS':
        return st.deSitterSpacetime(dim, par)
    if kind == 'AdS':
        return st.AntideSitterSpacetime(dim, par)
    return st.BlackHoleSpacetime(dim, par, 'Eddington-Finkelstein'
                                 if kind == 'EF' else 'Schwarzschild')


def answer(rel):
    '''expected pair of the causality function'''
    return {-1: (True, False), 1: (False, True), 0: (False, False),
            2: (True, False)}[rel]
