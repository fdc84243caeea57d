'''Adapter to the code under test (public interface only).

Iteration orders of sets of events are a source of nondeterminism that Python
takes from memory addresses.  Here they are scheduled: every event gets a small
integer hash chosen by the harness, so that enumerating all *labelled* posets
(label = hash) also enumerates all iteration orders.
'''
import causets
from causets.causetevent import CausetEvent
from causets.causet import Causet
from mc.order import Poset, bits, mask

_next = [0]
_forced = [None]

if CausetEvent.__hash__ is object.__hash__:
    def _hash(self):
        d = self.__dict__
        h = d.get('_mc_hash')
        if h is None:
            if _forced[0] is not None:
                h, _forced[0] = _forced[0], None
            else:
                h = _next[0]
                _next[0] += 1
            d['_mc_hash'] = h
        return h

    CausetEvent.__hash__ = _hash
    SCHEDULED = True
else:  # the class defines its own hash; leave it alone
    SCHEDULED = False


def reset(k=0):
    _next[0] = k
    _forced[0] = None


def mk(h=None, **kw):
    '''new event with scheduled hash h'''
    e0 = None
    if h is not None:
        _forced[0] = h
    e0 = CausetEvent(**kw)
    hash(e0)
    _forced[0] = None
    return e0


def past_future(P, created, i):
    return P.dn[i] & created, P.up[i] & created


ROUTES = ('full', 'links', 'up', 'mid', 'matrix')


def number(i):
    return i + 1


# labels need not be unique (nor be there at all), and nothing but the
# functions that look for labels depends on them
LABELS = {'mid': lambda i: 3, 'up': lambda i: 'ab'[i % 2],
          'links': lambda i: None}


def build(P, route='full', label=False, order=None):
    '''list of events ev[i] realising the poset P.'''
    if label is False:
        label = LABELS.get(route, number)
    reset(P.n)
    n = P.n
    ev = [None] * n

    def L(i):
        return {} if label is None else {'label': label(i)}
    if route in ('full', 'links'):
        for i in P.linear_extension():
            past = P.dn[i] if route == 'full' else P.ldn[i]
            ev[i] = mk(i, past={ev[j] for j in bits(past)}, **L(i))
    elif route == 'up':
        for i in reversed(P.linear_extension()):
            ev[i] = mk(i, future={ev[j] for j in bits(P.up[i])}, **L(i))
    elif route == 'mid':
        created = 0
        for i in (order or range(n)):
            ev[i] = mk(i, past={ev[j] for j in bits(P.dn[i] & created)},
                       future={ev[j] for j in bits(P.up[i] & created)}, **L(i))
            created |= 1 << i
    elif route == 'matrix':
        import numpy as np
        reset(0)
        C = np.zeros((n, n), dtype=bool)
        for i in range(n):
            for j in bits(P.dn[i]):
                C[i, j] = True
        S = Causet.FromPastMatrix(C)
        for e in S:
            ev[e.Label - 1] = e
        if label is None:
            for e in ev:
                e.Label = None
        else:
            for i in range(n):
                ev[i].Label = label(i)
    return ev


def msk(ev, S):
    '''mask of a collection of events (foreign or repeated ones -> error)'''
    m = 0
    k = 0
    for e in S:
        k += 1
        for i, x in enumerate(ev):
            if x is e:
                m |= 1 << i
                break
        else:
            raise ForeignEvent()
    if bin(m).count('1') != k:
        raise ForeignEvent()
    return m


class ForeignEvent(Exception):
    pass


class Idx:
    '''fast mask conversion by identity'''

    def __init__(self, ev):
        self.ev = ev
        self.of = {id(e): i for i, e in enumerate(ev)}

    def m(self, S):
        of = self.of
        m = 0
        for e in S:
            b = 1 << of[id(e)]
            m |= b
        return m

    def strict(self, S):
        '''mask; raises if something occurs twice'''
        of = self.of
        m = 0
        for e in S:
            b = 1 << of[id(e)]
            if m & b:
                raise ForeignEvent()
            m |= b
        return m

    def s(self, m):
        return {self.ev[i] for i in bits(m)}

    def l(self, m):
        return [self.ev[i] for i in bits(m)]
