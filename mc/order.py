'''Bit-mask reference model of finite partial orders, and exhaustive
enumerators.  Nothing in this file looks at the code under test.

A poset on {0..n-1} is a tuple `dn` of ints; bit j of dn[i] is set iff j < i.
'''
from functools import lru_cache
from itertools import combinations, permutations, product
from math import gcd
import os


def bits(m):
    while m:
        b = m & -m
        yield b.bit_length() - 1
        m ^= b


def mask(it):
    m = 0
    for i in it:
        m |= 1 << i
    return m


def popcount(m):
    return bin(m).count('1')


class Poset:
    __slots__ = ('n', 'dn', 'up', '_lk', 'full')

    def __init__(self, dn):
        self.dn = tuple(dn)
        self.n = n = len(self.dn)
        self.full = (1 << n) - 1
        up = [0] * n
        for i in range(n):
            for j in bits(self.dn[i]):
                up[j] |= 1 << i
        self.up = tuple(up)
        self._lk = None

    def lt(self, i, j):
        return bool(self.dn[j] >> i & 1)

    def le(self, i, j):
        return i == j or bool(self.dn[j] >> i & 1)

    def related(self, i, j):
        return self.lt(i, j) or self.lt(j, i)

    @property
    def lk(self):
        '''(ldn, lup): covering relation.'''
        if self._lk is None:
            n = self.n
            ldn = [0] * n
            lup = [0] * n
            for j in range(n):
                for i in bits(self.dn[j]):
                    if not (self.up[i] & self.dn[j]):
                        ldn[j] |= 1 << i
                        lup[i] |= 1 << j
            self._lk = (tuple(ldn), tuple(lup))
        return self._lk

    @property
    def ldn(self):
        return self.lk[0]

    @property
    def lup(self):
        return self.lk[1]

    def cone(self, i):
        return self.dn[i] | self.up[i] | 1 << i

    def interval(self, i, j):
        '''closed interval'''
        if not self.le(i, j):
            return 0
        return (self.up[i] | 1 << i) & (self.dn[j] | 1 << j)

    def minimal(self, s):
        return mask(i for i in bits(s) if not self.dn[i] & s)

    def maximal(self, s):
        return mask(i for i in bits(s) if not self.up[i] & s)

    def components(self, s):
        out = []
        while s:
            c = s & -s
            while True:
                d = c
                for i in bits(c):
                    d |= (self.dn[i] | self.up[i]) & s
                if d == c:
                    break
                c = d
            out.append(c)
            s &= ~c
        return out

    def conn(self, s):
        '''closure of s under past and future'''
        while True:
            d = s
            for i in bits(s):
                d |= self.dn[i] | self.up[i]
            if d == s:
                return s
            s = d

    def is_chain(self, s):
        return all(self.related(i, j) for i, j in combinations(bits(s), 2))

    def is_antichain(self, s):
        return not any(self.related(i, j) for i, j in combinations(bits(s), 2))

    def link_paths(self, a, b):
        '''all saturated chains a -> b'''
        if a == b:
            return [(a,)]
        if not self.lt(a, b):
            return []
        out = []
        for c in bits(self.lup[a]):
            if self.le(c, b):
                out.extend((a,) + p for p in self.link_paths(c, b))
        return out

    def rank(self, a, b):
        '''number of links of a shortest link path, None if not a <= b'''
        if not self.le(a, b):
            return None
        front = 1 << a
        r = 0
        while not front >> b & 1:
            nxt = 0
            for i in bits(front):
                nxt |= self.lup[i]
            front = nxt
            r += 1
        return r

    def antichains(self, s=None):
        '''all antichains (masks) inside s'''
        s = self.full if s is None else s
        els = list(bits(s))

        def rec(k, cur, forb):
            if k == len(els):
                yield cur
                return
            i = els[k]
            yield from rec(k + 1, cur, forb)
            if not forb >> i & 1:
                yield from rec(k + 1, cur | 1 << i,
                               forb | self.dn[i] | self.up[i])
        yield from rec(0, 0, 0)

    def downsets(self):
        for s in range(1 << self.n):
            if all(self.dn[i] & ~s == 0 for i in bits(s)):
                yield s

    def relabel(self, p):
        '''element i becomes p[i]'''
        dn = [0] * self.n
        for i in range(self.n):
            dn[p[i]] = mask(p[j] for j in bits(self.dn[i]))
        return Poset(dn)

    def sub(self, s):
        els = list(bits(s))
        pos = {e: k for k, e in enumerate(els)}
        return Poset(mask(pos[j] for j in bits(self.dn[i] & s)) for i in els)

    def linear_extension(self):
        return sorted(range(self.n), key=lambda i: popcount(self.dn[i]))

    def __repr__(self):
        return 'Poset(%s)' % (list(self.dn),)


def closure(n, pairs):
    '''transitive closure of (i below j) pairs; returns dn list or None if
    there is a loop.'''
    dn = [0] * n
    for i, j in pairs:
        dn[j] |= 1 << i
    for k in range(n):
        for j in range(n):
            if dn[j] >> k & 1:
                dn[j] |= dn[k]
    if any(dn[j] >> j & 1 for j in range(n)):
        return None
    return dn


# ---------------------------------------------------------------------------
# enumerators

COUNT_LABELLED = [1, 1, 3, 19, 219, 4231, 130023]       # OEIS A001035
COUNT_NATURAL = [1, 1, 2, 7, 40, 357, 4824, 96428]      # OEIS A006455
COUNT_UNLABELLED = [1, 1, 2, 5, 16, 63, 318, 2045, 16999]  # OEIS A000112


def extensions(dn):
    '''all posets on n+1 elements whose restriction to the first n is dn:
    pairs (D, U) with D a down-set, U an up-set, D x U related.'''
    P = Poset(dn)
    n = P.n
    downs = list(P.downsets())
    for D in downs:
        # U has to be an up-set inside the common strict future of D
        common = P.full & ~D
        for i in bits(D):
            common &= P.up[i]
        sub = list(bits(common))
        for k in range(1 << len(sub)):
            U = mask(sub[t] for t in range(len(sub)) if k >> t & 1)
            if any(P.up[i] & ~U for i in bits(U)):
                continue
            new = [dn[i] | (1 << n if U >> i & 1 else 0) for i in range(n)]
            new.append(D)
            yield tuple(new)


def labelled(n):
    '''all partial orders on {0..n-1}, each exactly once.'''
    if n == 0:
        yield ()
        return
    for dn in labelled(n - 1):
        yield from extensions(dn)


def natural(n):
    '''all naturally labelled posets (i < j in the order implies i < j).'''
    if n == 0:
        yield ()
        return
    for dn in natural(n - 1):
        for D in Poset(dn).downsets():
            yield dn + (D,)


def canonical(dn):
    '''canonical form under isomorphism (colour refinement + search).'''
    P = Poset(dn)
    n = P.n
    if n == 0:
        return ()
    col = [(popcount(P.dn[i]), popcount(P.up[i]), popcount(P.ldn[i]),
            popcount(P.lup[i])) for i in range(n)]
    while True:
        names = {c: k for k, c in enumerate(sorted(set(col)))}
        cur = [names[c] for c in col]
        new = [(cur[i], tuple(sorted(cur[j] for j in bits(P.ldn[i]))),
                tuple(sorted(cur[j] for j in bits(P.lup[i]))))
               for i in range(n)]
        if len(set(new)) == len(set(cur)):
            break
        col = new
    # colours ordered so that the relabelling is natural (|dn| leads)
    classes = {}
    for i in range(n):
        classes.setdefault(cur[i], []).append(i)
    # merge elements that are twins (same past and future): no permutation
    best = None
    groups = [classes[k] for k in sorted(classes)]
    opts = []
    for g in groups:
        seen = set()
        o = []
        for p in permutations(g):
            key = tuple((P.dn[i], P.up[i]) for i in p)
            if key not in seen:
                seen.add(key)
                o.append(p)
        opts.append(o)
    for combo in product(*opts):
        order = [i for g in combo for i in g]
        pos = [0] * n
        for k, i in enumerate(order):
            pos[i] = k
        d = tuple(mask(pos[j] for j in bits(P.dn[i])) for i in order)
        if best is None or d < best:
            best = d
    return best


_DATA = os.path.join(os.path.dirname(__file__), 'data')


@lru_cache(None)
def unlabelled(n):
    '''one naturally labelled representative per isomorphism class.'''
    f = os.path.join(_DATA, 'unlabelled_%d.txt' % n)
    if os.path.exists(f):
        with open(f) as fh:
            out = [tuple(int(x) for x in line.split()) for line in fh
                   if n == 0 or line.strip()]
        return out
    if n == 0:
        return [()]
    seen = {}
    for dn in unlabelled(n - 1):
        for D in Poset(dn).downsets():
            c = canonical(dn + (D,))
            if c not in seen:
                seen[c] = 1
    return sorted(seen)


# ---------------------------------------------------------------------------
# parametric families beyond the enumeration bound


def chain(n):
    return tuple((1 << i) - 1 for i in range(n))


def antichain(n):
    return (0,) * n


def crown(n, closed=True):
    dn = [0] * (2 * n)
    for l in range(n):
        dn[n + l] |= 1 << l
        if l > 0 or closed:
            dn[n + l] |= 1 << ((l - 1) % n)
    return tuple(dn)


def fence(length, height, closed):
    n = length * (height + 1)
    pairs = []
    for h in range(1, height + 1):
        for l in range(length):
            pairs.append(((h - 1) * length + l, h * length + l))
            if l > 0 or closed:
                pairs.append(((h - 1) * length + (l - 1) % length,
                              h * length + l))
    return tuple(closure(n, pairs))


def grid(a, b):
    n = a * b
    return tuple(mask(x * b + y for x in range(i // b + 1)
                      for y in range(i % b + 1) if x * b + y != i)
                 for i in range(n))


def boolean(d):
    return tuple(mask(j for j in range(1 << d) if j != i and j & i == j)
                 for i in range(1 << d))


def layered_complete(*sizes):
    dn = []
    below = 0
    for s in sizes:
        k = len(dn)
        dn.extend([below] * s)
        below |= mask(range(k, k + s))
    return tuple(dn)


def ladder(n):
    '''zigzag links between two chains'''
    pairs = []
    for i in range(n - 1):
        pairs.append((2 * i, 2 * i + 2))
        pairs.append((2 * i + 1, 2 * i + 3))
        pairs.append((2 * i, 2 * i + 3))
    return tuple(closure(2 * n, pairs))


def big_family():
    fam = [chain(n) for n in (8, 10, 12)] + [antichain(9)] + \
        [crown(n) for n in (3, 4, 5, 6)] + [crown(n, False) for n in (4, 5)] + \
        [fence(4, 2, True), fence(3, 3, True), fence(3, 3, False)] + \
        [grid(3, 3), grid(2, 5), grid(3, 4)] + [boolean(3)] + \
        [layered_complete(2, 2, 2, 2), layered_complete(3, 1, 3, 1),
         layered_complete(1, 2, 3, 2, 1)] + [ladder(4), ladder(5)]
    # disjoint unions / ordinal mixes
    c = grid(2, 3)
    fam.append(c + tuple(x << len(c) for x in chain(4)))
    return fam


def perm2d(p, k):
    '''two-dimensional order of the permutation i -> k * i mod p (p prime)'''
    pi = [k * i % p for i in range(1, p)]
    return tuple(mask(j for j in range(i) if pi[j] < pi[i])
                 for i in range(p - 1))


def tree(n, b):
    '''event i covers event (i - 1) // b'''
    return tuple(closure(n, [((i - 1) // b, i) for i in range(1, n)]))


def scrambled(dn, k=7):
    '''the same order in another listing (not a linear extension)'''
    n = len(dn)
    while gcd(k, n) > 1:
        k += 1
    p = [(i * k + 3) % n for i in range(n)]
    return Poset(dn).relabel(p).dn


def huge_family():
    '''orders of 16 to 40 events'''
    fam = [chain(26), antichain(20), crown(11), fence(5, 4, True), grid(4, 6),
           boolean(4), layered_complete(3, 5, 2, 6, 4), ladder(10),
           perm2d(23, 5), perm2d(19, 8), perm2d(29, 17), tree(21, 2),
           tuple(tree(22, 3) + tuple(x << 22 for x in chain(11)))]
    t = Poset(tree(17, 2))
    fam.append(tuple(mask(16 - j for j in bits(t.up[16 - i]))
                     for i in range(17)))
    return [tuple(x) for dn in fam for x in (dn, scrambled(dn))]


def giant_family(top=600):
    '''orders of 65 to 523 events, beyond usual size thresholds'''
    fam = [chain(130), antichain(130), chain(261), antichain(257),
           perm2d(71, 29), perm2d(131, 53), tree(140, 3), ladder(40),
           crown(65), layered_complete(40, 3, 66, 1, 30), grid(8, 9),
           layered_complete(80, 9, 80),
           boolean(7), chain(33) + tuple(
               x << 33 for x in tree(99, 2))]
    if top > 500:
        fam = [layered_complete(60, 395, 60), chain(515), perm2d(523, 200),
               antichain(515), tree(520, 2)] + fam
    t = Poset(tree(66, 2))
    fam.append(tuple(mask(65 - j for j in bits(t.up[65 - i]))
                     for i in range(66)))
    return [tuple(scrambled(dn, 11)) for dn in fam if len(dn) <= top]


def giant_sets(P):
    '''some event sets of a giant order'''
    n = P.n
    base = [0, P.full, P.minimal(P.full), P.maximal(P.full)]
    rest, k = P.full, 0
    while rest and k < 8:
        base.append(P.minimal(rest))
        rest &= ~base[-1]
        k += 1
    base += [mask(i for i in range(n) if i % k == 1) for k in (2, 3, 7)]
    base += [(1 << k) - 1 << 1 for k in (32, 33, 63, 64, 65, 127, 128, 129,
                                         255, 256) if k < n]
    c = 1 << n // 3  # a saturated chain
    i = n // 3
    while P.lup[i]:
        i = max(bits(P.lup[i]))
        c |= 1 << i
    base += [c, c & (c - 1)]
    for i in (0, n // 2, n - 1, n // 3, n // 5):
        base += [P.dn[i], P.up[i], P.cone(i), P.full & ~P.cone(i),
                 P.full & ~(1 << i)]
        if P.up[i]:
            base.append(P.interval(i, max(bits(P.up[i]))))
    base = sorted(set(base))
    return base if n < 500 else base[:3] + base[3:-1:7] + base[-1:]


def few_sets(P):
    '''polynomially many event sets of a large order'''
    if P.n > 64:
        return giant_sets(P)
    n = P.n
    base = [P.full, P.minimal(P.full), P.maximal(P.full)]
    rest = P.full
    while rest:
        base.append(P.minimal(rest))
        rest &= ~base[-1]
    base += [mask(i for i in range(n) if i % k == r)
             for k in (2, 3) for r in range(k)]
    m = 0
    for i in sorted(range(n), key=lambda i: (i * 5) % (n + 1)):
        if not (P.dn[i] | P.up[i]) & m:
            m |= 1 << i
    base.append(m)
    for i in range(n):
        base += [P.dn[i], P.up[i], P.cone(i), P.full & ~P.cone(i), 1 << i,
                 1 << i | 1 << (i + 1) % n, 1 << i | 1 << (i + n // 2) % n,
                 P.interval(0, i), P.interval(i, n - 1), P.ldn[i], P.lup[i]]
    for i in range(0, n, 3):
        for j in bits(P.up[i]):
            base.append(P.interval(i, j))
    out = {0}
    for s in base:
        out.add(s)
        if s:
            out |= {s & (s - 1), s & ~(1 << s.bit_length() - 1)}
    return sorted(out)


def selftest():
    for n in range(6):
        assert sum(1 for _ in labelled(n)) == COUNT_LABELLED[n], n
    for n in range(6):
        assert sum(1 for _ in natural(n)) == COUNT_NATURAL[n], n
    for n in range(8):
        assert len(unlabelled(n)) == COUNT_UNLABELLED[n], n


if __name__ == '__main__':
    os.makedirs(_DATA, exist_ok=True)
    for n in range(9):
        u = unlabelled(n)
        assert len(u) == COUNT_UNLABELLED[n], (n, len(u))
        with open(os.path.join(_DATA, 'unlabelled_%d.txt' % n), 'w') as fh:
            for dn in u:
                fh.write(' '.join(map(str, dn)) + '\n')
        unlabelled.cache_clear()
    selftest()
    print('ok')
