'''Histories of structural operations on a pool of events, and the reference
state they lead to.'''
from mc.order import Poset, bits, mask, popcount


def closure_dn(dn, m):
    for i in bits(m):
        m |= dn[i]
    return m


def ups(dn):
    n = len(dn)
    up = [0] * n
    for i in range(n):
        for j in bits(dn[i]):
            up[j] |= 1 << i
    return up


def m_create(dn, P, F):
    '''new dn after creating an event with past P and future F; None if this
    would make a causal loop'''
    n = len(dn)
    up = ups(dn)
    D = closure_dn(dn, P)
    U = F
    for i in bits(F):
        U |= up[i]
    if D & U:
        return None
    for i in bits(U):          # no future event before a past event
        if up[i] & D:
            return None
    new = []
    for i in range(n):
        d = dn[i]
        if U >> i & 1:
            d |= D | 1 << n
        new.append(d)
    new.append(D)
    # D x U may have created relations i < j for i in D, j in U only
    return tuple(new)


def m_disjoin(dn, x):
    return tuple(0 if i == x else d & ~(1 << x) for i, d in enumerate(dn))


def m_merge(dn, A, B):
    '''None if it makes a loop'''
    up = ups(dn)
    D = closure_dn(dn, A)
    U = B
    for i in bits(B):
        U |= up[i]
    if D & U:
        return None
    for i in bits(U):
        if up[i] & D:
            return None
    return tuple(d | (D if U >> i & 1 else 0) for i, d in enumerate(dn))


def creations(k):
    '''all (P, F) with P, F disjoint subsets of k events'''
    for code in range(3 ** k):
        P = F = 0
        c = code
        for i in range(k):
            c, r = divmod(c, 3)
            if r == 1:
                P |= 1 << i
            elif r == 2:
                F |= 1 << i
        yield P, F


def histories(creates, disjoins, length):
    '''all histories with at most that many operations of each kind; yields
    (ops, final dn).  ops: ['c', P, F] | ['d', x].  All prefixes are yielded,
    too.'''
    def rec(ops, dn, c, d):
        yield ops, dn
        if len(ops) == length:
            return
        if c < creates:
            for P, F in creations(len(dn)):
                new = m_create(dn, P, F)
                if new is not None:
                    yield from rec(ops + [['c', P, F]], new, c + 1, d)
        if d < disjoins:
            for x in range(len(dn)):
                yield from rec(ops + [['d', x]], m_disjoin(dn, x), c, d + 1)
    yield from rec([], (), 0, 0)
