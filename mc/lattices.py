'''Finite coordinate lattices for the spacetimes.'''
from itertools import product


def flat_points(dim, tmax, xmax, step=1):
    T = range(-tmax, tmax + 1)
    X = range(-xmax, xmax + 1, step)
    return [list(p) for p in product(T, *[X] * (dim - 1))]


CURVED_T = {0: (-2.0, -0.9, 0.0, 0.35, 1.25),
            1: (-3.1, -1.7, -0.8, -0.2, 0.0, 0.15, 0.6, 1.3, 2.4)}
CURVED_X = {('dS', 0): (-0.93, -0.4, 0.0, 0.25, 0.7, 1.2),
            ('dS', 1): (-1.1, -0.97, -0.65, -0.3, 0.0, 0.1, 0.45, 0.8, 0.99, 0.99997,
                        1.5),
            ('AdS', 0): (-1.7, -0.5, 0.0, 0.3, 1.1, 2.9),
            ('AdS', 1): (-4.0, -1.6, -0.7, -0.2, 0.0, 0.1, 0.55, 1.2, 2.5,
                         6.0),
            ('EF', 0): (-2.3, -1.21, -0.7, -0.15, 0.11, 0.4, 0.83, 1.07, 1.6,
                        2.9),
            ('EF', 1): (-3.3, -1.9, -1.02, -0.97, -0.5, -0.05, 0.03, 0.17,
                        0.33, 0.61, 0.89, 0.98, 1.01, 1.13, 1.37, 1.83, 2.61,
                        4.7)}
CURVED_X[('S', 0)] = CURVED_X[('EF', 0)]
CURVED_X[('S', 1)] = CURVED_X[('EF', 1)]


def curved_points(kind, dim, par, size=0, xs=None, ts=None):
    '''points in units of the length parameter'''
    T = ts if ts is not None else CURVED_T[size]
    X = xs if xs is not None else CURVED_X[kind, size]
    return [[c * par for c in p] for p in product(T, *[X] * (dim - 1))]
