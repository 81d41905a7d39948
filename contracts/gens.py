"""Input generators of the bounded stand-in: real objects of the real
classes, small grids (exact in floating point), deterministic per seed."""
import itertools
import math
from fractions import Fraction

from pyvc import concrete


def K(name):
    return concrete.cls(name)


def coord(rng, hi=4, half=False):
    x = rng.randint(0, hi) if rng.random() < 0.8 else rng.randint(-hi, hi)
    if half and rng.random() < 0.3:
        return x + rng.choice([0.5, 0.25, -0.5])
    if rng.random() < 0.2:
        return float(x)
    return x


def point(rng, hi=4, half=False):
    return K('Point')(coord(rng, hi, half), coord(rng, hi, half))


def edge(rng, hi=4, half=False):
    while True:
        a, b = point(rng, hi, half), point(rng, hi, half)
        if (a.x, a.y) != (b.x, b.y):
            return K('Edge')(a, b)


def enum(rng, name):
    return rng.choice(list(K(name)))


def bound(rng, hi=4, edges=None, wide=False):
    n = rng.randint(1, 3)
    es = edges if edges is not None else [edge(rng, hi) for _ in range(n)]
    ci = rng.randrange(len(es)) if es else None
    b = K('Bound')(es, ci, (ci + 1) if ci is not None else None)
    b.current_x = float(coord(rng, hi, True))
    b.last_point = point(rng, hi)
    r = 4 if wide or rng.random() < .3 else 2
    b.winding_count = rng.randint(-r, r)
    b.opposite_winding_count = rng.randint(-r, r)
    b.winding_delta = rng.choice([-1, 1])
    b.polygon_kind = enum(rng, 'PolygonKind')
    b.side = enum(rng, 'EdgeSide')
    return b


def forever(fn):
    def g(rng):
        while True:
            yield fn(rng)
    return g


def product(**choices):
    """exhaustive, then repeats are not produced"""
    def g(rng):
        keys = list(choices)
        for vals in itertools.product(*[choices[k]() if callable(choices[k]) else choices[k] for k in keys]):
            yield dict(zip(keys, vals))
    return g
