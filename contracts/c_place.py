"""C11: points and rings against rings."""
from fractions import Fraction as Fr

import z3

from pyvc.contract import C, Loop, modlist, modfields
from pyvc.types import *
from pyvc.spec import *
from pyvc.spec import ground
from pyvc import exec as X
from . import gens as g
from .circle import Circles
from .c_rings import nodes, ring, PN, RG, cached

PT = Ref('Point')
ON, IN, OUT = 'ON', 'INSIDE', 'OUTSIDE'


def rise(a, b, p):
    """the sign of this says on which side of the piece a -> b the point is"""
    return (a.x - p.x) * (b.y - p.y) - (b.x - p.x) * (a.y - p.y)


def spans(a, b, p):
    return Iff(a.y < p.y, b.y >= p.y)


def crossed(a, b, p):
    """the ray from the point towards greater x crosses the piece a -> b"""
    return And(spans(a, b, p), Iff(rise(a, b, p) > 0, b.y > a.y))


def touches(a, b, p):
    """the point lies on the piece a -> b, its start left aside"""
    return Or(And(b.x == p.x, b.y == p.y),
              And(a.y == p.y, b.y == p.y, Or(And(a.x < p.x, p.x < b.x), And(b.x < p.x, p.x < a.x))),
              And(Or(a.x != p.x, a.y != p.y), spans(a, b, p), rise(a, b, p) == 0))


class Parity:
    """ghost Q(j): whether the ray crosses an odd number of the first j pieces
    of the circle a"""

    def __call__(self, g_, view, V):
        A, p = g_.a, view.pt
        if V is None:
            pts = [(Fr(A.at(i).x), Fr(A.at(i).y)) for i in range(A.n)]
            g_.where = where(pts, (Fr(p.x), Fr(p.y)))
            return
        Q = z3.Function('ghost_parity', z3.IntSort(), z3.BoolSort())
        V.facts.append(z3.Not(Q(0)))

        def q(j):
            j = j if z3.is_expr(j) else z3.IntVal(j)
            if ground(j):
                for i in (j, j - 1):
                    i = z3.simplify(i)
                    a = A.at(i)
                    b = A.at(z3.simplify(z3.If(i + 1 == A.n, 0, i + 1)))
                    V.facts.append(z3.Implies(z3.And(0 <= i, i < A.n), z3.And(
                        a.next.ref == b.ref, Q(i + 1) == z3.Xor(Q(i), crossed(a, b, p)))))
            return Q(z3.simplify(j))
        g_.Q = q
        T = z3.Function('ghost_touched', z3.IntSort(), z3.BoolSort())

        def t(j):
            """the piece at position j is touched (unfolded where named)"""
            j = j if z3.is_expr(j) else z3.IntVal(j)
            if ground(j):
                a = A.at(j)
                V.facts.append(z3.Implies(z3.And(0 <= j, j < A.n), T(j) == touches(a, a.next, p)))
            return T(j)
        g_.T = t
        # by definition: the end of the piece before is the start of this one
        j = z3.Int('j!s')
        a = A.at(j)
        V.facts.append(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < A.n, a.x == p.x, a.y == p.y),
                                                 T(z3.If(j == 0, A.n - 1, j - 1))), patterns=[A.N(j)]))
        g_.on = lambda j: Or(T(j), And(A.at(j).x == p.x, A.at(j).y == p.y))


def where(pts, p):
    """exact position of a point against a closed ring, by crossing parity"""
    inside = False
    for i in range(len(pts)):
        (ax, ay), (bx, by) = pts[i - 1], pts[i]
        cr = (bx - ax) * (p[1] - ay) - (by - ay) * (p[0] - ax)
        if cr == 0 and min(ax, bx) <= p[0] <= max(ax, bx) and min(ay, by) <= p[1] <= max(ay, by):
            return ON
        if (ay > p[1]) != (by > p[1]) and p[0] < ax + (p[1] - ay) * (bx - ax) / (by - ay):
            inside = not inside
    return IN if inside else OUT


def pip_inv(o, c):
    A, k, p = o.G.a, c.k, o.pt
    return {'at a vertex': And(k < A.n, same(c.op, A.at(k))),
            'on none of the pieces passed': ForAll(0, k, lambda j: Not(o.G.T(j)), pat=o.G.T),
            'parity so far': Iff(c.result == E.PointInPolygonResult.INSIDE, o.G.Q(k)),
            'inside or outside so far': Or(c.result == E.PointInPolygonResult.INSIDE, c.result == E.PointInPolygonResult.OUTSIDE)}


def untouched(o, j):
    return Not(o.G.T(j))


def pip_end(o, c):
    return {'the piece passed is not touched': untouched(o, c.k - 1)}


def at_hand(o, n):
    j = o.G.a.idx(n.locals.op.ref)
    o.G.T(j)
    return And(0 <= j, j < o.G.a.n, o.G.on(j))


def pip_hints(o, n, r):
    return {'the piece at hand is touched': Implies(r == E.PointInPolygonResult.ON, lambda: at_hand(o, n)),
            'the last piece is not touched': Implies(r != E.PointInPolygonResult.ON, lambda: untouched(o, o.G.a.n - 1))}


def pip_ens(o, n, r):
    if hasattr(o.G, 'where'):
        return {'as crossing parity says': r.name == o.G.where if hasattr(r, 'name') else r == getattr(E.PointInPolygonResult, o.G.where)}
    A, p = o.G.a, o.pt
    R = E.PointInPolygonResult
    on = Exists(0, A.n, o.G.on)
    return {'on exactly when on a piece': Iff(r == R.ON, on),
            'else inside exactly when an odd number of pieces is crossed': Implies(r != R.ON, Iff(r == R.INSIDE, o.G.Q(A.n))),
            'one of the three': Or(r == R.ON, r == R.INSIDE, r == R.OUTSIDE)}


def pip_env(rng):
    h = rng.choice([2, 3, 4])
    ns = nodes(rng, rng.choice([1, 2, 3, 3, 4, 5, 6, 7]), h)
    K = rng.choice(['Point', 'PointNode'])
    if rng.random() < .3:
        p = g.K('Point')(rng.randint(-1, 2 * h + 1) / 2, rng.randint(-1, 2 * h + 1) / 2)
    else:
        p = g.K(K)(rng.randint(-1, h + 1), rng.randint(-1, h + 1))
    return dict(pt=p, op=rng.choice(ns))


C('point_node.point_in_polygon', dict(pt=PT, op=PN), Enum('PointInPolygonResult'),
  ghosts=Circles(Parity(), a=lambda o: o.op), requires=lambda o: {'closed circle': o.G.a.ok}, ensures=pip_ens,
  hints=pip_hints,
  loops={0: Loop(inv=pip_inv, hints_end=pip_end, decreases=lambda o, c: o.G.a.n - c.k)},
  props=['C11'], gen=g.forever(pip_env), timeout=20, conc_time=8)
