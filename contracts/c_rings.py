"""C08, C10: circular vertex rings and their measures."""
import math

import z3

from pyvc.contract import C, Loop, modlist, modfields
from pyvc.types import *
from pyvc.spec import *
from . import gens as g
from .circle import Circles, closed, cross, ConcCircle
from .c_values import pt_eq

PN = Ref('PointNode')


# ------------------------------------------------------------ generators
def nodes(rng, n=None, hi=3, half=False):
    """vertices of a random closed ring, maybe with repeats"""
    n = rng.choice([1, 2, 3, 3, 4, 4, 5, 6]) if n is None else n
    K = g.K('PointNode')
    ns = [K(g.coord(rng, hi, half), g.coord(rng, hi, half)) for _ in range(n)]
    if n > 2 and rng.random() < .4:
        i = rng.randrange(n)
        ns[i].x, ns[i].y = ns[i - 1].x, ns[i - 1].y
    if n > 3 and rng.random() < .4:
        i, j = rng.randrange(n), rng.randrange(n)
        ns[i].x, ns[i].y = ns[j].x, ns[j].y
    for i in range(n):
        ns[i].next, ns[i].prev = ns[(i + 1) % n], ns[i - 1]
    return ns


def ring(rng, n=None, hi=3, index=0, half=False, ns=None):
    r = g.K('Ring')(index)
    ns = nodes(rng, n, hi, half) if ns is None else ns
    for x in ns:
        x.ring = r
    r.node = ns[rng.randrange(len(ns))] if ns else None
    return r


# -------------------------------------------------------------- PointNode
def rev_inv(o, c):
    A, k = o.G.a, c.k
    n = A.n

    def state(j):
        x, y = A.at(j), c.at(A.at(j))
        done = Or(And(j == 0, k > 0), j > n - k)
        return If_pair(done, (same(y.next, x.prev), same(y.prev, x.next)), (same(y.next, x.next), same(y.prev, x.prev)))
    return {'the walk goes backwards': And(k <= n - 1, same(c.g_cursor, A.at(If(k == 0, 0, n - k)))),
            'links of the vertices passed are exchanged, the others kept': ForAll(0, n, state, pat=A.term)}


def If_pair(c, a, b):
    return And(Implies(c, And(*a)), Implies(Not(c), And(*b)))


def of(k):
    return lambda o: [(f, (lambda x: o.G.a.has(x))) for f in k]


C('point_node.PointNode.reverse', dict(self=PN), NONE, modular=True, ghosts=Circles(a=lambda o: o.self),
  requires=lambda o: {'closed circle': o.G.a.ok, 'from that vertex': same(o.self, o.G.a.at(0))},
  ensures=lambda o, n, r: {'predecessors and successors are exchanged': ForAll(0, o.G.a.n, lambda j: And(
      same(n.at(o.G.a.at(j)).next, o.G.a.at(j).prev), same(n.at(o.G.a.at(j)).prev, o.G.a.at(j).next)), pat=o.G.a.term)},
  modifies=of(('PointNode.next', 'PointNode.prev')),
  loops={0: Loop(inv=rev_inv, decreases=lambda o, c: o.G.a.n - c.k,
                 frame={'PointNode.next': lambda o, c, x: o.G.a.has(x), 'PointNode.prev': lambda o, c, x: o.G.a.has(x)})},
  props=['C08'], gen=g.forever(lambda rng: dict(self=nodes(rng)[0])), timeout=10)


def pb_env(rng):
    ns = nodes(rng)
    return dict(self=nodes(rng, 1)[0], other=rng.choice(ns))


C('point_node.PointNode.place_before', dict(self=PN, other=PN), NONE, ghosts=Circles(a=lambda o: o.other),
  requires=lambda o: {'closed circle': o.G.a.ok, 'not yet in it': Not(o.G.a.has(o.self))},
  ensures=lambda o, n, r: {'inserted between the vertex and its predecessor': And(
      same(n.self.next, o.other), same(n.self.prev, o.other.prev), same(n.at(o.other.prev).next, o.self),
      same(n.at(o.other).prev, o.self)),
      'one closed circle with one vertex more': closed(
          n, lambda j: If(j == o.G.a.n, lambda: o.self, lambda: o.G.a.at(j)), o.G.a.n + 1, pat=o.G.a.term)},
  modifies=lambda o: modfields(o.self, 'next', 'prev') + modfields(o.other, 'prev') + modfields(o.other.prev, 'next'),
  props=['C08'], gen=g.forever(pb_env), timeout=10)


# ------------------------------------------------------------------ stats
def stats_inv(o, c):
    A, k = o.G.a, c.k
    return {'at a vertex': And(k < A.n, same(c.cursor, A.at(k))),
            'size so far': c.size == k,
            'area so far': c.area == A.S(k),
            'extents so far': ForAll(0, k, lambda j: inside(A.at(j), c.min_x, c.min_y, c.max_x, c.max_y), pat=A.term),
            'head within': inside(A.at(0), c.min_x, c.min_y, c.max_x, c.max_y),
            'extents are reached': And(*[reached(A, v, f, lo) for v, f, lo in (
                (c.min_x, 'x', 0), (c.max_x, 'x', 0), (c.min_y, 'y', 0), (c.max_y, 'y', 0))])}


def inside(p, x0, y0, x1, y1):
    return And(x0 <= p.x, p.x <= x1, y0 <= p.y, p.y <= y1)


def reached(A, v, f, lo):
    return Exists(0, A.n, lambda j: getattr(A.at(j), f) == v)


def box_ok(A, n, box):
    b = n.at(box)
    lo, hi = n.at(b.minimum), n.at(b.maximum)
    return And(ForAll(0, A.n, lambda j: inside(A.at(j), lo.x, lo.y, hi.x, hi.y), pat=A.term),
               reached(A, lo.x, 'x', 0), reached(A, hi.x, 'x', 0), reached(A, lo.y, 'y', 0), reached(A, hi.y, 'y', 0))


STATS_LOOP = Loop(inv=stats_inv, decreases=lambda o, c: o.G.a.n - c.k)

C('point_node.PointNode.stats', dict(self=PN), Tup(REAL, INT, Ref('Box')), ghosts=Circles(a=lambda o: o.self),
  requires=lambda o: {'closed circle': o.G.a.ok},
  ensures=lambda o, n, r: {'twice the area is the shoelace sum': eqr(r[0] * 2, o.G.a.S(o.G.a.n)),
                           'size is the number of vertices': r[1] == o.G.a.n,
                           'box is the extent': box_ok(o.G.a, n, r[2])},
  loops={0: STATS_LOOP}, props=['C10'], gen=g.forever(lambda rng: dict(self=nodes(rng, half=True)[0])), timeout=15)


RG = Ref('Ring')


def measured(o, n, x):
    """measures of ring x, in view n, are those of the circle a"""
    A = o.G.a
    m = n.at(x)
    return {'area': And(Not(m._area.nan), eqr(m._area.val * 2, A.S(A.n))), 'size': m._size == A.n,
            'box': box_ok(A, n, m.box), 'hole exactly when the area is not positive': Iff(m._is_hole, m._area.val <= 0)}


MEASURES = ('_area', '_size', 'box', '_is_hole')


def stale_ring(rng):
    r = ring(rng) if rng.random() < .8 else ring(rng, ns=[])
    if rng.random() < .6:
        r._area, r._size, r._is_hole = rng.choice([(math.nan, 0, False), (3., 2, True), (-1., 7, False)])
    return r


C('ring.Ring.recalculate_stats', dict(self=RG), NONE, ghosts=Circles(a=lambda o: o.self.node),
  requires=lambda o: {'closed circle': o.G.a.ok},
  ensures=lambda o, n, r: dict({'of ' + k: Implies(notnull(o.self.node), v) for k, v in measured(o, n, o.self).items()},
                               **{'an emptied ring is left': Implies(isnull(o.self.node), And(
                                   Iff(n.self._area.nan, o.self._area.nan), n.self._size == o.self._size,
                                   same(n.self.box, o.self.box), Iff(n.self._is_hole, o.self._is_hole)))}),
  modifies=lambda o: modfields(o.self, *MEASURES),
  loops={'point_node.PointNode.stats': {0: STATS_LOOP}}, props=['C10'], gen=g.forever(lambda rng: dict(self=stale_ring(rng))), timeout=15)


def cached(o):
    """measures are unknown or right"""
    s, A = o.self, o.G.a
    return Or(s._area.nan, And(isnull(s.node)), And(eqr(s._area.val * 2, A.S(A.n)), s._size == A.n,
                                                    Iff(s._is_hole, s._area.val <= 0)))


def query(name, ret, value):
    def ens(o, n, r):
        A = o.G.a
        return {'the measure of the current vertices': Implies(notnull(o.self.node), lambda: value(r, A, o))}

    def env(rng):
        r = ring(rng, half=True)
        if rng.random() < .5:
            r.recalculate_stats()
        return dict(self=r)
    C('ring.Ring.' + name, dict(self=RG), ret, ghosts=Circles(a=lambda o: o.self.node),
      requires=lambda o: {'closed circle': o.G.a.ok, 'cache unknown or right': cached(o)}, ensures=ens,
      modifies=lambda o: modfields(o.self, *MEASURES),
      loops={'point_node.PointNode.stats': {0: STATS_LOOP}}, props=['C10'], gen=g.forever(env), timeout=15)


query('area', NREAL, lambda r, A, o: And(Not(r.nan), eqr(r.val * 2, A.S(A.n))))
query('size', INT, lambda r, A, o: r == A.n)
query('is_hole', BOOL, lambda r, A, o: Iff(r, ler(A.S(A.n), 0)))

C('ring.Ring.reset_stats', dict(self=RG), NONE,
  ensures=lambda o, n, r: {'measures unknown': And(n.self._area.nan, n.self._size == 0, Not(n.self._is_hole)),
                           'empty extent': And(*[getattr(getattr(n.at(o.self.box), c), f) == 0
                                                 for c in ('minimum', 'maximum') for f in 'xy'])},
  modifies=lambda o: modfields(o.self, '_area', '_size', '_is_hole') + modfields(o.self.box.minimum, 'x', 'y')
  + modfields(o.self.box.maximum, 'x', 'y'),
  props=['C10'], modular=True, gen=g.forever(lambda rng: dict(self=stale_ring(rng))))

C('ring.Ring.set_stats', dict(self=RG, area=REAL, size=INT, box=Ref('Box')), NONE,
  ensures=lambda o, n, r: {'recorded': And(Not(n.self._area.nan), n.self._area.val == o.area, n.self._size == o.size,
                                           same(n.self.box, o.box)),
                           'hole exactly when the area is not positive': Iff(n.self._is_hole, o.area <= 0)},
  modifies=lambda o: modfields(o.self, *MEASURES),
  props=['C10'], modular=True,
  gen=g.forever(lambda rng: dict(self=stale_ring(rng), area=rng.choice([-2.5, -1., 0., 0, .5, 3.]), size=rng.randint(0, 5),
                                 box=g.K('Box')(g.point(rng), g.point(rng)))))


# queries of a ring whose measures are known read the cache
def known_ring(rng):
    r = ring(rng, half=True)
    r.recalculate_stats()
    return dict(self=r)


for _name, _ret, _f in (('area', NREAL, lambda r, s: And(Not(r.nan), r.val == s._area.val)),
                        ('size', INT, lambda r, s: r == s._size), ('is_hole', BOOL, lambda r, s: Iff(r, s._is_hole))):
    C('ring.Ring.' + _name, dict(self=RG), _ret, variant='known', modular=True,
      requires=lambda o: {'measures are known': Not(o.self._area.nan)},
      ensures=lambda o, n, r, f=_f: {'the recorded measure': f(r, o.self)},
      loops={'point_node.PointNode.stats': {0: Loop(inv=lambda o, c: {'unreachable': False})}},
      props=['C10', 'C12'], gen=g.forever(known_ring))
