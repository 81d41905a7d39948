"""C16: value types compare by value; boxes; C06 slopes."""
from pyvc.contract import C, Loop, modlist, modfields
from pyvc.types import *
from pyvc.spec import *
from . import gens as g


def pt_eq(a, b):
    return And(a.x == b.x, a.y == b.y)


def two(rng, make, clone, p=0.5):
    a = make(rng)
    return dict(self=a, other=clone(a) if rng.random() < p else make(rng))


def clone_point(p):
    return g.K('Point')(float(p.x), p.y)


def clone_edge(e):
    r = g.K('Edge')(clone_point(e.bottom), clone_point(e.top))
    r.bottom, r.top, r.slope = clone_point(e.bottom), clone_point(e.top), e.slope
    return r


C('point.Point.__eq__', dict(self=Ref('Point'), other=Ref('Point')), BOOL,
  ensures=lambda o, n, r: {'equal exactly when both coordinates are': Iff(r, pt_eq(o.self, o.other))},
  props=['C16', 'C06'], modular=True,
  gen=g.forever(lambda rng: two(rng, lambda q: g.point(q, 1), clone_point)))

C('point.Point.__init__', dict(self=Ref('Point'), x=REAL, y=REAL), NONE,
  ensures=lambda o, n, r: {'coordinates kept': And(n.self.x == o.x, n.self.y == o.y)},
  modifies=lambda o: modfields(o.self, 'x', 'y'), props=['C16'], modular=False,
  gen=g.forever(lambda rng: dict(self=g.point(rng), x=g.coord(rng), y=g.coord(rng))))


def node(rng, hi=4):
    x = g.K('PointNode')(g.coord(rng, hi), g.coord(rng, hi))
    return x


C('point_node.PointNode.__eq__', dict(self=Ref('PointNode'), other=Ref('PointNode')), BOOL,
  ensures=lambda o, n, r: {'equal exactly when both coordinates are': Iff(r, pt_eq(o.self, o.other))},
  props=['C16', 'C09'], modular=True,
  gen=g.forever(lambda rng: dict(self=node(rng, 1), other=node(rng, 1))))

C('point_node.PointNode.__init__', dict(self=Ref('PointNode'), x=REAL, y=REAL), NONE,
  ensures=lambda o, n, r: {'coordinates kept': And(n.self.x == o.x, n.self.y == o.y),
                           'self-linked': And(same(n.self.next, n.self), same(n.self.prev, n.self)),
                           'belongs to no ring': isnull(n.self.ring)},
  modifies=lambda o: modfields(o.self, 'x', 'y', 'prev', 'next', 'ring'), props=['C08'],
  gen=g.forever(lambda rng: dict(self=node(rng), x=g.coord(rng), y=g.coord(rng))))

C('point_node.PointNode.from_point', dict(cls=NONE, point=Ref('Point')), Ref('PointNode'),
  ensures=lambda o, n, r: {'coordinates kept': And(r.x == o.point.x, r.y == o.point.y),
                           'self-linked': And(same(r.next, r), same(r.prev, r)),
                           'belongs to no ring': isnull(r.ring),
                           'new': o.fresh(r)},
  props=['C08'], gen=g.forever(lambda rng: dict(cls=None, point=g.point(rng, 4, True))), prove=True)

C('point_node.point_node_to_point', dict(node=Ref('PointNode')), Ref('Point'),
  ensures=lambda o, n, r: {'same location': pt_eq(r, o.node), 'a new point': o.fresh(r)},
  props=['C14', 'C15'], gen=g.forever(lambda rng: dict(node=node(rng))))

C('edge.Edge.__eq__', dict(self=Ref('Edge'), other=Ref('Edge')), BOOL,
  ensures=lambda o, n, r: {'equal exactly when both ends are':
                           Iff(r, And(pt_eq(o.self.top, o.other.top), pt_eq(o.self.bottom, o.other.bottom)))},
  props=['C16'], modular=True, gen=g.forever(lambda rng: two(rng, lambda q: g.edge(q, 1), clone_edge)))


def box(rng, hi=3):
    return g.K('Box')(g.point(rng, hi), g.point(rng, hi))


C('box.Box.__eq__', dict(self=Ref('Box'), other=Ref('Box')), BOOL,
  ensures=lambda o, n, r: {'equal exactly when both corners are':
                           Iff(r, And(pt_eq(o.self.minimum, o.other.minimum), pt_eq(o.self.maximum, o.other.maximum)))},
  props=['C16'], modular=True,
  gen=g.forever(lambda rng: two(rng, lambda q: box(q, 1),
                                lambda b: g.K('Box')(clone_point(b.minimum), clone_point(b.maximum)))))

C('box.Box.inside_of', dict(self=Ref('Box'), other=Ref('Box')), BOOL,
  ensures=lambda o, n, r: {'every point of the inner box lies in the outer one':
                           Iff(r, And(o.other.minimum.x <= o.self.minimum.x, o.other.minimum.y <= o.self.minimum.y,
                                      o.self.maximum.x <= o.other.maximum.x, o.self.maximum.y <= o.other.maximum.y))},
  props=['C12', 'C11'], modular=True, gen=g.forever(lambda rng: dict(self=box(rng, 2), other=box(rng))))


def points_list(rng, hi=1, n=None):
    return [g.point(rng, hi) for _ in range(rng.randint(0, 3) if n is None else n)]


def list_eq(a, b, eq):
    return And(a.len == b.len, ForAll(0, a.len, lambda i: eq(a[i], b[i]), pat='sym' if not isinstance(a, CList) else None))


def ring_eq(a, b):
    return list_eq(a.points, b.points, pt_eq)


def linear_ring(rng, hi=1):
    return g.K('LinearRing')(points_list(rng, hi))


def clone_ring(r):
    return g.K('LinearRing')([clone_point(p) for p in r.points])


C('linear_ring.LinearRing.__eq__', dict(self=Ref('LinearRing'), other=Ref('LinearRing')), BOOL,
  ensures=lambda o, n, r: {'equal exactly when the point sequences are': Iff(r, And(
      o.self.points.len == o.other.points.len,
      ForAll(0, o.self.points.len, lambda i: Implies(i < o.other.points.len, lambda: pt_eq(o.self.points[i], o.other.points[i])))))},
  props=['C16'], modular=True, gen=g.forever(lambda rng: two(rng, linear_ring, clone_ring)))

C('linear_ring.LinearRing.__len__', dict(self=Ref('LinearRing')), INT,
  ensures=lambda o, n, r: {'number of points': r == o.self.points.len}, props=['C16'],
  gen=g.forever(lambda rng: dict(self=linear_ring(rng))))


def polygon(rng):
    return g.K('Polygon')([linear_ring(rng) for _ in range(rng.randint(0, 2))])


def clone_polygon(p):
    return g.K('Polygon')([clone_ring(r) for r in p.linear_rings])


def multipolygon(rng):
    return g.K('Multipolygon')([polygon(rng) for _ in range(rng.randint(0, 2))])


def seq_same(a, b, eq):
    return And(a.len == b.len, ForAll(0, a.len, lambda i: Implies(i < b.len, lambda: eq(a[i], b[i]))))


def ring_same(a, b):
    return seq_same(a.points, b.points, pt_eq)


C('polygon.Polygon.__eq__', dict(self=Ref('Polygon'), other=Ref('Polygon')), BOOL,
  ensures=lambda o, n, r: {'equal exactly when the ring sequences are':
                           Iff(r, seq_same(o.self.linear_rings, o.other.linear_rings, ring_same))},
  props=['C16'], gen=g.forever(lambda rng: two(rng, polygon, clone_polygon)), modular=True)

C('polygon.Multipolygon.__eq__', dict(self=Ref('Multipolygon'), other=Ref('Multipolygon')), BOOL,
  ensures=lambda o, n, r: {'equal exactly when the polygon sequences are':
                           Iff(r, seq_same(o.self.polygons, o.other.polygons,
                                           lambda a, b: seq_same(a.linear_rings, b.linear_rings, ring_same)))},
  props=['C16'], gen=g.forever(lambda rng: two(rng, multipolygon, lambda m: g.K('Multipolygon')(
      [clone_polygon(p) for p in m.polygons]))), modular=True)

for q, f, mk in (('polygon.Polygon', 'linear_rings', polygon), ('polygon.Multipolygon', 'polygons', multipolygon)):
    C(q + '.__len__', dict(self=Ref(q.split('.')[1])), INT,
      ensures=lambda o, n, r, f=f: {'number of parts': r == getattr(o.self, f).len}, props=['C16'],
      gen=g.forever(lambda rng, mk=mk: dict(self=mk(rng))))

for q, f, mk in (('linear_ring.LinearRing', 'points', linear_ring), ('polygon.Polygon', 'linear_rings', polygon),
                 ('polygon.Multipolygon', 'polygons', multipolygon)):
    def mkenv(rng, mk=mk, f=f):
        x = mk(rng)
        k = len(getattr(x, f))
        return dict(self=x, index=rng.randint(-k - 1, k))
    ec = {'points': 'Point', 'linear_rings': 'LinearRing', 'polygons': 'Polygon'}[f]
    C(q + '.__getitem__', dict(self=Ref(q.split('.')[1]), index=INT), Ref(ec),
      ensures=lambda o, n, r, f=f: {'the element at that position (from the end when negative)':
                                    same(r, (lambda l: If(o.index >= 0, lambda: l[If(o.index >= 0, o.index, 0)], lambda: l[o.index + l.len]))(getattr(o.self, f)))},
      raises={'IndexError': lambda o, f=f: Or(o.index >= getattr(o.self, f).len, o.index < -getattr(o.self, f).len)},
      props=['C16'], gen=g.forever(mkenv))
