"""C06: edge geometry."""
from pyvc.contract import C, Loop, modlist, modfields
from pyvc.types import *
from pyvc.spec import *
from . import gens as g
from .c_values import pt_eq, clone_point


def dx(e):
    return e.top.x - e.bottom.x


def dy(e):
    return e.top.y - e.bottom.y


def wf(e):
    """representation invariant of an edge"""
    s = e.slope
    return And(e.top.y <= e.bottom.y,
               Iff(s.inf, e.top.y == e.bottom.y),
               Implies(Not(s.inf), lambda: eqr(s.val * dy(e), dx(e))))


def degenerate(e):
    return And(e.top.x == e.bottom.x, e.top.y == e.bottom.y)


def any_edge(rng, hi=4, half=False):
    e = g.edge(rng, hi, half)
    return e


C('edge.Edge.__init__', dict(self=Ref('Edge'), bottom=Ref('Point'), top=Ref('Point')), NONE,
  ensures=lambda o, n, r: {
      'ends are the given points, the lower one (greater y) first': If(
          o.bottom.y < o.top.y,
          lambda: And(same(n.self.bottom, o.top), same(n.self.top, o.bottom)),
          lambda: And(same(n.self.bottom, o.bottom), same(n.self.top, o.top))),
      'slope is dx/dy, infinite exactly for horizontals': wf(n.self)},
  modifies=lambda o: modfields(o.self, 'bottom', 'top', 'slope'), props=['C06', 'C13'], modular=False,
  gen=g.forever(lambda rng: dict(self=g.edge(rng), bottom=g.point(rng), top=g.point(rng))))

C('edge.Edge.is_horizontal', dict(self=Ref('Edge')), BOOL,
  requires=lambda o: wf(o.self),
  ensures=lambda o, n, r: {'exactly when both ends have the same y': Iff(r, o.self.top.y == o.self.bottom.y)},
  props=['C06'], gen=g.forever(lambda rng: dict(self=g.edge(rng, 2))))

C('edge.are_edges_slopes_equal', dict(first=Ref('Edge'), second=Ref('Edge')), BOOL,
  ensures=lambda o, n, r: {'parallel': Iff(r, dy(o.first) * dx(o.second) == dx(o.first) * dy(o.second))},
  props=['C06'], modular=True, gen=g.forever(lambda rng: dict(first=g.edge(rng, 2), second=g.edge(rng, 2))))

C('point.are_points_slopes_equal', dict(first=Ref('Point'), second=Ref('Point'), third=Ref('Point')), BOOL,
  ensures=lambda o, n, r: {'collinear': Iff(
      r, (o.second.x - o.first.x) * (o.third.y - o.first.y) == (o.third.x - o.first.x) * (o.second.y - o.first.y))},
  props=['C06', 'C13'], modular=True,
  gen=g.forever(lambda rng: dict(first=g.point(rng, 2), second=g.point(rng, 2), third=g.point(rng, 2))))


def between(o, n, r):
    a, b, c = o.pt1, o.pt2, o.pt3
    return {'strictly between two other collinear points':
            Implies((b.x - a.x) * (c.y - a.y) == (c.x - a.x) * (b.y - a.y),
                    lambda: Iff(r, And(Not(pt_eq(a, b)), Not(pt_eq(b, c)), Not(pt_eq(a, c)),
                                       (b.x - a.x) * (c.x - b.x) >= 0, (b.y - a.y) * (c.y - b.y) >= 0)))}


C('point.is_point_between_others', dict(pt1=Ref('Point'), pt2=Ref('Point'), pt3=Ref('Point')), BOOL,
  ensures=between, props=['C06', 'C13'], modular=True,
  gen=g.forever(lambda rng: dict(pt1=g.point(rng, 2), pt2=g.point(rng, 2), pt3=g.point(rng, 2))))


def line_x(e, y, x):
    """(x, y) lies on the line through a non-horizontal edge"""
    return eqr((x - e.bottom.x) * dy(e), dx(e) * (y - e.bottom.y))


def ge_env(rng):
    e = g.edge(rng, 4)
    return dict(self=e, current_y=rng.choice([e.top.y, e.bottom.y, g.coord(rng), rng.randint(int(min(e.top.y, e.bottom.y)), int(max(e.top.y, e.bottom.y)))]))


C('edge.Edge.get_current_x', dict(self=Ref('Edge'), current_y=REAL), REAL,
  requires=lambda o: And(wf(o.self), Or(o.self.top.y != o.self.bottom.y, o.current_y == o.self.top.y)),
  ensures=lambda o, n, r: {
      'at its own end exactly': Implies(o.current_y == o.self.top.y, lambda: r == o.self.top.x),
      'on the line of the edge': Implies(o.current_y != o.self.top.y, lambda: line_x(o.self, o.current_y, r))},
  props=['C06', 'C17'], modular=True, gen=g.forever(ge_env))


def ext_x(sign):
    """get_min_x / get_max_x: the extreme column touched by the edge within
    the pixel row of current_y"""
    def ens(o, n, r):
        e, y = o.self, o.current_y
        rising = dx(e) * dy(e)          # sign of the slope
        # the end of the row's band at which the extreme is reached
        up = rising > 0 if sign < 0 else rising < 0      # towards the top (smaller y)
        end = If(up, lambda: e.top.y, lambda: e.bottom.y)
        endx = If(up, lambda: e.top.x, lambda: e.bottom.x)
        yy = If(up, lambda: (2 * y - 1) / 2, lambda: (2 * y + 1) / 2)
        # abscissa of the line of the edge at yy (the slope is dx/dy: wf)
        v = If(e.slope.inf, lambda: e.bottom.x, lambda: e.bottom.x + e.slope.val * (yy - e.bottom.y))
        horizontal = dy(e) == 0
        K = 2 ** 46 if is_z3(v) else 2 ** 30
        m = 1 + Abs(v)
        return {
            'horizontal: the extreme end': Implies(horizontal, lambda: r == (Min if sign < 0 else Max)(e.top.x, e.bottom.x)),
            'row of an end: that end': Implies(And(Not(horizontal), y == end), lambda: r == endx),
            'else nearest pixel of the band edge': Implies(
                And(Not(horizontal), y != end),
                lambda: And(K * (2 * (r - v) - 1) <= 2 * m, K * (2 * (v - r) - 1) <= 2 * m)),
        }
    return ens


from fractions import Fraction      # noqa


def gx_req(o):
    e = o.self
    return And(wf(e), e.top.y <= o.current_y, o.current_y <= e.bottom.y)


for nm, sg in (('get_min_x', -1), ('get_max_x', 1)):
    C('edge.Edge.' + nm, dict(self=Ref('Edge'), current_y=REAL), REAL, requires=gx_req, ensures=ext_x(sg),
      props=['C06', 'C17'], modular=True, gen=g.forever(ge_env), timeout=10)


def meet(o, n, r):
    a, b = o.self, o.other
    den = dx(a) * dy(b) - dx(b) * dy(a)
    # Cramer's rule: the only common point of the two lines
    tn = dx(b) * (a.bottom.y - b.bottom.y) - dy(b) * (a.bottom.x - b.bottom.x)
    sn = dx(a) * (a.bottom.y - b.bottom.y) - dy(a) * (a.bottom.x - b.bottom.x)

    def unit(q):
        return Or(And(den > 0, 0 <= q, q <= den), And(den < 0, den <= q, q <= 0))
    crossing = And(den != 0, unit(tn), unit(sn))
    return {'a point exactly when the segments cross': Iff(Not(crossing), isnull(r)),
            'on the first segment': Implies(notnull(r), lambda: And(
                eqr((r.x - a.bottom.x) * den, tn * dx(a)), eqr((r.y - a.bottom.y) * den, tn * dy(a)))),
            'on the second segment': Implies(notnull(r), lambda: And(
                eqr((r.x - b.bottom.x) * den, sn * dx(b)), eqr((r.y - b.bottom.y) * den, sn * dy(b)))),
            'a new point': Implies(notnull(r), lambda: o.fresh(r))}


C('edge.Edge.__and__', dict(self=Ref('Edge'), other=Ref('Edge')), ORef('Point'), ensures=meet, props=['C06', 'C17'],
  modular=True, allocates=['Point'], gen=g.forever(lambda rng: dict(self=g.edge(rng, 3), other=g.edge(rng, 3))), timeout=10)

C('edge.Edge.reverse_horizontal', dict(self=Ref('Edge')), NONE,
  ensures=lambda o, n, r: {
      'abscissas exchanged': And(n.self.top.x == o.self.bottom.x, n.self.bottom.x == o.self.top.x),
      'ordinates kept': And(n.self.top.y == o.self.top.y, n.self.bottom.y == o.self.bottom.y),
      'on new points': And(o.fresh(n.self.top), o.fresh(n.self.bottom))},
  modifies=lambda o: modfields(o.self, 'top', 'bottom'), props=['C06', 'C13', 'C15'], modular=True, allocates=['Point'],
  gen=g.forever(lambda rng: dict(self=g.edge(rng, 3))))
