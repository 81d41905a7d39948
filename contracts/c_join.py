"""C08, C09: joining, splitting and cleaning rings."""
import math
from fractions import Fraction as Fr

import z3

from pyvc.contract import C, Loop, modlist, modfields
from pyvc.types import *
from pyvc.spec import *
from . import gens as g
from .circle import Circles, Around, Seen, Joint, G, seen, cross
from .c_rings import nodes, ring as some_ring, inside, MEASURES
from .c_tree import tree, RG, RM, M, kids_of, owned, emptied, same_chain

PN = Ref('PointNode')


# ------------------------------------------------------------ update_points
def up_inv(o, c):
    A, k = o.G.a, c.k
    p = A.idx(o.self.node)
    steps = lambda j: If(j >= p, lambda: j - p, lambda: j - p + A.n)
    return {'at a vertex': And(k < A.n, same(c.g_cursor, A.cyc(p + k))),
            'vertices passed belong to the ring, the others are kept': ForAll(0, A.n, lambda j: If(
                steps(j) < k, lambda: same(c.at(A.at(j)).ring, o.self), lambda: same(c.at(A.at(j)).ring, A.at(j).ring)), pat=A.term)}


C('ring.Ring.update_points', dict(self=RG), NONE, modular=True, ghosts=Around(a=lambda o: o.self.node),
  requires=lambda o: {'not emptied': notnull(o.self.node), 'closed circle': o.G.a.ok, 'its vertex': o.G.a.has(o.self.node)},
  ensures=lambda o, n, r: {'every vertex belongs to the ring': o.G.a.all(lambda x: same(n.at(x).ring, o.self))},
  modifies=lambda o: [('PointNode.ring', lambda x: o.G.a.has(x))],
  loops={0: Loop(inv=up_inv, decreases=lambda o, c: o.G.a.n - c.k, frame={'PointNode.ring': lambda o, c, x: o.G.a.has(x)})},
  props=['C08', 'C09'], gen=g.forever(lambda rng: dict(self=some_ring(rng))), timeout=10)


# -------------------------------------------------- new vertices, new rings
def cpn_env(rng):
    mgr = g.K('RingManager')()
    r = some_ring(rng)
    return dict(self=mgr, ring=rng.choice([r, r, None]), point=g.point(rng), before_this_point=rng.choice([None, r.node, r.node.next]))


def listed_last(n, o, r, name):
    a, b = getattr(o.self, name), getattr(n.self, name)
    return And(b.len == a.len + 1, same(b[a.len], r), ForAll(0, a.len, lambda i: same(a[i], b[i]), pat=b.term))


def cpn_ens(o, n, r):
    x, A = n.at(r), o.G.a
    b = o.before_this_point
    return {'a new vertex at the point': And(o.fresh(r), x.x == o.point.x, x.y == o.point.y, same(x.ring, o.ring)),
            'recorded': And(listed_last(n, o, r, 'nodes'), listed_last(n, o, r, 'all_nodes')),
            'a circle of its own': Implies(isnull(b), lambda: And(same(x.next, r), same(x.prev, r))),
            'inserted before the vertex': Implies(notnull(b), lambda: And(
                same(x.next, b), same(x.prev, b.prev), same(n.at(b).prev, r), same(n.at(b.prev).next, r)))}


C(M + 'create_point_node', dict(self=RM, ring=ORef('Ring'), point=Ref('Point'), before_this_point=ORef('PointNode')), PN,
  ghosts=Circles(a=lambda o: o.before_this_point),
  requires=lambda o: {'closed circle': o.G.a.ok, 'two lists': Not(same(o.self.nodes, o.self.all_nodes))},
  ensures=cpn_ens, modifies=lambda o: modlist(o.self.nodes) + modlist(o.self.all_nodes) + (
      lambda b: [('PointNode.prev', lambda x: is_ref(x, b)), ('PointNode.next', lambda x: And(notnull_(b), is_ref(x, b.prev if hasattr(b, 'ref') or b is not None else None)))])(o.before_this_point),
  props=['C08', 'C09', 'C17'], gen=g.forever(cpn_env), timeout=10)


def is_ref(x, y):
    if y is None:
        return False
    return x == y.ref if hasattr(y, 'ref') else x is y.obj


def notnull_(b):
    return notnull(b)


def cr_ens(o, n, r):
    x = n.at(r)
    a, b = o.self.rings, n.self.rings
    return {'a new ring': o.fresh(r), 'no vertices': And(isnull(x.node), isnull(x.bottom_node)), 'unplaced': isnull(x.parent),
            'unmeasured': x._area.nan, 'uncorrected': Not(x.corrected), 'childless': x.children.len == 0,
            'numbered': And(x.index == o.self.index, n.self.index == o.self.index + 1),
            'recorded': And(b.len == a.len + 1, same(b[a.len], r), ForAll(0, a.len, lambda i: same(a[i], b[i]), pat=b.term))}


C(M + 'create_ring', dict(self=RM), RG, ensures=cr_ens, modifies=lambda o: modlist(o.self.rings) + modfields(o.self, 'index'),
  props=['C08', 'C12'], gen=g.forever(lambda rng: dict(self=tree(rng)[0])), timeout=10)


# --------------------------------------------------- splitting at a repeat
class Split:
    """ghost: the circle of the first vertex, the second one at position K"""

    def symbolic(self, V, st, env):
        G = Circles(a=lambda o: o.first_node).symbolic(V, st, env)
        G.K = z3.Int('K_a')
        A = G.a
        second = env['second_node'].a[0]
        V.facts.append(z3.Implies(A.has(second), z3.And(A.idx(second) == G.K, A.N(G.K) == second)))
        return G

    def concrete(self, env):
        G = Circles(a=lambda o: o.first_node).concrete(env)
        G.K = G.a.idx(env['second_node'])
        return G


def halves(o):
    """positions from, to of the two halves, and twice their areas"""
    A, K = o.G.a, o.G.K
    return (0, K), (K, A.n)


def half_area(o, lo, hi):
    """twice the area of the closed path over positions lo .. hi-1"""
    A = o.G.a
    return cross(A.at(hi - 1), A.at(lo)) + A.S(hi) - A.S(lo + 1)


def If2(c, a, b):
    return If(c, lambda: a, lambda: b)


def per_half(o, first, f):
    """facts for the half walked over: f(from, number of vertices)"""
    A, K = o.G.a, o.G.K
    one, two = f(0, K), f(K, A.n - K)
    return {k: And(Implies(first, one[k]), Implies(Not(first), two[k])) for k in one}


def half_stats_inv(o, c):
    A, k = o.G.a, c.k

    def f(lo, m):
        inr = lambda j: And(lo <= j, j < lo + m)
        some = lambda v, f: Exists(0, A.n, lambda j: And(inr(j), getattr(A.at(j), f) == v))
        head = cross(A.at(lo + m - 1), A.at(lo))
        return {'at a vertex': And(k < m, same(c.cursor, A.at(lo + k))), 'size so far': c.size == k,
                'area so far': If(k == 0, lambda: c.area == 0, lambda: c.area == head + A.S(lo + k) - A.S(lo + 1)),
                'extents so far': ForAll(0, A.n, lambda j: Implies(And(inr(j), j < lo + k), lambda: inside(A.at(j), c.min_x, c.min_y, c.max_x, c.max_y)), pat=A.term),
                'head within': inside(A.at(lo), c.min_x, c.min_y, c.max_x, c.max_y),
                'extents are reached': And(some(c.min_x, 'x'), some(c.max_x, 'x'), some(c.min_y, 'y'), some(c.max_y, 'y'))}
    return per_half(o, same(c.self, o.root.first_node), f)


def half_up_inv(o, c):
    A, k = o.G.a, c.k

    def f(lo, m):
        return {'at a vertex': And(k < m, same(c.g_cursor, A.at(lo + k))),
                'vertices passed belong to the ring, the others are kept': ForAll(0, A.n, lambda j: If(
                    And(lo <= j, j < lo + k), lambda: same(c.at(A.at(j)).ring, c.self), lambda: same(c.at(A.at(j)).ring, A.at(j).ring)), pat=A.term)}
    return per_half(o, same(c.at(c.self).node, o.root.first_node), f)


def absr(x):
    return If(x < 0, -x, x)


def csi_ens(o, n, r):
    A, K = o.G.a, o.G.K
    if r is None:
        return {'nothing is done for vertices of two rings': Not(same(o.first_node.ring, o.second_node.ring))}
    split = same(o.first_node.ring, o.second_node.ring)
    ring, x = o.first_node.ring, n.at(r)

    def circle(lo, hi):
        def ok(j):
            y = n.at(A.at(j))
            return Implies(And(lo <= j, j < hi), lambda: And(same(y.next, A.at(If(j + 1 == hi, lo, j + 1))), same(y.prev, A.at(If(j == lo, hi - 1, j - 1)))))
        return ForAll(0, A.n, ok, pat=A.term)

    def ring_is(rg, lo, hi):
        b = n.at(rg.box)
        p, q = n.at(b.minimum), n.at(b.maximum)
        inr = lambda j: And(lo <= j, j < hi)
        every = lambda f: ForAll(0, A.n, lambda j: Implies(inr(j), lambda: f(A.at(j))), pat=A.term)
        some = lambda v, f: Exists(0, A.n, lambda j: And(inr(j), getattr(A.at(j), f) == v))
        return {'head': same(rg.node, A.at(lo)), 'vertices': ForAll(0, A.n, lambda j: Implies(inr(j), lambda: same(n.at(A.at(j)).ring, rg)), pat=A.term),
                'area': And(Not(rg._area.nan), eqr(rg._area.val * 2, half_area(o, lo, hi))), 'size': rg._size == hi - lo,
                'hole': Iff(rg._is_hole, rg._area.val <= 0),
                'right of the left end': every(lambda v: p.x <= v.x), 'left of the right end': every(lambda v: v.x <= q.x),
                'above the bottom': every(lambda v: p.y <= v.y), 'below the top': every(lambda v: v.y <= q.y),
                'left end reached': some(p.x, 'x'), 'right end reached': some(q.x, 'x'), 'bottom reached': some(p.y, 'y'),
                'top reached': some(q.y, 'y')}
    m = n.at(ring)
    first = same(m.node, o.first_node)
    out = {'split when of one ring': Iff(notnull(r), split), 'two closed circles': Implies(split, lambda: And(circle(0, K), circle(K, A.n)))}

    for k in ('head', 'vertices', 'area', 'size', 'hole', 'right of the left end', 'left of the right end', 'above the bottom', 'below the top',
              'left end reached', 'right end reached', 'bottom reached', 'top reached'):
        out['one half stays, the new ring has the other: ' + k] = Implies(split, lambda: And(
            Implies(first, lambda: And(ring_is(m, 0, K)[k], ring_is(x, K, A.n)[k])),
            Implies(Not(first), lambda: And(ring_is(m, K, A.n)[k], ring_is(x, 0, K)[k]))))
    out['the half of the larger area stays'] = Implies(split, lambda: absr(m._area.val) >= absr(x._area.val))
    coincide = And(o.first_node.x == o.second_node.x, o.first_node.y == o.second_node.y)
    out['areas add up'] = Implies(And(split, coincide), lambda: eqr(m._area.val * 2 + x._area.val * 2, A.S(A.n)))
    out['a new ring, unplaced, uncorrected'] = Implies(split, lambda: And(o.fresh(r), isnull(x.parent), Not(x.corrected)))
    return out


def csi_hints(o, n, r):
    A, K = o.G.a, o.G.K
    coincide = And(o.first_node.x == o.second_node.x, o.first_node.y == o.second_node.y)
    return {'halves add up': Implies(coincide, lambda: eqr(half_area(o, 0, K) + half_area(o, K, A.n), A.S(A.n)))}


def csi_env(rng):
    mgr = g.K('RingManager')()
    r = some_ring(rng, n=rng.choice([2, 3, 4, 5, 6, 7]))
    r.recalculate_stats()
    ns = [r.node]
    while ns[-1].next is not r.node:
        ns.append(ns[-1].next)
    i = rng.randrange(1, len(ns))
    if rng.random() < .7:
        ns[i].x, ns[i].y = ns[0].x, ns[0].y
    if rng.random() < .1:
        ns[0].ring = None
    return dict(self=mgr, first_node=ns[0], second_node=ns[i])


C(M + 'correct_self_intersection', dict(self=RM, first_node=PN, second_node=PN), ORef('Ring'), ghosts=Split(),
  requires=lambda o: {'closed circle': o.G.a.ok,
                      'the second vertex is another one of it': And(o.G.a.has(o.second_node), 1 <= o.G.K, o.G.K < o.G.a.n),
                      'vertices belong to the ring of the first': ForAll(0, o.G.a.n, lambda j: Implies(
                          same(o.first_node.ring, o.second_node.ring), lambda: same(o.G.a.at(j).ring, o.first_node.ring)), pat=o.G.a.term),
                      'a ring': notnull(o.second_node.ring)},
  ensures=csi_ens, hints=csi_hints, split=True, budget=150,
  modifies=lambda o: modlist(o.self.rings) + modfields(o.self, 'index') + modfields(o.second_node.ring, 'node', *MEASURES)
  + [('PointNode.' + f, lambda x: o.G.a.has(x)) for f in ('next', 'prev', 'ring')],
  loops={'point_node.PointNode.stats': {0: Loop(inv=half_stats_inv, decreases=lambda o, c: o.G.a.n - c.k)},
         'ring.Ring.update_points': {0: Loop(inv=half_up_inv, decreases=lambda o, c: o.G.a.n - c.k,
                                             frame={'PointNode.ring': lambda o, c, x: o.G.a.has(x)})}},
  props=['C08', 'C09', 'C10'], gen=g.forever(csi_env), timeout=15)


# ----------------------------------------------------------- joining chains
def glr_env(rng):
    a, b = some_ring(rng), some_ring(rng)
    if rng.random() < .5:
        x = rng.choice([y for y in a.node])
        z = rng.choice([y for y in b.node])
        x.x, x.y = z.x, z.y
    return dict(self=a, other=b)


# ------------------------------------------------------- lowest vertices
def below(x, y):
    """x is below y, or left of it at the same height"""
    return Or(x.y > y.y, And(x.y == y.y, x.x < y.x))


def steps_inv(K, who, sign):
    """k + 1 links away from the vertex, along sign"""
    return lambda o, c: {'so many links away': And(c.k < K(o).n, same(c.node, K(o).cyc(K(o).idx(who(o)) + sign * (c.k + 1))))}


def ibt_env(rng):
    a, b = nodes(rng), nodes(rng)
    r = some_ring(rng)
    if rng.random() < .3:
        return dict(self=a[0], other=rng.choice(a))
    return dict(self=a[0], other=b[0])


steps = lambda K, who, sign: Loop(inv=steps_inv(K, who, sign), decreases=lambda o, c: K(o).n - c.k)
IN_A, IN_B = lambda o: o.G.a, lambda o: o.G.b
C('point_node.PointNode.is_bottom_to', dict(self=PN, other=PN), BOOL, modular=True,
  ghosts=Around(a=lambda o: o.self, b=lambda o: o.other),
  requires=lambda o: {'closed circles': And(o.G.a.ok, o.G.b.ok), 'vertices of them': And(o.G.a.has(o.self), o.G.b.has(o.other))},
  loops={0: steps(IN_A, lambda o: o.self, -1), 1: steps(IN_A, lambda o: o.self, 1),
         2: steps(IN_B, lambda o: o.other, -1), 3: steps(IN_B, lambda o: o.other, 1),
         'point_node.PointNode.stats': {0: Loop(
             inv=lambda o, c: {'so many links away': And(c.k < o.root.G.a.n, same(c.cursor, o.root.G.a.cyc(o.root.G.a.idx(o.root.self) + c.k)))},
             decreases=lambda o, c: o.root.G.a.n - c.k)}},
  props=['C12', 'C15'], gen=g.forever(ibt_env), timeout=10)


def either(root, o):
    """the circle of the ring whose vertex is asked (preconditions prove it)"""
    return root.G.a if o.self.ref.eq(root.self.node.ref) else root.G.b


def bn_inv(o, c):
    A, k = o.G.a, c.k
    p = A.idx(c.node)
    w = lambda i: If(i >= A.n, i - A.n, i)
    return {'at vertices': And(A.has(c.node), same(c.cursor, A.at(w(k + 1)))), 'walked': And(p <= k, k + 1 <= p + A.n),
            'lowest so far': ForAll(0, A.n, lambda j: Implies(j <= k, lambda: Not(below(A.at(j), c.node))), pat=A.term),
            'repeats lie there': Implies(notnull(c.dups), lambda: And(A.has(c.dups), c.dups.x == c.node.x, c.dups.y == c.node.y))}


def bn_there(o, c, *names):
    A = o.G.a
    return {'lowest': And(A.has(c.node), ForAll(0, A.n, lambda j: Not(below(A.at(j), c.node)), pat=A.term)),
            'repeats lie there': And(*[And(notnull(getattr(c, x)), lambda x=x: And(A.has(getattr(c, x)), getattr(c, x).x == c.node.x, getattr(c, x).y == c.node.y)) for x in names])}


C('point_node.PointNode.bottom_node', dict(self=PN), PN, modular=True, ghosts=Circles(a=lambda o: o.self),
  requires=lambda o: {'closed circle': o.G.a.ok, 'from that vertex': same(o.self, o.G.a.at(0))},
  ensures=lambda o, n, r: {'a vertex': o.G.a.has(r), 'the leftmost of the lowest': ForAll(0, o.G.a.n, lambda j: Not(below(o.G.a.at(j), r)), pat=o.G.a.term)},
  locals={'dups': ORef('PointNode'), 'node': PN},
  loops={0: Loop(inv=bn_inv, decreases=lambda o, c: 2 * o.G.a.n - c.k),
         1: Loop(inv=lambda o, c: bn_there(o, c, 'dups', 'cursor')),
         2: Loop(inv=lambda o, c: {**bn_there(o, c, 'cursor'), 'on the circle': o.G.a.has(c.dups)})},
  calls={'point_node.PointNode.is_bottom_to': seen(a=lambda G, o: G.a, b=lambda G, o: G.a)},
  props=['C12', 'C15'], gen=g.forever(lambda rng: dict(self=nodes(rng, rng.choice([1, 2, 3, 4, 5, 6, 7]))[0])), timeout=10)


C('ring.Ring.get_lowermost_ring', dict(self=RG, other=RG), RG, ghosts=Circles(a=lambda o: o.self.node, b=lambda o: o.other.node),
  requires=lambda o: {'two rings': Not(same(o.self, o.other)), 'closed circles': And(o.G.a.ok, o.G.b.ok), 'vertices': And(notnull(o.self.node), notnull(o.other.node)),
                      'lowest vertices known are theirs': And(Or(isnull(o.self.bottom_node), lambda: o.G.a.has(o.self.bottom_node)),
                                                              Or(isnull(o.other.bottom_node), lambda: o.G.b.has(o.other.bottom_node)))},
  ensures=lambda o, n, r: {'one of the two': Or(same(r, o.self), same(r, o.other)),
                           'lowest vertices are found': And(notnull(n.self.bottom_node), notnull(n.other.bottom_node)),
                           'of their circles': And(o.G.a.has(n.self.bottom_node), o.G.b.has(n.other.bottom_node)),
                           'the one reaching lower': lower(n, o, r)},
  modifies=lambda o: modfields(o.self, 'bottom_node') + modfields(o.other, 'bottom_node'), modular=True,
  calls={'point_node.PointNode.bottom_node': lambda root, o: seen(a=lambda G, o: either(root, o))(root, o),
         'point_node.PointNode.is_bottom_to': seen(a=lambda G, o: G.a, b=lambda G, o: G.b)},
  props=['C12'], gen=g.forever(glr_env), timeout=10)


def lower(n, o, r):
    a, b = n.self.bottom_node, n.other.bottom_node
    return And(Implies(Or(a.y > b.y, And(a.y == b.y, a.x < b.x)), lambda: same(r, o.self)),
               Implies(Or(a.y < b.y, And(a.y == b.y, a.x > b.x)), lambda: same(r, o.other)))


class Joined:
    """ghosts: circles a, b of the rings of the two bounds, ancestor chains"""

    def symbolic(self, V, st, env):
        from .c_tree import Chain
        G = Circles(a=lambda o: o.first_bound.ring.node, b=lambda o: o.second_bound.ring.node).symbolic(V, st, env)
        ch = Chain().symbolic(V, st, env)
        G.dep, G.anc, G.acyclic, G.par = ch.dep, ch.anc, ch.acyclic, ch.par
        return G

    def concrete(self, env):
        from .c_tree import Chain
        f, s = env['first_bound'], env['second_bound']
        if f.ring is None or s.ring is None or f.ring.node is None or s.ring.node is None:
            raise ValueError('no ring')
        G = Circles(a=lambda o: o.first_bound.ring.node, b=lambda o: o.second_bound.ring.node).concrete(env)
        ch = Chain().concrete(dict(a=f.ring, b=s.ring))
        G.dep, G.anc, G.acyclic = ch.dep, ch.anc, ch.acyclic
        return G


def ap_views(o):
    return o.first_bound.ring, o.second_bound.ring


def apart(o):
    A, B = o.G.a, o.G.b
    return And(ForAll(0, A.n, lambda j: Not(B.has(A.at(j))), pat=A.term), ForAll(0, B.n, lambda j: Not(A.has(B.at(j))), pat=B.term))


def own_children(o, r):
    s = r.children
    return ForAll(0, s.len, lambda i: Implies(notnull(s[i]), lambda: same(s[i].parent, r)), pat=s.term)


def keeps_first(o):
    """by nesting, else the lower one (left to get_lowermost_ring)"""


def joined_links(o, n, K, R, back):
    """the links of the joined circle: K, then R (backwards if so)"""
    k, m = K.n - 1, R.n - 1
    F = If(back, lambda: R.at(m), lambda: R.at(0))
    L = If(back, lambda: R.at(0), lambda: R.at(m))

    def kept(j):
        x = n.at(K.at(j))
        return And(same(x.next, If(j == k, lambda: F, lambda: K.at(j + 1))), same(x.prev, If(j == 0, lambda: L, lambda: K.at(j - 1))))

    def added(j):
        x = n.at(R.at(j))
        up = If(j == m, lambda: If(back, lambda: K.at(k), lambda: K.at(0)), lambda: R.at(j + 1))
        down = If(j == 0, lambda: If(back, lambda: K.at(0), lambda: K.at(k)), lambda: R.at(j - 1))
        return If(back, lambda: And(same(x.next, down), same(x.prev, up)), lambda: And(same(x.next, up), same(x.prev, down)))
    return {'the kept chain': ForAll(0, K.n, kept, pat=K.term), 'the chain added': ForAll(0, R.n, added, pat=R.term), 'head': F}


def ap_ens(o, n, r):
    r1, r2 = ap_views(o)
    A, B = o.G.a, o.G.b
    f, s = o.first_bound, o.second_bound
    first_kept = notnull(n.at(r1).node)
    back = f.side == s.side
    out = {'one of the rings is kept': Iff(first_kept, isnull(n.at(r2).node)),
           'a ring is not joined into one it contains': And(Implies(o.G.anc(r1, r2), Not(first_kept)),
                                                             Implies(And(Not(o.G.anc(r1, r2)), o.G.anc(r2, r1)), first_kept)),
           'the bounds meeting are closed': And(isnull(n.at(f).ring), isnull(n.at(s).ring))}

    def case(K, R, keep, gone, kb):
        z = joined_links(o, n, K, R, back)
        x, y = n.at(keep), n.at(gone)
        same_parity = (o.G.dep(keep) - o.G.dep(gone)) % 2 == 0
        par = If(same_parity, lambda: keep, lambda: keep.parent)
        kids = gone.children
        bs = o.active_bounds

        def stays(i):
            b = bs[i]
            was_gone = And(notnull(b), lambda: And(same(b.ring, gone), Not(same(b, f)), Not(same(b, s))))
            first_gone = And(was_gone, lambda: ForAll(0, i, lambda j: Implies(notnull(bs[j]), lambda: Or(
                Not(same(bs[j].ring, gone)), same(bs[j], f), same(bs[j], s))), pat=bs.term))
            return Implies(And(notnull(b), lambda: And(Not(same(b, f)), Not(same(b, s)))), lambda: If(
                first_gone, lambda: And(same(n.at(b).ring, keep), n.at(b).side == kb.side),
                lambda: Implies(Not(same(b.ring, gone)), lambda: And(same(n.at(b).ring, b.ring), n.at(b).side == b.side))))
        return {'links of the kept chain': z['the kept chain'], 'links of the chain added': z['the chain added'],
                'head': same(x.node, If(kb.side == E.EdgeSide.LEFT, lambda: z['head'], lambda: K.at(0))),
                'vertices belong to the kept ring': And(
                    ForAll(0, K.n, lambda j: same(n.at(K.at(j)).ring, keep), pat=K.term),
                    ForAll(0, R.n, lambda j: same(n.at(R.at(j)).ring, keep), pat=R.term)),
                'lowest vertices are forgotten': And(isnull(x.bottom_node), isnull(y.bottom_node)),
                'no children are left': emptied(o, n, gone),
                'its children move up or over, of the same orientation': ForAll(0, kids.len, lambda i: Implies(
                    notnull(kids[i]), lambda: same(n.at(kids[i]).parent, par)), pat=kids.term),
                'the bound at the other end': ForAll(0, bs.len, stays, pat=bs.term)}
    one, two = case(A, B, r1, r2, f), case(B, A, r2, r1, s)
    for k in one:
        out[k] = And(Implies(first_kept, one[k]), Implies(Not(first_kept), two[k]))
    return out


def ap_env(rng):
    mgr, rs = tree(rng, rng.randint(2, 7))
    x, y = rng.sample(rs, 2)
    for r in rs:
        if r in (x, y) or rng.random() < .3:
            some = nodes(rng)
            for v in some:
                v.ring = r
            r.node = some[0]
    sides = list(g.K('EdgeSide'))
    bs = [g.bound(rng, 3) if rng.random() < .8 else None for _ in range(rng.randint(0, 3))]
    for b in bs:
        if b is not None and rng.random() < .7:
            b.ring = rng.choice([r for r in rs if r is not x and r is not y] or [None])
    pair = []
    for r in (x, y):
        left, right = g.bound(rng, 3), g.bound(rng, 3)
        left.ring = right.ring = r
        left.side, right.side = sides
        both = [left, right]
        rng.shuffle(both)
        pair.append(both[0])
        bs += both
    rng.shuffle(bs)
    return dict(self=mgr, first_bound=pair[0], second_bound=pair[1], active_bounds=bs)


def ap_ghosts(f):
    def h(root, o):
        g_ = G()
        f(g_, root, o)
        return g_
    return h


def joined(root, o, K, R):
    """the circle of the kept ring, just before its vertices are updated"""
    back = root.first_bound.side == root.second_bound.side
    z = joined_links(root, o, K, R, back)
    return Joint(K, R, o, And(apart(root), z['the kept chain'], z['the chain added']))


def turned(g_, root, o):
    first, second = ap_views(root)
    g_.a = Seen(root.G.a if o.self.ref.eq(first.node.ref) else root.G.b, o)


def updated(g_, root, o):
    first, second = ap_views(root)
    one = o.self.ref.eq(first.ref)
    g_.a = joined(root, o, *((root.G.a, root.G.b) if one else (root.G.b, root.G.a)))


def ap_mod(o):
    out = []
    for r in ap_views(o):
        out += modfields(r, 'bottom_node', 'node', '_area', '_size', '_is_hole') + modlist(r.children)
        out += modfields(r.box.minimum, 'x', 'y') + modfields(r.box.maximum, 'x', 'y')
        for q in (r, r.parent):
            out += modlist(kids_of(o, o.self, q))
    bs = o.active_bounds
    out += modfields(o.first_bound, 'ring') + modfields(o.second_bound, 'ring')
    out += [('Bound.' + f, lambda x: member(bs, x)) for f in ('ring', 'side')]
    out += [('PointNode.' + f, lambda x: Or(o.G.a.has(x), o.G.b.has(x))) for f in ('next', 'prev', 'ring')]
    out += [('Ring.parent', lambda x: Or(*[child_of(r, x) for r in ap_views(o)]))]
    return out


def member(s, x):
    if is_z3(x):
        i = z3.Int('i!s')
        return z3.Exists([i], z3.And(0 <= i, i < s.len, s.term(i) == x, x != 0))
    return any(y is x for y in s._items())


def child_of(r, x):
    return member(r.children, x)


def ap_scan(o, c):
    bs = o.active_bounds
    return {'bounds passed are of other rings': ForAll(0, c.k, lambda i: Implies(
        notnull(bs[i]), lambda: Not(same(c.at(bs[i]).ring, c.remove_ring))), pat=bs.term)}


NEVER = lambda o, c, x: False
C(M + 'append_ring', dict(self=RM, first_bound=Ref('Bound'), second_bound=Ref('Bound'), active_bounds=List(ORef('Bound'))), NONE,
  ghosts=Joined(), split=True,
  requires=lambda o: {'two rings with vertices': And(
      *[And(notnull(r), lambda: notnull(r.node)) for r in ap_views(o)], Not(same(*ap_views(o)))),
      'closed circles': And(o.G.a.ok, o.G.b.ok),
      'two bounds': Not(same(o.first_bound, o.second_bound)), 'circles are apart': apart(o), 'acyclic': o.G.acyclic,
      'lowest vertices known are theirs': And(*[Or(isnull(r.bottom_node), lambda: A.has(r.bottom_node)) for r, A in zip(ap_views(o), (o.G.a, o.G.b))]),
      'children have their parent': And(*[own_children(o, r) for r in ap_views(o)]),
      'lists of children are not shared': owned(o, o.self, *ap_views(o), *[r.parent for r in ap_views(o)])},
  ensures=ap_ens, modifies=ap_mod,
  loops={0: Loop(inv=ap_scan, frame={'Bound.ring': NEVER, 'Bound.side': NEVER})},
  calls={'ring.Ring.is_descendant_of': same_chain, 'ring.Ring.depth': same_chain, M + 'replace_ring': lambda root, o: None,
         'ring.Ring.get_lowermost_ring': seen(a=lambda G, o: G.a, b=lambda G, o: G.b),
         'point_node.PointNode.reverse': ap_ghosts(turned), 'ring.Ring.update_points': ap_ghosts(updated)},
  props=['C08', 'C12', 'C13'], gen=g.forever(ap_env), timeout=15, budget=200)
