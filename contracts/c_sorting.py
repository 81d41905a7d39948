"""C07: sorting and searching primitives."""
import z3

from pyvc.contract import C, Loop, modlist, modfields
from pyvc.types import *
from pyvc.spec import *
from . import gens as g
from .c_values import pt_eq

OBJ = Ref('Bound')          # elements are only compared and moved
CMP = TFun('cmp', [OBJ, OBJ], BOOL)
SWAP = TFun('swap', [OBJ, OBJ], NONE, log='swaps')


def bag_eq(a, b):
    """same elements with the same multiplicities"""
    if isinstance(a, SList):
        return a.bag == b.bag
    xs, ys = sorted(id(x) for x in a._items()), sorted(id(x) for x in b._items())
    return xs == ys


def all_same(a, b):
    return And(a.len == b.len, ForAll(0, a.len, lambda i: Implies(i < b.len, lambda: same(a[i], b[i]))))


# ---------------------------------------------------------- bubble sort
def bs_inv(o, c):
    return {'same elements': bag_eq(c.result, o.sequence),
            'a new list of the same length': And(c.result.len == o.sequence.len, Not(same(c.result, o.sequence)),
                                                 o.fresh(c.result)),
            'input list unchanged': all_same(c.sequence, o.sequence),
            'only inversions are exchanged': swaps_ok(o, c)}


def swaps_ok(o, c):
    lg = c.log('swaps')
    if is_z3(lg.len):
        i = z3.Int('sw!s')
        a, b = lg.get(i)
        return And(lg.len >= 0, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < lg.len), z3.Not(tobool(o.comparator(a, b))))))
    return all(not o.comparator(*lg.get(i)) for i in range(lg.len))


def bs_inner(o, c):
    r = bs_inv(o, c)
    r['pairs so far are in order, when nothing was exchanged'] = Implies(
        c.no_swaps, lambda: ForAll(0, c.k, lambda i: o.comparator(c.result[i], c.result[i + 1])))
    return r


def replay_swaps(o, n, r):
    """the reported exchanges, in order, are adjacent and turn the input into
    the result"""
    xs = [x.obj if hasattr(x, 'obj') else x for x in o.sequence._items()]
    lg = n.log('swaps')
    for i in range(lg.len):
        a, b = [x.obj if hasattr(x, 'obj') else x for x in lg.get(i)]
        k = [j for j in range(len(xs) - 1) if xs[j] is a and xs[j + 1] is b]
        if not k:
            return {'exchanges are of neighbours': False}
        xs[k[0]], xs[k[0] + 1] = b, a
    ys = [x.obj if hasattr(x, 'obj') else x for x in r._items()]
    return {'the reported exchanges produce the result': all(x is y for x, y in zip(xs, ys)) and len(xs) == len(ys)}


def strict_order(rng, items):
    """a total preorder on the items"""
    rank = {id(x): rng.randrange(4) for x in items}
    return rank


def bs_env(rng):
    b = [g.bound(rng, 3) for _ in range(rng.randint(0, 6))]
    for i, x in enumerate(b):
        x.position = rng.randrange(4)
    return dict(sequence=b, comparator=lambda x, y: x.position <= y.position, on_swap=lambda x, y: None)


C('bubble_sort.bubble_sort', dict(sequence=List(OBJ), comparator=CMP, on_swap=SWAP), List(OBJ),
  ensures=lambda o, n, r: {
      'a permutation': bag_eq(r, o.sequence), 'of the same length': r.len == o.sequence.len,
      'neighbours are in order': ForAll(0, r.len - 1, lambda i: o.comparator(r[i], r[i + 1])),
      'the input list is kept': And(o.fresh(r), all_same(n.at(o.sequence), o.sequence)),
      'only inversions are exchanged': swaps_ok(o, n)},
  conc_ensures=replay_swaps,
  loops={0: Loop(inv=bs_inv), 1: Loop(inv=bs_inner)}, props=['C07'], gen=g.forever(bs_env), monitor=False,
  timeout=20)


# ------------------------------------------------------------- quicksort
def qs_inv(o, c):
    s, s0 = c.sequence, o.sequence
    return {'same elements': bag_eq(s, s0), 'same length': s.len == s0.len,
            'segments lie within the list': ForAll(0, c.queue.len, lambda i: And(
                0 <= c.queue[i][0], c.queue[i][0] <= c.queue[i][1], c.queue[i][1] < s.len))}


def qs_inner(o, c):
    s = c.sequence
    b0 = o.sequence.bag
    x = s[c.pivot_index].ref if isinstance(s[c.pivot_index], SRef) else s[c.pivot_index]
    p = c.pivot.ref
    b = s.bag
    b1 = z3.Store(b, x, z3.Select(b, x) - 1)
    b2 = z3.Store(b1, p, z3.Select(b1, p) + 1)
    return {'within the segment': And(0 <= c.low, c.low <= c.index, c.index <= c.pivot_index, c.pivot_index <= c.high,
                                      c.high < s.len),
            'length': s.len == o.sequence.len,
            'current element': same(c.element, s[c.index]),
            'same elements, the pivot held aside': b2 == b0,
            'left part not after the pivot': ForAll(c.low, c.index, lambda i: o.comparator(c.pivot, s[i])),
            'right part after the pivot': ForAll(c.pivot_index + 1, c.high + 1, lambda i: Not(o.comparator(c.pivot, s[i]))),
            'segments lie within the list': ForAll(0, c.queue.len, lambda i: And(
                0 <= c.queue[i][0], c.queue[i][0] <= c.queue[i][1], c.queue[i][1] < s.len)),
            }


def sorted_pairs(o, n, r):
    s = n.at(o.sequence)
    xs = s._items()
    return {'ordered': all(not (o.comparator(xs[i], xs[j]) and not o.comparator(xs[j], xs[i]))
                           for i in range(len(xs)) for j in range(i + 1, len(xs)))}


def qs_env(rng):
    b = [g.bound(rng, 3) for _ in range(rng.randint(0, 9))]
    for x in b:
        x.position = rng.randrange(6)
    if rng.random() < .5:
        return dict(sequence=b, comparator=lambda x, y: x.position > y.position)
    return dict(sequence=b, comparator=lambda x, y: x.position >= y.position)


C('utils.quicksort', dict(sequence=List(OBJ), comparator=CMP), NONE,
  ensures=lambda o, n, r: {'a permutation': bag_eq(n.at(o.sequence), o.sequence),
                           'of the same length': n.at(o.sequence).len == o.sequence.len},
  conc_ensures=sorted_pairs, modifies=lambda o: modlist(o.sequence),
  locals={'queue': List(TTuple(INT, INT))},
  loops={0: Loop(inv=qs_inv), 1: Loop(inv=qs_inner)}, props=['C07'], gen=g.forever(qs_env), monitor=False, timeout=20)


# ------------------------------------------------------------- searching
def find_env(rng):
    b = [g.bound(rng, 3) for _ in range(rng.randint(0, 5))]
    if b and rng.random() < .3:
        b.append(b[0])
    return dict(value=rng.choice(b) if b and rng.random() < .8 else g.bound(rng, 3), sequence=b)


C('utils.find', dict(value=OBJ, sequence=List(OBJ)), INT,
  ensures=lambda o, n, r: {
      'a position, or the length': And(0 <= r, r <= o.sequence.len),
      'that element': Implies(r < o.sequence.len, lambda: same(o.sequence[r], o.value)),
      'the first one': ForAll(0, r, lambda i: Not(same(o.sequence[i], o.value)))},
  props=['C07'], modular=True, gen=g.forever(find_env))

PRED = TFun('pred', [OBJ], BOOL)


def find_if_env(rng):
    b = [g.bound(rng, 3) for _ in range(rng.randint(0, 5))]
    return dict(predicate=lambda x: x.winding_count > 0, values=b)


C('utils.find_if', dict(predicate=PRED, values=List(OBJ)), INT,
  ensures=lambda o, n, r: {
      'a position, or the length': And(0 <= r, r <= o.values.len),
      'satisfies the predicate': Implies(r < o.values.len, lambda: o.predicate(o.values[r])),
      'the first one': ForAll(0, r, lambda i: Not(o.predicate(o.values[i])))},
  loops={0: Loop(inv=lambda o, c: {'none before': ForAll(0, c.k, lambda i: Not(o.predicate(o.values[i])))})},
  props=['C07'], gen=g.forever(find_if_env), monitor=False)


def rot_env(rng):
    n = rng.randint(0, 5)
    return dict(sequence=[g.bound(rng, 3) for _ in range(n)], index=rng.randint(-n - 1, n + 1))


def rot_ens(o, n, r):
    s, L = o.sequence, o.sequence.len
    mag = Abs(o.index)
    k = If(And(0 < mag, mag < L), If(o.index > 0, o.index, o.index + L), 0)
    return {'same length': r.len == L,
            'rotated by index': ForAll(0, L, lambda i: Implies(i < r.len, lambda: same(
                r[i], If(i + k < L, lambda: s[If(i + k < L, i + k, 0)], lambda: s[If(i + k < L, 0, i + k - L)])))),
            'the given list is kept': all_same(n.at(s), s)}


C('utils.rotate_sequence', dict(sequence=List(OBJ), index=INT), List(OBJ), ensures=rot_ens,
  props=['C07', 'C13'], gen=g.forever(rot_env))


def ins_env(rng):
    s = sorted({rng.randint(-3, 3) for _ in range(rng.randint(0, 5))})
    return dict(sequence=[float(x) if rng.random() < .3 else x for x in s], value=rng.randint(-3, 3))


def ascending(s):
    return ForAll(0, s.len, lambda i: ForAll(i + 1, s.len, lambda j: s[i] < s[j]))


def ins_ens(o, n, r):
    s, m = o.sequence, n.at(o.sequence)
    return {'strictly ascending': ascending(m),
            'one element more, unless present': Or(m.len == s.len, m.len == s.len + 1),
            'nothing but the value is added': ForAll(0, m.len, lambda i: Or(
                m[i] == o.value, Exists(0, s.len, lambda j: s[j] == m[i]))),
            'nothing is lost': ForAll(0, s.len, lambda i: Exists(0, m.len, lambda j: m[j] == s[i])),
            'the value is present': Exists(0, m.len, lambda j: m[j] == o.value)}


C('utils.insort_unique', dict(sequence=List(REAL), value=REAL), NONE, requires=lambda o: {
    'strictly ascending': ascending(o.sequence)}, ensures=ins_ens, modifies=lambda o: modlist(o.sequence),
  props=['C07'], gen=g.forever(ins_env), timeout=20)

C('ring_manager.hot_pixels_compare', dict(left=Ref('Point'), right=Ref('Point')), BOOL,
  ensures=lambda o, n, r: {'right is not after left: lower first, then leftmost': Iff(r, Or(
      o.right.y > o.left.y, And(o.right.y == o.left.y, o.right.x <= o.left.x)))},
  props=['C07', 'C17'], modular=True, gen=g.forever(lambda rng: dict(left=g.point(rng, 1), right=g.point(rng, 1))))


def edges_list(rng, n=None, hi=2):
    return [g.edge(rng, hi) for _ in range(rng.randint(1, 4) if n is None else n)]


C('local_minimum.to_first_non_horizontal_index', dict(edges=List(Ref('Edge'))), INT,
  requires=lambda o: {'slopes are right': ForAll(0, o.edges.len, lambda i: Iff(o.edges[i].slope.inf, o.edges[i].top.y == o.edges[i].bottom.y))},
  ensures=lambda o, n, r: {'a position': And(0 <= r, r < o.edges.len),
                           'not horizontal': o.edges[r].top.y != o.edges[r].bottom.y,
                           'the first one': ForAll(0, r, lambda i: o.edges[i].top.y == o.edges[i].bottom.y)},
  raises={'StopIteration': lambda o: ForAll(0, o.edges.len, lambda i: o.edges[i].top.y == o.edges[i].bottom.y)},
  props=['C07', 'C13'], gen=g.forever(lambda rng: dict(edges=edges_list(rng, hi=1))))


# -------------------------------------------------------- IntersectNode
def inode(rng):
    return g.K('IntersectNode')(g.bound(rng, 2), g.bound(rng, 2), g.point(rng, 2))


def cnt(x):
    return x.first_bound.opposite_winding_count + x.second_bound.opposite_winding_count


C('intersect_node.IntersectNode.__lt__', dict(self=Ref('IntersectNode'), other=Ref('IntersectNode')), BOOL,
  requires=lambda o: {'32-bit counts': And(*[And(-2 ** 31 <= cnt(x), cnt(x) < 2 ** 31) for x in (o.self, o.other)])},
  ensures=lambda o, n, r: {
      'at one height by the sum of opposite counts': Implies(o.self.point.y == o.other.point.y,
                                                             lambda: Iff(r, cnt(o.self) < cnt(o.other))),
      'otherwise the lower one first': Implies(Abs(o.self.point.y - o.other.point.y) * 2 ** 40 > 1 + Abs(o.self.point.y) + Abs(o.other.point.y),
                                               lambda: Iff(r, o.self.point.y > o.other.point.y))},
  props=['C07'], gen=g.forever(lambda rng: dict(self=inode(rng), other=inode(rng))))


def has_env(rng):
    x = inode(rng)
    return dict(self=x, bound=rng.choice([x.first_bound, x.second_bound, g.bound(rng, 2)]))


C('intersect_node.IntersectNode.has_bound', dict(self=Ref('IntersectNode'), bound=Ref('Bound')), BOOL,
  ensures=lambda o, n, r: {'one of the two': Iff(r, Or(same(o.self.first_bound, o.bound), same(o.self.second_bound, o.bound)))},
  props=['C07'], modular=True, gen=g.forever(has_env))


def cur(b):
    """current edge of a bound"""
    i = b._current_edge_index
    return b.edges[i.val if isinstance(i, SOpt) else i]


def has_cur(b):
    i = b._current_edge_index
    if isinstance(i, SOpt):
        return And(Not(i.none), 0 <= i.val, i.val < b.edges.len)
    return i is not None and 0 <= i < b.edges.len


def parallel(a, b):
    return (a.top.y - a.bottom.y) * (b.top.x - b.bottom.x) == (a.top.x - a.bottom.x) * (b.top.y - b.bottom.y)


C('bound.intersection_compare', dict(left=Ref('Bound'), right=Ref('Bound')), BOOL,
  requires=lambda o: {'current edges': And(has_cur(o.left), has_cur(o.right))},
  ensures=lambda o, n, r: {'in order, or parallel': Iff(r, Or(o.left.current_x <= o.right.current_x,
                                                             parallel(cur(o.left), cur(o.right))))},
  props=['C07', 'C03'], modular=True, gen=g.forever(lambda rng: dict(left=g.bound(rng, 2), right=g.bound(rng, 2))))


def bounds_list(rng, lo=0, hi=4):
    return [g.bound(rng, 2) for _ in range(rng.randint(lo, hi))]


def ucx_ens(o, n, r):
    bs = o.active_bounds
    return {'positions are the indices': ForAll(0, bs.len, lambda i: n.at(bs[i]).position == i),
            'abscissas are those of the current edges at that height': ForAll(0, bs.len, lambda i: (
                lambda e, x: If(e.top.y == e.bottom.y, lambda: x == e.top.x, lambda: eqr(
                    (x - e.bottom.x) * (e.top.y - e.bottom.y), (e.top.x - e.bottom.x) * (o.top_y - e.bottom.y))))(
                        cur(bs[i]), n.at(bs[i]).current_x))}


def distinct(s):
    return ForAll(0, s.len, lambda i: ForAll(i + 1, s.len, lambda j: Not(same(s[i], s[j]))))
