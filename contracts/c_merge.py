"""C08, C09, C10: cleaning and merging of rings at coinciding vertices, as a
whole (bounded: the contracts below are evaluated on generated rings)."""
from fractions import Fraction as Fr

from pyvc.contract import C
from pyvc.types import *
from pyvc.spec import *
from . import gens as g
from .c_rings import nodes, ring as some_ring
from .c_tree import RG, RM, M
from .c_join import PN


def walk(head, get, limit=2000):
    """objects of the circle, or None"""
    out, x = [], head
    while True:
        out.append(x)
        y = get(x, 'next')
        if y is None or get(y, 'prev') is not x or len(out) > limit:
            return None
        x = y
        if x is head:
            return out


def reader(view):
    """raw field access in the state of a view"""
    from pyvc.spec import CRef

    def get(x, f):
        v = getattr(CRef(view, x), f)
        return getattr(v, 'obj', v)
    return get


def place(get, x):
    return Fr(get(x, 'x')), Fr(get(x, 'y'))


def area2(ps):
    return sum((a[0] + b[0]) * (a[1] - b[1]) for a, b in zip(ps[-1:] + ps[:-1], ps))


def rings_of(o):
    """rings of the manager and their circles at entry"""
    get = reader(o)
    out = []
    for r in o.self.rings._items():
        h = get(r, 'node')
        out.append((r, [] if h is None else walk(h, get)))
    return out


def cyclic_subsequence(small, big):
    if not small:
        return True
    pos = {id(x): i for i, x in enumerate(big)}
    if any(id(x) not in pos for x in small):
        return False
    ps = [pos[id(x)] for x in small]
    return sum(ps[i - 1] >= ps[i] for i in range(len(ps))) == 1 or len(ps) == 1


def live(n, o):
    """rings after the call: closed circles of their own vertices, measured
    right (or not yet measured)"""
    new, bad = reader(n), []
    out = []
    for r in n.self.rings._items():
        h = new(r, 'node')
        if h is None:
            continue
        c = walk(h, new)
        if c is None:
            return None
        out.append((r, c))
    return out


def measured_right(n, r, c):
    from pyvc.spec import CRef
    new = reader(n)
    x = CRef(n, r)
    if x._area.nan:
        return True
    ps = [place(new, v) for v in c]
    b = x.box
    return (Fr(x._area.val) * 2 == area2(ps) and x._size == len(c) and x._is_hole == (x._area.val <= 0)
            and (b.minimum.x, b.minimum.y, b.maximum.x, b.maximum.y) == (
                min(p[0] for p in ps), min(p[1] for p in ps), max(p[0] for p in ps), max(p[1] for p in ps)))


def common(o, n):
    old, new = reader(o), reader(n)
    before = rings_of(o)
    after = live(n, o)
    if after is None:
        return {'closed circles': False}
    vs = [v for _, c in before for v in c]
    kept = {id(v) for _, c in after for v in c}
    return {'closed circles': True,
            'every vertex left belongs to the ring that contains it': all(new(v, 'ring') is r for r, c in after for v in c),
            'in one ring only': len(kept) == sum(len(c) for _, c in after),
            'no vertex is made up': kept <= {id(v) for v in vs},
            'removed vertices belong to no ring': all(new(v, 'ring') is None for v in vs if id(v) not in kept),
            'vertices stay in place': all(place(old, v) == place(new, v) for v in vs),
            'total signed area is kept': sum(area2([place(old, v) for v in c]) for _, c in before if c)
            == sum(area2([place(new, v) for v in c]) for _, c in after),
            'measures are those of the vertices': all(measured_right(n, r, c) for r, c in after)}


def rdp_ens(o, n, r):
    out = common(o, n)
    if not all(out.values()):
        return out
    old, new = reader(o), reader(n)
    a, b = o.first_node.obj, o.second_node.obj
    after = dict((id(x), c) for x, c in live(n, o))
    touched = {id(old(a, 'ring')), id(old(b, 'ring'))}
    for x, c in rings_of(o):
        d = after.get(id(x), [])
        if id(x) not in touched:
            out['other rings are kept'] = [id(v) for v in c] == [id(v) for v in d]
        else:
            gone = [v for v in c if not any(v is w for w in d)]
            out['order is kept'] = out.get('order is kept', True) and cyclic_subsequence(d, c)
            out['only repeats are removed'] = out.get('only repeats are removed', True) and (
                all(place(old, v) == place(old, a) for v in gone))
            out['at most one of the repeats is left, unless all are gone'] = True
    if not r:
        def spread(v):
            return place(new, new(v, 'next')) != place(new, v) or new(v, 'next') is v
        out['no repeats beside them are left'] = (new(a, 'ring') is not None and new(b, 'ring') is not None
                                                  and spread(a) and spread(new(a, 'prev')) and spread(b) and spread(new(b, 'prev')))
    return out


def pair_env(rng, shared=.5):
    """one or two rings listed at the top level, and two vertices at one place"""
    mgr = g.K('RingManager')()
    one = rng.random() < .5
    hi = rng.choice([1, 2, 3])
    a = nodes(rng, rng.choice([1, 2, 3, 4, 5, 6, 8]), hi)
    lists = [a] if one else [a, nodes(rng, rng.choice([1, 2, 3, 4, 5, 6]), hi)]
    if not one and rng.random() < shared:
        # the second ring runs back along a chain of the first
        k = rng.randint(1, len(a))
        i = rng.randrange(len(a))
        chain = [a[(i + j) % len(a)] for j in range(k)][::-1]
        K = g.K('PointNode')
        b = [K(v.x, v.y) for v in chain] + [K(g.coord(rng, hi + 1), g.coord(rng, hi + 1)) for _ in range(rng.choice([0, 1, 1, 2]))]
        for j, v in enumerate(b):
            v.next, v.prev = b[(j + 1) % len(b)], b[j - 1]
        lists[1] = b
    if one and rng.random() < shared and len(a) > 2:
        # it runs back along itself
        k = rng.randint(2, len(a) - 1)
        K = g.K('PointNode')
        b = a + [K(v.x, v.y) for v in a[1:k][::-1]] + [K(g.coord(rng, hi + 1), g.coord(rng, hi + 1)) for _ in range(rng.choice([0, 0, 1]))]
        for j, v in enumerate(b):
            v.next, v.prev = b[(j + 1) % len(b)], b[j - 1]
        lists[0] = b
    for i, ns in enumerate(lists):
        r = g.K('Ring')(i)
        for v in ns:
            v.ring = r
        r.node = rng.choice(ns)
        if rng.random() < .5:
            r.recalculate_stats()
        mgr.rings.append(r)
        mgr.children.append(r)
    mgr.index = len(lists)
    for _ in range(30):
        v = rng.choice(lists[0])
        ws = [w for w in lists[-1] if w is not v and w == v]
        if ws:
            return dict(self=mgr, first_node=v, second_node=rng.choice(ws))
    v, w = rng.choice(lists[0]), rng.choice(lists[-1])
    w.x, w.y = v.x, v.y
    for r in mgr.rings:
        if r._size:
            r.recalculate_stats()
    return dict(self=mgr, first_node=v, second_node=w)


def two(o):
    return {'two vertices at one place': And(Not(same(o.first_node, o.second_node)), o.first_node.x == o.second_node.x,
                                             o.first_node.y == o.second_node.y)}


C(M + 'remove_duplicate_points', dict(self=RM, first_node=PN, second_node=PN), BOOL, requires=two, ensures=rdp_ens,
  props=['C08', 'C09', 'C10'], gen=g.forever(lambda rng: pair_env(rng, .2)), noframe=True, prove=False)


def pce_ens(o, n, r):
    return common(o, n)


C(M + 'process_collinear_edges', dict(self=RM, first_node=PN, second_node=PN), BOOL, requires=two, ensures=pce_ens,
  props=['C08', 'C09', 'C10'], gen=g.forever(pair_env), noframe=True, prove=False)
