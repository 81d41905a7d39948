"""Whole operations of the real code watched from inside: the stated
invariants of rings, of the ring tree and of the active bounds are evaluated
at every call of the methods that must keep them. The definitions used here
are independent of the code under check. Methods that are not there (any
more) are not watched."""
import inspect
from fractions import Fraction as Fr

from pyvc import concrete
from . import cases as G
from . import oracle as O
from . import real
from .tasks import task, Skip, many_rings, interior_point


class Broken(Exception):
    pass


def circle(node, limit=100000):
    """vertices of a ring, links checked"""
    out, cur = [], node
    while True:
        if cur is None:
            raise Broken('a vertex without successor')
        if cur.next is None or cur.next.prev is not cur:
            raise Broken('the predecessor of the successor of a vertex is another vertex')
        out.append(cur)
        cur = cur.next
        if cur is node:
            return out
        if len(out) > limit:
            raise Broken('the vertices of a ring form no circle')


def doubled_area(ns):
    return sum((Fr(a.x) * Fr(b.y) - Fr(b.x) * Fr(a.y)) for a, b in zip(ns, ns[1:] + ns[:1]))


def orient(ns):
    """doubled area in the sense of the package (stats of a node)"""
    return -doubled_area(ns)


class Watch:
    def __init__(self, exact):
        self.bad, self.exact = [], exact
        self.undo = []
        self.seen = 0
        self.busy = False
        self.manager = None

    # ------------------------------------------------------------ hooks
    def hook(self, cls, name, before=None, after=None):
        fn = cls.__dict__.get(name)
        if not inspect.isfunction(fn):
            return
        sig = inspect.signature(fn)
        w = self

        def wrapper(*a, **kw):
            if w.busy or w.bad:
                return fn(*a, **kw)
            try:
                b = sig.bind(*a, **kw)
                b.apply_defaults()
                args = list(b.arguments.values())
            except TypeError:
                return fn(*a, **kw)
            state = w.call(before, args) if before else None
            r = fn(*a, **kw)
            if after and not w.bad:
                w.call(after, args, state, r)
            return r
        wrapper.__name__ = name
        setattr(cls, name, wrapper)
        self.undo.append((cls, name, fn))

    def hook_property(self, cls, name, check):
        p = cls.__dict__.get(name)
        if not isinstance(p, property):
            return
        w = self

        def get(obj):
            r = p.fget(obj)
            if not w.busy and not w.bad:
                w.call(check, obj, r)
            return r
        setattr(cls, name, property(get, p.fset, p.fdel))
        self.undo.append((cls, name, p))

    def hook_global(self, mods, name, check):
        for m in mods:
            fn = m.__dict__.get(name)
            if not inspect.isfunction(fn):
                continue
            w = self

            def wrapper(*a, _fn=fn, **kw):
                r = _fn(*a, **kw)
                if not w.busy and not w.bad:
                    try:
                        b = inspect.signature(_fn).bind(*a, **kw)
                    except TypeError:
                        return r
                    w.call(check, list(b.arguments.values()), r)
                return r
            setattr(m, name, wrapper)
            self.undo.append((m, name, fn))

    def call(self, f, *a):
        self.busy = True
        self.seen += 1
        try:
            return f(*a)
        except Broken as e:
            self.bad.append(str(e))
        except (AttributeError, TypeError, IndexError, KeyError):
            pass            # the shapes this watcher knows are gone
        finally:
            self.busy = False

    def say(self, ok, text, *a):
        if not ok and not self.bad:
            self.bad.append(text % a if a else text)

    def remove(self):
        for obj, name, v in reversed(self.undo):
            setattr(obj, name, v)


def M():
    return concrete.module('ring_manager')


def live(m):
    return [r for r in m.rings if r.node is not None]


def pts(ns):
    return [(n.x, n.y) for n in ns]


def run(case, install, exact=False):
    w = Watch(exact)
    try:
        install(w, case)
        try:
            real.run(case)
        except concrete.Timeout:
            raise
        except Exception:
            pass                # completion is another property
    finally:
        w.remove()
    if not w.seen:
        raise Skip()
    return w.bad


def corrections(rng):
    """operands whose results need corrections"""
    r = rng.random()
    if r < .45:
        return G.exact_case(rng, rng.choice([4, 4, 6]))
    return many_rings(rng) if r < .8 else G.general_case(rng)


# ----------------------------------------------------- C08 circles of rings
STEPS = ('add_point_to_ring', 'append_ring', 'insert_hot_pixels_in_path', 'process_collinear_edges',
         'correct_self_intersection', 'process_single_intersection', 'add_local_maximum_point',
         'add_local_minimum_point', 'correct_repeated_points')
PHASES = ('execute_vatti', 'correct_orientations', 'correct_collinear_edges', 'correct_self_intersections',
          'correct_tree', 'correct_chained_rings', 'correct_topology')
KEEPS_VERTICES = ('correct_self_intersection', 'process_single_intersection', 'append_ring', 'correct_repeated_points',
                  'correct_chained_rings')


def all_circles(m, where, owned):
    owner = {}
    for r in live(m):
        for n in circle(r.node):
            if id(n) in owner and owner[id(n)] is not r:
                raise Broken('after %s: a vertex belongs to two rings' % where)
            owner[id(n)] = r
            if owned and n.ring is not r:
                raise Broken('after %s: a vertex of a ring records another ring as its own' % where)
    return owner


def circles(w, case):
    K = M().RingManager

    def hook(name):
        def before(args):
            if name not in KEEPS_VERTICES:
                return None
            return sorted(p for r in live(args[0]) for p in pts(circle(r.node)))

        def after(args, state, r):
            owner = all_circles(args[0], name, True)
            if state is not None:
                now = sorted(p for r in live(args[0]) for p in pts(circle(r.node)))
                w.say(now == state, 'after %s: vertices were lost or added', name)
        w.hook(K, name, before, after)
    for name in STEPS + PHASES:
        hook(name)

    def reversal():
        def before(args):
            return circle(args[0])

        def after(args, state, r):
            now = circle(args[0])
            w.say([id(x) for x in now] == [id(x) for x in state[:1] + state[:0:-1]],
                  'reversing a ring changed more than its direction')
        w.hook(concrete.cls('PointNode'), 'reverse', before, after)
    reversal()


@task('circles of vertices during operations', ['C08'], corrections,
      'every step of operations on operands that need corrections: links agree, vertices belong to the ring that '
      'contains them, splits and joins keep all vertices', 3)
def circles_task(case):
    return run(case, circles)


# -------------------------------------------------------------- C09 areas
def areas(w, case):
    K = M().RingManager

    def total(m):
        return sum(orient(circle(r.node)) for r in live(m))

    for name in ('process_collinear_edges', 'correct_self_intersection', 'process_single_intersection',
                 'correct_collinear_edges', 'correct_self_intersections', 'correct_chained_rings',
                 'correct_repeated_points', 'correct_tree', 'remove_duplicate_points'):
        def before(args):
            return total(args[0])

        def after(args, state, r, name=name):
            for ring in live(args[0]):
                for n in circle(ring.node):
                    w.say(n.ring is ring, 'after %s: a vertex records another ring than the one containing it', name)
            t = total(args[0])
            w.say(t == state, 'after %s: the total signed area is %s, before %s', name, t / 2, state / 2)
        w.hook(K, name, before, after)

    def o_before(args):
        return sum(abs(orient(circle(r.node))) for r in live(args[0]))

    def o_after(args, state, r):
        t = sum(abs(orient(circle(r.node))) for r in live(args[0]))
        w.say(t == state, 'correcting orientations changed the enclosed area from %s to %s', state / 2, t / 2)
    w.hook(K, 'correct_orientations', o_before, o_after)


@task('area kept by corrections', ['C09'], corrections,
      'every correction step: total signed area (exact) before and after', 3)
def areas_task(case):
    return run(case, areas)


# ----------------------------------------------------------- C10 measures
def measures(w, case):
    R = concrete.cls('Ring')

    def against(what, f):
        def check(ring, got):
            if ring.node is None:
                return
            try:
                ns = circle(ring.node)
            except Broken:
                return
            want = f(ns)
            w.say(got == want, 'the %s of a ring is reported as %r, its vertices give %r', what, got, want)
        return check
    w.hook_property(R, 'area', against('area', lambda ns: orient(ns) / 2))
    w.hook_property(R, 'is_hole', against('orientation', lambda ns: orient(ns) <= 0))
    w.hook_property(R, 'size', against('number of vertices', len))

    K = M().RingManager
    slots = [n for n in getattr(R, '__slots__', ())]

    def peek(ring, f):
        # reading a measure may compute it: put back what was there
        kept = [(n, getattr(ring, n)) for n in slots if hasattr(ring, n)]
        try:
            return f()
        finally:
            for n, v in kept:
                setattr(ring, n, v)

    def after(args, state, r):
        for ring in live(args[0]):
            ns = circle(ring.node)
            for what, name, f in (('area', 'area', lambda ns: orient(ns) / 2), ('orientation', 'is_hole', lambda ns: orient(ns) <= 0),
                                  ('number of vertices', 'size', len)):
                got, want = peek(ring, lambda: getattr(ring, name)), f(ns)
                w.say(got == want, 'the %s of a ring would be reported as %r, its vertices give %r', what, got, want)
    for name in STEPS[3:] + PHASES:
        w.hook(K, name, None, after)

    def box_before(args):
        for ring in args[:2]:
            try:
                ns = circle(ring.node)
            except Broken:
                return
            b = ring.box
            got = (b.minimum.x, b.minimum.y, b.maximum.x, b.maximum.y)
            xs, ys = [n.x for n in ns], [n.y for n in ns]
            want = (min(xs), min(ys), max(xs), max(ys))
            w.say(got == want, 'comparing rings uses the extents %r of a ring whose vertices span %r', got, want)
    w.hook(R, 'inside_of', box_before)


@task('measures reported during operations', ['C10'], corrections,
      'every read of a measure during whole operations against the shoelace sum, count and extents of the vertices', 3)
def measures_task(case):
    return run(case, measures)


# ----------------------------------------------------- C11 classification
def where(ps, p):
    inside = False
    for i in range(len(ps)):
        (ax, ay), (bx, by) = ps[i - 1], ps[i]
        cr = (bx - ax) * (p[1] - ay) - (by - ay) * (p[0] - ax)
        if cr == 0 and min(ax, bx) <= p[0] <= max(ax, bx) and min(ay, by) <= p[1] <= max(ay, by):
            return 'ON'
        if (ay > p[1]) != (by > p[1]) and p[0] < ax + (p[1] - ay) * (bx - ax) / (by - ay):
            inside = not inside
    return 'INSIDE' if inside else 'OUTSIDE'


def simple(ps):
    """no two edges meet except neighbours at their common vertex"""
    n = len(ps)
    if n < 3 or len(set(ps)) != n:
        return False
    es = [(ps[i], ps[(i + 1) % n]) for i in range(n)]
    for i in range(n):
        for j in range(i + 1, n):
            (a, b), (c, d) = es[i], es[j]
            if j == i + 1 or (i == 0 and j == n - 1):
                x, m, y = (a, b, d) if j == i + 1 else (c, a, b)
                if cross3(x, m, y) == 0 and dot(x, m, y) > 0:
                    return False
                continue
            if meet(a, b, c, d):
                return False
    return True


def cross3(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def dot(x, m, y):
    return (x[0] - m[0]) * (y[0] - m[0]) + (x[1] - m[1]) * (y[1] - m[1])


def sgn(v):
    return (v > 0) - (v < 0)


def meet(a, b, c, d):
    return (sgn(cross3(a, b, c)) * sgn(cross3(a, b, d)) <= 0 and sgn(cross3(c, d, a)) * sgn(cross3(c, d, b)) <= 0
            and max(min(a[0], b[0]), min(c[0], d[0])) <= min(max(a[0], b[0]), max(c[0], d[0]))
            and max(min(a[1], b[1]), min(c[1], d[1])) <= min(max(a[1], b[1]), max(c[1], d[1])))


def properly(a, b, c, d):
    return (sgn(cross3(a, b, c)) * sgn(cross3(a, b, d)) < 0 and sgn(cross3(c, d, a)) * sgn(cross3(c, d, b)) < 0)


def contained(a, b):
    """whether the region of the simple ring a is contained in the simple ring
    b: None when they cross (or that is not decided here)"""
    if not simple(a) or not simple(b):
        return None
    ea = [(a[i - 1], a[i]) for i in range(len(a))]
    eb = [(b[i - 1], b[i]) for i in range(len(b))]
    if any(properly(*e, *f) for e in ea for f in eb):
        return None
    # cut the edges of each at the vertices of the other: every piece lies
    # inside, outside or on the boundary of the other
    def pieces(es, vs):
        for p, q in es:
            on = sorted({v for v in vs if O.on_segment(v, p, q)} | {p, q},
                        key=lambda v: (v[0] - p[0]) * (q[0] - p[0]) + (v[1] - p[1]) * (q[1] - p[1]))
            for u, v in zip(on, on[1:]):
                yield Fr(u[0] + v[0], 2), Fr(u[1] + v[1], 2)
    wa = {where(b, m) for m in pieces(ea, b)}
    wb = {where(a, m) for m in pieces(eb, a)}
    if {'INSIDE', 'OUTSIDE'} <= wa or {'INSIDE', 'OUTSIDE'} <= wb:
        return None
    if 'OUTSIDE' in wa:
        return False
    if 'INSIDE' in wa:
        return 'INSIDE' not in wb
    # the whole boundary of a is on that of b
    return True


def classes(w, case):
    mods = [concrete.module(m) for m in ('point_node', 'ring')]

    def pip(args, r):
        p, node = args
        ps = [(Fr(x), Fr(y)) for x, y in pts(circle(node))]
        want = where(ps, (Fr(p.x), Fr(p.y)))
        w.say(r.name == want, 'point %r is reported %s the ring %r; it is %s', (p.x, p.y), r.name,
              [(str(x), str(y)) for x, y in ps], want)
    w.hook_global(mods, 'point_in_polygon', pip)

    def inside(args, state, r):
        if args[0].node is None or args[1].node is None:
            # a removed ring contains nothing and lies nowhere
            w.say(not r, 'a ring is reported inside a removed one')
            return
        a, b = pts(circle(args[0].node)), pts(circle(args[1].node))
        if len(a) > 25 or len(b) > 25:
            return
        want = contained(a, b)
        if want is None:
            return
        if abs(O.area2(a)) == abs(O.area2(b)):
            return
        w.say(r is want or r == want, 'ring %r is reported %sinside the ring %r', a, '' if r else 'not ', b)
    w.hook(concrete.cls('Ring'), 'inside_of', None, inside)


@task('classification during operations', ['C11'], corrections,
      'every classification made during whole operations: points by exact crossing parity, simple rings that do not '
      'cross by exact region containment', 3)
def classes_task(case):
    return run(case, classes)


# ---------------------------------------------------------------- C12 tree
def kids(r):
    return [c for c in r.children if c is not None]


def tree_ok(m, where_, alternate):
    rings = live(m)
    alive = {id(r) for r in rings}
    for r in rings:
        cur, n = r.parent, 0
        while cur is not None:
            n += 1
            if cur is r or n > len(m.rings) + 1:
                raise Broken('after %s: the parents of a ring form a cycle' % where_)
            cur = cur.parent
        if r.parent is not None and id(r.parent) not in alive:
            raise Broken('after %s: a ring lies under a removed ring' % where_)
    lists = [(None, [c for c in m.children if c is not None])] + [(r, kids(r)) for r in rings]
    count = {}
    for p, cs in lists:
        for c in cs:
            if id(c) not in alive:
                raise Broken('after %s: a removed ring is listed' % where_)
            if c.parent is not p:
                raise Broken('after %s: a ring is listed under another ring than its parent' % where_)
            count[id(c)] = count.get(id(c), 0) + 1
    for r in rings:
        if count.get(id(r), 0) != 1:
            raise Broken('after %s: a ring is listed %d times' % (where_, count.get(id(r), 0)))
        if alternate:
            hole = orient(circle(r.node)) <= 0
            up = True if r.parent is None else orient(circle(r.parent.node)) <= 0
            if hole is up:
                raise Broken('after %s: %s lies under %s' % (where_, 'a hole' if hole else 'an exterior',
                                                             'the top level' if r.parent is None else
                                                             'a ring of the same orientation'))


def trees(w, case):
    K = M().RingManager
    for name, alt, top in (('add_first_point', False, False), ('append_ring', False, False), ('execute_vatti', False, False),
                           ('correct_tree', True, True), ('process_single_intersection', True, True),
                           ('correct_chained_rings', True, True), ('correct_ring_self_intersections', True, True),
                           ('correct_topology', True, True)):
        def after(args, state, r, name=name, alt=alt):
            if name == 'correct_ring_self_intersections' and args[2] is not True:
                return
            tree_ok(args[0], name, alt)
        w.hook(K, name, None, after)


@task('ring tree during operations', ['C12'], corrections,
      'after every step: each live ring listed once under its parent, no cycles, alternating orientation', 3)
def trees_task(case):
    return run(case, trees)


# ------------------------------------------------------- C03, C02 windings
def windings(w, case):
    K = M().RingManager
    F = {0: 'EVEN_ODD', 1: 'NON_ZERO', 2: 'POSITIVE', 3: 'NEGATIVE'}
    fill = (F[case['sf']], F[case['cf']])
    member = {'EVEN_ODD': lambda v: v % 2 != 0, 'NON_ZERO': lambda v: v != 0, 'POSITIVE': lambda v: v > 0,
              'NEGATIVE': lambda v: v < 0}
    op = O.OP[case['op']]

    def look(bounds, when):
        sums = [0, 0]
        for i, b in enumerate(bounds):
            if b is None:
                continue
            k = int(b.polygon_kind)
            left, right = sums[k], sums[k] + b.winding_delta
            if fill[k] == 'EVEN_ODD':
                w.say(abs(b.winding_count) == 1, '%s: winding count of a chain under the even-odd rule is %r', when, b.winding_count)
            else:
                want = left if abs(left) >= abs(right) else right
                w.say(b.winding_count == want, '%s: winding count of chain %d is %r, the chains to its left give %r',
                      when, i, b.winding_count, want)
            o = sums[1 - k]
            want = o % 2 if fill[1 - k] == 'EVEN_ODD' else o
            w.say(b.opposite_winding_count == want,
                  '%s: count of the other operand at chain %d is %r, the chains to its left give %r',
                  when, i, b.opposite_winding_count, want)
            m = member[fill[k]]
            other = member[fill[1 - k]](o)
            f = op if k == 0 else (lambda a, c: op(c, a))
            edge = f(m(left), other) != f(m(right), other)
            if not b.current_edge.is_horizontal:
                w.say((b.ring is not None) == edge, '%s: chain %d %s part of the result but %s its boundary', when, i,
                      'is' if b.ring is not None else 'is not', 'bounds' if edge else 'does not bound')
            sums[k] = right

    def bounds_of(args):
        return args[-1]

    w.hook(K, 'process_intersections', lambda args: look(args[-1], 'before the crossings of a scanbeam'),
           lambda args, s, r: look(args[-1], 'after the crossings of a scanbeam'))
    w.hook(K, 'insert_lm_left_and_right_bound', None, lambda args, s, r: look(args[-1], 'after a start'))


@task('windings during operations', ['C03', 'C02'], G.any_case,
      'the active chains of every scanbeam: recorded windings against sums over the chains to the left, membership in '
      'the result against its definition', 3)
def windings_task(case):
    return run(case, windings)


# ---------------------------------------------------------- C14 assembling
def assembled(w, case):
    K = M().RingManager
    rev = case['rev']

    def ring(node):
        ps = pts(circle(node))
        a = -O.area2(ps)
        return ps

    def cyc(ps):
        k = ps.index(min(ps))
        return tuple(ps[k:] + ps[:k])

    def after(args, state, r):
        m = args[0]
        want = []
        level = [c for c in m.children if c is not None]
        while level:
            deeper = []
            for e in level:
                hs = kids(e)
                out = [cyc(ring(e.node))] + sorted(cyc(ring(h.node)) for h in hs)
                want.append((out[0], tuple(out[1:])))
                for h in hs:
                    deeper += kids(h)
            level = deeper
        got = []
        for pg in r:
            rs = []
            for lr in pg:
                ps = [(p.x, p.y) for p in lr]
                if ps[0] != ps[-1]:
                    raise Broken('an output ring is not closed')
                rs.append(cyc(ps[:-1] if rev else ps[:0:-1]))
            got.append((rs[0], tuple(sorted(rs[1:]))))
        w.say(sorted(got) == sorted(want), 'the ring tree holds %r, the result %r', sorted(want), sorted(got))
    w.hook(K, 'build_result', None, after)


@task('assembly of results', ['C14'], corrections,
      'the result against an independent walk of the ring tree it was built from', 2)
def assembled_task(case):
    return run(case, assembled)


# ---------------------------------------------------------- C17 hot pixels
def hot(w, case):
    K = M().RingManager

    def after(args, state, r):
        hp = [(p.x, p.y) for p in args[0].hot_pixels]
        w.say(all((-a[1], a[0]) < (-b[1], b[0]) for a, b in zip(hp, hp[1:])),
              'the snapping points are not in order or not distinct: %r', hp[:20])
        es = [((e.bottom.x, e.bottom.y), (e.top.x, e.top.y)) for mn in args[1] for b in (mn.left_bound, mn.right_bound)
              for e in b.edges]
        have = set(hp)
        for e in es:
            for p in e:
                w.say(p in have, 'vertex %r of an operand is no snapping point', p)
        if w.exact:
            want = {p for e in es for p in e}
            for i, (a, b) in enumerate(es):
                for c, d in es[i + 1:]:
                    if properly(a, b, c, d):
                        t = Fr(cross3(c, d, a), cross3(c, d, a) - cross3(c, d, b))
                        want.add((a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])))
            w.say(want <= have, 'crossings %r are no snapping points', sorted(want - have)[:3])
            w.say(all(any(O.on_segment(p, *e) for e in es) for p in have), 'a snapping point off the edges')
    w.hook(K, 'build_hot_pixels', None, after)


@task('snapping points', ['C17'], G.exact_case,
      'the snapping points collected before the sweep: ordered, distinct, all vertices and all crossings', 2)
def hot_task(case):
    return run(case, hot, True)
