"""C12: the hierarchy of rings (lists of children with emptied slots)."""
import math

import z3

from pyvc.contract import C, Loop, modlist, modfields
from pyvc.types import *
from pyvc.spec import *
from . import gens as g
from .c_rings import nodes, ring as some_ring
from .circle import Circles

RG, RM = Ref('Ring'), Ref('RingManager')
KIDS = List(ORef('Ring'))
M = 'ring_manager.RingManager.'


def others_kept(a, b, *but):
    """multiplicities of all rings other than those given agree"""
    if isinstance(a, SList):
        x = z3.Int('x!s')
        return forall([x], z3.Implies(z3.And(x != 0, *[x != y.ref for y in but]),
                                         z3.Select(a.bag, x) == z3.Select(b.bag, x)),
                         z3.Select(a.bag, x))
    skip = [y.obj for y in but if y is not None]
    xs = [y for y in list(a._items()) + list(b._items()) if y is not None and not any(y is s for s in skip)]
    return all(sum(1 for y in a._items() if y is x) == sum(1 for y in b._items() if y is x) for x in xs)


def kids(rng, n=None, extra=()):
    n = rng.randint(0, 4) if n is None else n
    xs = [g.K('Ring')(rng.randrange(9)) if rng.random() < .65 else None for _ in range(n)]
    for x in extra:
        xs.insert(rng.randint(0, len(xs)), x)
    return xs


# ------------------------------------------------------------------ slots
def rfc_env(rng):
    r = g.K('Ring')(1)
    return dict(ring=r, children=kids(rng, extra=[r] * rng.choice([0, 1, 1, 1, 2])))


def first_at(s, i, x):
    """position i is the first one holding x"""
    return And(same(s[i], x), ForAll(0, i, lambda j: Not(same(s[j], x)), pat=s.term))


def rfc_ens(o, n, r):
    s, m = o.children, n.at(o.children)
    return {'the slot is emptied, the others kept': And(m.len == s.len, ForAll(0, s.len, lambda i: If(
        first_at(s, i, o.ring), lambda: isnull(m[i]), lambda: same(m[i], s[i])), pat=m.term)),
        'listed once less': m.count(o.ring) == s.count(o.ring) - If(Exists(0, s.len, lambda j: same(s[j], o.ring)), 1, 0),
        'the other rings are kept': others_kept(m, s, o.ring)}


C('ring.remove_from_children', dict(ring=RG, children=KIDS), NONE, ensures=rfc_ens,
  modifies=lambda o: modlist(o.children),
  loops={0: Loop(inv=lambda o, c: {'not before': ForAll(0, c.k, lambda i: Not(same(o.children[i], o.ring)), pat=o.children.term)})},
  props=['C12'], modular=True, gen=g.forever(rfc_env))


def stc_ens(o, n, r):
    s, m = o.children, n.at(o.children)
    full = ForAll(0, s.len, lambda i: notnull(s[i]), pat=s.term)
    return {'the first empty slot, or a new one': And(
        m.len == s.len + If(full, 1, 0),
        ForAll(0, m.len, lambda i: If(i == s.len, lambda: same(m[i], o.ring), lambda: If(
            And(isnull(s[i]), ForAll(0, i, lambda j: notnull(s[j]), pat=s.term)), lambda: same(m[i], o.ring),
            lambda: same(m[i], s[i]))), pat=m.term)),
        'listed once more': m.count(o.ring) == s.count(o.ring) + 1,
        'the other rings are kept': others_kept(m, s, o.ring)}


C('ring.set_to_children', dict(ring=RG, children=KIDS), NONE, ensures=stc_ens,
  modifies=lambda o: modlist(o.children),
  loops={0: Loop(inv=lambda o, c: {'no empty slot before': ForAll(0, c.k, lambda i: notnull(o.children[i]), pat=o.children.term)})},
  props=['C12'], modular=True, gen=g.forever(lambda rng: dict(ring=g.K('Ring')(1), children=kids(rng))))


# ------------------------------------------------------------------ edits
def kids_of(v, mgr, parent):
    """the list a child of that parent is listed in"""
    return If(isnull(parent), lambda: v.at(mgr).children, lambda: v.at(parent).children)


def known(x):
    return Not(x._area.nan)


def alike(a, b):
    """equal orientation"""
    return Iff(a._is_hole, b._is_hole)


def owned(v, mgr, *rings):
    """no two of them share a list of children"""
    ls = [v.at(mgr).children] + [v.at(x).children for x in rings if x is not None]
    cs = [x for x in rings if x is not None]
    out = [Implies(notnull(x), Not(same(v.at(mgr).children, v.at(x).children))) for x in cs]
    for i, x in enumerate(cs):
        for y in cs[i + 1:]:
            out.append(Implies(And(notnull(x), notnull(y), Not(same(x, y))), Not(same(v.at(x).children, v.at(y).children))))
    return And(*out)


def listed(n, o, ring, parent, mgr):
    a, b = kids_of(n, mgr, parent), kids_of(o, mgr, parent)
    return {'listed once more below the parent': a.count(ring) == b.count(ring) + 1,
            'the other children are kept': others_kept(a, b, ring),
            'its parent': same(n.at(ring).parent, parent)}


def tree(rng, n=None, hole=None):
    """a manager with a consistent random tree of rings with known measures,
    emptied slots included"""
    mgr = g.K('RingManager')()
    n = rng.randint(1, 7) if n is None else n
    rs = []
    for i in range(n):
        r = g.K('Ring')(i)
        p = rng.choice([None] + rs)
        r.parent = p
        (mgr.children if p is None else p.children).append(r)
        rs.append(r)
    for r in rs:
        d, x = 0, r.parent
        while x is not None:
            d, x = d + 1, x.parent
        r._area = float(-1 - d if d % 2 else 1 + d)
        r._is_hole = d % 2 == 1
    for l in [mgr.children] + [r.children for r in rs]:
        for _ in range(rng.choice([0, 0, 1, 2])):
            l.insert(rng.randint(0, len(l)), None)
    mgr.rings = list(rs)
    mgr.index = n
    return mgr, rs


def new_ring(rng, rs, hole=None):
    r = g.K('Ring')(99)
    r._is_hole = rng.random() < .5 if hole is None else hole
    r._area = -2.0 if r._is_hole else 2.0
    return r


def aac_env(rng):
    mgr, rs = tree(rng)
    return dict(self=mgr, new_ring=new_ring(rng, rs), parent=rng.choice([None] + rs))


def wrong_side(parent, ring):
    return If(isnull(parent), lambda: ring._is_hole, lambda: alike(ring, parent))


C(M + 'assign_as_child', dict(self=RM, new_ring=RG, parent=ORef('Ring')), NONE,
  requires=lambda o: {'orientations known': And(known(o.new_ring), Implies(notnull(o.parent), lambda: known(o.parent)))},
  ensures=lambda o, n, r: dict(listed(n, o, o.new_ring, o.parent, o.self),
                               **{'orientations alternate': Not(wrong_side(o.parent, o.new_ring))}),
  raises={'RuntimeError': lambda o: wrong_side(o.parent, o.new_ring)},
  modifies=lambda o: modlist(kids_of(o, o.self, o.parent)) + modfields(o.new_ring, 'parent'),
  props=['C12'], modular=True, gen=g.forever(aac_env))


def aas_env(rng):
    mgr, rs = tree(rng)
    return dict(self=mgr, new_ring=new_ring(rng, rs), sibling=rng.choice(rs))


C(M + 'assign_as_sibling', dict(self=RM, new_ring=RG, sibling=RG), NONE,
  requires=lambda o: {'orientations known': And(known(o.new_ring), known(o.sibling))},
  ensures=lambda o, n, r: dict(listed(n, o, o.new_ring, o.sibling.parent, o.self),
                               **{'same orientation': alike(o.new_ring, o.sibling)}),
  raises={'RuntimeError': lambda o: Not(alike(o.new_ring, o.sibling))},
  modifies=lambda o: modlist(kids_of(o, o.self, o.sibling.parent)) + modfields(o.new_ring, 'parent'),
  props=['C12'], modular=True, gen=g.forever(aas_env))


def rac_env(rng):
    mgr, rs = tree(rng)
    r = rng.choice(rs)
    return dict(self=mgr, ring=r, parent=rng.choice([None] + [x for x in rs if x is not r]))


def rac_ens(o, n, r):
    old, new = kids_of(o, o.self, o.ring.parent), kids_of(o, o.self, o.parent)
    same_list = same(old, new)
    n_old, n_new = n.at(old), n.at(new)
    was = If(Exists(0, old.len, lambda j: same(old[j], o.ring)), 1, 0)
    return {'listed below the new parent': If(same_list, lambda: n_new.count(o.ring) == new.count(o.ring) - was + 1,
                                              lambda: n_new.count(o.ring) == new.count(o.ring) + 1),
            'no longer listed below the old one': Or(same_list, n_old.count(o.ring) == old.count(o.ring) - was),
            'the other children are kept': And(others_kept(n_new, new, o.ring), others_kept(n_old, old, o.ring)),
            'its parent': same(n.at(o.ring).parent, o.parent),
            'orientations alternate': Not(wrong_side(o.parent, o.ring))}


C(M + 'reassign_as_child', dict(self=RM, ring=RG, parent=ORef('Ring')), NONE,
  requires=lambda o: {'orientations known': And(known(o.ring), Implies(notnull(o.parent), lambda: known(o.parent)))},
  ensures=rac_ens, raises={'RuntimeError': lambda o: wrong_side(o.parent, o.ring)},
  modifies=lambda o: modlist(kids_of(o, o.self, o.parent)) + modlist(kids_of(o, o.self, o.ring.parent)) + modfields(o.ring, 'parent'),
  props=['C12'], modular=True, gen=g.forever(rac_env))


# ------------------------------------------------------- replace and remove
class Prefix:
    """ghost: cnt(j, x), the multiplicity of x among the first j children"""

    def __init__(self, of):
        self.of = of

    class Sym:
        pass

    def symbolic(self, V, st, env):
        from pyvc import spec as SP
        view = SP.SymView(V, st.copy(), env)
        s = self.of(view)
        g_ = Prefix.Sym()
        f = z3.Function('ghost_cnt', z3.IntSort(), z3.IntSort(), z3.IntSort())
        j, x = z3.Ints('j!s x!s')
        V.facts.append(z3.ForAll([x], f(0, x) == 0))
        V.facts.append(z3.ForAll([j, x], z3.Implies(z3.And(0 <= j, j < s.len), z3.And(
            f(j + 1, x) == f(j, x) + z3.If(s.term(j) == x, 1, 0), f(j, x) >= 0)), patterns=[z3.MultiPattern(s.term(j), f(j, x))]))
        # the multiplicity in the whole list is the ghost multiset of it
        V.facts.append(z3.ForAll([x], f(s.len, x) == z3.Select(s.bag, x), patterns=[f(s.len, x), z3.Select(s.bag, x)]))
        g_.cnt = lambda j, x: f(j, x.ref if hasattr(x, 'ref') else x)
        return g_

    def concrete(self, env):
        return None


def rep_kids(o):
    return kids_of(o, o.self, o.replacement)


def rr_inv(o, c):
    s, m = o.original.children, c.at(o.original.children)
    dst0, dst = rep_kids(o), c.at(rep_kids(o))
    x = z3.Int('x!s')
    return {'same length': m.len == s.len,
            'passed slots are emptied, the others kept': ForAll(0, s.len, lambda i: If(i < c.k, lambda: isnull(m[i]), lambda: same(m[i], s[i])), pat=m.term),
            'passed children have the new parent': ForAll(0, c.k, lambda i: Implies(notnull(s[i]), lambda: same(c.at(s[i]).parent, o.replacement)), pat=s.term),
            'and are listed there': forall([x], z3.Implies(x != 0, z3.Select(dst.bag, x) == z3.Select(dst0.bag, x) + o.G.cnt(c.k, x)),
                                              z3.Select(dst.bag, x)),
            'the list only grows': dst.len >= dst0.len}


def is_child(o, x):
    s = o.original.children
    i = z3.Int('i!s')
    if is_z3(x):
        return z3.Exists([i], z3.And(0 <= i, i < s.len, s.term(i) == x, x != 0))
    return any(y is x for y in s._items())


def moved_counts(n, o, dst0, dst, src):
    if isinstance(dst, SList):
        x = z3.Int('x!s')
        return forall([x], z3.Implies(z3.And(x != 0), z3.Select(dst.bag, x) == z3.Select(dst0.bag, x) + z3.Select(src.bag, x)),
                         z3.Select(dst.bag, x))
    xs = [y for y in list(dst0._items()) + list(dst._items()) + list(src._items()) if y is not None]
    cnt = lambda l, x: sum(1 for y in l._items() if y is x)
    return all(cnt(dst, x) == cnt(dst0, x) + cnt(src, x) for x in xs)


def rr_env(rng):
    mgr, rs = tree(rng)
    r = rng.choice(rs)
    return dict(self=mgr, original=r, replacement=rng.choice([None] + [x for x in rs if x is not r]))


def rr_ens(o, n, r):
    s, m = o.original.children, n.at(o.original.children)
    dst0, dst = rep_kids(o), n.at(rep_kids(o))
    up0, up = kids_of(o, o.self, o.original.parent), n.at(kids_of(o, o.self, o.original.parent))
    was = If(Exists(0, up0.len, lambda j: same(up0[j], o.original)), 1, 0)
    return {'its slots are emptied': And(m.len == s.len, ForAll(0, s.len, lambda i: isnull(m[i]), pat=m.term)),
            'its children have the new parent': ForAll(0, s.len, lambda i: Implies(
                notnull(s[i]), lambda: same(n.at(s[i]).parent, o.replacement)), pat=s.term),
            'and are listed there': Implies(Not(same(up0, dst0)), lambda: moved_counts(n, o, dst0, dst, s)),
            'no longer listed below its parent': Implies(Not(same(up0, dst0)), lambda:
                up.count(o.original) == up0.count(o.original) - was),
            'the other children of the parent are kept': Implies(Not(same(up0, dst0)), lambda: others_kept(up, up0, o.original)),
            'without vertices, its measures forgotten': And(isnull(n.at(o.original).node), n.at(o.original)._area.nan)}


C(M + 'replace_ring', dict(self=RM, original=RG, replacement=ORef('Ring')), NONE,
  ghosts=Prefix(lambda v: v.original.children),
  requires=lambda o: {'another ring': Not(same(o.original, o.replacement)),
                      'lists of children are not shared': owned(o, o.self, o.original, o.replacement, o.original.parent),
                      'not its own parent or child': And(Not(same(o.original.parent, o.original)), Not(is_child(o, o.original.ref)))},
  ensures=rr_ens,
  modifies=lambda o: modlist(o.original.children) + modlist(rep_kids(o)) + modlist(kids_of(o, o.self, o.original.parent))
  + modfields(o.original, 'node', '_area', '_size', '_is_hole') + modfields(o.original.box.minimum, 'x', 'y')
  + modfields(o.original.box.maximum, 'x', 'y') + [('Ring.parent', lambda x: is_child(o, x))],
  loops={0: Loop(inv=rr_inv, frame={'Ring.parent': lambda o, c, x: is_child(o, x)})},
  props=['C12'], modular=True, gen=g.forever(rr_env), timeout=15)


def emptied(o, n, x):
    s, m = x.children, n.at(x.children)
    return And(m.len == s.len, ForAll(0, s.len, lambda i: isnull(m[i]), pat=m.term))


def forgotten(n, x):
    m = n.at(x)
    return And(isnull(m.node), m._area.nan, m._size == 0, Not(m._is_hole))


def unlisted(o, n, x):
    up0, up = kids_of(o, o.self, x.parent), n.at(kids_of(o, o.self, x.parent))
    was = If(Exists(0, up0.len, lambda j: same(up0[j], x)), 1, 0)
    return And(up.count(x) == up0.count(x) - was, others_kept(up, up0, x))


def remove_ens(o, n, r):
    up0 = kids_of(o, o.self, o.ring.parent)
    return {'its slots are emptied': emptied(o, n, o.ring),
            'no longer listed below its parent': Implies(o.remove_from_parent, lambda: unlisted(o, n, o.ring)),
            'listed as before otherwise': Implies(Not(o.remove_from_parent), lambda: n.at(up0).count(o.ring) == up0.count(o.ring)),
            'without vertices, its measures forgotten': forgotten(n, o.ring)}


def remove_mod(o):
    return (modlist(o.ring.children) + modlist(kids_of(o, o.self, o.ring.parent)) + modfields(o.ring, 'node', '_area', '_size', '_is_hole')
            + modfields(o.ring.box.minimum, 'x', 'y') + modfields(o.ring.box.maximum, 'x', 'y'))


def remove_req(o):
    return {'children are kept': Not(o.remove_children),
            'lists of children are not shared': And(owned(o, o.self, o.ring, o.ring.parent), Not(same(o.ring.parent, o.ring)))}


def slots_inv(o, c):
    s, m = o.ring.children, c.at(o.ring.children)
    return {'passed slots are emptied': And(m.len == s.len, ForAll(0, s.len, lambda i: If(
        i < c.k, lambda: isnull(m[i]), lambda: same(m[i], s[i])), pat=m.term))}


def rem_env(rng):
    mgr, rs = tree(rng)
    r = rng.choice(rs)
    if rng.random() < .8:
        for x in nodes(rng):
            x.ring = r
            r.node = x
    return dict(self=mgr, ring=r, remove_children=False, remove_from_parent=rng.random() < .8)


C(M + 'remove_ring', dict(self=RM, ring=RG, remove_children=BOOL, remove_from_parent=BOOL), NONE,
  requires=remove_req, ensures=remove_ens, modifies=remove_mod, modular=True,
  loops={0: Loop(inv=slots_inv)}, fixed=dict(remove_children=False), props=['C12'], gen=g.forever(rem_env), timeout=15)


def detached(n, x):
    m = n.at(x)
    return And(isnull(m.next), isnull(m.prev), isnull(m.ring))


def det_inv(o, c):
    A, k = o.G.a, c.k

    def state(j):
        x, y = A.at(j), c.at(A.at(j))
        return If(j < k, lambda: detached(c, x), lambda: same(y.next, If(j + 1 == A.n, None_(A), lambda: A.at(j + 1))))
    return {'at a vertex, or past the last': And(k <= A.n, Implies(k < A.n, lambda: same(c.node, A.at(k))), Implies(k == A.n, lambda: isnull(c.node))),
            'vertices passed are detached': ForAll(0, A.n, state, pat=A.term)}


def None_(A):
    return lambda: SRef(A.view, z3.IntVal(0), 'PointNode', True) if hasattr(A, 'V') else None


C(M + 'remove_ring_and_points', dict(self=RM, ring=RG, remove_children=BOOL, remove_from_parent=BOOL), NONE,
  ghosts=Circles(a=lambda o: o.ring.node),
  requires=lambda o: dict(remove_req(o), **{'closed circle': o.G.a.ok}),
  ensures=lambda o, n, r: dict(remove_ens(o, n, r), **{'its vertices are detached': ForAll(
      0, o.G.a.n, lambda j: detached(n, o.G.a.at(j)), pat=o.G.a.term)}),
  modifies=lambda o: remove_mod(o) + [('PointNode.' + f, lambda x: o.G.a.has(x)) for f in ('next', 'prev', 'ring')],
  loops={0: Loop(inv=slots_inv), 1: Loop(inv=det_inv, decreases=lambda o, c: o.G.a.n - c.k, frame={
      'PointNode.' + f: (lambda o, c, x: o.G.a.has(x)) for f in ('next', 'prev', 'ring')})},
  fixed=dict(remove_children=False), props=['C12', 'C08'], gen=g.forever(rem_env), timeout=15)


# ------------------------------------------------------------ ancestor chain
class Chain:
    """ghosts of an acyclic parent relation: dep(x) the number of ancestors of
    x, anc(x, y) whether y is one of them"""

    class G:
        pass

    def symbolic(self, V, st, env):
        from pyvc import spec as SP
        g_ = Chain.G()
        par = V.arr(st, 'Ring.parent', z3.IntSort())
        dep = z3.Function('ghost_depth', z3.IntSort(), z3.IntSort())
        anc = z3.Function('ghost_ancestor', z3.IntSort(), z3.IntSort(), z3.BoolSort())
        x, y = z3.Ints('x!s y!s')
        inh = z3.And(x > 0, x < st.alloc)
        V.facts.append(z3.ForAll([x], z3.Implies(inh, z3.And(dep(x) >= 0, dep(x) == z3.If(par[x] == 0, 0, dep(par[x]) + 1))), patterns=[dep(x)]))
        V.facts.append(z3.ForAll([x, y], z3.Implies(inh, anc(x, y) == z3.And(par[x] != 0, z3.Or(par[x] == y, anc(par[x], y)))), patterns=[anc(x, y)]))
        # by induction on the depth of x, from the two definitions
        V.facts.append(z3.ForAll([x, y], z3.Implies(z3.And(inh, anc(x, y)), dep(y) < dep(x)), patterns=[anc(x, y)]))
        g_.par = par
        g_.dep = lambda r: dep(r.ref)
        g_.anc = lambda r, s: anc(r.ref, s.ref)
        g_.acyclic = True
        return g_

    def concrete(self, env):
        g_ = Chain.G()

        def up(r):
            out, x = [], getattr(r, 'obj', r).parent
            while x is not None and len(out) < 1000:
                out.append(x)
                x = x.parent
            return out
        g_.acyclic = all(len(up(r)) < 1000 for r in env.values() if type(r).__name__ == 'Ring')
        g_.before = {id(r): up(r) for r in env.values() if type(r).__name__ == 'Ring'}
        g_.dep = lambda r: len(g_.before.get(id(r.obj), up(r)))
        g_.anc = lambda r, s: any(x is s.obj for x in g_.before[id(r.obj)])
        return g_


def same_chain(root, o):
    """the caller's ghosts: the parents have to be those of its entry"""
    g_ = Chain.G()
    now = o.V.arr(o.st, 'Ring.parent', z3.IntSort())
    g_.dep, g_.anc = root.G.dep, root.G.anc
    x = z3.Int('x!s')
    g_.acyclic = True if now.eq(root.G.par) else z3.ForAll([x], z3.Implies(z3.And(x > 0, x < o.st.alloc), now[x] == root.G.par[x]))
    return g_


def dep_env(rng):
    mgr, rs = tree(rng, rng.randint(1, 9))
    return dict(self=rng.choice(rs))


C('ring.Ring.depth', dict(self=RG), INT, modular=True, ghosts=Chain(), requires=lambda o: {'acyclic': o.G.acyclic},
  ensures=lambda o, n, r: {'the number of ancestors': r == o.G.dep(o.self)},
  loops={0: Loop(inv=lambda o, c: {'counted so far': o.G.dep(o.self) == c.result + If(isnull(c.cursor), 0, lambda: o.G.dep(c.cursor) + 1),
                                   'not negative': c.result >= 0},
                 decreases=lambda o, c: If(isnull(c.cursor), 0, o.G.dep(c.cursor) + 1))},
  props=['C12'], gen=g.forever(dep_env))


def isd_env(rng):
    mgr, rs = tree(rng, rng.randint(1, 9))
    return dict(self=rng.choice(rs), other=rng.choice(rs))


C('ring.Ring.is_descendant_of', dict(self=RG, other=RG), BOOL, modular=True, ghosts=Chain(), requires=lambda o: {'acyclic': o.G.acyclic},
  ensures=lambda o, n, r: {'exactly when it is an ancestor': Iff(r, o.G.anc(o.self, o.other))},
  loops={0: Loop(inv=lambda o, c: {'ancestors so far are others': Iff(o.G.anc(o.self, o.other), And(
      notnull(c.cursor), Or(same(c.cursor, o.other), o.G.anc(c.cursor, o.other)))), 'chain': Implies(notnull(c.cursor), And(o.G.dep(c.cursor) >= 0))},
                 decreases=lambda o, c: If(isnull(c.cursor), 0, o.G.dep(c.cursor) + 1))},
  props=['C12'], gen=g.forever(isd_env))


# ---------------------------------------------------------- new rings' place
class Scan:
    """ghost T(i): the bound left open after scanning the bounds i, i+1, ...
    left of the given one towards the left: the nearest one with a ring, until
    another one of the same ring closes it"""

    class G:
        pass

    def symbolic(self, V, st, env):
        from pyvc import spec as SP
        v = SP.SymView(V, st.copy(), env)
        bs = v.active_bounds
        g_ = Scan.G()
        T = z3.Function('ghost_open', z3.IntSort(), z3.IntSort())
        g_.k = z3.Int('ghost_at')
        V.facts.append(T(g_.k) == 0)
        i = z3.Int('i!s')
        b = bs[i]
        t = SRef(v, T(i + 1), 'Bound', True)
        none = z3.Or(bs.term(i) == 0, b.ring.ref == 0)
        V.facts.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < g_.k), T(i) == z3.If(
            none, T(i + 1), z3.If(T(i + 1) == 0, bs.term(i), z3.If(t.ring.ref == b.ring.ref, 0, T(i + 1))))), patterns=[bs.term(i)]))
        g_.T = lambda j: SRef(v, T(j), 'Bound', True)
        V.facts.append(z3.And(0 <= g_.k, g_.k < bs.len, bs.term(g_.k) == v.bound.ref))
        V.facts.append(z3.ForAll([i], z3.Implies(z3.And(g_.k < i, i < bs.len), bs.term(i) != v.bound.ref), patterns=[bs.term(i)]))
        return g_

    def concrete(self, env):
        bs, b = env['active_bounds'], env['bound']
        ks = [i for i, x in enumerate(bs) if x is b]
        if not ks:
            raise ValueError('not active')
        t = None
        for x in reversed(bs[:ks[-1]]):
            if x is not None and x.ring is not None:
                if t is None:
                    t = x
                elif t.ring is x.ring:
                    t = None
        g_ = Scan.G()
        g_.parent = None if t is None else t.ring
        g_.k = ks[-1]
        return g_


def shs_ens(o, n, r):
    me = o.bound.ring
    if hasattr(o.G, 'T'):
        t = o.G.T(z3.IntVal(0))
        parent = If(isnull(t), SRef(t.view, z3.IntVal(0), 'Ring', True), t.ring)
    else:
        parent = None if o.G.parent is None else CRef(o, o.G.parent)
    a, b = kids_of(n, o.self, parent), kids_of(o, o.self, parent)
    return {'its parent is the ring of the open bound to the left': same(n.at(me).parent, parent),
            'listed there': a.count(me) == b.count(me) + 1, 'the other children are kept': others_kept(a, b, me)}


def shs_env(rng):
    mgr, rs = tree(rng)
    bs = [g.bound(rng, 2) if rng.random() < .85 else None for _ in range(rng.randint(0, 6))]
    for b in bs:
        if b is not None and rng.random() < .7:
            b.ring = rng.choice(rs)
    b = g.bound(rng, 2)
    b.ring = g.K('Ring')(50)
    bs.insert(rng.randint(0, len(bs)), b)
    return dict(self=mgr, bound=b, active_bounds=bs)


C(M + 'set_hole_state', dict(self=RM, bound=Ref('Bound'), active_bounds=List(ORef('Bound'))), NONE, ghosts=Scan(),
  requires=lambda o: {'it has a ring': notnull(o.bound.ring)},
  ensures=shs_ens,
  modifies=lambda o: modfields(o.bound.ring, 'parent') + (lambda t, l: modlist(l))(None, kids_of(o, o.self, If(
      isnull(o.G.T(z3.IntVal(0))), SRef(o, z3.IntVal(0), 'Ring', True), o.G.T(z3.IntVal(0)).ring))) if hasattr(o.G, 'T') else
  modfields(o.bound.ring, 'parent') + modlist(kids_of(o, o.self, None if o.G.parent is None else CRef(o, o.G.parent))),
  loops={0: Loop(inv=lambda o, c: {'position': And(-1 <= c.bound_index, c.bound_index < o.G.k),
                                   'open bound so far': same(c.bound_temp, o.G.T(c.bound_index + 1)),
                                   'it has a ring': Implies(notnull(c.bound_temp), lambda: notnull(c.bound_temp.ring))}),
         },
  props=['C12'], gen=g.forever(shs_env), timeout=15)
