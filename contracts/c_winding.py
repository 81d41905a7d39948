"""C03: winding counts at starts and crossings."""
import z3

from pyvc.contract import C, Loop, modlist, modfields
from pyvc.types import *
from pyvc.spec import *
from . import gens as g
from .c_sorting import cur, has_cur, distinct, parallel, ucx_ens, bounds_list


def far(a, b):
    """the one of greater absolute value of the windings on the two sides"""
    return If(Abs(a) >= Abs(b), a, b)


class Sums:
    """ghost: W(kind, j) sum of the directions of the bounds of that operand
    among the first j; P(kind, j) their number modulo two"""

    class Sym:
        def __init__(self, view, bs, V):
            self.view, self.bs = view, bs
            self.w = z3.Function('ghost_W', z3.IntSort(), z3.IntSort(), z3.IntSort())
            self.p = z3.Function('ghost_P', z3.IntSort(), z3.IntSort(), z3.IntSort())
            a, k = z3.Ints('a!s k!s')
            b = bs[a]
            own = b.polygon_kind == k
            V.facts.append(z3.ForAll([k], z3.And(self.w(k, 0) == 0, self.p(k, 0) == 0)))
            V.facts.append(z3.ForAll([a, k], z3.Implies(z3.And(0 <= a, a < bs.len), z3.And(
                self.w(k, a + 1) == self.w(k, a) + z3.If(own, b.winding_delta, 0),
                self.p(k, a + 1) == z3.If(own, 1 - self.p(k, a), self.p(k, a)),
                z3.Or(self.p(k, a) == 0, self.p(k, a) == 1))),
                patterns=[z3.MultiPattern(bs.term(a), self.w(k, a)), z3.MultiPattern(bs.term(a), self.p(k, a))]))

        def W(self, kind, j):
            return self.w(kind, j if is_z3(j) else z3.IntVal(j))

        def P(self, kind, j):
            return self.p(kind, j if is_z3(j) else z3.IntVal(j))

    class Conc:
        def __init__(self, bs):
            self.k = [(int(b.polygon_kind), b.winding_delta) for b in bs]

        def W(self, kind, j):
            return sum(d for k, d in self.k[:j] if k == kind)

        def P(self, kind, j):
            return sum(1 for k, d in self.k[:j] if k == kind) % 2

    def symbolic(self, V, st, env):
        from pyvc import spec as SP
        view = SP.SymView(V, st.copy(), env)
        return Sums.Sym(view, view.active_bounds, V)

    def concrete(self, env):
        return Sums.Conc(env['active_bounds'])


def fills(o, kind):
    """(fill kind of the operand, fill kind of the other operand)"""
    s = E.PolygonKind.SUBJECT
    return (If(kind == s, o.subject_fill_kind, o.clip_fill_kind), If(kind == s, o.clip_fill_kind, o.subject_fill_kind))


def other(kind):
    return 1 - kind


def coherent(o, b, j):
    """the counts recorded for the bound at position j are those of the
    regions beside it"""
    k = b.polygon_kind
    f, f2 = fills(o, k)
    eo = E.FillKind.EVEN_ODD
    W, P = o.G.W, o.G.P
    return And(If(f == eo, Or(b.winding_count == 1, b.winding_count == -1),
                  b.winding_count == far(W(k, j), W(k, j) + b.winding_delta)),
               b.opposite_winding_count == If(f2 == eo, P(other(k), j), W(other(k), j)))


def swc_req(o):
    bs, k = o.active_bounds, o.bound_index
    return {'a position': And(0 <= k, k < bs.len), 'bounds occur once': ForAll(0, k, lambda i: Not(same(bs[i], bs[k]))),
            'directions': ForAll(0, k + 1, lambda i: And(Or(bs[i].winding_delta == 1, bs[i].winding_delta == -1),
                                                         Or(bs[i].polygon_kind == 0, bs[i].polygon_kind == 1)), pat=bs.term),
            'counts to the left are right': ForAll(0, k, lambda i: coherent(o, bs[i], i), pat=bs.term)}


def swc_loop(o, c):
    k, r = c.bound_index, c.reversed_bound_index
    bs = o.active_bounds
    kind = bs[k].polygon_kind
    return {'range': And(-1 <= r, r < k),
            'none of the same operand in between': ForAll(r + 1, k, lambda i: bs[i].polygon_kind != kind, pat=bs.term),
            'own sum': And(o.G.W(kind, r + 1) == o.G.W(kind, k), o.G.P(kind, r + 1) == o.G.P(kind, k))}


def swc_fwd(parity):
    def inv(o, c):
        bs = o.active_bounds
        b, n = bs[o.bound_index], c.active_bounds[o.bound_index]
        kind = b.polygon_kind
        r = c.reversed_bound_index
        fn = o.G.P if parity else o.G.W
        return {'other sum': c.bound.opposite_winding_count == fn(other(kind), r + 1 + c.k),
                'the bound': same(c.bound, b)}
    return inv


def counted(rng, coherent=True, hi=6):
    """an active list with right counts"""
    n = rng.randint(1, hi)
    bs = [g.bound(rng, 2) for _ in range(n)]
    sf, cf = g.enum(rng, 'FillKind'), g.enum(rng, 'FillKind')
    fk = {0: sf, 1: cf}
    w, p = {0: 0, 1: 0}, {0: 0, 1: 0}
    eo = g.K('FillKind').EVEN_ODD
    for b in bs:
        k = int(b.polygon_kind)
        a, c = w[k], w[k] + b.winding_delta
        b.winding_count = (a if abs(a) >= abs(c) else c) if fk[k] != eo else rng.choice([1, -1])
        b.opposite_winding_count = w[1 - k] if fk[1 - k] != eo else p[1 - k]
        w[k] += b.winding_delta
        p[k] ^= 1
    return bs, sf, cf


def swc_env(rng):
    bs, sf, cf = counted(rng)
    k = rng.randrange(len(bs))
    bs[k].winding_count, bs[k].opposite_winding_count = rng.randint(-3, 3), rng.randint(-3, 3)
    return dict(bound_index=k, active_bounds=bs, subject_fill_kind=sf, clip_fill_kind=cf)


C('bound.set_winding_count', dict(bound_index=INT, active_bounds=List(Ref('Bound')), subject_fill_kind=Enum('FillKind'),
                                  clip_fill_kind=Enum('FillKind')), NONE,
  requires=swc_req, ghosts=Sums(),
  ensures=lambda o, n, r: {
      'own count is that of the region beside it': (lambda b, m, f: If(
          f == E.FillKind.EVEN_ODD, Or(m.winding_count == 1, m.winding_count == -1),
          m.winding_count == far(o.G.W(b.polygon_kind, o.bound_index), o.G.W(b.polygon_kind, o.bound_index) + b.winding_delta)))(
              o.active_bounds[o.bound_index], n.at(o.active_bounds[o.bound_index]),
              fills(o, o.active_bounds[o.bound_index].polygon_kind)[0]),
      'opposite count is that of the other operand': (lambda b, m, f: m.opposite_winding_count == If(
          f == E.FillKind.EVEN_ODD, o.G.P(other(b.polygon_kind), o.bound_index), o.G.W(other(b.polygon_kind), o.bound_index)))(
              o.active_bounds[o.bound_index], n.at(o.active_bounds[o.bound_index]),
              fills(o, o.active_bounds[o.bound_index].polygon_kind)[1])},
  modifies=lambda o: modfields(o.active_bounds[o.bound_index], 'winding_count', 'opposite_winding_count'),
  loops={0: Loop(inv=swc_loop), 1: Loop(inv=swc_fwd(True)), 2: Loop(inv=swc_fwd(False))},
  props=['C03'], gen=g.forever(swc_env), timeout=20, conc_time=6)


# --------------------------------------------------------------- crossings
def outer(b):
    """the winding of its own operand on the left of a bound, below"""
    w, d = b.winding_count, b.winding_delta
    return If(w * d > 0, w - d, w)


def crossing_req(o):
    f, s = o.first_bound, o.second_bound
    eo = E.FillKind.EVEN_ODD
    own = fills(o, f.polygon_kind)[0]
    return {'two bounds': Not(same(f, s)),
            'directions': And(*[And(Or(b.winding_delta == 1, b.winding_delta == -1),
                                    Or(b.polygon_kind == 0, b.polygon_kind == 1)) for b in (f, s)]),
            'counts below agree': Implies(And(f.polygon_kind == s.polygon_kind, own != eo), And(
                f.winding_count != 0, s.winding_count == far(outer(f) + f.winding_delta, outer(f) + f.winding_delta + s.winding_delta)))}


def crossing_ens(o, n, r):
    f, s = o.first_bound, o.second_bound
    nf, ns = n.at(f), n.at(s)
    eo = E.FillKind.EVEN_ODD
    own_f, own_s = fills(o, f.polygon_kind)[0], fills(o, s.polygon_kind)[0]
    one = f.polygon_kind == s.polygon_kind
    L, df, ds = outer(f), f.winding_delta, s.winding_delta
    same_kind = And(one, own_f != eo)
    return {
        'one operand: the left one above has the region on its left': Implies(same_kind, ns.winding_count == far(L, L + ds)),
        'one operand: the right one above has the region between': Implies(same_kind, nf.winding_count == far(L + ds, L + ds + df)),
        'one operand, even-odd: counts keep their size': Implies(And(one, own_f == eo), And(
            nf.winding_count == s.winding_count, ns.winding_count == f.winding_count)),
        'one operand: opposite counts stay': Implies(one, And(nf.opposite_winding_count == f.opposite_winding_count,
                                                             ns.opposite_winding_count == s.opposite_winding_count)),
        'two operands: own counts stay': Implies(Not(one), And(nf.winding_count == f.winding_count,
                                                              ns.winding_count == s.winding_count)),
        'two operands: the first one has now crossed the second': Implies(Not(one), nf.opposite_winding_count == If(
            own_s == eo, If(f.opposite_winding_count == 0, 1, 0), f.opposite_winding_count + ds)),
        'two operands: the second one no longer has the first on its left': Implies(Not(one), ns.opposite_winding_count == If(
            own_f == eo, If(s.opposite_winding_count == 0, 1, 0), s.opposite_winding_count - df))}


RM = Ref('RingManager')
M = 'ring_manager.RingManager.'
SWEEP = dict(operation_kind=Enum('OperationKind'), subject_fill_kind=Enum('FillKind'), clip_fill_kind=Enum('FillKind'))


C(M + 'intersect_bounds', dict(self=RM, point=Ref('Point'), **SWEEP, first_bound=Ref('Bound'), second_bound=Ref('Bound'),
                               active_bounds=List(ORef('Bound'))), NONE,
  requires=crossing_req, ensures=crossing_ens,
  modifies=lambda o: modfields(o.first_bound, 'winding_count', 'opposite_winding_count')
  + modfields(o.second_bound, 'winding_count', 'opposite_winding_count'),
  frame_only=('Bound.winding_count', 'Bound.opposite_winding_count', 'Bound.winding_delta', 'Bound.polygon_kind',
              'Bound.edges', 'Bound.maximum_bound', 'Bound.current_x', 'Bound.position', 'Bound._current_edge_index',
              'Bound._next_edge_index'),
  havoc=(M + 'add_point', M + 'add_local_maximum_point', M + 'add_local_minimum_point'),
  props=['C03'], timeout=20)
