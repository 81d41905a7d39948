"""C02: which edges belong to the boundary of the result."""
from pyvc.contract import C, Loop, modlist, modfields
from pyvc.types import *
from pyvc.spec import *
from . import gens as g


def inside(fill, w):
    """membership of a point with winding number w under a filling rule
    (even-odd counts are kept as a 0/1 toggle by the sweep)"""
    F = E.FillKind
    return If(fill == F.POSITIVE, lambda: w > 0, lambda: If(fill == F.NEGATIVE, lambda: w < 0, lambda: w != 0))


def own_boundary(fill, w):
    """the edge whose outer side count is w separates inside from outside"""
    F = E.FillKind
    return If(fill == F.NON_ZERO, lambda: Or(w == 1, w == -1),
              lambda: If(fill == F.POSITIVE, lambda: w == 1,
                         lambda: If(fill == F.NEGATIVE, lambda: w == -1, lambda: True)))


def contributes(op, subj, own, other, w, w2):
    O = E.OperationKind
    in2 = inside(other, w2)
    return And(own_boundary(own, w),
               If(op == O.INTERSECTION, lambda: in2,
                  lambda: If(op == O.UNION, lambda: Not(in2),
                             lambda: If(op == O.DIFFERENCE, lambda: If(subj, lambda: Not(in2), lambda: in2),
                                        lambda: True))))


FILLS = dict(subject_fill_kind=Enum('FillKind'), clip_fill_kind=Enum('FillKind'))


def ens(o, n, r):
    subj = o.self.polygon_kind == E.PolygonKind.SUBJECT
    own = If(subj, lambda: o.subject_fill_kind, lambda: o.clip_fill_kind)
    other = If(subj, lambda: o.clip_fill_kind, lambda: o.subject_fill_kind)
    return {'contributes exactly when on the boundary of the result':
            Iff(r, contributes(o.operation_kind, subj, own, other, o.self.winding_count,
                               o.self.opposite_winding_count))}


def gen(rng):
    for op in g.K('OperationKind'):
        for f1 in g.K('FillKind'):
            for f2 in g.K('FillKind'):
                for pk in g.K('PolygonKind'):
                    for w in range(-3, 4):
                        for w2 in range(-3, 4):
                            b = g.bound(rng)
                            b.polygon_kind, b.winding_count, b.opposite_winding_count = pk, w, w2
                            yield dict(self=b, operation_kind=op, subject_fill_kind=f1, clip_fill_kind=f2)


C('bound.Bound.is_contributing', dict(self=Ref('Bound'), operation_kind=Enum('OperationKind'), **FILLS), BOOL,
  ensures=ens, props=['C02'], modular=True, gen=gen)

for name, own in (('is_even_odd_fill_kind', True), ('is_even_odd_alt_fill_kind', False)):
    def ens2(o, n, r, own=own):
        subj = o.self.polygon_kind == E.PolygonKind.SUBJECT
        f = If(subj, lambda: o.subject_fill_kind, lambda: o.clip_fill_kind) if own else \
            If(subj, lambda: o.clip_fill_kind, lambda: o.subject_fill_kind)
        return {'rule of the %s region' % ('own' if own else 'other'): Iff(r, f == E.FillKind.EVEN_ODD)}

    C('bound.Bound.' + name, dict(self=Ref('Bound'), **FILLS), BOOL, ensures=ens2, props=['C02', 'C03'], modular=True,
      gen=lambda rng: ({k: v for k, v in e.items() if k != 'operation_kind'} for e in gen(rng)))
