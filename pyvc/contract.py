"""Contracts, loop annotations, and the registry."""
from .types import *
from . import spec as SP


class Loop:
    """annotation of one loop (ordinal in source order within its function)"""

    def __init__(self, inv=None, unroll=0, frame=None, lemmas=None, hints_end=None,
                 pre_hints=None, decreases=None):
        self.inv, self.unroll, self.frame = inv, unroll, frame
        self.lemmas, self.hints_end, self.pre_hints = lemmas, hints_end, pre_hints
        self.decreases = decreases


class Contract:
    def __init__(self, qual, params, ret=NONE, requires=None, ensures=None, modifies=None,
                 raises=None, props=(), loops=None, ghosts=None, modular=False, allocates=(),
                 axioms=None, hints=None, noframe=False, fp=False, variant='', gen=None,
                 locals=None, rets=None, call_ghosts=None, inline=(), text='', timeout=6.0,
                 decides=True, applicable=None, budget=60, prove=True, models=None, conc_requires=None,
                 conc_ensures=None, tier='quick', conc_time=None,
                 monitor=True, pre_always=False, havoc=(), frame_only=None, fixed=None, split=False, calls=None):
        self.__dict__.update(qual=qual, params=params, ret=ret, requires=requires, ensures=ensures,
                             modifies=modifies, raises=raises or {}, props=tuple(props), loops=loops or {},
                             ghosts=ghosts, modular=modular, allocates=list(allocates), axioms=axioms,
                             hints=hints, noframe=noframe, fp=fp, variant=variant, gen=gen,
                             locals=locals or {}, rets=rets or {}, _call_ghosts=call_ghosts,
                             inline=tuple(inline), text=text, timeout=timeout, decides=decides,
                             _applicable=applicable, budget=budget, prove=prove, models=models or {},
                             conc_requires=conc_requires, conc_ensures=conc_ensures, tier=tier,
                             conc_time=conc_time, monitor=monitor, pre_always=pre_always, havoc=tuple(havoc), frame_only=frame_only, fixed=fixed or {}, split=split, calls=calls or {})

    @property
    def id(self):
        return self.qual + ('@' + self.variant if self.variant else '')

    def applicable(self, V):
        if self.qual in (V.contract.inline if V.contract else ()):
            return False
        if V.contract is not None and V.contract.qual == self.qual and len(V.frames) <= 0:
            return False
        if self.fp != V.fp:
            return False
        return self._applicable(V) if self._applicable else True

    def make_ghosts(self, V, st, env):
        return self.ghosts.symbolic(V, st, env)

    def call_ghosts(self, V, st, pre, env):
        return self._call_ghosts(V, st, pre, env)


class Registry:
    def __init__(self):
        self.all = []
        self.contracts, self.loops, self.locals, self.rets, self.models = {}, {}, {}, {}, {}

    def add(self, c):
        self.all.append(c)
        if c.modular:
            self.contracts[c.qual] = c
        return c

    def for_contract(self, c):
        """registry view used when verifying contract c: its own loop
        annotations override the shared ones"""
        r = Registry()
        r.contracts = dict(self.contracts)
        r.loops = {k: dict(v) for k, v in self.loops.items()}
        for k, v in c.loops.items():
            if isinstance(k, int) or k == 'list':
                r.loops.setdefault(c.qual, {})[k] = v
            else:
                r.loops[k] = {**r.loops.get(k, {}), **v}
        r.locals = {k: dict(v) for k, v in self.locals.items()}
        for k, v in c.locals.items():
            if isinstance(v, dict):
                r.locals[k] = {**r.locals.get(k, {}), **v}
            else:
                r.locals.setdefault(c.qual, {})[k] = v
        r.rets = dict(self.rets, **c.rets)
        if isinstance(c.ret, TList):
            r.rets.setdefault(c.qual, c.ret)
        r.models = dict(self.models, **c.models)
        return r


REG = Registry()


def C(qual, params, ret=NONE, **kw):
    return REG.add(Contract(qual, params, ret, **kw))


FIELDS = {
    'Point': {'x': REAL, 'y': REAL},
    'PointNode': {'x': REAL, 'y': REAL, 'prev': ORef('PointNode'), 'next': ORef('PointNode'), 'ring': ORef('Ring')},
    'Box': {'minimum': Ref('Point'), 'maximum': Ref('Point')},
    'Edge': {'top': Ref('Point'), 'bottom': Ref('Point'), 'slope': XREAL},
    'Bound': {'edges': List(Ref('Edge')), '_current_edge_index': Opt(INT), '_next_edge_index': Opt(INT),
              'last_point': Ref('Point'), 'ring': ORef('Ring'), 'current_x': REAL, 'position': INT,
              'winding_count': INT, 'opposite_winding_count': INT, 'winding_delta': INT,
              'polygon_kind': Enum('PolygonKind'), 'side': Enum('EdgeSide'), 'maximum_bound': ORef('Bound')},
    'Ring': {'index': INT, 'parent': ORef('Ring'), 'children': List(ORef('Ring')), 'node': ORef('PointNode'),
             'bottom_node': ORef('PointNode'), 'corrected': BOOL, 'box': Ref('Box'), '_area': NREAL,
             '_is_hole': BOOL, '_size': INT},
    'LocalMinimum': {'left_bound': Ref('Bound'), 'right_bound': Ref('Bound'), 'y': REAL,
                     'minimum_has_horizontal': BOOL},
    'LocalMinimumList': {'values': List(Ref('LocalMinimum'))},
    'LinearRing': {'points': List(Ref('Point'))},
    'Polygon': {'linear_rings': List(Ref('LinearRing'))},
    'Multipolygon': {'polygons': List(Ref('Polygon'))},
    'IntersectNode': {'first_bound': Ref('Bound'), 'second_bound': Ref('Bound'), 'point': Ref('Point')},
    'RingManager': {'children': List(ORef('Ring')), '_current_hot_pixel_index': Opt(INT), 'index': INT,
                    'hot_pixels': List(Ref('Point')), 'all_nodes': List(ORef('PointNode')), 'nodes': List(Ref('PointNode')),
                    'rings': List(Ref('Ring')), 'storage': List(Ref('PointNode'))},
    'Wagyu': {'minimums': Ref('LocalMinimumList'), 'reverse_output': BOOL},
}


def modlist(lst):
    """frame entries permitting every change of a list's content"""
    if isinstance(lst, SP.SList):
        V = lst.view.V
        out = [(V.lenc(lst.elem), lst.ref)]
        for c, s in V.lcomps(lst.elem):
            V.arr(lst.view.st, c, s)
            out.append((c, lst.ref))
        b = V.bagc(lst.elem)
        if b is not None:
            V.arr(lst.view.st, b[0], b[1])
            out.append((b[0], lst.ref))
        return out
    return [('LIST', lst.obj)]


def modfields(ref, *names):
    if ref is None:
        return []
    if isinstance(ref, SP.SRef):
        return [('%s.%s' % (ref.cls, n), ref.ref) for n in names]
    return [('%s.%s' % (type(ref.obj).__name__, n), ref.obj) for n in names]
