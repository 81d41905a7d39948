"""Running the real package."""
from pyvc import concrete
from pyvc.concrete import cls, module


def build(case):
    w = cls('Wagyu')(case['rev'])
    P, R = cls('Point'), cls('LinearRing')
    for r in case['subj']:
        w.add_linear_ring(R([P(*p) for p in r]), cls('PolygonKind').SUBJECT)
    for r in case['clip']:
        w.add_linear_ring(R([P(*p) for p in r]), cls('PolygonKind').CLIP)
    return w


def run(case):
    F = cls('FillKind')
    return getattr(build(case), case['op'])(F(case['sf']), F(case['cf']))


def plain(multi):
    return [[[(p.x, p.y) for p in r] for r in pg] for pg in multi]


def phases(case):
    """the manager after the sweep, and what it becomes"""
    m = module('ring_manager').RingManager()
    w = build(case)
    if not len(w.minimums):
        return None
    return w, m
