"""C04: tolerant comparison of doubles, at bit level; C05: rounding."""
import math
import struct
from fractions import Fraction

import z3

from pyvc.contract import C, Loop, modlist, modfields
from pyvc.types import *
from pyvc.spec import *
from . import gens as g

W = 70


def position(x):
    """index of a double in the ordered sequence of all doubles (both zeros
    at 0): an independent definition on the bit pattern"""
    if is_z3(x):
        b = z3.fpToIEEEBV(x)
        mag = z3.ZeroExt(W - 63, z3.Extract(62, 0, b))
        return z3.If(z3.Extract(63, 63, b) == 1, -mag, mag)
    x = float(x)
    b = struct.unpack('!q', struct.pack('!d', x))[0]
    return b if b >= 0 else -(b & (2 ** 63 - 1))


def isnan(x):
    return z3.fpIsNaN(x) if is_z3(x) else x != x


def isinf(x):
    return z3.fpIsInf(x) if is_z3(x) else x in (math.inf, -math.inf)


def near(x, y):
    """at most four representable numbers apart"""
    if is_z3(x, y):
        d = position(x) - position(y)
        return z3.And(d <= 4, d >= -4)
    return abs(position(x) - position(y)) <= 4


def feq(x, y):
    return z3.fpEQ(x, y) if is_z3(x, y) else x == y


def flt(x, y):
    return z3.fpLT(x, y) if is_z3(x, y) else x < y


def nonan(*names):
    return lambda o: And(*[Not(isnan(getattr(o, n))) for n in names])


def dbl(rng):
    r = rng.random()
    if r < .3:
        return float(rng.randint(-4, 4))
    if r < .4:
        return rng.choice([0.0, -0.0, math.inf, -math.inf, 5e-324, -5e-324, 2.2250738585072014e-308, 1.7976931348623157e308])
    if r < .7:
        return rng.uniform(-10, 10)
    return struct.unpack('!d', struct.pack('!Q', rng.getrandbits(64)))[0]


def step(x, k):
    b = position(x) + k
    b = max(-0x7ff0000000000000, min(0x7ff0000000000000, b))
    v = struct.unpack('!d', struct.pack('!Q', abs(b)))[0]
    return -v if b < 0 else v


def pair(*names):
    def f(rng):
        x = dbl(rng)
        y = step(x, rng.randint(-7, 7)) if x == x and rng.random() < .8 else dbl(rng)
        return dict(zip(names, (x, y)))
    return g.forever(f)


def ens_aeq(o, n, r):
    x, y = o.left, o.right
    return {'exactly when at most four representable numbers apart': Iff(r, near(x, y)),
            'equal numbers are almost equal': Implies(feq(x, y), lambda: r)}


FPP = FP

C('utils.are_floats_almost_equal', dict(left=FP, right=FP), BOOL, requires=nonan('left', 'right'), ensures=ens_aeq,
  props=['C04'], fp=True, modular=False, gen=pair('left', 'right'), monitor=False, timeout=60)

C('utils.are_floats_greater_than', dict(x=FP, y=FP), BOOL, requires=nonan('x', 'y'),
  ensures=lambda o, n, r: {'greater by more than the tolerance': Iff(r, And(flt(o.y, o.x), Not(near(o.x, o.y))))},
  props=['C04'], fp=True, gen=pair('x', 'y'), monitor=False, timeout=60)

C('utils.are_floats_less_than', dict(x=FP, y=FP), BOOL, requires=nonan('x', 'y'),
  ensures=lambda o, n, r: {'less by more than the tolerance': Iff(r, And(flt(o.x, o.y), Not(near(o.x, o.y))))},
  props=['C04'], fp=True, gen=pair('x', 'y'), monitor=False, timeout=60)

C('utils.are_floats_greater_than_or_equal', dict(x=FP, y=FP), BOOL, requires=nonan('x', 'y'),
  ensures=lambda o, n, r: {'greater, or within the tolerance': Iff(r, Or(flt(o.y, o.x), near(o.x, o.y)))},
  props=['C04'], fp=True, gen=pair('x', 'y'), monitor=False, timeout=60)

C('utils.is_float_almost_zero', dict(value=FP), BOOL, requires=nonan('value'),
  ensures=lambda o, n, r: {'within four representable numbers of zero': Iff(r, near(o.value, z3.FPVal(0.0, FPS) if is_z3(o.value) else 0.0))},
  props=['C04'], fp=True, gen=pair('value'), monitor=False, timeout=60)

C('utils._double_to_biased', dict(value=FP), BV, requires=nonan('value'),
  ensures=lambda o, n, r: {'biased position in the order of doubles': (
      r == z3.SignExt(BVW - W, position(o.value)) + (1 << 63)) if is_z3(r) else r == position(o.value) + 2 ** 63},
  props=['C04'], fp=True, gen=pair('value'), monitor=False, timeout=60)


# the facts used of this relation by the proofs over the reals
def ens_real(o, n, r):
    x, y = o.left, o.right
    return {'only close numbers': Implies(r, lambda: And(
        Abs(x - y) * 2 ** 49 <= Abs(x), Iff(x == 0, y == 0)))}


def fp_req(o):
    """zeros and normal numbers"""
    return And(*[Or(x == 0, And(Abs(x) >= Fraction(1, 2 ** 1000), Abs(x) < 2 ** 1000)) for x in (o.left, o.right)])


C('utils.are_floats_almost_equal', dict(left=REAL, right=REAL), BOOL, variant='distance', requires=lambda o: And(
    o.left == o.left, o.right == o.right, fp_req(o)),
  ensures=ens_real, props=['C04'], prove=False, monitor=False,
  gen=lambda rng: (e for e in pair('left', 'right')(rng) if all(v == v and abs(v) != math.inf for v in e.values())))


# ------------------------------------------------------------ C05 rounding
HALF = Fraction(1, 2)
LIM = 2 ** 51


def half_up(r, x):
    """r is the integer nearest to x, the one away from zero on a tie"""
    return If(x >= 0, lambda: And(2 * r - 1 <= 2 * x, 2 * x < 2 * r + 1),
              lambda: And(2 * r - 1 < 2 * x, 2 * x <= 2 * r + 1))


def number(rng):
    r = rng.random()
    n = rng.randint(-40, 40) if r < .7 else rng.randint(-10 ** 12, 10 ** 12)
    k = rng.random()
    if k < .2:
        return n
    if k < .5:
        return n + 0.5
    if k < .7:
        return step(n + 0.5, rng.randint(-7, 7))
    if k < .8:
        return step(float(n), rng.randint(-3, 3))
    return n + rng.random()


def nenv(name):
    return g.forever(lambda rng: {name: number(rng)})


C('utils.round_half_up', dict(number=REAL), INT, conc_requires=lambda o: And(-LIM < o.number, o.number < LIM),
  ensures=lambda o, n, r: {'nearest integer, ties away from zero': half_up(r, o.number)},
  props=['C05'], modular=True, gen=nenv('number'))


def floor(t):
    return z3.ToReal(z3.ToInt(t)) if is_z3(t) and t.is_real() else t if is_z3(t) else math.floor(t)


def nearest(r, x, sign):
    """clauses of rounding to the nearest integer with ties downwards
    (sign < 0) or upwards, within the tolerance of the comparison"""
    K = 2 ** 46
    m = 1 + Abs(x)
    f = floor(x)
    clear = Or(K * (2 * (x - f) - 1) <= -2 * m, K * (2 * (x - f) - 1) >= 2 * m)
    return {'on a tie the %s neighbour' % ('lower' if sign < 0 else 'upper'):
            Implies(2 * (x - f) == 1, lambda: r == (f if sign < 0 else f + 1)),
            'nearest integer': Implies(clear, lambda: And(2 * r - 1 < 2 * x, 2 * x < 2 * r + 1)),
            'never farther than half a pixel, up to the comparison tolerance':
            And(K * (2 * (r - x) - 1) <= 2 * m, K * (2 * (x - r) - 1) <= 2 * m),
            'integers are kept': Implies(x == f, lambda: r == f)}


def towards(sign):
    return lambda o, n, r: nearest(r, o.value, sign)


for nm, sg in (('min', -1), ('max', 1)):
    C('utils.round_towards_' + nm, dict(value=REAL), INT,
      conc_requires=lambda o: And(-LIM < o.value, o.value < LIM), ensures=towards(sg), props=['C05', 'C06'], modular=True, gen=nenv('value'), timeout=20)

C('point.Point.round', dict(self=Ref('Point')), Ref('Point'),
  conc_requires=lambda o: And(*[And(-LIM < v, v < LIM) for v in (o.self.x, o.self.y)]),
  ensures=lambda o, n, r: {'abscissa: nearest grid line, ties upwards': And(nearest(r.x, o.self.x, 1)),
                           'ordinate: nearest grid line, ties upwards': And(nearest(r.y, o.self.y, 1)),
                           'whole coordinates': And(whole(r.x), whole(r.y)),
                           'a new point': o.fresh(r)},
  props=['C05', 'C17'], modular=True, allocates=['Point'],
  gen=g.forever(lambda rng: dict(self=g.K('Point')(number(rng), number(rng)))))


def whole(x):
    if is_z3(x):
        return z3.IsInt(x) if x.is_real() else True
    return x == int(x)


C('intersect_node.to_int32', dict(value=INT), INT,
  ensures=lambda o, n, r: {'two-complement wrap to 32 bits': And(
      -2 ** 31 <= r, r < 2 ** 31, (r - o.value) % 2 ** 32 == 0)},
  props=['C07'], gen=g.forever(lambda rng: dict(value=rng.choice([rng.randint(-5, 5), rng.randint(-2 ** 33, 2 ** 33), 2 ** 31, -2 ** 31 - 1]))))

C('utils.is_odd', dict(number=INT), BOOL,
  ensures=lambda o, n, r: {'odd': Iff(r, o.number % 2 == 1)}, props=['C07', 'C12'], modular=True,
  gen=g.forever(lambda rng: dict(number=rng.randint(-20, 20))))
