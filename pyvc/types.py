"""Types and symbolic values of the verifier."""
import z3

IntS, RealS, BoolS = z3.IntSort(), z3.RealSort(), z3.BoolSort()
BVW = 130          # width of the bit-vector integers of the float world
FPS = z3.Float64()


class T:
    """A static type: flattens to a list of z3 sorts."""
    key = '?'
    sorts = ()

    def __repr__(self):
        return self.key

    def __eq__(self, other):
        return isinstance(other, T) and self.key == other.key

    def __hash__(self):
        return hash(self.key)


class TInt(T):
    key, sorts = 'int', (IntS,)


class TReal(T):
    key, sorts = 'real', (RealS,)


class TBool(T):
    key, sorts = 'bool', (BoolS,)


class TXReal(T):
    """real or +inf: (is_inf, real)"""
    key, sorts = 'xreal', (BoolS, RealS)


class TNReal(T):
    """real or NaN (Ring._area): (is_nan, real)"""
    key, sorts = 'nreal', (BoolS, RealS)


class TFP(T):
    key, sorts = 'fp', (FPS,)


class TBV(T):
    key, sorts = 'bv', (z3.BitVecSort(BVW),)


class TNone(T):
    key, sorts = 'none', ()


class TEnum(T):
    def __init__(self, cls):
        self.cls = cls
        self.key = 'enum:' + cls
        self.sorts = (IntS,)


class TRef(T):
    def __init__(self, cls, opt=False):
        self.cls, self.opt = cls, opt
        self.key = 'ref:' + cls + ('?' if opt else '')
        self.sorts = (IntS,)


class TList(T):
    def __init__(self, elem, opt=False):
        self.elem, self.opt = elem, opt
        self.key = 'list[' + elem.key + ']' + ('?' if opt else '')
        self.sorts = (IntS,)


class TOpt(T):
    """optional scalar: (is_none, *sorts)"""

    def __init__(self, inner):
        self.inner = inner
        self.key = 'opt[' + inner.key + ']'
        self.sorts = (BoolS,) + tuple(inner.sorts)


class TTuple(T):
    def __init__(self, *items):
        self.items = items
        self.key = 'tuple[' + ','.join(i.key for i in items) + ']'
        self.sorts = sum((tuple(i.sorts) for i in items), ())


class TFun(T):
    """opaque function parameter; spec: dict(args, ret, pure|effect)"""

    def __init__(self, name, args, ret, log=None):
        self.name, self.args, self.ret, self.log = name, args, ret, log
        self.key = 'fun:' + name
        self.sorts = ()


INT, REAL, BOOL, XREAL, NREAL, FP, BV, NONE = (TInt(), TReal(), TBool(), TXReal(),
                                               TNReal(), TFP(), TBV(), TNone())


def Ref(cls, opt=False):
    return TRef(cls, opt)


def ORef(cls):
    return TRef(cls, True)


def List(e):
    return TList(e)


def Opt(t):
    return TOpt(t)


def Enum(c):
    return TEnum(c)


def Tup(*i):
    return TTuple(*i)


class V:
    """A symbolic value: static type + z3 terms."""
    __slots__ = 't', 'a'

    def __init__(self, t, *a):
        self.t, self.a = t, a

    def __repr__(self):
        return 'V(%s, %s)' % (self.t, ', '.join(map(str, self.a)))


class VTuple:
    __slots__ = 'items',

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return 'VTuple%r' % (self.items,)


class VPy:
    """A value known at verification time: module, class, function, closure, builtin, str..."""
    __slots__ = 'kind', 'data'

    def __init__(self, kind, data):
        self.kind, self.data = kind, data

    def __repr__(self):
        return 'VPy(%s, %r)' % (self.kind, self.data if self.kind != 'closure' else '..')


class VPoison:
    """Merge of incompatible values: an error only when used."""
    __slots__ = 'why',

    def __init__(self, why):
        self.why = why


NONEV = V(NONE)


def vint(n):
    return V(INT, z3.IntVal(n) if isinstance(n, int) else n)


def vbool(b):
    return V(BOOL, z3.BoolVal(b) if isinstance(b, bool) else b)


def vreal(r):
    return V(REAL, r)


def flatten(v):
    if isinstance(v, VTuple):
        return sum((flatten(i) for i in v.items), [])
    return list(v.a)


def typeof(v):
    if isinstance(v, VTuple):
        return TTuple(*map(typeof, v.items))
    if isinstance(v, V):
        return v.t
    if isinstance(v, VPy):
        return TPyT(v)
    raise Unsupported('no type for %r' % (v,))


class TPyT(T):
    sorts = ()

    def __init__(self, v):
        self.v = v
        self.key = 'py:%s:%s' % (v.kind, id(v.data))


def unflatten(t, terms):
    terms = list(terms)
    if isinstance(t, TTuple):
        out, i = [], 0
        for it in t.items:
            n = len(it.sorts)
            out.append(unflatten(it, terms[i:i + n]))
            i += n
        return VTuple(out)
    if isinstance(t, TPyT):
        return t.v
    return V(t, *terms)


class Unsupported(Exception):
    """The function is outside the verifier's subset (never a violation)."""
