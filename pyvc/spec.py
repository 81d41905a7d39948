"""The specification language. A contract is written once, as Python functions
over views; the same text is evaluated symbolically (z3 terms, giving proof
obligations) and concretely (on objects of the real running code)."""
import math
from fractions import Fraction

import z3

from .types import *
from .types import TNone, TInt, TReal, TBool, TXReal, TNReal, TFP, TBV


def is_z3(*xs):
    return any(isinstance(x, (z3.ExprRef,)) for x in xs)


def tobool(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, (list, tuple)):
        return z3.And(*[tobool(i) for i in x]) if x else z3.BoolVal(True)
    if isinstance(x, dict):
        return tobool(list(x.values()))
    raise Unsupported('specification formula expected, got %r' % (x,))


def _flat(xs):
    """operands, thunks evaluated one after the other as they are asked for"""
    for x in xs:
        if callable(x) and not is_z3(x):
            x = x()
        if isinstance(x, dict):
            x = tuple(x.values())
        if isinstance(x, (list, tuple)):
            yield from _flat(x)
        else:
            yield x


def And(*xs):
    """operands may be thunks: concretely evaluated only when those before hold"""
    out = []
    for x in _flat(xs):
        if not is_z3(x) and not x:
            return False
        out.append(x)
    return z3.And(*[tobool(x) for x in out]) if is_z3(*out) else True


def Or(*xs):
    out = []
    for x in xs:
        if callable(x) and not is_z3(x):
            x = x()
        if not is_z3(x) and x:
            return True
        out.append(x)
    return z3.Or(*[tobool(x) for x in out]) if is_z3(*out) else False


def Not(x):
    return z3.Not(tobool(x)) if is_z3(x) else not x


def Implies(a, b):
    """b may be a thunk: it is then evaluated concretely only when a holds"""
    if is_z3(a):
        return z3.Implies(a, tobool(b() if callable(b) else And(b)))
    if not a:
        return True
    r = b() if callable(b) else b
    return r if is_z3(r) else And(r)


def Iff(a, b):
    if is_z3(a, b):
        return tobool(a) == tobool(b)
    return bool(a) == bool(b)


def _num(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.Q(x.numerator, x.denominator)
    return x


def If(c, a, b):
    """branches may be thunks"""
    if is_z3(c):
        a = a() if callable(a) else a
        b = b() if callable(b) else b
        if isinstance(a, SRef) or isinstance(b, SRef):
            x, y = (a if isinstance(a, SRef) else b), None
            ta = a.ref if isinstance(a, SRef) else z3.IntVal(0)
            tb = b.ref if isinstance(b, SRef) else z3.IntVal(0)
            return SRef(x.view, z3.If(c, ta, tb), x.cls, True)
        if isinstance(a, SList):
            V = a.view.V
            k = V.fresh('which', z3.IntSort())      # patterns must not contain if
            V.facts.append(k == z3.If(c, a.ref, b.ref))
            return SList(a.view, k, a.elem, a.opt)
        a, b = _num(a), _num(b)
        if z3.is_arith(a) and z3.is_arith(b) and a.sort() != b.sort():
            a = z3.ToReal(a) if a.is_int() else a
            b = z3.ToReal(b) if b.is_int() else b
        return z3.If(c, a, b)
    r = a if c else b
    return r() if callable(r) else r


def Abs(x):
    return z3.If(x >= 0, x, -x) if is_z3(x) else abs(x)


def Min(a, b):
    return If(a <= b, a, b)


def Max(a, b):
    return If(a >= b, a, b)


_q = [0]
CUR = [None]        # the verifier at work


class NoPattern(Exception):
    pass


def ground(t):
    """no bound variable (they are named ...!s in specifications)"""
    if not z3.is_expr(t):
        return True
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_var(x):
            return False
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().endswith('!s'):
            return False
        todo += x.children()
    return True


def forall(xs, body, *pats):
    """quantified formula whose patterns (tuples: several terms together)
    are cleaned of if-then-else"""
    names = {}
    try:
        ps = [tuple(noite(x, names) for x in (p if isinstance(p, tuple) else (p,))) for p in pats]
    except NoPattern:
        return z3.ForAll(xs, body)
    if names:
        body = z3.substitute(body, *names.values())
    return z3.ForAll(xs, body, patterns=[z3.MultiPattern(*p) if len(p) > 1 else p[0] for p in ps])


def noite(t, names):
    """patterns must not contain if-then-else: ground ones get a name"""
    if isinstance(t, z3.PatternRef):
        return t
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        if not ground(t):
            raise NoPattern()
        if t.get_id() not in names:
            k = CUR[0].fresh('ite', t.sort())
            CUR[0].facts.append(k == t)
            names[t.get_id()] = (t, k)
        return names[t.get_id()][1]
    if not z3.is_app(t) or not t.children():
        return t
    cs = [noite(c, names) for c in t.children()]
    if all(a.eq(b) for a, b in zip(cs, t.children())):
        return t
    return t.decl()(*cs)


def ForAll(lo, hi, fn, pat=None):
    """for every integer lo <= i < hi"""
    if is_z3(lo, hi) or pat == 'sym':
        _q[0] += 1
        i = z3.Int('q%d!s' % _q[0])
        body = z3.Implies(z3.And(lo <= i, i < hi), tobool(And(fn(i))))
        if pat is None or pat == 'sym':
            return z3.ForAll([i], body)
        ps = pat(i)
        return forall([i], body, *(ps if isinstance(ps, list) else [ps]))
    return all(And(fn(i)) for i in range(lo, hi))


def Exists(lo, hi, fn):
    if is_z3(lo, hi):
        _q[0] += 1
        i = z3.Int('q%d!s' % _q[0])
        return z3.Exists([i], z3.And(lo <= i, i < hi, tobool(And(fn(i)))))
    return any(And(fn(i)) for i in range(lo, hi))


def same(a, b):
    """identity of references (None included)"""
    if isinstance(a, (SRef, SList)) or isinstance(b, (SRef, SList)):
        ta = z3.IntVal(0) if a is None else a.ref
        tb = z3.IntVal(0) if b is None else b.ref
        return ta == tb
    if is_z3(a, b):
        return a == b
    oa = a.obj if isinstance(a, (CRef, CList)) else a
    ob = b.obj if isinstance(b, (CRef, CList)) else b
    return oa is ob


def isnull(a):
    if isinstance(a, (SRef, SList)):
        return a.ref == 0
    if isinstance(a, SOpt):
        return a.none
    if isinstance(a, (CRef, CList)):
        return False
    return a is None


def notnull(a):
    return Not(isnull(a))


def eqr(a, b):
    """equality of reals; concretely up to floating-point rounding"""
    if is_z3(a, b):
        return a == b
    if a == b:
        return True
    if isinstance(a, float) or isinstance(b, float):
        a, b = Fraction(a), Fraction(b)
    return abs(a - b) <= Fraction(1, 10 ** 9) * (1 + abs(a) + abs(b))


def ler(a, b):
    """a <= b; concretely up to floating-point rounding"""
    if is_z3(a, b):
        return a <= b
    return a <= b + Fraction(1, 10 ** 9) * (1 + abs(a) + abs(b))


class SX:
    """extended real: .inf, .val"""

    def __init__(self, inf, val):
        self.inf, self.val = inf, val
        self.nan = inf

    def eq(self, o):
        return Or(And(self.inf, o.inf), And(Not(self.inf), Not(o.inf), self.val == o.val))


class SOpt:
    def __init__(self, none, val):
        self.none, self.val = none, val

    def eq(self, o):
        return And(Iff(self.none, o.none), Or(self.none, self.val == o.val))


class SRef:
    """symbolic reference, read in the state of its view"""
    __slots__ = 'view', 'ref', 'cls', 'opt'

    def __init__(self, view, ref, cls, opt=False):
        self.view, self.ref, self.cls, self.opt = view, ref, cls, opt

    def __getattr__(self, name):
        V, st = self.view.V, self.view.st
        v = V.read_field(st, self.ref, self.cls, name, assume=False)
        return wrapv(self.view, v)

    def nonneg_typed(self):
        return self


class SList:
    __slots__ = 'view', 'ref', 'elem', 'opt'

    def __init__(self, view, ref, elem, opt=False):
        self.view, self.ref, self.elem, self.opt = view, ref, elem, opt

    def _lv(self):
        return V_(TList(self.elem), self.ref)

    @property
    def len(self):
        return self.view.V.list_len(self.view.st, self._lv())

    def __getitem__(self, i):
        if isinstance(i, int):
            i = z3.IntVal(i) if i >= 0 else self.len + i
        return wrapv(self.view, self.view.V.list_get(self.view.st, self._lv(), i, assume=False))

    def term(self, i, j=0):
        """raw z3 term of element i, for patterns"""
        return flatten(self.view.V.list_get(self.view.st, self._lv(), i, assume=False))[j]

    def count(self, x):
        """multiplicity of x in the list (ghost multiset)"""
        b = self.view.V.bag(self.view.st, self._lv())
        t = x.ref if isinstance(x, (SRef, SList)) else x
        return z3.Select(b, t)

    @property
    def bag(self):
        return self.view.V.bag(self.view.st, self._lv())


def V_(t, *a):
    return V(t, *a)


def wrapv(view, v):
    if isinstance(v, VTuple):
        return tuple(wrapv(view, i) for i in v.items)
    if isinstance(v, VPy):
        if v.kind == 'emptylist' and v.data.get('v') is not None:
            return wrapv(view, v.data['v'])
        return v
    if isinstance(v, VPoison):
        raise Unsupported(v.why)
    t = v.t
    if isinstance(t, TNone):
        return None
    if isinstance(t, TRef):
        return SRef(view, v.a[0], t.cls, t.opt)
    if isinstance(t, TList):
        return SList(view, v.a[0], t.elem, t.opt)
    if isinstance(t, (TXReal, TNReal)):
        return SX(v.a[0], v.a[1])
    if isinstance(t, TOpt):
        inner = v.a[1:]
        return SOpt(v.a[0], wrapv(view, V(t.inner, *inner)))
    if isinstance(t, TFun):
        return FunHandle(view.V, t)
    return v.a[0]


class FunHandle:
    def __init__(self, Vf, t):
        self.t = t

    def __call__(self, *args):
        flat = [a.ref if isinstance(a, (SRef, SList)) else a for a in args]
        flat = [_num(a) for a in flat]
        fn = z3.Function(self.t.name, *([x.sort() for x in flat] + [self.t.ret.sorts[0]]))
        return fn(*flat)


class SymView:
    symbolic = True

    def __init__(self, V, st, env, ghosts=None):
        self.V, self.st, self.env = V, st, env
        self.ghosts = ghosts
        self.G = ghosts

    def __getattr__(self, name):
        env = self.__dict__['env']
        if name in env:
            return wrapv(self, env[name])
        raise Unsupported('specification mentions unknown local %s' % name)

    def has(self, name):
        return name in self.env

    def at(self, x):
        """the same reference, read in this view's state"""
        if x is None:
            return None
        if isinstance(x, tuple):
            return tuple(self.at(i) for i in x)
        if isinstance(x, SRef):
            return SRef(self, x.ref, x.cls, x.opt)
        if isinstance(x, SList):
            return SList(self, x.ref, x.elem, x.opt)
        return x

    def comp(self, name):
        """raw heap component array, for patterns"""
        V = self.V
        return V.arr(self.st, name, V.comp_sort(name))

    def log(self, name):
        g = self.ghost_log[name] if 'ghost_log' in self.__dict__ else self.st.ghost[name]
        return SLog(self, g)

    @property
    def alloc(self):
        return self.st.alloc

    def fresh(self, ref):
        """allocated after this view's state"""
        return ref.ref >= self.st.alloc

    def allocated(self, ref):
        return z3.And(ref.ref >= 1, ref.ref < self.st.alloc)


class SLog:
    def __init__(self, view, g):
        self.len, self.arrs = g[0], g[1:]

    def get(self, i):
        return tuple(z3.Select(a, i) for a in self.arrs)


def wrap(V, st, v):
    return wrapv(SymView(V, st, {}), v)


def ref_int(x):
    """z3/int identity of a reference, usable as an argument of ghosts"""
    return x.ref if isinstance(x, (SRef, SList)) else x


# ------------------------------------------------------------------ concrete
def num(x):
    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, int):
        return int(x)
    if isinstance(x, float):
        if x != x or x in (math.inf, -math.inf):
            return x
        return Fraction(x)
    return x


class Snapshot:
    """shallow copies of every object reachable at one moment"""

    def __init__(self, roots, fields):
        self.fields = fields
        self.objs = {}
        self.keep = []
        todo = list(roots)
        while todo:
            x = todo.pop()
            if id(x) in self.objs:
                continue
            if isinstance(x, (list, tuple)):
                self.objs[id(x)] = tuple(x)
                self.keep.append(x)
                todo += x
            elif type(x).__name__ in fields:
                d = {}
                for f in fields[type(x).__name__]:
                    try:
                        d[f] = getattr_raw(x, f)
                    except AttributeError:
                        continue
                self.objs[id(x)] = d
                self.keep.append(x)
                todo += d.values()

    def get(self, obj, f):
        d = self.objs.get(id(obj))
        if d is None:
            return getattr_raw(obj, f)
        if f not in d:
            raise MissingField('%s.%s' % (type(obj).__name__, f))
        return d[f]

    def items(self, lst):
        d = self.objs.get(id(lst))
        return lst if d is None else d

    def known(self, obj):
        return id(obj) in self.objs


class MissingField(AttributeError):
    pass


def getattr_raw(obj, f):
    """raw slot read (no properties)"""
    for c in type(obj).__mro__:
        d = c.__dict__.get(f)
        if d is not None and type(d).__name__ == 'member_descriptor':
            return d.__get__(obj)
    d = getattr(obj, '__dict__', None)
    if d is not None and f in d:
        return d[f]
    if not hasattr(type(obj), f):
        raise MissingField('%s.%s' % (type(obj).__name__, f))
    return getattr(obj, f)


class CRef:
    __slots__ = 'view', 'obj'

    def __init__(self, view, obj):
        self.view, self.obj = view, obj

    def __getattr__(self, name):
        view, obj = self.view, self.obj
        t = view.fields.get(type(obj).__name__, {}).get(name)
        v = view.snap.get(obj, name) if view.snap is not None else getattr_raw(obj, name)
        return cwrap(view, v, t)

    @property
    def ref(self):
        return self.obj


class CList:
    __slots__ = 'view', 'obj', 't'

    def __init__(self, view, obj, t=None):
        self.view, self.obj, self.t = view, obj, t

    def _items(self):
        return self.view.snap.items(self.obj) if self.view.snap is not None else self.obj

    @property
    def len(self):
        return len(self._items())

    def __getitem__(self, i):
        return cwrap(self.view, self._items()[i], self.t.elem if isinstance(self.t, TList) else None)

    def count(self, x):
        x = x.obj if isinstance(x, (CRef, CList)) else x
        if isinstance(x, (int, float, Fraction, bool)):
            return sum(1 for y in self._items() if num(y) == x)
        return sum(1 for y in self._items() if y is x)

    def term(self, i, j=0):
        return None


def cwrap(view, v, t=None):
    if v is None:
        return SOpt(True, None) if isinstance(t, TOpt) else None
    if isinstance(t, TOpt):
        return SOpt(False, cwrap(view, v, t.inner))
    if isinstance(t, TXReal):
        inf = v == math.inf
        return SX(inf, Fraction(0) if inf else Fraction(v))
    if isinstance(t, TNReal):
        nan = v != v
        return SX(nan, Fraction(0) if nan else Fraction(v))
    if isinstance(v, list):
        return CList(view, v, t)
    if isinstance(v, tuple):
        ts = t.items if isinstance(t, TTuple) else [None] * len(v)
        return tuple(cwrap(view, x, y) for x, y in zip(v, ts))
    if type(v).__name__ in view.fields:
        return CRef(view, v)
    return num(v)


class ConcView:
    symbolic = False

    def __init__(self, env, fields, types, snap=None, ghosts=None, logs=None, roots_snap=None):
        self.env, self.fields, self.types, self.snap = env, fields, types, snap
        self.ghosts = self.G = ghosts
        self.logs = logs or {}
        self.entry_snap = roots_snap

    def __getattr__(self, name):
        env = self.__dict__['env']
        if name in env:
            v = env[name]
            t = self.types.get(name)
            if isinstance(t, TFun):
                return CFun(self, v, t)
            return cwrap(self, v, t)
        raise AttributeError(name)

    def has(self, name):
        return name in self.env

    def at(self, x):
        if isinstance(x, tuple):
            return tuple(self.at(i) for i in x)
        if isinstance(x, CRef):
            return CRef(self, x.obj)
        if isinstance(x, CList):
            return CList(self, x.obj, x.t)
        return x

    def comp(self, name):
        return None

    def fresh(self, ref):
        return not self.entry_snap.known(ref.obj)

    def log(self, name):
        return CLog(self, self.logs[name])


class CLog:
    def __init__(self, view, entries):
        self.len, self.entries, self.view = len(entries), entries, view

    def get(self, i):
        return tuple(cwrap(self.view, x) for x in self.entries[i])


class CFun:
    def __init__(self, view, fn, t):
        self.fn, self.view = fn, view

    def __call__(self, *args):
        raw = [a.obj if isinstance(a, (CRef, CList)) else a for a in args]
        return num(self.fn(*raw))


class _Enums:
    def __getattr__(self, name):
        from .src import Program
        p = _Enums.prog
        c = p.classes[name]
        return _Members(c.members)

    prog = None


class _Members:
    def __init__(self, m):
        self.__dict__.update(m)


E = _Enums()
