"""Forward symbolic execution of the real Python AST: generates proof
obligations from the contracts, loop by loop and function by function."""
import ast
import itertools

import z3

from .types import *
from .types import TNone, TInt, TReal, TBool, TXReal, TNReal, TFP, TBV
from . import spec as SP

TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def conj(*xs):
    out = []
    for x in xs:
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return FALSE
        out.append(x)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else z3.And(*out)


def disj(*xs):
    out = []
    for x in xs:
        if z3.is_false(x):
            continue
        if z3.is_true(x):
            return TRUE
        out.append(x)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else z3.Or(*out)


def neg(x):
    if z3.is_true(x):
        return FALSE
    if z3.is_false(x):
        return TRUE
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def ite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


class St:
    __slots__ = 'envs', 'heap', 'alloc', 'pc', 'dead', 'ghost', 'skip'

    def __init__(self):
        self.envs, self.heap, self.alloc, self.pc, self.dead = [], {}, None, TRUE, False
        self.ghost = {}
        self.skip = ()      # ranges of facts of other paths

    def copy(self):
        s = St()
        s.envs = [dict(e) for e in self.envs]
        s.heap = dict(self.heap)
        s.alloc, s.pc, s.dead = self.alloc, self.pc, self.dead
        s.ghost = dict(self.ghost)
        s.skip = self.skip
        return s

    def become(self, o):
        self.envs, self.heap, self.alloc = o.envs, o.heap, o.alloc
        self.pc, self.dead, self.ghost, self.skip = o.pc, o.dead, o.ghost, o.skip

    @property
    def env(self):
        return self.envs[-1]


class Frame:
    def __init__(self, fn, module, qual, loops, comps, depth, loopspecs):
        self.fn, self.module, self.qual = fn, module, qual
        self.loops, self.comps, self.depth = loops, comps, depth
        self.loopspecs = loopspecs
        self.returns = []
        self.entry = None       # (params env, state copy)
        self.yield_body = None


class Oblig:
    __slots__ = 'name', 'facts', 'pc', 'goal', 'line', 'kind', 'res', 'info', 'time', 'backend', 'skip'

    def __init__(self, name, facts, pc, goal, line, kind, skip=()):
        self.skip = skip
        self.name, self.facts, self.pc, self.goal = name, facts, pc, goal
        self.line, self.kind = line, kind
        self.res = self.info = None
        self.time, self.backend = 0.0, None


class BreakLoop(Exception):
    pass


class Verifier:
    MAXINLINE = 14

    def __init__(self, prog, registry, fields, fp=False, opts=None):
        self.prog, self.reg, self.fields = prog, registry, fields
        self.fp = fp
        self.opts = opts or {}
        self.counter = itertools.count(1)
        self.facts, self.obligs, self.writes = [], [], []
        self.base = {}
        self.frames = []
        self.handlers = []          # stack of (exc names, sink)
        self.raises = []            # (excname, msg, state)
        self.loop_stack = []        # (breaks, continues)
        self.line = 0
        self.dry = 0
        self.fresh_marks = {}
        self.contract = None
        self.frame_checks = []      # active loop frame predicates
        self.used = {}              # contracts/assumptions used
        self.assumptions = set()
        self.no_requires_fresh = False
        SP.CUR[0] = self
        self.named_terms = {}       # names given to terms

    # ---------------------------------------------------------------- basics
    def fresh(self, name, sort):
        n = next(self.counter)
        nm = '%s!%d' % (name, n)
        c = z3.Const(nm, sort)
        self.fresh_marks[nm] = n
        return c

    def fresh_val(self, name, t, st=None):
        """an arbitrary value of static type t"""
        if isinstance(t, TTuple):
            return VTuple(self.fresh_val(name, i, st) for i in t.items)
        if isinstance(t, TPyT):
            return t.v
        v = V(t, *(self.fresh(name, s) for s in t.sorts))
        if st is not None:
            self.typed(st, v)
        return v

    def typed(self, st, v, guard=None):
        """type invariants of an arbitrary value"""
        if isinstance(v, VTuple):
            for i in v.items:
                self.typed(st, i, guard)
            return
        if not isinstance(v, V):
            return
        f = self.type_inv(st, v)
        if f is not None:
            self.assume(st, f if guard is None else z3.Implies(guard, f))

    def type_inv(self, st, v):
        t = v.t
        if isinstance(t, TRef):
            lo = v.a[0] >= (0 if t.opt else 1)
            return z3.And(lo, v.a[0] < st.alloc, *self.from_entry(st, v.a[0]))
        if isinstance(t, TList):
            lo = v.a[0] >= (0 if t.opt else 1)
            return z3.And(lo, v.a[0] < st.alloc, self.list_len(st, v) >= 0, *self.from_entry(st, v.a[0]))
        if isinstance(t, TEnum):
            ms = self.prog.classes[t.cls].members
            return z3.Or(*[v.a[0] == m for m in ms.values()]) if ms else None
        return None

    def from_entry(self, st, x):
        """a reference read from the entry heap is of the entry heap"""
        a0 = z3.Int('alloc0')
        if st.alloc.eq(a0) or not z3.is_select(x):
            return []
        a, i = x.arg(0), x.arg(1)
        if z3.is_select(a):
            a, i = a.arg(0), a.arg(1)
        if z3.is_const(a) and a.decl().name().startswith('H.') and '!' not in a.decl().name():
            return [z3.Implies(z3.And(1 <= i, i < a0), x < a0)]
        return []

    def assume(self, st, f):
        if z3.is_true(f):
            return
        self.facts.append(f if z3.is_true(st.pc) else z3.Implies(st.pc, f))

    def facts_of(self, ob):
        fs = self.facts[:ob.facts]
        for lo, hi in sorted(ob.skip, reverse=True):
            del fs[lo:hi]
        return fs

    def oblige(self, st, name, goal, kind='safety', assume=True):
        if st.dead or z3.is_false(st.pc):
            return
        g = z3.simplify(goal)
        if z3.is_true(g) and kind == 'safety':
            return
        self.obligs.append(Oblig(name, len(self.facts), st.pc, goal, self.line, kind, st.skip))
        if assume:      # subsequently
            self.assume(st, goal)

    def may_raise(self, st, cond, exc, what):
        """operation raises `exc` when cond"""
        c = z3.simplify(cond)
        if z3.is_false(c):
            return
        for names, sink in reversed(self.handlers):
            if exc in names or 'Exception' in names:
                s2 = st.copy()
                s2.pc = conj(s2.pc, cond)
                sink.append((exc, what, s2))
                st.pc = conj(st.pc, neg(cond))
                return
        if self.contract is not None and exc in (self.contract.raises or {}):
            s2 = st.copy()
            s2.pc = conj(s2.pc, cond)
            self.raises.append((exc, what, s2))
            st.pc = conj(st.pc, neg(cond))
            return
        self.oblige(st, 'safety: no %s (%s) at line %d' % (exc, what, self.line), neg(cond))

    # ------------------------------------------------------------------ heap
    def arr(self, st, comp, sort):
        if comp not in st.heap:
            if comp not in self.base:
                self.base[comp] = z3.Const('H.' + comp, z3.ArraySort(IntS, sort))
            st.heap[comp] = self.base[comp]
        return st.heap[comp]

    def sel(self, st, comp, sort, ref):
        a = self.arr(st, comp, sort)
        # read over write with syntactic indices
        while z3.is_app_of(a, z3.Z3_OP_STORE):
            i = a.arg(1)
            if i.eq(ref):
                return a.arg(2)
            if z3.is_int_value(i) and z3.is_int_value(ref):
                a = a.arg(0)
                continue
            d = z3.simplify(i - ref)
            if z3.is_int_value(d) and d.as_long() != 0:
                a = a.arg(0)
                continue
            break
        return z3.Select(a, ref)

    def sto(self, st, comp, sort, ref, val):
        a = self.arr(st, comp, sort)
        st.heap[comp] = z3.Store(a, ref, val)
        self.log_write(st, comp, ref)

    def log_write(self, st, comp, ref):
        if ref is not None and z3.is_const(ref):
            ref = self.named_terms.get(ref.decl().name(), ref)
        self.writes.append((st.pc, comp, ref))
        for fr in self.frame_checks:
            fr(st, comp, ref)

    def field_type(self, cls, name):
        t = self.fields.get(cls, {}).get(name)
        return t

    def read_field(self, st, ref, cls, name, assume=True):
        t = self.field_type(cls, name)
        if t is None:
            raise Unsupported('field %s.%s' % (cls, name))
        terms = []
        for j, s in enumerate(t.sorts):
            comp = '%s.%s' % (cls, name) + ('' if len(t.sorts) == 1 else '#%d' % j)
            terms.append(self.sel(st, comp, s, ref))
        v = unflatten(t, terms)
        if assume:
            self.typed_once(st, v)
        return v

    def typed_once(self, st, v):
        self.typed(st, v)

    def write_field(self, st, ref, cls, name, v):
        t = self.field_type(cls, name)
        if t is None:
            raise Unsupported('field %s.%s' % (cls, name))
        v = self.coerce(st, v, t, '%s.%s' % (cls, name))
        terms = flatten(v)
        for j, s in enumerate(t.sorts):
            comp = '%s.%s' % (cls, name) + ('' if len(t.sorts) == 1 else '#%d' % j)
            self.sto(st, comp, s, ref, terms[j])

    def new_ref(self, st):
        r = st.alloc
        st.alloc = z3.simplify(st.alloc + 1)
        return r

    # ----------------------------------------------------------------- lists
    @staticmethod
    def lkey(elem):
        if isinstance(elem, TRef):
            return 'ref:' + elem.cls
        if isinstance(elem, TTuple):
            return 'tuple[' + ','.join(Verifier.lkey(i) for i in elem.items) + ']'
        if isinstance(elem, TList):
            return 'list[' + Verifier.lkey(elem.elem) + ']'
        return elem.key

    def lcomps(self, elem):
        k = self.lkey(elem)
        n = len(elem.sorts)
        return [('L.e.%s' % k + ('' if n == 1 else '#%d' % j), z3.ArraySort(IntS, s))
                for j, s in enumerate(elem.sorts)]

    def lenc(self, elem):
        return 'L.len.' + self.lkey(elem)

    def bagc(self, elem):
        if len(elem.sorts) != 1:
            return None
        return 'L.bag.' + self.lkey(elem), z3.ArraySort(elem.sorts[0], IntS)

    def list_len(self, st, lv):
        return self.sel(st, self.lenc(lv.t.elem), IntS, lv.a[0])

    def list_get(self, st, lv, i, assume=True):
        terms = [z3.Select(self.sel(st, c, s, lv.a[0]), i) for c, s in self.lcomps(lv.t.elem)]
        terms = [self.simp_sel(t) for t in terms]
        v = unflatten(lv.t.elem, terms)
        if assume:
            n = self.list_len(st, lv)
            self.typed(st, v, z3.And(i >= 0, i < n))
        return v

    @staticmethod
    def simp_sel(t):
        a, i = t.arg(0), t.arg(1)
        while z3.is_app_of(a, z3.Z3_OP_STORE):
            j = a.arg(1)
            if j.eq(i):
                return a.arg(2)
            d = z3.simplify(i - j)
            if z3.is_int_value(d) and d.as_long() != 0:
                a = a.arg(0)
                continue
            break
        return z3.Select(a, i)

    def bag(self, st, lv):
        b = self.bagc(lv.t.elem)
        return None if b is None else self.sel(st, b[0], b[1], lv.a[0])

    def set_bag(self, st, lv, val):
        b = self.bagc(lv.t.elem)
        if b is not None:
            self.sto(st, b[0], b[1], lv.a[0], val)

    def list_set(self, st, lv, i, v):
        v = self.coerce(st, v, lv.t.elem, 'list element')
        b = self.bag(st, lv)
        olds = []
        for (c, s), term in zip(self.lcomps(lv.t.elem), flatten(v)):
            e = self.sel(st, c, s, lv.a[0])
            olds.append(self.simp_sel(z3.Select(e, i)))
            self.sto(st, c, s, lv.a[0], z3.Store(e, i, term))
        if b is not None:
            o, nw = olds[0], flatten(v)[0]
            b1 = z3.Store(b, o, z3.Select(b, o) - 1)
            self.set_bag(st, lv, z3.Store(b1, nw, z3.Select(b1, nw) + 1))

    def list_append(self, st, lv, v):
        v = self.coerce(st, v, lv.t.elem, 'list element')
        n = self.list_len(st, lv)
        for (c, s), term in zip(self.lcomps(lv.t.elem), flatten(v)):
            e = self.sel(st, c, s, lv.a[0])
            self.sto(st, c, s, lv.a[0], z3.Store(e, n, term))
        self.sto(st, self.lenc(lv.t.elem), IntS, lv.a[0], z3.simplify(n + 1))
        b = self.bag(st, lv)
        if b is not None:
            nw = flatten(v)[0]
            self.set_bag(st, lv, z3.Store(b, nw, z3.Select(b, nw) + 1))

    def new_list(self, st, elem, items=()):
        r = self.new_ref(st)
        lv = V(TList(elem), r)
        self.sto(st, self.lenc(elem), IntS, r, z3.IntVal(0))
        b = self.bagc(elem)
        if b is not None:
            self.sto(st, b[0], b[1], r, z3.K(elem.sorts[0], z3.IntVal(0)))
        for i in items:
            self.list_append(st, lv, i)
        return lv

    def havoc_content(self, st, lv, n, axioms, bag=None):
        """overwrite the content of list lv: length n, fresh elements with
        axioms(get) over the new elements"""
        elem = lv.t.elem
        arrs = []
        for c, s in self.lcomps(elem):
            a = self.fresh('seq', s)
            arrs.append(a)
            self.sto(st, c, s, lv.a[0], a)
        self.sto(st, self.lenc(elem), IntS, lv.a[0], n)
        b = self.bagc(elem)
        if b is not None:
            self.set_bag(st, lv, bag if bag is not None else self.fresh('bag', b[1]))
        if axioms:
            for f in axioms(arrs):
                self.assume(st, f)
        return arrs

    def copy_range(self, st, src_arrs, dst, n, srcidx, bag=None):
        """dst[i] = src[srcidx(i)] for 0<=i<n"""
        i = z3.Int('i!q')

        def ax(arrs):
            for a, s in zip(arrs, src_arrs):
                yield z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n),
                                                z3.Select(a, i) == z3.Select(s, srcidx(i))),
                                patterns=[z3.Select(a, i)])
        return self.havoc_content(st, dst, n, ax, bag)

    def content(self, st, lv):
        return [self.sel(st, c, s, lv.a[0]) for c, s in self.lcomps(lv.t.elem)]

    # -------------------------------------------------------------- coercion
    def coerce(self, st, v, t, what):
        if isinstance(t, TTuple):
            if not isinstance(v, VTuple) or len(v.items) != len(t.items):
                raise Unsupported('tuple expected for ' + what)
            return VTuple(self.coerce(st, x, y, what) for x, y in zip(v.items, t.items))
        if isinstance(v, VPoison):
            raise Unsupported(v.why)
        if isinstance(v, VPy) and isinstance(t, TList) and v.kind == 'emptylist':
            return self.materialize(st, v, t)
        if isinstance(v, VPy):
            raise Unsupported('%s where %s expected' % (v, t))
        if isinstance(v, VTuple):
            raise Unsupported('tuple where %s expected' % t)
        s = v.t
        if s == t:
            return v
        if isinstance(t, TRef):
            if isinstance(s, TNone):
                if not t.opt:
                    self.oblige(st, 'safety: None stored to %s at line %d' % (what, self.line), FALSE)
                return V(t, z3.IntVal(0))
            if isinstance(s, TRef) and s.cls == t.cls:
                if s.opt and not t.opt:
                    self.oblige(st, 'safety: None stored to %s at line %d' % (what, self.line),
                                v.a[0] != 0)
                return V(t, v.a[0])
        if isinstance(t, TList):
            if isinstance(s, TNone):
                return V(t, z3.IntVal(0))
            if isinstance(s, TList) and self.lkey(s.elem) == self.lkey(t.elem):
                return V(t, v.a[0])
        if isinstance(t, TOpt):
            if isinstance(s, TNone):
                return V(t, TRUE, *[self.fresh('undef', x) for x in t.inner.sorts])
            return V(t, FALSE, *self.coerce(st, v, t.inner, what).a)
        if isinstance(s, TOpt):
            return self.coerce(st, self.unopt(st, v), t, what)
        r = self.num_to(v, t)
        if r is not None:
            return r
        if isinstance(t, TReal) and isinstance(s, (TXReal, TNReal)):
            self.oblige(st, 'safety: finite %s at line %d' % (what, self.line), z3.Not(v.a[0]))
            return V(REAL, v.a[1])
        raise Unsupported('cannot coerce %s to %s for %s' % (s, t, what))

    def unopt(self, st, v):
        if isinstance(v, V) and isinstance(v.t, TOpt):
            self.may_raise(st, v.a[0], 'TypeError', 'None used as a value')
            return V(v.t.inner, *v.a[1:])
        return v

    def num_to(self, v, t):
        s = v.t
        if s == t:
            return v
        if isinstance(t, TBool):
            return None
        if isinstance(s, TBool):
            v, s = V(INT, z3.If(v.a[0], z3.IntVal(1), z3.IntVal(0))), INT
            if isinstance(t, TInt):
                return v
        if isinstance(s, TEnum):
            v, s = V(INT, v.a[0]), INT
            if isinstance(t, TInt):
                return v
        if isinstance(s, TInt) and isinstance(t, TBV):
            if z3.is_int_value(v.a[0]):
                return V(BV, z3.BitVecVal(v.a[0].as_long(), BVW))
            return None
        if isinstance(t, TFP):
            if isinstance(s, TReal) and z3.is_rational_value(v.a[0]):
                q = v.a[0]
                return V(FP, z3.FPVal(q.numerator_as_long() / q.denominator_as_long(), FPS))
            if isinstance(s, TInt) and z3.is_int_value(v.a[0]):
                return V(FP, z3.FPVal(float(v.a[0].as_long()), FPS))
            return None
        if isinstance(s, TInt) and isinstance(t, (TReal, TXReal, TNReal)):
            x = v.a[0]
            v, s = V(REAL, z3.RealVal(x.as_long()) if z3.is_int_value(x) else z3.ToReal(x)), REAL
            if isinstance(t, TReal):
                return v
        if isinstance(s, TReal) and isinstance(t, (TXReal, TNReal)):
            return V(t, FALSE, v.a[0])
        return None

    RANK = {'bool': 0, 'enum': 1, 'int': 1, 'real': 2, 'xreal': 3, 'nreal': 4}

    def num_join(self, a, b):
        def rank(t):
            return 1 if isinstance(t, TEnum) else self.RANK.get(t.key)
        if isinstance(a.t, (TFP, TBV)) or isinstance(b.t, (TFP, TBV)):
            t = a.t if isinstance(a.t, (TFP, TBV)) else b.t
            x, y = self.num_to(a, t), self.num_to(b, t)
        else:
            ra, rb = rank(a.t), rank(b.t)
            if ra is None or rb is None:
                return None
            if {ra, rb} == {3, 4}:
                return None
            t = [BOOL, INT, REAL, XREAL, NREAL][max(ra, rb, 1)]
            x, y = self.num_to(a, t), self.num_to(b, t)
        if x is None or y is None:
            return None
        return t, x, y

    def join_vals(self, c, a, b):
        """value of `a if c else b`"""
        if a is b:
            return a
        if isinstance(a, VPoison) or isinstance(b, VPoison):
            return a if isinstance(a, VPoison) else b
        if isinstance(a, VTuple) and isinstance(b, VTuple) and len(a.items) == len(b.items):
            return VTuple(self.join_vals(c, x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, VPy) and isinstance(b, VPy):
            if a.kind == b.kind and (a.data is b.data or a.data == b.data and isinstance(a.data, (str, tuple)) and a.kind in ('str', 'ext')):
                return a
            if a.kind in CALLABLE and b.kind in CALLABLE:
                return VPy('itefun', (c, a, b))
            return VPoison('merge of %s and %s' % (a.kind, b.kind))
        if isinstance(a, V) and isinstance(b, V):
            s, t = a.t, b.t
            if s == t:
                return V(s, *[ite(c, x, y) for x, y in zip(a.a, b.a)])
            if isinstance(s, TNone) or isinstance(t, TNone):
                o = t if isinstance(s, TNone) else s
                nv = b if isinstance(s, TNone) else a
                if isinstance(o, TRef):
                    nt = TRef(o.cls, True)
                    z = V(nt, z3.IntVal(0))
                    x, y = (z, nv) if isinstance(s, TNone) else (nv, z)
                    return V(nt, ite(c, x.a[0], y.a[0]))
                if isinstance(o, TList):
                    x, y = (z3.IntVal(0), nv.a[0]) if isinstance(s, TNone) else (nv.a[0], z3.IntVal(0))
                    return V(TList(o.elem, True), ite(c, x, y))
                if isinstance(o, TOpt):
                    return V(o, ite(c, TRUE, nv.a[0]) if isinstance(s, TNone) else ite(c, nv.a[0], TRUE),
                             *nv.a[1:])
                if o.sorts:
                    return V(TOpt(o), (c if isinstance(s, TNone) else neg(c)), *nv.a)
                return VPoison('merge with None')
            if isinstance(s, TRef) and isinstance(t, TRef) and s.cls == t.cls:
                return V(TRef(s.cls, True), ite(c, a.a[0], b.a[0]))
            if isinstance(s, TList) and isinstance(t, TList) and self.lkey(s.elem) == self.lkey(t.elem):
                return V(TList(s.elem, s.opt or t.opt), ite(c, a.a[0], b.a[0]))
            if isinstance(s, TOpt) and not isinstance(t, TOpt):
                x = self.num_to(b, s.inner)
                if x is not None:
                    return V(s, ite(c, a.a[0], FALSE), *[ite(c, p, q) for p, q in zip(a.a[1:], x.a)])
            if isinstance(t, TOpt) and not isinstance(s, TOpt):
                x = self.num_to(a, t.inner)
                if x is not None:
                    return V(t, ite(c, FALSE, b.a[0]), *[ite(c, p, q) for p, q in zip(x.a, b.a[1:])])
            j = self.num_join(a, b)
            if j:
                return V(j[0], *[ite(c, x, y) for x, y in zip(j[1].a, j[2].a)])
        return VPoison('merge of incompatible values %r / %r' % (a, b))

    def merge(self, states):
        """join of states with mutually exclusive path conditions"""
        states = [s for s in states if not s.dead and not z3.is_false(s.pc)]
        if not states:
            return None
        acc = states[-1].copy()
        for s in reversed(states[:-1]):
            acc = self.merge2(s.pc, s, acc, disj(s.pc, acc.pc))
        return acc

    def merge2(self, c, a, b, pc):
        out = St()
        for ea, eb in zip(a.envs, b.envs):
            e = {}
            for k in ea.keys() | eb.keys():
                if k in ea and k in eb:
                    e[k] = self.join_vals(c, ea[k], eb[k])
                else:
                    e[k] = VPoison('possibly unbound local %s' % k)
            out.envs.append(e)
        for k in a.heap.keys() | b.heap.keys():
            x, y = a.heap.get(k), b.heap.get(k)
            if x is None:
                x = self.base[k]
            if y is None:
                y = self.base[k]
            out.heap[k] = ite(c, x, y)
        out.alloc = ite(c, a.alloc, b.alloc)
        for k in a.ghost.keys() | b.ghost.keys():
            x, y = a.ghost.get(k), b.ghost.get(k)
            if x is not None and y is not None:
                out.ghost[k] = x if x is y else tuple(ite(c, p, q) for p, q in zip(x, y))
        out.pc = pc
        out.dead = False
        out.skip = a.skip
        return out

    def kill(self, st):
        st.dead = True
        st.pc = FALSE

    def branch(self, st, c, ft, ff):
        """run ft/ff on the two sides of condition c; both mutate a state and
        may return a value; result state in st"""
        cs = z3.simplify(c)
        if z3.is_true(cs):
            return ft(st)
        if z3.is_false(cs):
            return ff(st)
        a, b = st.copy(), st.copy()
        a.pc, b.pc = conj(st.pc, c), conj(st.pc, neg(c))
        pa, pb = a.pc, b.pc
        va = ft(a)
        vb = ff(b)
        if a.dead or z3.is_false(a.pc):
            if b.dead:
                self.kill(st)
                return va if va is not None else vb
            st.become(b)
            return vb
        if b.dead or z3.is_false(b.pc):
            st.become(a)
            return va
        pc = st.pc if (a.pc is pa and b.pc is pb) else disj(a.pc, b.pc)
        m = self.merge2(c, a, b, pc)
        st.become(m)
        if va is None and vb is None:
            return None
        return self.join_vals(c, va, vb)

    # ------------------------------------------------------------ statements
    def block(self, st, stmts):
        for s in stmts:
            if st.dead:
                return
            self.stmt(st, s)

    def paths(self, st, stmts):
        """statements of a body with the paths through its conditionals kept
        apart: the rest is executed once for each outcome"""
        for i, s in enumerate(stmts):
            if st.dead:
                return
            if not isinstance(s, ast.If):
                self.stmt(st, s)
                continue
            self.line = s.lineno
            c = self.truth(st, self.eval(st, s.test))
            if st.dead:
                return
            rest = stmts[i + 1:]
            if not z3.is_true(c) and not z3.is_false(c):
                b = self.fresh('cond', z3.BoolSort())
                self.facts.append(b == c)
                c = b
            skip = ()
            for cond, body in ((c, s.body), (neg(c), s.orelse)):
                if z3.is_false(cond):
                    continue
                b = st.copy()
                b.pc = conj(st.pc, cond)
                b.skip = st.skip + skip
                start = len(self.facts)
                self.paths(b, list(body) + list(rest))
                skip = ((start, len(self.facts)),)
            self.kill(st)
            return
        if not st.dead:
            self.frames[-1].returns.append((st.copy(), NONEV))
            self.kill(st)

    def stmt(self, st, s):
        self.line = getattr(s, 'lineno', self.line)
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement ' + type(s).__name__)
        m(st, s)

    def s_Pass(self, st, s):
        pass

    def s_Expr(self, st, s):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, ast.Yield):
            v = self.eval(st, s.value.value)
            fr = self.frames[-1]
            if fr.yield_body is None:
                raise Unsupported('yield')
            fr.yield_body(st, v)
            return
        self.eval(st, s.value)

    def s_Assign(self, st, s):
        v = self.eval(st, s.value)
        if st.dead:
            return
        for t in s.targets:
            self.assign(st, t, v)

    def s_AnnAssign(self, st, s):
        if s.value is not None:
            self.assign(st, s.target, self.eval(st, s.value))

    def s_AugAssign(self, st, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.eval(st, ast.Name(t.id, ast.Load()))
            v = self.binop(st, s.op, cur, self.eval(st, s.value))
            self.assign(st, t, v)
        elif isinstance(t, ast.Attribute):
            obj = self.eval(st, t.value)
            cur = self.getattr(st, obj, t.attr)
            v = self.binop(st, s.op, cur, self.eval(st, s.value))
            self.setattr(st, obj, t.attr, v)
        elif isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
            obj = self.eval(st, t.value)
            i = self.index(st, obj, self.eval(st, t.slice))
            cur = self.list_get(st, obj, i)
            v = self.binop(st, s.op, cur, self.eval(st, s.value))
            self.list_set(st, obj, i, v)
        else:
            raise Unsupported('augmented assignment target')

    def assign(self, st, t, v):
        if st.dead:
            return
        if isinstance(t, ast.Name):
            if isinstance(v, VPy) and v.kind == 'emptylist':
                v = self.name_list(st, t.id, v)
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(st, v, t.elts)
            for x, y in items:
                self.assign(st, x, y)
        elif isinstance(t, ast.Attribute):
            obj = self.eval(st, t.value)
            self.setattr(st, obj, t.attr, v)
        elif isinstance(t, ast.Subscript):
            obj = self.eval(st, t.value)
            if isinstance(t.slice, ast.Slice):
                self.set_slice(st, obj, t.slice, v)
            else:
                i = self.index(st, obj, self.eval(st, t.slice))
                self.list_set(st, obj, i, v)
        else:
            raise Unsupported('assignment target')

    def unpack(self, st, v, elts):
        if isinstance(v, VTuple):
            stars = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
            if stars:
                i = stars[0]
                k = len(v.items) - (len(elts) - 1)
                vals = list(v.items[:i]) + [VTuple(v.items[i:i + k])] + list(v.items[i + k:])
                elts = [e.value if isinstance(e, ast.Starred) else e for e in elts]
                return list(zip(elts, vals))
            if len(v.items) != len(elts):
                raise Unsupported('unpack arity')
            return list(zip(elts, v.items))
        if isinstance(v, V) and isinstance(v.t, TList):
            n = self.list_len(st, v)
            self.may_raise(st, n != len(elts), 'ValueError', 'unpack')
            return [(e, self.list_get(st, v, z3.IntVal(i))) for i, e in enumerate(elts)]
        raise Unsupported('unpack of %r' % (v,))

    def name_list(self, st, name, v):
        """`name = []`: element type from the contract's locals table, else
        from the code's type comment, else delayed"""
        t = self.local_type(name)
        if t is None:
            return v
        return self.materialize(st, v, t)

    def local_type(self, name):
        fr = self.frames[-1]
        tab = self.reg.locals.get(fr.qual, {})
        return tab.get(name)

    def materialize(self, st, v, t):
        if v.data.get('v') is not None:
            return v.data['v']
        lv = self.new_list(st, t.elem)
        v.data['v'] = lv
        return lv

    def s_Delete(self, st, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                obj = self.eval(st, t.value)
                if not (isinstance(obj, V) and isinstance(obj.t, TList)):
                    raise Unsupported('del')
                if isinstance(t.slice, ast.Slice):
                    self.del_slice(st, obj, t.slice)
                else:
                    i = self.index(st, obj, self.eval(st, t.slice))
                    self.list_del(st, obj, i)
            elif isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            else:
                raise Unsupported('del target')

    def list_del(self, st, obj, i):
        n = self.list_len(st, obj)
        src = self.content(st, obj)
        b = self.bag(st, obj)
        nb = None
        if b is not None:
            o = self.simp_sel(z3.Select(src[0], i))
            nb = z3.Store(b, o, z3.Select(b, o) - 1)
        if z3.simplify(i == n - 1).eq(TRUE):
            self.sto(st, self.lenc(obj.t.elem), IntS, obj.a[0], z3.simplify(n - 1))
            if nb is not None:
                self.set_bag(st, obj, nb)
            return
        self.copy_range(st, src, obj, z3.simplify(n - 1), lambda j: z3.If(j < i, j, j + 1), nb)

    def s_Return(self, st, s):
        v = NONEV if s.value is None else self.eval(st, s.value)
        if st.dead:
            return
        fr = self.frames[-1]
        if isinstance(v, VPy) and v.kind == 'emptylist' and fr.fn is not None:
            t = self.reg.rets.get(fr.qual)
            if t is not None and isinstance(t, TList):
                v = self.materialize(st, v, t)
        fr.returns.append((st.copy(), v))
        self.kill(st)

    def s_If(self, st, s):
        c = self.truth(st, self.eval(st, s.test))
        if st.dead:
            return
        self.branch(st, c, lambda a: self.block(a, s.body), lambda b: self.block(b, s.orelse))

    def s_Break(self, st, s):
        self.loop_stack[-1][0].append(st.copy())
        self.kill(st)

    def s_Continue(self, st, s):
        self.loop_stack[-1][1].append(st.copy())
        self.kill(st)

    def s_Raise(self, st, s):
        exc = 'Exception'
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            exc = ast.unparse(e)
        self.do_raise(st, exc, 'raise at line %d' % self.line)

    def do_raise(self, st, exc, what):
        for names, sink in reversed(self.handlers):
            if exc in names or 'Exception' in names:
                sink.append((exc, what, st.copy()))
                self.kill(st)
                return
        if self.contract is not None and exc in (self.contract.raises or {}):
            self.raises.append((exc, what, st.copy()))
        else:
            self.oblige(st, 'safety: %s unreachable at line %d' % (exc, self.line), FALSE)
        self.kill(st)

    def s_Assert(self, st, s):
        c = self.truth(st, self.eval(st, s.test))
        self.may_raise(st, neg(c), 'AssertionError', 'assert')

    def s_Try(self, st, s):
        sink = []
        names = []
        for h in s.handlers:
            if h.type is None:
                names.append('Exception')
            elif isinstance(h.type, ast.Tuple):
                names += [ast.unparse(x) for x in h.type.elts]
            else:
                names.append(ast.unparse(h.type))
        self.handlers.append((names, sink))
        self.block(st, s.body)
        self.handlers.pop()
        if s.orelse:
            self.block(st, s.orelse)
        outs = [] if st.dead else [st.copy()]
        for exc, what, s2 in sink:
            for h in s.handlers:
                hn = ([ast.unparse(x) for x in h.type.elts] if isinstance(h.type, ast.Tuple)
                      else ['Exception'] if h.type is None else [ast.unparse(h.type)])
                if exc in hn or 'Exception' in hn:
                    if h.name:
                        s2.env[h.name] = VPy('exc', exc)
                    self.block(s2, h.body)
                    if not s2.dead:
                        outs.append(s2)
                    break
        m = self.merge(outs)
        if m is None:
            self.kill(st)
        else:
            st.become(m)
        if s.finalbody:
            self.block(st, s.finalbody)

    def s_FunctionDef(self, st, s):
        st.env[s.name] = VPy('closure', (s, len(st.envs) - 1, self.frames[-1].module, self.frames[-1].qual))

    def s_ImportFrom(self, st, s):
        for a in s.names:
            if s.level:
                st.env[a.asname or a.name] = self.global_value(s.module, a.name)
            else:
                st.env[a.asname or a.name] = VPy('ext', s.module + '.' + a.name)

    def s_Global(self, st, s):
        raise Unsupported('global')

    # ----------------------------------------------------------------- loops
    def s_While(self, st, s):
        def cond(x):
            return self.truth(x, self.eval(x, s.test))
        self.loop(st, s, cond, lambda x: self.block(x, s.body), s.orelse, None)

    def s_For(self, st, s):
        it = self.iterable(st, self.eval(st, s.iter))
        if st.dead:
            return
        if it.kind == 'gen':
            self.run_generator(st, s, it)
            return
        if it.kind == 'static':
            self.unrolled(st, it.items, s)
            return
        self.loop(st, s, None, lambda x: self.block(x, s.body), s.orelse, it,
                  assign=lambda x, v: self.assign(x, s.target, v), target=s.target)

    def unrolled(self, st, items, s):
        breaks = []
        for v in items:
            if st.dead:
                break
            conts = []
            self.loop_stack.append((breaks, conts))
            self.assign(st, s.target, v)
            self.block(st, s.body)
            self.loop_stack.pop()
            outs = ([] if st.dead else [st.copy()]) + conts
            m = self.merge(outs)
            if m is None:
                self.kill(st)
            else:
                st.become(m)
        if not st.dead and s.orelse:
            self.block(st, s.orelse)
        m = self.merge(([] if st.dead else [st.copy()]) + breaks)
        if m is None:
            self.kill(st)
        else:
            st.become(m)

    def run_generator(self, st, s, it):
        """`for x in <generator>`: the generator's body is executed with the
        loop body in place of yield"""
        fn, selfv, args = it.fn, it.selfv, it.args
        spec_frame = self.frames[-1]
        ordinal = spec_frame.loops.get(id(s))
        if s.orelse:
            raise Unsupported('for-else over a generator')
        base_depth = len(st.envs)
        breaks = []

        def on_yield(x, v):
            genenv = x.envs.pop()
            fr = self.frames.pop()
            conts = []
            self.loop_stack.append((breaks, conts))
            self.assign(x, s.target, v)
            self.block(x, s.body)
            self.loop_stack.pop()
            self.frames.append(fr)
            outs = ([] if x.dead else [x.copy()]) + conts
            m = self.merge(outs)
            if m is None:
                self.kill(x)
                x.envs.append(genenv)
                return
            x.become(m)
            x.envs.append(genenv)
        # loop specs: the consumer's loop annotates the generator's loop
        specs = {0: self.loopspec(spec_frame, ordinal)}
        self.inline(st, fn, args, {}, selfv, yield_body=on_yield, loopspecs=specs,
                    specframe=spec_frame)
        for b in breaks:
            del b.envs[base_depth:]
        m = self.merge(([] if st.dead else [st.copy()]) + breaks)
        if m is None:
            self.kill(st)
        else:
            st.become(m)

    def loopspec(self, frame, ordinal):
        if frame.loopspecs is not None and ordinal in frame.loopspecs:
            return frame.loopspecs[ordinal]
        tab = self.reg.loops.get(frame.qual)
        if tab is None or ordinal is None:
            return None
        if ordinal in tab:
            return (tab[ordinal], frame)
        return None

    def loop(self, st, node, cond, body, orelse, it, assign=None, target=None):
        frame = self.frames[-1]
        ordinal = frame.loops.get(id(node))
        sp = self.loopspec(frame, ordinal)
        if sp is None:
            raise Unsupported('loop %s of %s has no invariant' % (ordinal, frame.qual))
        lspec, sframe = sp if isinstance(sp, tuple) else (sp, frame)
        if lspec.unroll:
            return self.unroll_while(st, cond, body, orelse, it, assign, lspec.unroll)
        label = '%s loop %s' % (frame.qual, ordinal)
        kname = '$k'

        entry = st.copy()
        names = None
        mod_env, mod_heap = {}, {}
        mod_alloc = False
        raw_changed = set()
        mark = next(self.counter)

        def havoced(x, tag):
            """arbitrary iteration state"""
            h = x.copy()
            if mod_alloc:
                h.alloc = self.fresh('alloc', IntS)
                self.assume(h, h.alloc >= x.alloc)
            for k, t in mod_env.items():
                d, nm = k
                h.envs[d][nm] = self.fresh_val(nm if isinstance(nm, str) else 'v', t, None)
            for comp, info in mod_heap.items():
                old = x.heap.get(comp, self.base[comp])
                s = old.sort().range()
                precise, fresh_refs, imprecise = info
                if not imprecise and not fresh_refs:
                    a = old
                    for r in precise:
                        a = z3.Store(a, r, self.fresh('h', s))
                    h.heap[comp] = a
                else:
                    a = self.fresh('H.' + comp, z3.ArraySort(IntS, s))
                    h.heap[comp] = a
                    pred = lspec.frame.get(comp) if lspec.frame else None
                    q = z3.Int('r!q')
                    if not imprecise or pred is not None:
                        conds = [q < x.alloc, q >= 0] + [q != r for r in precise]
                        if imprecise:
                            conds.append(z3.Not(self.eval_frame(pred, sframe, entry, q)))
                        self.assume(h, z3.ForAll([q], z3.Implies(z3.And(*conds),
                                                                z3.Select(a, q) == z3.Select(old, q)),
                                                patterns=[z3.Select(a, q)]))
            for k, t in mod_env.items():
                d, nm = k
                self.typed(h, h.envs[d][nm])
            return h

        def one_iteration(h, k):
            """executes test+body from head state h; returns (end states,
            exit states)"""
            breaks, conts = [], []
            x = h.copy()
            if it is not None:
                c = it.cond(self, x, k)
            else:
                c = cond(x)
            exit_ = x.copy()
            exit_.pc = conj(x.pc, neg(c))
            x.pc = conj(x.pc, c)
            if z3.is_false(z3.simplify(neg(c))):
                exit_.dead = True
            if z3.is_false(z3.simplify(c)):
                self.kill(x)
            if not x.dead:
                if it is not None:
                    v = it.item(self, x, k)
                    assign(x, v)
                self.loop_stack.append((breaks, conts))
                body(x)
                self.loop_stack.pop()
            ends = ([] if x.dead else [x]) + conts
            return ends, exit_, breaks

        # --- discover what the loop modifies (dry runs)
        snap = self.snapshot()
        self.dry += 1
        try:
            for _ in range(6):
                sn = self.snapshot()
                h = havoced(entry, 'dry')
                k = self.fresh('k', IntS)
                w0 = len(self.writes)
                ends, exit_, breaks = one_iteration(h, k)
                changed = False
                m = self.merge(ends)
                if m is not None:
                    for d in range(len(entry.envs)):
                        for nm, v in m.envs[d].items():
                            old = h.envs[d].get(nm)
                            if old is v:
                                continue
                            if old is not None and same_val(old, v):
                                continue
                            if old is None:
                                # first bound in the loop body
                                if nm not in entry.envs[d]:
                                    try:
                                        t = typeof(v)
                                    except Unsupported:
                                        continue
                                    key = (d, nm)
                                    if key not in mod_env and not isinstance(t, TPyT):
                                        mod_env[key] = t
                                        changed = True
                                continue
                            ev = entry.envs[d].get(nm, old)
                            j = self.join_vals(self.fresh('c', BoolS), v, ev)
                            j = self.join_vals(self.fresh('c', BoolS), j, old)
                            if isinstance(j, VPoison):
                                raise Unsupported('local %s changes kind in a loop' % nm)
                            t = typeof(j)
                            if mod_env.get((d, nm)) != t:
                                mod_env[(d, nm)] = t
                                changed = True
                    for comp, a in m.heap.items():
                        if not a.eq(h.heap.get(comp, self.base[comp])):
                            raw_changed.add(comp)
                    if not m.alloc.eq(h.alloc) and not mod_alloc:
                        mod_alloc = True
                        changed = True
                # classify writes (all of those of the iteration; harmless if on exits)
                for comp in raw_changed:
                    precise, fr, impr = [], False, False
                    for pc, c2, r in self.writes[w0:]:
                        if c2 != comp:
                            continue
                        kind = self.classify(r, mark, h.alloc if mod_alloc else None)
                        if kind == 'precise':
                            if not any(r.eq(p) for p in precise):
                                precise.append(r)
                        elif kind == 'fresh':
                            fr = True
                        else:
                            impr = True
                    old = mod_heap.get(comp)
                    if old is not None:
                        precise = old[0] + [r for r in precise if not any(r.eq(p) for p in old[0])]
                        fr, impr = fr or old[1], impr or old[2]
                    new = (precise, fr, impr)
                    if old is None or len(old[0]) != len(precise) or old[1:] != new[1:]:
                        mod_heap[comp] = new
                        changed = True
                self.restore(sn)
                if not changed:
                    break
            else:
                raise Unsupported('loop modification analysis did not converge')
        finally:
            self.dry -= 1
            self.restore(snap)

        # --- establish
        saved_line = self.line
        zero = z3.IntVal(0)
        self.inv_obligs(st, lspec, sframe, frame, entry, zero, label + ' invariant initially', it)
        # --- arbitrary iteration
        h = havoced(st, 'it')
        for comp in mod_heap:
            for r in mod_heap[comp][0]:
                self.log_write(st, comp, r)
            if mod_heap[comp][2]:
                # imprecise writes are logged individually by the body run below
                pass
        k = self.fresh('k', IntS)
        self.assume(h, k >= 0)
        if it is not None:
            b = it.bound(self, entry)
            if b is not None:
                self.assume(h, z3.Or(k <= b, k == 0))
            if target is not None and isinstance(target, ast.Name) and it.last is not None:
                v0 = entry.env.get(target.id)
                cur = h.env.get(target.id)
                if isinstance(cur, V) and isinstance(cur.t, TInt):
                    lastv = it.last(self, h, k)
                    e0 = (v0.a[0] if isinstance(v0, V) and isinstance(v0.t, TInt) else cur.a[0])
                    self.assume(h, cur.a[0] == z3.If(k > 0, lastv, e0))
        for f in self.inv_formulas(h, lspec, sframe, frame, entry, k, it):
            self.assume(h, f[1])
        if lspec.lemmas:
            for nm, f in self.named(lspec.lemmas(*self.inv_views(h, sframe, frame, entry, k, it))):
                self.oblige(h, label + ' lemma ' + nm, f, 'lemma')
        dec0 = None
        if lspec.decreases:
            dec0 = lspec.decreases(*self.inv_views(h, sframe, frame, entry, k, it))
        if lspec.frame:
            preds = lspec.frame

            def chk(x, comp, ref, preds=preds):
                if comp in preds and not self.dry:
                    if ref is None:
                        raise Unsupported('unknown writes under a loop frame')
                    info = mod_heap.get(comp)
                    if info is not None and info[2]:
                        self.oblige(x, label + ' frame of ' + comp,
                                    z3.Or(ref >= entry.alloc,
                                          *( [ref == p for p in info[0]] +
                                             [self.eval_frame(preds[comp], sframe, entry, ref)])), 'frame')
            self.frame_checks.append(chk)
        ends, exit_, breaks = one_iteration(h, k)
        if lspec.frame:
            self.frame_checks.pop()
        m = self.merge(ends)
        if m is not None:
            if lspec.hints_end:
                for nm, f in self.named(lspec.hints_end(*self.inv_views(m, sframe, frame, entry, z3.simplify(k + 1), it))):
                    self.oblige(m, label + ' step lemma ' + nm, f, 'lemma')
            self.line = saved_line
            self.inv_obligs(m, lspec, sframe, frame, entry, z3.simplify(k + 1), label + ' invariant preserved', it)
            if dec0 is not None:
                dec1 = lspec.decreases(*self.inv_views(m, sframe, frame, entry, z3.simplify(k + 1), it))
                self.oblige(m, label + ' terminates', z3.And(dec1 < dec0, dec0 >= 0), 'termination')
        # --- exits
        outs = []
        if not exit_.dead and not z3.is_false(exit_.pc):
            exit_.env[kname] = vint(k)
            if orelse:
                self.block(exit_, orelse)
            if not exit_.dead:
                outs.append(exit_)
        for b in breaks:
            outs.append(b)
        for o in outs:
            for e in o.envs:
                e.pop(kname, None)
        mm = self.merge(outs)
        if mm is None:
            self.kill(st)
        else:
            st.become(mm)

    def unroll_while(self, st, cond, body, orelse, it, assign, n):
        """complete unrolling with an unwinding obligation"""
        breaks, exits = [], []
        k = 0
        while True:
            c = it.cond(self, st, z3.IntVal(k)) if it is not None else cond(st)
            ex = st.copy()
            ex.pc = conj(st.pc, neg(c))
            if not z3.is_false(z3.simplify(neg(c))):
                if orelse:
                    self.block(ex, orelse)
                if not ex.dead:
                    exits.append(ex)
            if z3.is_false(z3.simplify(c)):
                break
            if k >= n:
                self.oblige(st, 'unwinding complete at line %d' % self.line, neg(c))
                break
            st.pc = conj(st.pc, c)
            conts = []
            if it is not None:
                assign(st, it.item(self, st, z3.IntVal(k)))
            self.loop_stack.append((breaks, conts))
            body(st)
            self.loop_stack.pop()
            m = self.merge(([] if st.dead else [st.copy()]) + conts)
            if m is None:
                break
            st.become(m)
            k += 1
        m = self.merge(exits + breaks)
        if m is None:
            self.kill(st)
        else:
            st.become(m)

    def eval_frame(self, pred, sframe, entry, q):
        o = self.view(sframe.entry[1], sframe.entry[0], sframe)
        c = self.view(entry, entry.envs[sframe.depth], sframe)
        return SP.tobool(pred(o, c, q))

    def view(self, st, env, frame=None):
        v = SP.SymView(self, st, env, ghosts=self.ghosts)
        v.root = getattr(self, 'o', None)    # the entry of the function under contract
        return v

    ghosts = None

    def inv_views(self, st, sframe, frame, entry, k, it):
        o = self.view(sframe.entry[1], sframe.entry[0])
        env = dict(st.envs[sframe.depth])
        if frame is not sframe:
            for kk, v in st.envs[frame.depth].items():
                env.setdefault(kk, v)
                env['g_' + kk] = v
        env['k'] = vint(k)
        c = self.view(st, env)
        c.entry = self.view(entry, entry.envs[sframe.depth])
        return o, c

    def inv_formulas(self, st, lspec, sframe, frame, entry, k, it):
        if lspec.inv is None:
            return []
        r = lspec.inv(*self.inv_views(st, sframe, frame, entry, k, it))
        return self.named(r)

    def inv_obligs(self, st, lspec, sframe, frame, entry, k, label, it):
        if lspec.pre_hints:
            for nm, f in self.named(lspec.pre_hints(*self.inv_views(st, sframe, frame, entry, k, it))):
                self.oblige(st, label + ' hint ' + nm, f, 'lemma')
        for nm, f in self.inv_formulas(st, lspec, sframe, frame, entry, k, it):
            self.oblige(st, label + ': ' + nm, f, 'invariant')

    @staticmethod
    def named(r):
        if r is None:
            return []
        if isinstance(r, dict):
            return [(k, SP.tobool(v)) for k, v in r.items()]
        if isinstance(r, (list, tuple)):
            return [(str(i), SP.tobool(v)) for i, v in enumerate(r)]
        return [('0', SP.tobool(r))]

    def snapshot(self):
        return (len(self.facts), len(self.obligs), len(self.writes), len(self.raises),
                [len(f.returns) for f in self.frames], [(len(s)) for _, s in self.handlers],
                [(len(a), len(b)) for a, b in self.loop_stack], self.line)

    def restore(self, sn):
        del self.facts[sn[0]:]
        del self.obligs[sn[1]:]
        del self.writes[sn[2]:]
        del self.raises[sn[3]:]
        for f, n in zip(self.frames, sn[4]):
            del f.returns[n:]
        for (_, s), n in zip(self.handlers, sn[5]):
            del s[n:]
        for (a, b), (x, y) in zip(self.loop_stack, sn[6]):
            del a[x:]
            del b[y:]
        self.line = sn[7]

    def classify(self, r, mark, loop_alloc):
        if r is None:
            return 'imprecise'
        names = set()
        todo = [r]
        seen = set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                return 'imprecise'
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                names.add(x.decl().name())
            todo += x.children()
        new = [n for n in names if self.fresh_marks.get(n, 0) > mark]
        if not new:
            return 'precise'
        if loop_alloc is not None and z3.is_const(loop_alloc) and set(names) == {loop_alloc.decl().name()}:
            return 'fresh'
        if all(n.startswith('alloc!') for n in new) and set(names) == set(new):
            return 'fresh'
        return 'imprecise'

    # ----------------------------------------------------------- expressions
    def eval(self, st, e):
        if st.dead:
            return NONEV
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression ' + type(e).__name__)
        if hasattr(e, 'lineno'):
            self.line = e.lineno
        return m(st, e)

    def e_Constant(self, st, e):
        v = e.value
        if v is None:
            return NONEV
        if v is True or v is False:
            return vbool(v)
        if isinstance(v, int):
            return vint(v)
        if isinstance(v, float):
            if v != v or v in (float('inf'), float('-inf')):
                raise Unsupported('float constant')
            n, d = v.as_integer_ratio()
            return vreal(z3.RealVal(n) / z3.RealVal(d) if d != 1 else z3.RealVal(n))
        if isinstance(v, str):
            return VPy('str', v)
        if v is NotImplemented:
            return VPy('str', 'NotImplemented')
        raise Unsupported('constant %r' % (v,))

    def e_JoinedStr(self, st, e):
        return VPy('str', '<fstring>')

    def e_Name(self, st, e):
        n = e.id
        fr = self.frames[-1]
        if n in st.env:
            v = st.env[n]
            if isinstance(v, VPoison):
                raise Unsupported(v.why)
            if isinstance(v, VPy) and v.kind == 'emptylist' and v.data.get('v') is not None:
                return v.data['v']
            return v
        # enclosing scopes of closures
        d = st.env.get('$parent')
        while d is not None:
            env = st.envs[d]
            if n in env:
                v = env[n]
                if isinstance(v, VPy) and v.kind == 'emptylist' and v.data.get('v') is not None:
                    return v.data['v']
                return v
            d = env.get('$parent')
        g = self.global_value(fr.module, n)
        if g is not None:
            return g
        if n in BUILTINS:
            return VPy('builtin', n)
        raise Unsupported('name ' + n)

    def ext_const(self, d):
        if d == 'math.inf':
            return V(XREAL, TRUE, z3.RealVal(0))
        if d == 'math.nan':
            return V(NREAL, TRUE, z3.RealVal(0))
        return VPy('ext', d)

    def global_value(self, module, n):
        r = self.prog.resolve(module, n)
        if r is None:
            return None
        k, d = r
        if k == 'func':
            return VPy('func', (d, None))
        if k == 'class':
            return VPy('class', d)
        if k == 'ext':
            return self.ext_const(d)
        if k == 'extmod':
            return VPy('extmod', d)
        if k == 'const':
            m, node = d
            fr = Frame(None, m, m, {}, {}, 0, None)
            self.frames.append(fr)
            try:
                tmp = St()
                tmp.envs = [{}]
                tmp.alloc = z3.IntVal(1)
                return self.eval(tmp, node)
            finally:
                self.frames.pop()
        return None

    def e_Tuple(self, st, e):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            raise Unsupported('starred')
        return VTuple([self.eval(st, x) for x in e.elts])

    def e_List(self, st, e):
        if not e.elts:
            return VPy('emptylist', {'v': None})
        items = [self.eval(st, x) for x in e.elts]
        t = typeof(items[0])
        if isinstance(t, TNone):
            raise Unsupported('list of None')
        return self.new_list(st, t, items)

    def e_IfExp(self, st, e):
        c = self.truth(st, self.eval(st, e.test))
        return self.branch(st, c, lambda a: self.eval(a, e.body), lambda b: self.eval(b, e.orelse))

    def e_BoolOp(self, st, e):
        is_and = isinstance(e.op, ast.And)
        v = self.eval(st, e.values[0])
        for nxt in e.values[1:]:
            c = self.truth(st, v)
            if is_and:
                v = self.branch(st, c, lambda a, nxt=nxt: self.eval(a, nxt), lambda b, v=v: self.falsy(v))
            else:
                v = self.branch(st, c, lambda a, v=v: v, lambda b, nxt=nxt: self.eval(b, nxt))
            if isinstance(v, VPoison):
                raise Unsupported(v.why)
        return v

    def falsy(self, v):
        return v

    def e_UnaryOp(self, st, e):
        v = self.eval(st, e.operand)
        if isinstance(e.op, ast.Not):
            return vbool(neg(self.truth(st, v)))
        v = self.unopt(st, v)
        if isinstance(e.op, ast.USub):
            if isinstance(v.t, (TBool, TEnum)):
                v = self.num_to(v, INT)
            if isinstance(v.t, (TInt, TReal)):
                return V(v.t, z3.simplify(-v.a[0]))
            if isinstance(v.t, TBV):
                return V(BV, -v.a[0])
            if isinstance(v.t, TFP):
                return V(FP, z3.fpNeg(v.a[0]))
            if isinstance(v.t, TXReal):
                self.oblige(st, 'safety: finite operand at line %d' % self.line, z3.Not(v.a[0]))
                return V(REAL, -v.a[1])
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if isinstance(v.t, TBV):
                return V(BV, ~v.a[0])
            if isinstance(v.t, TInt):
                return V(INT, -v.a[0] - 1)
        raise Unsupported('unary ' + ast.dump(e.op))

    def e_BinOp(self, st, e):
        a = self.eval(st, e.left)
        b = self.eval(st, e.right)
        return self.binop(st, e.op, a, b)

    def binop(self, st, op, a, b):
        if st.dead:
            return NONEV
        if isinstance(a, VPy) and a.kind == 'str' or isinstance(b, VPy) and b.kind == 'str':
            return VPy('str', '<expr>')
        a, b = self.unempty(st, a, b), self.unempty(st, b, a)
        if isinstance(a, V) and isinstance(a.t, TList) and isinstance(op, ast.Add):
            return self.list_concat(st, a, b)
        if isinstance(a, VTuple) and isinstance(op, ast.Add) and isinstance(b, VTuple):
            return VTuple(a.items + b.items)
        if isinstance(a, V) and isinstance(a.t, TRef):
            names = {ast.BitAnd: '__and__', ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__'}
            nm = names.get(type(op))
            cls = self.prog.classes.get(a.t.cls)
            if nm and cls and nm in cls.methods:
                return self.call_method(st, a, nm, [b], {})
        a, b = self.unopt(st, a), self.unopt(st, b)
        if not isinstance(a, V) or not isinstance(b, V):
            raise Unsupported('binary operands %r %r' % (a, b))
        if (isinstance(op, (ast.BitAnd, ast.BitOr)) and isinstance(a.t, TBool) and isinstance(b.t, TBool)):
            f = z3.And if isinstance(op, ast.BitAnd) else z3.Or
            return vbool(f(a.a[0], b.a[0]))
        j = self.num_join(a, b)
        if j is None:
            raise Unsupported('binary operands %s %s' % (a.t, b.t))
        t, x, y = j
        if isinstance(t, (TXReal, TNReal)):
            for q in (x, y):
                self.oblige(st, 'safety: finite operand at line %d' % self.line, neg(q.a[0]))
            t, x, y = REAL, V(REAL, x.a[1]), V(REAL, y.a[1])
        p, q = x.a[0], y.a[0]
        if isinstance(t, TFP):
            rm = z3.RNE()
            f = {ast.Add: z3.fpAdd, ast.Sub: z3.fpSub, ast.Mult: z3.fpMul, ast.Div: z3.fpDiv}.get(type(op))
            if f is None:
                raise Unsupported('fp op')
            return V(FP, f(rm, p, q))
        if isinstance(t, TBV):
            if isinstance(op, ast.Add):
                return V(BV, p + q)
            if isinstance(op, ast.Sub):
                return V(BV, p - q)
            if isinstance(op, ast.BitAnd):
                return V(BV, p & q)
            if isinstance(op, ast.BitOr):
                return V(BV, p | q)
            if isinstance(op, ast.BitXor):
                return V(BV, p ^ q)
            raise Unsupported('bv op')
        if isinstance(op, ast.Add):
            return V(t, fold(p + q))
        if isinstance(op, ast.Sub):
            return V(t, fold(p - q))
        if isinstance(op, ast.Mult):
            return V(t, fold(p * q))
        if isinstance(op, ast.Div):
            x, y = self.num_to(x, REAL), self.num_to(y, REAL)
            self.may_raise(st, y.a[0] == 0, 'ZeroDivisionError', 'division')
            return V(REAL, x.a[0] / y.a[0])
        if isinstance(op, ast.Mod) and isinstance(t, TInt):
            self.may_raise(st, q == 0, 'ZeroDivisionError', 'modulo')
            if z3.is_int_value(q) and q.as_long() > 0:
                return V(INT, p % q)
            raise Unsupported('modulo by a variable')
        if isinstance(op, ast.FloorDiv) and isinstance(t, TInt):
            if z3.is_int_value(q) and q.as_long() > 0:
                return V(INT, p / q)
            raise Unsupported('floor division by a variable')
        if isinstance(op, ast.FloorDiv) and isinstance(t, TReal):
            self.may_raise(st, q == 0, 'ZeroDivisionError', 'division')
            return V(REAL, z3.ToReal(z3.ToInt(p / q)))
        if isinstance(op, ast.Pow):
            if z3.is_int_value(p) and z3.is_int_value(q):
                r = p.as_long() ** q.as_long()
                return V(BV, z3.BitVecVal(r, BVW)) if self.fp and abs(r) > 2 ** 62 else vint(r)
            if z3.is_int_value(q) and q.as_long() == 2:
                return V(t, p * p)
        if isinstance(op, ast.BitAnd) and isinstance(t, TInt) and z3.is_int_value(q):
            n = q.as_long()
            if n == 1:
                return V(INT, p % 2)
        if isinstance(op, (ast.LShift,)) and z3.is_int_value(p) and z3.is_int_value(q):
            r = p.as_long() << q.as_long()
            return V(BV, z3.BitVecVal(r, BVW)) if self.fp and abs(r) > 2 ** 62 else vint(r)
        raise Unsupported('binary op %s on %s' % (type(op).__name__, t))

    def unempty(self, st, a, b):
        if isinstance(a, VPy) and a.kind == 'emptylist':
            if a.data.get('v') is not None:
                return a.data['v']
            if isinstance(b, V) and isinstance(b.t, TList):
                return self.materialize(st, a, b.t)
        return a

    def list_concat(self, st, a, b):
        if not (isinstance(b, V) and isinstance(b.t, TList)):
            raise Unsupported('list +')
        na, nb = self.list_len(st, a), self.list_len(st, b)
        ca, cb = self.content(st, a), self.content(st, b)
        ba, bb = self.bag(st, a), self.bag(st, b)
        r = V(TList(a.t.elem), self.new_ref(st))
        n = z3.simplify(na + nb)
        i = z3.Int('i!q')

        def ax(arrs):
            for x, p, q in zip(arrs, ca, cb):
                yield z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < na), z3.Select(x, i) == z3.Select(p, i)),
                                patterns=[z3.Select(x, i)])
                yield z3.ForAll([i], z3.Implies(z3.And(na <= i, i < n), z3.Select(x, i) == z3.Select(q, i - na)),
                                patterns=[z3.Select(x, i)])
                # backward trigger
                yield z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < nb), z3.Select(x, i + na) == z3.Select(q, i)),
                                patterns=[z3.Select(q, i)])
        bag = None
        if ba is not None:
            bag = self.fresh('bag', ba.sort())
            w = z3.Const('w!q', ba.sort().domain())
            self.assume(st, z3.ForAll([w], bag[w] == ba[w] + bb[w], patterns=[bag[w]]))
        self.havoc_content(st, r, n, ax, bag)
        return r

    # comparisons
    def e_Compare(self, st, e):
        left = self.eval(st, e.left)
        res = None
        for op, r in zip(e.ops, e.comparators):
            if res is None:
                right = self.eval(st, r)
                res = self.compare(st, op, left, right)
            else:
                c = self.truth(st, res)
                box = []

                def rest(a, r=r, op=op, left=left):
                    right = self.eval(a, r)
                    box.append(right)
                    return self.compare(a, op, left, right)
                res = self.branch(st, c, rest, lambda b: vbool(False))
                right = box[0] if box else None
            left = right
        return res

    def compare(self, st, op, a, b):
        if st.dead:
            return vbool(False)
        if isinstance(op, ast.Is):
            return vbool(self.identical(st, a, b))
        if isinstance(op, ast.IsNot):
            return vbool(neg(self.identical(st, a, b)))
        if isinstance(op, ast.Eq):
            return self.equal(st, a, b)
        if isinstance(op, ast.NotEq):
            return vbool(neg(self.truth(st, self.equal(st, a, b))))
        if isinstance(op, (ast.In, ast.NotIn)):
            c = self.contains(st, b, a)
            return vbool(c if isinstance(op, ast.In) else neg(c))
        return self.order(st, op, a, b)

    def contains(self, st, seq, x):
        if isinstance(seq, VTuple):
            return disj(*[self.truth(st, self.equal(st, x, y)) for y in seq.items])
        raise Unsupported('in')

    def identical(self, st, a, b):
        if isinstance(a, VPoison) or isinstance(b, VPoison):
            raise Unsupported((a if isinstance(a, VPoison) else b).why)
        if isinstance(a, VPy) or isinstance(b, VPy):
            if isinstance(a, VPy) and isinstance(b, VPy):
                return z3.BoolVal(a.kind == b.kind and a.data == b.data)
            o = b if isinstance(a, VPy) else a
            if isinstance(o, V) and isinstance(o.t, TNone):
                return FALSE
            if isinstance(o, V) and isinstance(o.t, TFun):
                return FALSE
            raise Unsupported('is')
        if isinstance(a, VTuple) or isinstance(b, VTuple):
            for o in (a, b):
                if isinstance(o, V) and isinstance(o.t, TNone):
                    return FALSE
            raise Unsupported('is on tuples')
        s, t = a.t, b.t
        if isinstance(s, TNone) and isinstance(t, TNone):
            return TRUE
        if isinstance(s, TNone) or isinstance(t, TNone):
            o = b if isinstance(s, TNone) else a
            if isinstance(o.t, (TRef, TList)):
                return o.a[0] == 0 if o.t.opt else FALSE
            if isinstance(o.t, TOpt):
                return o.a[0]
            return FALSE
        if isinstance(s, TRef) and isinstance(t, TRef):
            return a.a[0] == b.a[0] if s.cls == t.cls else conj(a.a[0] == 0, b.a[0] == 0)
        if isinstance(s, TList) and isinstance(t, TList):
            return a.a[0] == b.a[0]
        if isinstance(s, TBool) and isinstance(t, TBool):
            return a.a[0] == b.a[0]
        if isinstance(s, TEnum) and isinstance(t, TEnum) and s.cls == t.cls:
            return a.a[0] == b.a[0]
        if isinstance(s, TBool) or isinstance(t, TBool):
            return FALSE
        raise Unsupported('is on %s and %s' % (s, t))

    def equal(self, st, a, b):
        if isinstance(a, VPoison) or isinstance(b, VPoison):
            raise Unsupported((a if isinstance(a, VPoison) else b).why)
        if isinstance(a, VTuple) and isinstance(b, VTuple):
            if len(a.items) != len(b.items):
                return vbool(False)
            return vbool(conj(*[self.truth(st, self.equal(st, x, y)) for x, y in zip(a.items, b.items)]))
        a, b = self.unempty(st, a, b), self.unempty(st, b, a)
        if not isinstance(a, V) or not isinstance(b, V):
            raise Unsupported('== on %r %r' % (a, b))
        s, t = a.t, b.t
        if isinstance(s, TNone) or isinstance(t, TNone):
            if isinstance(s, TNone) and isinstance(t, TNone):
                return vbool(True)
            return vbool(self.identical(st, a, b))
        if isinstance(s, TRef) and isinstance(t, TRef):
            return self.ref_equal(st, a, b)
        if isinstance(s, TList) and isinstance(t, TList):
            return self.list_equal(st, a, b)
        if isinstance(s, TOpt) or isinstance(t, TOpt):
            if isinstance(s, TOpt) and isinstance(t, TOpt):
                return vbool(z3.And(a.a[0] == b.a[0], z3.Or(a.a[0], a.a[1] == b.a[1])))
            o, x = (a, b) if isinstance(s, TOpt) else (b, a)
            y = self.num_to(x, o.t.inner)
            if y is None:
                raise Unsupported('== on optional')
            return vbool(z3.And(neg(o.a[0]), o.a[1] == y.a[0]))
        if isinstance(s, TBool) and isinstance(t, TBool):
            return vbool(a.a[0] == b.a[0])
        j = self.num_join(a, b)
        if j is None:
            raise Unsupported('== on %s and %s' % (s, t))
        t, x, y = j
        if isinstance(t, TXReal):
            return vbool(z3.And(x.a[0] == y.a[0], z3.Or(x.a[0], x.a[1] == y.a[1])))
        if isinstance(t, TNReal):
            return vbool(z3.And(neg(x.a[0]), neg(y.a[0]), x.a[1] == y.a[1]))
        if isinstance(t, TFP):
            return vbool(z3.fpEQ(x.a[0], y.a[0]))
        return vbool(x.a[0] == y.a[0])

    def ref_equal(self, st, a, b):
        """== dispatches to the class's __eq__"""
        cls = self.prog.classes.get(a.t.cls)
        if cls is None:
            raise Unsupported('== on ' + a.t.cls)
        if '__eq__' not in cls.methods:
            return vbool(a.a[0] == b.a[0])

        def go(x):
            r = self.call_method(x, V(TRef(a.t.cls), a.a[0]), '__eq__', [V(TRef(b.t.cls), b.a[0])], {})
            if isinstance(r, VPy) and r.kind == 'str' and r.data == 'NotImplemented':
                return vbool(False)
            return r
        if not a.t.opt and not b.t.opt:
            return go(st)
        an = a.a[0] == 0 if a.t.opt else FALSE
        bn = b.a[0] == 0 if b.t.opt else FALSE
        return self.branch(st, disj(an, bn), lambda x: vbool(conj(an, bn) if not (z3.is_false(an) or z3.is_false(bn)) else FALSE), go)

    def list_equal(self, st, a, b):
        """element-wise == (the element's __eq__, executed symbolically on an
        arbitrary pair)"""
        na, nb = self.list_len(st, a), self.list_len(st, b)
        i = self.fresh('i', IntS)
        f0, o0 = len(self.facts), len(self.obligs)
        x = st.copy()
        x.pc = conj(x.pc, 0 <= i, i < na, na == nb)
        old = self.opts.get('inline_all')
        self.opts['inline_all'] = True
        try:
            r = self.truth(x, self.equal(x, self.list_get(x, a, i, assume=False), self.list_get(x, b, i, assume=False)))
        finally:
            self.opts['inline_all'] = old
        if len(self.obligs) != o0:
            raise Unsupported('element comparison with obligations')
        q = z3.Int('i!q%d' % next(self.counter))
        body = z3.substitute(z3.Implies(z3.And(0 <= i, i < na), r), (i, q))
        return vbool(z3.And(na == nb, z3.ForAll([q], body)))

    def order(self, st, op, a, b):
        if isinstance(a, VTuple) and isinstance(b, VTuple):
            return self.tuple_order(st, op, a, b)
        a, b = self.unopt(st, a), self.unopt(st, b)
        if isinstance(a, V) and isinstance(a.t, TRef) and isinstance(b, V) and isinstance(b.t, TRef):
            nm = {ast.Lt: '__lt__', ast.Gt: '__gt__', ast.LtE: '__le__', ast.GtE: '__ge__'}[type(op)]
            cls = self.prog.classes.get(a.t.cls)
            if cls and nm in cls.methods:
                return self.call_method(st, a, nm, [b], {})
            if nm == '__gt__' and cls and '__lt__' in cls.methods:
                return self.call_method(st, b, '__lt__', [a], {})
            raise Unsupported('ordering on ' + a.t.cls)
        if not isinstance(a, V) or not isinstance(b, V):
            raise Unsupported('ordering')
        j = self.num_join(a, b)
        if j is None:
            raise Unsupported('ordering on %s and %s' % (a.t, b.t))
        t, x, y = j
        if isinstance(op, (ast.Gt, ast.GtE)):
            x, y = y, x
        strict = isinstance(op, (ast.Lt, ast.Gt))
        if isinstance(t, TXReal):
            if strict:
                return vbool(z3.And(neg(x.a[0]), z3.Or(y.a[0], x.a[1] < y.a[1])))
            return vbool(z3.Or(y.a[0], z3.And(neg(x.a[0]), x.a[1] <= y.a[1])))
        if isinstance(t, TNReal):
            c = x.a[1] < y.a[1] if strict else x.a[1] <= y.a[1]
            return vbool(z3.And(neg(x.a[0]), neg(y.a[0]), c))
        if isinstance(t, TFP):
            return vbool(z3.fpLT(x.a[0], y.a[0]) if strict else z3.fpLEQ(x.a[0], y.a[0]))
        p, q = x.a[0], y.a[0]
        return vbool(p < q if strict else p <= q)

    def tuple_order(self, st, op, a, b):
        if len(a.items) != len(b.items):
            raise Unsupported('tuple ordering arity')
        strict = isinstance(op, (ast.Lt, ast.Gt))
        base = type(op)
        sop = ast.Lt() if base in (ast.Lt, ast.LtE) else ast.Gt()
        res = z3.BoolVal(not strict)
        for x, y in reversed(list(zip(a.items, b.items))):
            if isinstance(x, V) and isinstance(x.t, TBool):
                x = self.num_to(x, INT)
            if isinstance(y, V) and isinstance(y.t, TBool):
                y = self.num_to(y, INT)
            eq = self.truth(st, self.equal(st, x, y))
            lt = self.truth(st, self.order(st, sop, x, y))
            res = z3.Or(lt, z3.And(eq, res)) if not z3.is_false(res) else lt
            if z3.is_true(z3.simplify(res)):
                res = TRUE
        return vbool(res)

    def truth(self, st, v):
        if st.dead:
            return FALSE
        if isinstance(v, VPoison):
            raise Unsupported(v.why)
        if isinstance(v, VTuple):
            return z3.BoolVal(len(v.items) > 0)
        if isinstance(v, VPy):
            if v.kind == 'emptylist':
                if v.data.get('v') is None:
                    return FALSE
                v = v.data['v']
            elif v.kind == 'str':
                return z3.BoolVal(bool(v.data))
            else:
                return TRUE
        t = v.t
        if isinstance(t, TBool):
            return v.a[0]
        if isinstance(t, TNone):
            return FALSE
        if isinstance(t, (TInt, TReal, TEnum)):
            return v.a[0] != 0
        if isinstance(t, TBV):
            return v.a[0] != z3.BitVecVal(0, BVW)
        if isinstance(t, TXReal):
            return z3.Or(v.a[0], v.a[1] != 0)
        if isinstance(t, TOpt):
            return z3.And(neg(v.a[0]), self.truth(st, V(t.inner, *v.a[1:])))
        if isinstance(t, TList):
            n = self.list_len(st, v) > 0
            return z3.And(v.a[0] != 0, n) if t.opt else n
        if isinstance(t, TRef):
            cls = self.prog.classes.get(t.cls)
            if cls and ('__bool__' in cls.methods or '__len__' in cls.methods):
                nm = '__bool__' if '__bool__' in cls.methods else '__len__'
                if t.opt:
                    r = self.branch(st, v.a[0] == 0, lambda a: vbool(False),
                                    lambda b: vbool(self.truth(b, self.call_method(b, V(TRef(t.cls), v.a[0]), nm, [], {}))))
                    return r.a[0]
                return self.truth(st, self.call_method(st, v, nm, [], {}))
            return v.a[0] != 0 if t.opt else TRUE
        raise Unsupported('truth of %s' % t)

    # attribute access
    def e_Attribute(self, st, e):
        obj = self.eval(st, e.value)
        return self.getattr(st, obj, e.attr)

    def deref(self, st, v, what):
        if isinstance(v.t, TRef) and v.t.opt:
            self.may_raise(st, v.a[0] == 0, 'AttributeError', 'None.%s' % what)
            return V(TRef(v.t.cls), v.a[0])
        return v

    def getattr(self, st, obj, name):
        if st.dead:
            return NONEV
        if isinstance(obj, VPoison):
            raise Unsupported(obj.why)
        if isinstance(obj, VPy):
            if obj.kind == 'class':
                c = self.prog.classes[obj.data]
                if c.is_enum and name in c.members:
                    return V(TEnum(c.name), z3.IntVal(c.members[name]))
                if name in c.methods:
                    return VPy('func', (c.methods[name], VPy('class', obj.data) if c.methods[name].kind == 'classmethod' else None))
                raise Unsupported('class attribute %s.%s' % (obj.data, name))
            if obj.kind == 'extmod':
                return self.ext_const(obj.data + '.' + name)
            if obj.kind == 'ext':
                return VPy('extattr', (obj.data, name))
            if obj.kind == 'ctypes' and name == 'value':
                return obj.data
            if obj.kind == 'decimal':
                return VPy('extattr', (obj, name))
            if obj.kind == 'emptylist':
                return VPy('bound', (obj, name))
            if obj.kind == 'decimal':
                return VPy('extattr', ('decimal', name, obj.data))
            raise Unsupported('attribute %s of %r' % (name, obj))
        if isinstance(obj, VTuple):
            raise Unsupported('tuple attribute')
        if isinstance(obj.t, TNone):
            self.may_raise(st, TRUE, 'AttributeError', 'None.%s' % name)
            self.kill(st)
            return NONEV
        if isinstance(obj.t, TList):
            if obj.t.opt:
                self.may_raise(st, obj.a[0] == 0, 'AttributeError', 'None.%s' % name)
                obj = V(TList(obj.t.elem), obj.a[0])
            return VPy('bound', (obj, name))
        if isinstance(obj.t, TRef):
            obj = self.deref(st, obj, name)
            cls = self.prog.classes.get(obj.t.cls)
            if self.field_type(obj.t.cls, name) is not None and not (cls and name in cls.props):
                return self.read_field(st, obj.a[0], obj.t.cls, name)
            if cls is None:
                raise Unsupported('class ' + obj.t.cls)
            if name in cls.props:
                return self.call_fn(st, cls.props[name], [], {}, obj)
            if name in cls.methods:
                m = cls.methods[name]
                return VPy('func', (m, VPy('class', cls.name) if m.kind == 'classmethod' else obj))
            if name in cls.consts:
                raise Unsupported('class constant')
            raise Unsupported('attribute %s.%s' % (obj.t.cls, name))
        if isinstance(obj.t, TEnum) and name == 'value':
            return vint(obj.a[0])
        raise Unsupported('attribute %s of %s' % (name, obj.t))

    def setattr(self, st, obj, name, v):
        if st.dead:
            return
        if not (isinstance(obj, V) and isinstance(obj.t, TRef)):
            if isinstance(obj, V) and isinstance(obj.t, TNone):
                self.may_raise(st, TRUE, 'AttributeError', 'None.%s' % name)
                self.kill(st)
                return
            raise Unsupported('attribute assignment on %r' % (obj,))
        obj = self.deref(st, obj, name)
        cls = self.prog.classes.get(obj.t.cls)
        if cls and name in cls.setters:
            self.call_fn(st, cls.setters[name], [v], {}, obj)
            return
        self.write_field(st, obj.a[0], obj.t.cls, name, v)

    # subscripts
    def index(self, st, obj, i):
        """list index with Python semantics; obligation that it is in range"""
        if isinstance(obj, VPy) and obj.kind == 'emptylist' and obj.data.get('v') is not None:
            obj = obj.data['v']
        if not (isinstance(obj, V) and isinstance(obj.t, TList)):
            raise Unsupported('subscript of %r' % (obj,))
        if obj.t.opt:
            self.may_raise(st, obj.a[0] == 0, 'TypeError', 'None[...]')
        i = self.unopt(st, i)
        i = self.num_to(i, INT) if isinstance(i, V) else None
        if i is None:
            raise Unsupported('index')
        x = i.a[0]
        n = self.list_len(st, obj)
        self.may_raise(st, z3.Or(x >= n, x < -n), 'IndexError', 'list index')
        if z3.is_int_value(x):
            return x if x.as_long() >= 0 else z3.simplify(n + x)
        if self.nonneg(st, x):
            return x
        return z3.If(x < 0, n + x, x)

    def nonneg(self, st, x):
        """cheap proof that an index is non-negative (keeps terms small)"""
        if self.dry:
            key = None
        s = z3.Solver()
        s.set('timeout', 150)
        for f in self.facts[-60:]:
            if not has_quant(f):
                s.add(f)
        s.add(st.pc)
        s.add(x < 0)
        try:
            return s.check() == z3.unsat
        except z3.Z3Exception:
            return False

    def e_Subscript(self, st, e):
        obj = self.eval(st, e.value)
        if isinstance(obj, VPy) and obj.kind == 'emptylist' and obj.data.get('v') is not None:
            obj = obj.data['v']
        if isinstance(e.slice, ast.Slice):
            if isinstance(obj, VTuple):
                lo = ast.literal_eval(e.slice.lower) if e.slice.lower else None
                hi = ast.literal_eval(e.slice.upper) if e.slice.upper else None
                return VTuple(obj.items[lo:hi])
            return self.get_slice(st, obj, e.slice)
        i = self.eval(st, e.slice)
        if isinstance(obj, VTuple):
            if isinstance(i, V) and z3.is_int_value(i.a[0]):
                return obj.items[i.a[0].as_long()]
            raise Unsupported('tuple subscript')
        if isinstance(obj, V) and isinstance(obj.t, TRef):
            return self.call_method(st, self.deref(st, obj, '[]'), '__getitem__', [i], {})
        return self.list_get(st, obj, self.index(st, obj, i))

    def slice_bounds(self, st, obj, sl):
        """(lo, count, step) of a slice, Python semantics"""
        n = self.list_len(st, obj)
        step = 1
        if sl.step is not None:
            sv = self.eval(st, sl.step)
            if not (isinstance(sv, V) and z3.is_int_value(z3.simplify(sv.a[0]))):
                raise Unsupported('slice step')
            step = z3.simplify(sv.a[0]).as_long()
        lo = None if sl.lower is None else self.eval(st, sl.lower)
        hi = None if sl.upper is None else self.eval(st, sl.upper)

        def norm(v, lo_default, neg_floor, cap):
            v = self.unopt(st, v)
            v = self.num_to(v, INT)
            if v is None:
                raise Unsupported('slice bound')
            x = v.a[0]
            y = z3.If(x < 0, x + n, x)
            if step > 0:
                return z3.If(y < 0, z3.IntVal(0), z3.If(y > n, n, y))
            return z3.If(y < 0, z3.IntVal(-1), z3.If(y >= n, n - 1, y))
        if isinstance(lo, V) and isinstance(lo.t, TNone):
            lo = None
        if isinstance(hi, V) and isinstance(hi.t, TNone):
            hi = None
        if step == 1:
            a = z3.IntVal(0) if lo is None else norm(lo, 0, 0, n)
            b = n if hi is None else norm(hi, n, 0, n)
            cnt = z3.If(b > a, b - a, z3.IntVal(0))
            return z3.simplify(a), z3.simplify(cnt), 1
        if step == -1:
            a = n - 1 if lo is None else norm(lo, None, None, None)
            b = z3.IntVal(-1) if hi is None else norm(hi, None, None, None)
            cnt = z3.If(a > b, a - b, z3.IntVal(0))
            return z3.simplify(a), z3.simplify(cnt), -1
        raise Unsupported('slice step %d' % step)

    def get_slice(self, st, obj, sl):
        if not (isinstance(obj, V) and isinstance(obj.t, TList)):
            raise Unsupported('slice of %r' % (obj,))
        full = sl.lower is None and sl.upper is None
        lo, cnt, step = self.slice_bounds(st, obj, sl)
        src, bag = self.content(st, obj), self.bag(st, obj)
        r = V(TList(obj.t.elem), self.new_ref(st))
        if full and step == 1:
            for (c, s), a in zip(self.lcomps(obj.t.elem), src):
                self.sto(st, c, s, r.a[0], a)
            self.sto(st, self.lenc(obj.t.elem), IntS, r.a[0], self.list_len(st, obj))
            if bag is not None:
                self.set_bag(st, r, bag)
            return r
        self.copy_range(st, src, r, cnt, (lambda j: lo + j) if step == 1 else (lambda j: lo - j),
                        bag if full else None)
        return r

    def set_slice(self, st, obj, sl, v):
        if not (isinstance(obj, V) and isinstance(obj.t, TList)):
            raise Unsupported('slice assignment')
        v = self.unempty(st, v, obj)
        if not (isinstance(v, V) and isinstance(v.t, TList)):
            raise Unsupported('slice assignment of %r' % (v,))
        if sl.lower is None and sl.upper is None and sl.step is None:
            src, n, bag = self.content(st, v), self.list_len(st, v), self.bag(st, v)
            for (c, s), a in zip(self.lcomps(obj.t.elem), src):
                self.sto(st, c, s, obj.a[0], a)
            self.sto(st, self.lenc(obj.t.elem), IntS, obj.a[0], n)
            if bag is not None:
                self.set_bag(st, obj, bag)
            return
        raise Unsupported('partial slice assignment')

    def del_slice(self, st, obj, sl):
        lo, cnt, step = self.slice_bounds(st, obj, sl)
        if step != 1:
            raise Unsupported('del slice step')
        n = self.list_len(st, obj)
        src = self.content(st, obj)
        self.copy_range(st, src, obj, z3.simplify(n - cnt), lambda j: z3.If(j < lo, j, j + cnt), None)

    def e_Lambda(self, st, e):
        return VPy('closure', (e, len(st.envs) - 1, self.frames[-1].module, self.frames[-1].qual))

    def e_ListComp(self, st, e):
        return self.comprehension(st, e)

    def e_GeneratorExp(self, st, e):
        return VPy('genexp', (e, len(st.envs) - 1))

    def e_Starred(self, st, e):
        raise Unsupported('starred')

    def e_Dict(self, st, e):
        raise Unsupported('dict')

    def e_Set(self, st, e):
        raise Unsupported('set')

    def comprehension(self, st, e, what=None):
        """[f(x) for x in xs if c(x)] with effect-free f and c: the library
        model of filter/map on an arbitrary element"""
        if len(e.generators) != 1 or e.generators[0].is_async:
            raise Unsupported('nested comprehension')
        g = e.generators[0]
        it = self.iterable(st, self.eval(st, g.iter))
        if it.kind == 'static':
            raise Unsupported('static comprehension')

        def bind(x, v):
            self.assign(x, g.target, v)

        def cond(x):
            return conj(*[self.truth(x, self.eval(x, c)) for c in g.ifs]) if g.ifs else TRUE

        if it.kind == 'gen':
            raise Unsupported('comprehension over a generator')
        return self.map_filter(st, it, bind, cond if g.ifs else None, lambda x: self.eval(x, e.elt))

    def map_filter(self, st, it, bind, cond, elt):
        n = it.bound(self, st)
        i = self.fresh('i', IntS)

        def at(idx, want_elt):
            x = st.copy()
            x.pc = conj(x.pc, 0 <= idx, idx < n)
            h0, a0 = dict(x.heap), x.alloc
            bind(x, it.item(self, x, idx))
            c = cond(x) if cond else TRUE
            v = None
            if want_elt:
                x.pc = conj(x.pc, c)
                v = elt(x)
            newlocal = None
            if not x.alloc.eq(a0):
                newlocal = (h0, a0, x)
            else:
                for k2, a2 in x.heap.items():
                    if not a2.eq(h0.get(k2, self.base[k2])):
                        raise Unsupported('comprehension with effects')
            return c, v, newlocal
        c, v, nl = at(i, True)
        if nl is not None:
            return self.map_alloc(st, n, i, c, v, nl, cond)
        if isinstance(v, VPy):
            raise Unsupported('comprehension element')
        t = typeof(v)
        if isinstance(t, TRef):
            t = TRef(t.cls, t.opt)
        r = V(TList(t), self.new_ref(st))
        terms = flatten(v)
        q = z3.Int('i!q%d' % next(self.counter))
        if cond is None:
            def ax(arrs):
                for a, tm in zip(arrs, terms):
                    yield z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n),
                                                    z3.Select(a, q) == z3.substitute(tm, (i, q))),
                                    patterns=[z3.Select(a, q)])
            self.havoc_content(st, r, n, ax)
            return r
        m = self.fresh('cnt', IntS)
        gsk = z3.Function('flt_g!%d' % next(self.counter), IntS, IntS)
        hsk = z3.Function('flt_h!%d' % next(self.counter), IntS, IntS)
        self.assume(st, z3.And(0 <= m, m <= n))
        q2 = z3.Int('j!q%d' % next(self.counter))

        def ax(arrs):
            for a, tm in zip(arrs, terms):
                yield z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < m),
                                                z3.Select(a, q) == z3.substitute(tm, (i, gsk(q)))),
                                patterns=[z3.Select(a, q)])
            yield z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < m),
                                            z3.And(0 <= gsk(q), gsk(q) < n, z3.substitute(c, (i, gsk(q))),
                                                   hsk(gsk(q)) == q)),
                            patterns=[gsk(q)])
            yield z3.ForAll([q, q2], z3.Implies(z3.And(0 <= q, q < q2, q2 < m), gsk(q) < gsk(q2)),
                            patterns=[z3.MultiPattern(gsk(q), gsk(q2))])
            yield z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n, z3.substitute(c, (i, q))),
                                            z3.And(0 <= hsk(q), hsk(q) < m, gsk(hsk(q)) == q)),
                            patterns=[hsk(q)])
            # source elements kept appear in the result
            src = it.src_term(self, st, q)
            if src is not None:
                yield z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n, z3.substitute(c, (i, q))),
                                                z3.And(0 <= hsk(q), hsk(q) < m, gsk(hsk(q)) == q)),
                                patterns=[src])
        self.assumptions.add('Python semantics of filtering comprehensions / filter() (library model)')
        self.havoc_content(st, r, m, ax)
        return r

    def map_alloc(self, st, n, i, c, v, nl, cond):
        """[Cls(...) for x in xs]: one fresh object per element"""
        if cond is not None:
            raise Unsupported('filtering comprehension that allocates')
        h0, a0, x = nl
        t = typeof(v)
        if not (isinstance(t, TRef) and v.a[0].eq(a0)):
            raise Unsupported('comprehension allocating other than its element')
        if not z3.simplify(x.alloc - a0).eq(z3.IntVal(1)):
            raise Unsupported('comprehension allocating several objects per element')
        q = z3.Int('i!q%d' % next(self.counter))
        base = st.alloc
        st.alloc = self.fresh('alloc', IntS)
        self.assume(st, st.alloc == base + n)
        for comp, a in x.heap.items():
            old = h0.get(comp, self.base[comp])
            if a.eq(old):
                continue
            val = self.sel(x, comp, a.sort().range(), a0)
            na = self.fresh('H.' + comp, a.sort())
            r = z3.Int('r!q%d' % next(self.counter))
            self.assume(st, z3.ForAll([r], z3.Implies(r < base, na[r] == old[r]), patterns=[na[r]]))
            body = z3.substitute(val, (i, q))
            self.assume(st, z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), na[base + q] == body),
                                      patterns=[na[base + q]]))
            st.heap[comp] = na
            self.writes.append((st.pc, comp, base))
        r = V(TList(t), self.new_ref(st))
        self.havoc_content(st, r, n, lambda arrs: [
            z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), arrs[0][q] == base + q), patterns=[arrs[0][q]])])
        return r

    # ----------------------------------------------------------------- calls
    def e_Call(self, st, e):
        f = self.eval(st, e.func)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(st, a.value)
                if isinstance(v, VTuple):
                    args += v.items
                else:
                    raise Unsupported('*args')
            else:
                args.append(self.eval(st, a))
        for k in e.keywords:
            if k.arg is None:
                raise Unsupported('**kwargs')
            kwargs[k.arg] = self.eval(st, k.value)
        if st.dead:
            return NONEV
        self.line = e.lineno
        return self.call(st, f, args, kwargs)

    def call(self, st, f, args, kwargs):
        if isinstance(f, V) and isinstance(f.t, TFun):
            return self.call_opaque(st, f.t, args)
        if not isinstance(f, VPy):
            raise Unsupported('call of %r' % (f,))
        k, d = f.kind, f.data
        if k == 'func':
            return self.call_fn(st, d[0], args, kwargs, d[1])
        if k == 'class':
            return self.construct(st, d, args, kwargs)
        if k == 'closure':
            return self.call_closure(st, d, args, kwargs)
        if k == 'partial':
            return self.call(st, d[0], list(d[1]) + args, dict(d[2], **kwargs))
        if k == 'itefun':
            c, a, b = d
            return self.branch(st, c, lambda x: self.call(x, a, args, kwargs),
                               lambda x: self.call(x, b, args, kwargs))
        if k == 'bound':
            return self.list_method(st, d[0], d[1], args, kwargs)
        from . import lib
        if k == 'builtin':
            return lib.builtin(self, st, d, args, kwargs)
        if k in ('ext', 'extattr'):
            if k == 'extattr' and isinstance(d[0], str):
                d = d[0] + '.' + d[1]
            return lib.external(self, st, d, args, kwargs)
        raise Unsupported('call of %s' % k)

    def call_opaque(self, st, t, args):
        args = [self.coerce(st, a, x, t.name) for a, x in zip(args, t.args)]
        flat = sum((flatten(a) for a in args), [])
        if t.log:
            # effectful opaque callback: the call is appended to a ghost log
            n, arrs = st.ghost[t.log][0], st.ghost[t.log][1:]
            new = [z3.Store(a, n, x) for a, x in zip(arrs, flat)]
            st.ghost[t.log] = (z3.simplify(n + 1),) + tuple(new)
            return NONEV
        fn = z3.Function(t.name, *([x.sort() for x in flat] + [t.ret.sorts[0]]))
        return V(t.ret, fn(*flat))

    def call_closure(self, st, d, args, kwargs):
        node, depth, module, qual = d
        from .src import index_loops
        loops, comps = index_loops(node)
        q = qual + '.' + (node.name if isinstance(node, ast.FunctionDef) else '<lambda>')
        return self.run_body(st, node, module, q, loops, comps, args, kwargs, None, parent=depth)

    def construct(self, st, cname, args, kwargs):
        cls = self.prog.classes[cname]
        if cls.is_enum:
            v = args[0]
            if isinstance(v, V) and isinstance(v.t, (TInt, TBool)):
                x = self.num_to(v, INT)
                self.may_raise(st, neg(disj(*[x.a[0] == m for m in cls.members.values()])), 'ValueError', cname)
                return V(TEnum(cname), x.a[0])
            raise Unsupported('enum construction')
        r = V(TRef(cname), self.new_ref(st))
        if '__init__' in cls.methods:
            self.call_fn(st, cls.methods['__init__'], args, kwargs, r)
        return r

    def call_method(self, st, obj, name, args, kwargs):
        cls = self.prog.classes.get(obj.t.cls)
        if cls is None:
            raise Unsupported('class ' + obj.t.cls)
        if name in cls.methods:
            return self.call_fn(st, cls.methods[name], args, kwargs, obj)
        raise Unsupported('method %s.%s' % (cls.name, name))

    def call_fn(self, st, fn, args, kwargs, selfv):
        if fn.node.name == '__init__' and False:
            pass
        c = self.reg.contracts.get(fn.qual)
        cur = self.contract
        if c is not None and c.modular and not self.opts.get('inline_all') and c.applicable(self):
            return self.call_contract(st, fn, c, args, kwargs, selfv)
        if self.fp is False and fn.qual == 'utils.are_floats_almost_equal':
            return self.aeq(st, args, kwargs)
        if self.opaque_override(fn.qual):
            return self.opaque_override(fn.qual)(self, st, args, kwargs, selfv)
        if fn.is_generator:
            return VPy('gen', (fn, selfv, args, kwargs))
        if self.contract is not None and fn.qual in self.contract.havoc:
            return self.call_effects(st, fn)
        return self.inline(st, fn, args, kwargs, selfv)

    def opaque_override(self, qual):
        return self.reg.models.get(qual)

    AEQ = z3.Function('almost_equal', RealS, RealS, BoolS)

    def aeq(self, st, args, kwargs):
        """are_floats_almost_equal over the reals: an uninterpreted relation
        with the axioms proved of the bit-level code (contracts/c_floats)"""
        ts = []
        for a in args[:2]:
            a = self.unopt(st, a)
            a = self.num_to(a, a.t if isinstance(a.t, (TXReal, TNReal)) else REAL)
            if a is None:
                raise Unsupported('almost_equal operand')
            ts.append(a)
        self.assumptions.add('are_floats_almost_equal over the reals: reflexive, symmetric, '
                             'only within 2^-49 relative distance, zero only with itself (proved at bit level by '
                             'the C04 contracts for normal numbers and zeros)')
        a, b = ts

        def rv(v):
            return v.a[1] if isinstance(v.t, (TXReal, TNReal)) else v.a[0]

        def special(v):
            return v.a[0] if isinstance(v.t, (TXReal, TNReal)) else FALSE
        x, y = rv(a), rv(b)
        e = self.AEQ(x, y)
        self.aeq_axioms(st, x, y)
        sa, sb = special(a), special(b)
        if z3.is_false(sa) and z3.is_false(sb):
            return vbool(e)
        return vbool(z3.If(z3.Or(sa, sb), z3.And(sa, sb), e))

    def aeq_axioms(self, st, x, y):
        A = self.AEQ
        self.assume(st, z3.And(z3.Implies(x == y, A(x, y)), A(x, y) == A(y, x)))
        # equal values only within 4 units in the last place (2^-49 relative)
        d = z3.If(x > y, x - y, y - x)
        m = z3.If(x >= 0, x, -x)
        self.assume(st, z3.Implies(A(x, y), z3.And(d * (2 ** 49) <= m,
                                                   z3.Implies(x == 0, y == 0),
                                                   z3.Implies(y == 0, x == 0))))

    def bind_args(self, st, node, args, kwargs, selfv, module):
        a = node.args
        if a.vararg or a.kwarg or a.posonlyargs:
            raise Unsupported('variadic parameters')
        params = [p.arg for p in a.args]
        vals = ([selfv] if selfv is not None else []) + list(args)
        if len(vals) > len(params):
            raise Unsupported('too many arguments')
        env = dict(zip(params, vals))
        kwonly = [p.arg for p in a.kwonlyargs]
        for k, v in kwargs.items():
            if k not in params + kwonly or k in env:
                raise Unsupported('keyword ' + k)
            env[k] = v
        defaults = dict(zip(params[len(params) - len(a.defaults):], a.defaults))
        for k, d in zip(kwonly, a.kw_defaults):
            if d is not None:
                defaults[k] = d
        for p in params + kwonly:
            if p not in env:
                if p not in defaults:
                    raise Unsupported('missing argument ' + p)
                fr = Frame(None, module, module, {}, {}, len(st.envs), None)
                self.frames.append(fr)
                st.envs.append({})
                try:
                    env[p] = self.eval(st, defaults[p])
                finally:
                    st.envs.pop()
                    self.frames.pop()
        return env

    def inline(self, st, fn, args, kwargs, selfv, yield_body=None, loopspecs=None, specframe=None):
        return self.run_body(st, fn.node, fn.module, fn.qual, fn.loops, fn.comps, args, kwargs, selfv,
                             yield_body=yield_body, loopspecs=loopspecs, fn=fn)

    def run_body(self, st, node, module, qual, loops, comps, args, kwargs, selfv,
                 parent=None, yield_body=None, loopspecs=None, fn=None):
        if len(self.frames) > self.MAXINLINE:
            raise Unsupported('inlining too deep at ' + qual)
        if fn is not None and sum(1 for f in self.frames if f.qual == qual) > 0:
            raise Unsupported('recursion in %s without a contract' % qual)
        env = self.bind_args(st, node, args, kwargs, selfv, module)
        if parent is not None:
            env['$parent'] = parent
        depth = len(st.envs)
        fr = Frame(fn, module, qual, loops, comps, depth, loopspecs)
        fr.yield_body = yield_body
        fr.entry = (dict(env), st.copy())
        st.envs.append(env)
        self.frames.append(fr)
        saved_loops, self.loop_stack = self.loop_stack, [] if yield_body is None else self.loop_stack
        line = self.line
        try:
            if isinstance(node, ast.Lambda):
                v = self.eval(st, node.body)
                if not st.dead:
                    fr.returns.append((st.copy(), v))
                self.kill(st)
            else:
                self.block(st, node.body)
                if not st.dead:
                    fr.returns.append((st.copy(), NONEV))
        finally:
            self.frames.pop()
            self.loop_stack = saved_loops
            self.line = line
        rets = [(s, v) for s, v in fr.returns if not s.dead and not z3.is_false(s.pc)]
        if not rets:
            self.kill(st)
            del st.envs[depth:]
            return NONEV
        s, v = rets[-1]
        s = s.copy()
        for s2, v2 in reversed(rets[:-1]):
            v = self.join_vals(s2.pc, v2, v)
            s = self.merge2(s2.pc, s2, s, disj(s2.pc, s.pc))
        del s.envs[depth:]
        if len(rets) > 1:
            # the disjunction of all return conditions is the entry condition
            # when nothing was raised in between
            s.pc = simp_pc(s.pc)
        st.become(s)
        return v

    # modular calls
    def call_contract(self, st, fn, c, args, kwargs, selfv):
        env = self.bind_args(st, fn.node, args, kwargs, selfv, fn.module)
        for p, t in c.params.items():
            if p in env and not isinstance(t, TFun):
                env[p] = self.coerce(st, env[p], t, '%s argument of %s' % (p, fn.qual))
        for p, v in env.items():
            if isinstance(v, V) and any(has_ite(x) for x in v.a):
                env[p] = V(v.t, *[self.named_term(st, x) for x in v.a])
        self.used[fn.qual] = self.used.get(fn.qual, 0) + 1
        pre = st.copy()
        o = SP.SymView(self, pre, env, ghosts=None)
        if c.ghosts:
            # ghost arguments: what the caller's contract names, its meaning
            # is established by the callee's preconditions
            how = self.contract.calls.get(fn.qual)
            if how is None and c._call_ghosts is None:
                raise Unsupported('ghost arguments for ' + fn.qual)
            o.ghosts = o.G = how(self.o, o) if how else c.call_ghosts(self, st, pre, env)
        if c.requires:
            for nm, f in self.named(c.requires(o)):
                self.oblige(st, 'precondition %s of %s at line %d' % (nm, fn.qual, self.line), f, 'precondition')
        # frame
        mods = c.modifies(o) if c.modifies else []
        if c.allocates:
            na = self.fresh('alloc', IntS)
            self.assume(st, na >= st.alloc)
            st.alloc = na
        bycomp = {}
        for comp, what in mods:
            for cc in self.expand_comp(comp):
                bycomp.setdefault(cc, []).append(what)
        for comp, whats in bycomp.items():
            sort = self.comp_sort(comp)
            old = self.arr(st, comp, sort)
            if all(z3.is_expr(w) for w in whats) and not c.allocates:
                a = old
                for w in whats:
                    a = z3.Store(a, w, self.fresh('h', sort))
                    self.log_write(st, comp, w)
                if comp.startswith('L.') and len(whats) > 1:
                    # a name for it, so that patterns over the new content match
                    b = self.fresh('H.' + comp, a.sort())
                    self.assume(st, b == a)
                    a = b
                st.heap[comp] = a
            else:
                a = self.fresh('H.' + comp, z3.ArraySort(IntS, sort))
                q = z3.Int('r!q%d' % next(self.counter))
                conds = [q < pre.alloc, q >= 0]
                for w in whats:
                    if z3.is_expr(w):
                        conds.append(q != w)
                        self.log_write(st, comp, w)
                    elif w == 'ALL':
                        conds = None
                        self.log_write(st, comp, None)
                        break
                    else:
                        conds.append(z3.Not(SP.tobool(w(q))))
                        self.log_write(st, comp, None)
                if conds:
                    self.assume(st, z3.ForAll([q], z3.Implies(z3.And(*conds), a[q] == old[q]), patterns=[a[q]]))
                st.heap[comp] = a
        if c.allocates:
            # comps of fresh objects are unconstrained: every component of the
            # classes it allocates changes above the old allocation mark
            for cls in c.allocates:
                for comp in self.class_comps(cls):
                    if comp in bycomp:
                        continue
                    sort = self.comp_sort(comp)
                    old = self.arr(st, comp, sort)
                    a = self.fresh('H.' + comp, z3.ArraySort(IntS, sort))
                    q = z3.Int('r!q%d' % next(self.counter))
                    self.assume(st, z3.ForAll([q], z3.Implies(q < pre.alloc, a[q] == old[q]), patterns=[a[q]]))
                    st.heap[comp] = a
        # exceptional outcomes
        for exc, cf in (c.raises or {}).items():
            f = SP.tobool(cf(o)) if cf is not None else self.fresh('raises', BoolS)
            self.may_raise(st, f, exc, 'call of %s' % fn.qual)
        r = self.fresh_val('ret_' + fn.name, c.ret, None) if c.ret is not None and not isinstance(c.ret, TNone) else NONEV
        self.typed(st, r)
        n = SP.SymView(self, st, env, ghosts=o.ghosts)
        if c.ensures:
            for nm, f in self.named(c.ensures(o, n, SP.wrap(self, st, r))):
                self.assume(st, f)
        return r

    def named_term(self, st, x):
        if not has_ite(x):
            return x
        k = self.fresh('arg', x.sort())
        self.assume(st, k == x)
        self.named_terms[k.decl().name()] = x
        return k

    def call_effects(self, st, fn):
        """the callee may do anything within its inferred frame"""
        from .effects import Effects
        if getattr(self.prog, 'effects', None) is None:
            self.prog.effects = Effects(self.prog, self.fields)
        E = self.prog.effects
        self.assumptions.add('%s: summarised by its frame, inferred from its source and that of everything it calls; '
                             'assumed to return normally' % fn.qual)
        for e in sorted(E.of(fn.qual)):
            if e == 'D.dict' or e.startswith('?.') and e != '?.*':
                continue
            if e in ('L.*', '?.*'):
                raise Unsupported('frame of %s is unknown' % fn.qual)
            if e.startswith('L.'):
                elem = E.elems[e.split(' of ')[0]]
                comps = [(c, s) for c, s in self.lcomps(elem)] + [(self.lenc(elem), IntS)]
                if self.bagc(elem) is not None:
                    comps.append(self.bagc(elem))
            else:
                if e.startswith('corner of Ring.box.'):
                    e = 'Point.' + e[-1]
                comps = [(c, self.comp_sort(c)) for c in self.expand_comp(e)]
            for c, s in comps:
                self.arr(st, c, s)
                st.heap[c] = self.fresh('H.' + c, z3.ArraySort(IntS, s))
                self.log_write(st, c, None)
        na = self.fresh('alloc', IntS)
        self.assume(st, na >= st.alloc)
        st.alloc = na
        a = E.annotated(fn.node.returns)
        if a is None:
            if fn.node.returns is None or isinstance(fn.node.returns, ast.Constant) and fn.node.returns.value is None:
                return NONEV
            return VPoison('result of ' + fn.qual)
        if a[0] == 'num':
            # a numeric annotation says nothing about which kind of number: only bool is used
            if not (isinstance(fn.node.returns, ast.Name) and fn.node.returns.id == 'bool'):
                return VPoison('result of ' + fn.qual)
            return self.fresh_val('ret_' + fn.name, BOOL, st)
        t = {'obj': lambda: ORef(a[1]), 'list': lambda: TList(a[1])}[a[0]]()
        return self.fresh_val('ret_' + fn.name, t, st)

    def expand_comp(self, comp):
        if comp.startswith('L.'):
            return [comp]
        cls, f = comp.split('.')
        t = self.field_type(cls, f)
        if t is None:
            raise Unsupported('field ' + comp)
        if len(t.sorts) == 1:
            return [comp]
        return ['%s#%d' % (comp, j) for j in range(len(t.sorts))]

    def comp_sort(self, comp):
        if comp in self.base:
            return self.base[comp].sort().range()
        if comp.startswith('L.len.'):
            return IntS
        if comp.startswith('L.'):
            raise Unsupported('list component %s not yet known' % comp)
        name, _, j = comp.partition('#')
        cls, f = name.split('.')
        t = self.field_type(cls, f)
        return t.sorts[int(j or 0)]

    def class_comps(self, cls):
        if cls.startswith('list:'):
            return [c for c in self.base if c.endswith(cls[5:]) and c.startswith('L.')]
        out = []
        for f in self.fields.get(cls, {}):
            out += self.expand_comp('%s.%s' % (cls, f))
        return out

    # list methods
    def list_method(self, st, obj, name, args, kwargs):
        if isinstance(obj, VPy):        # emptylist
            if obj.data.get('v') is not None:
                obj = obj.data['v']
            elif name in ('append', 'insert', 'extend'):
                v = args[-1]
                if name == 'extend':
                    if not (isinstance(v, V) and isinstance(v.t, TList)):
                        raise Unsupported('extend of an untyped list')
                    obj = self.materialize(st, obj, v.t)
                else:
                    obj = self.materialize(st, obj, TList(typeof(v)))
            else:
                raise Unsupported('method on an untyped list')
        elem = obj.t.elem
        n = self.list_len(st, obj)
        if name == 'append':
            self.list_append(st, obj, args[0])
            return NONEV
        if name == 'pop':
            if args:
                i = self.index(st, obj, args[0])
            else:
                self.may_raise(st, n <= 0, 'IndexError', 'pop from empty list')
                i = z3.simplify(n - 1)
            v = self.list_get(st, obj, i)
            self.list_del(st, obj, i)
            return v
        if name == 'insert':
            v = self.coerce(st, args[1], elem, 'list element')
            i = self.num_to(self.unopt(st, args[0]), INT).a[0]
            if z3.is_int_value(i) and i.as_long() >= 0 or self.nonneg(st, i):
                idx = z3.If(i > n, n, i)
            else:
                idx = z3.If(i < 0, z3.If(i + n < 0, z3.IntVal(0), i + n), z3.If(i > n, n, i))
            src, b = self.content(st, obj), self.bag(st, obj)
            fl = flatten(v)
            nb = None
            if b is not None:
                nb = z3.Store(b, fl[0], z3.Select(b, fl[0]) + 1)
            q = z3.Int('i!q%d' % next(self.counter))

            def ax(arrs):
                for a, s, x in zip(arrs, src, fl):
                    yield z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < idx), a[q] == s[q]), patterns=[a[q]])
                    yield z3.ForAll([q], z3.Implies(z3.And(idx < q, q <= n), a[q] == s[q - 1]), patterns=[a[q]])
                    yield a[idx] == x
                    yield z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n),
                                                    z3.If(q < idx, a[q] == s[q], a[q + 1] == s[q])), patterns=[s[q]])
            self.havoc_content(st, obj, z3.simplify(n + 1), ax, nb)
            return NONEV
        if name == 'extend':
            other = self.unempty(st, args[0], obj)
            if not (isinstance(other, V) and isinstance(other.t, TList)):
                raise Unsupported('extend')
            tmp = self.list_concat(st, obj, other)
            for (c, s), a in zip(self.lcomps(elem), self.content(st, tmp)):
                self.sto(st, c, s, obj.a[0], a)
            self.sto(st, self.lenc(elem), IntS, obj.a[0], self.list_len(st, tmp))
            if self.bag(st, obj) is not None:
                self.set_bag(st, obj, self.bag(st, tmp))
            return NONEV
        if name == 'clear':
            self.havoc_content(st, obj, z3.IntVal(0), None,
                               None if self.bagc(elem) is None else z3.K(elem.sorts[0], z3.IntVal(0)))
            return NONEV
        if name == 'copy':
            return self.get_slice(st, obj, ast.Slice(None, None, None))
        if name == 'sort':
            from . import lib
            lib.sort_in_place(self, st, obj, kwargs)
            return NONEV
        raise Unsupported('list method ' + name)

    # iterables
    def iterable(self, st, v):
        from . import lib
        return lib.make_iter(self, st, v)

    # --------------------------------------------------------------- targets
    def verify(self, contract, fn):
        """generate all obligations of one function under contract"""
        self.contract = contract
        st = St()
        st.alloc = z3.Int('alloc0')
        self.facts.append(st.alloc >= 1)
        env = {}
        a = fn.node.args
        names = [p.arg for p in a.args + a.kwonlyargs]
        missing = [n for n in names if n not in contract.params]
        defaults = {}
        for n in missing:
            pos = [p.arg for p in a.args]
            if n in pos and pos.index(n) >= len(pos) - len(a.defaults):
                continue
            kwo = [p.arg for p in a.kwonlyargs]
            if n in kwo and a.kw_defaults[kwo.index(n)] is not None:
                continue
            raise Unsupported('parameter %s has no declared type' % n)
        extra = [n for n in contract.params if n not in names]
        if extra:
            raise Unsupported('parameter %s is gone' % extra)
        for n in names:
            if n in contract.params:
                t = contract.params[n]
                if n == 'cls' and t == NONE:
                    env[n] = VPy('class', fn.qual.split('.')[1])
                    continue
                if isinstance(t, TFun):
                    env[n] = V(t)
                    if t.log:
                        srt = sum((tuple(x.sorts) for x in t.args), ())
                        st.ghost[t.log] = (z3.IntVal(0),) + tuple(
                            self.fresh(t.log, z3.ArraySort(IntS, s)) for s in srt)
                    continue
                if isinstance(t, TTuple):
                    env[n] = self.fresh_val(n, t, st)
                    continue
                if n in contract.fixed:
                    env[n] = V(t, SP.tobool(contract.fixed[n]) if t == BOOL else z3.IntVal(contract.fixed[n]))
                    continue
                v = V(t, *[z3.Const(n if len(t.sorts) == 1 else '%s#%d' % (n, j), s)
                           for j, s in enumerate(t.sorts)])
                self.typed(st, v)
                env[n] = v
        self.param_env = dict(env)
        fr = Frame(fn, fn.module, fn.qual, fn.loops, fn.comps, 0, None)
        self.frames = [fr]
        st.envs = [dict(env)]
        for n in missing:
            full = self.bind_args(st, fn.node, [env[p] for p in [x.arg for x in a.args] if p in env],
                                  {p: env[p] for p in [x.arg for x in a.kwonlyargs] if p in env}, None, fn.module)
            env[n] = full[n]
        st.envs = [dict(env)]
        self.entry_state = st.copy()
        self.entry_env = dict(env)
        if contract.ghosts:
            self.ghosts = contract.make_ghosts(self, st, env)
        o = self.view(self.entry_state, env)
        self.o = o
        if contract.requires:
            for nm, f in self.named(contract.requires(o)):
                self.assume(st, f)
        if contract.axioms:
            for nm, f in self.named(contract.axioms(o)):
                self.assume(st, f)
        self.nreq = len(self.facts)
        fr.entry = (dict(env), self.entry_state)
        self.writes = []
        if fn.is_generator:
            raise Unsupported('generator function')
        if contract.split:
            self.paths(st, fn.node.body)
        else:
            self.block(st, fn.node.body)
        if not st.dead:
            fr.returns.append((st.copy(), NONEV))
        # exceptional exits
        for exc, what, s in self.raises:
            cf = contract.raises[exc]
            if cf is not None:
                self.line = fn.node.lineno
                self.oblige(s, 'raises %s only when allowed (%s)' % (exc, what), SP.tobool(cf(o)), 'raises')
        rets = [(s, v) for s, v in fr.returns if not s.dead and not z3.is_false(s.pc)]
        others = ()
        for idx, (s, v) in enumerate(rets):
            s.skip = s.skip + others
            start = len(self.facts)
            tag = '' if len(rets) == 1 else ' [exit %d]' % idx
            if contract.ret is not None and not isinstance(contract.ret, TNone):
                v = self.coerce(s, v, contract.ret, 'result of ' + fn.qual)
            n = self.view(s, env)
            n.ghost_log = s.ghost
            n.locals = SP.SymView(self, s, s.envs[0])
            r = SP.wrap(self, s, v)
            if contract.hints:
                for nm, f in self.named(contract.hints(o, n, r)):
                    self.oblige(s, 'lemma %s%s' % (nm, tag), f, 'lemma')
            if contract.ensures:
                for nm, f in self.named(contract.ensures(o, n, r)):
                    self.oblige(s, 'postcondition %s%s' % (nm, tag), f, 'post', assume=False)
            for exc, cf in (contract.raises or {}).items():
                if cf is not None:
                    self.oblige(s, 'raises %s whenever required%s' % (exc, tag), z3.Not(SP.tobool(cf(o))), 'raises')
            others = others + ((start, len(self.facts)),)
        # frame
        mods = {}
        for comp, what in (contract.modifies(o) if contract.modifies else []):
            try:
                cs = self.expand_comp(comp)
            except Unsupported:
                cs = [comp]
            for c2 in cs:
                mods.setdefault(c2, []).append(what)
        if not contract.noframe:
            a0 = self.entry_state.alloc
            imprecise = set()
            seen = set()
            for pc, comp, ref in self.writes:
                if comp.startswith('L.bag.') or contract.frame_only is not None and comp.split('#')[0] not in contract.frame_only:
                    continue
                if ref is None:
                    imprecise.add(comp)
                    continue
                ws = mods.get(comp, [])
                if 'ALL' in [w for w in ws if isinstance(w, str)]:
                    continue
                if z3.is_true(z3.simplify(ref >= a0)):
                    continue
                key = (pc.get_id(), comp, ref.get_id())
                if key in seen:
                    continue
                seen.add(key)
                alts = [ref >= a0] + [ref == w if z3.is_expr(w) else SP.tobool(w(ref)) for w in ws]
                s = self.entry_state.copy()
                s.pc = pc
                self.obligs.append(Oblig('frame: %s' % comp, len(self.facts), pc, disj(*alts), fn.node.lineno, 'frame'))
            for comp in imprecise:
                ws = mods.get(comp, [])
                if 'ALL' in [w for w in ws if isinstance(w, str)]:
                    continue
                q = self.fresh('r', IntS)
                for s, v in rets:
                    old = self.base[comp]
                    cur = s.heap.get(comp, old)
                    hyp = z3.And(q >= 1, q < a0, *[q != w if z3.is_expr(w) else z3.Not(SP.tobool(w(q))) for w in ws])
                    self.obligs.append(Oblig('frame: %s' % comp, len(self.facts), s.pc,
                                             z3.Implies(hyp, z3.Select(cur, q) == z3.Select(old, q)),
                                             fn.node.lineno, 'frame'))
        self.rets = rets
        return self.obligs


CALLABLE = {'func', 'closure', 'partial', 'itefun', 'bound', 'builtin', 'ext', 'class'}
BUILTINS = {'len', 'abs', 'min', 'max', 'range', 'enumerate', 'reversed', 'iter', 'next', 'isinstance',
            'int', 'float', 'bool', 'list', 'sorted', 'filter', 'map', 'id', 'tuple', 'sum', 'any', 'all',
            'RuntimeError', 'IndexError', 'StopIteration', 'NotImplemented', 'round', 'set', 'zip', 'type',
            'ValueError', 'TypeError'}


def has_ite(t):
    """if-then-else inside (it must not occur in quantifier patterns)"""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            return True
        todo += x.children()
    return False


def fold(t):
    if all(z3.is_int_value(c) or z3.is_rational_value(c) for c in t.children()):
        return z3.simplify(t)
    return t


def same_val(a, b):
    if a is b:
        return True
    if isinstance(a, VTuple) and isinstance(b, VTuple):
        return len(a.items) == len(b.items) and all(same_val(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, V) and isinstance(b, V):
        return a.t == b.t and all(x.eq(y) for x, y in zip(a.a, b.a))
    if isinstance(a, VPy) and isinstance(b, VPy):
        return a.kind == b.kind and (a.data is b.data or a.kind == 'closure')
    if isinstance(a, VPoison) and isinstance(b, VPoison):
        return True
    return False


_hq = {}


def has_quant(f):
    k = f.get_id()
    if k in _hq:
        return _hq[k][1]
    todo, seen, r = [f], set(), False
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            r = True
            break
        todo += x.children()
    _hq[k] = (f, r)
    return r


def simp_pc(pc):
    return pc
