"""Library models: builtins, math, decimal, struct, ctypes, bisect..."""
import ast

import z3

from .types import *
from .types import TNone, TInt, TReal, TBool, TXReal, TNReal, TFP, TBV
from .exec import conj, disj, neg, ite, TRUE, FALSE, BUILTINS
from . import spec as SP


class It:
    kind = 'idx'
    items = ()

    def __init__(self, cond, item, bound=None, last=None, src=None):
        self._c, self._i, self._b, self._l, self._s = cond, item, bound, last, src
        self.last = (lambda V, st, k: self._l(st, k)) if last else None

    def cond(self, V, st, k):
        return self._c(st, k)

    def item(self, V, st, k):
        return self._i(st, k)

    def bound(self, V, st):
        return self._b(st) if self._b else None

    def src_term(self, V, st, q):
        return self._s(st, q) if self._s else None


class GenIt:
    kind = 'gen'

    def __init__(self, fn, selfv, args):
        self.fn, self.selfv, self.args = fn, selfv, args


class StaticIt:
    kind = 'static'

    def __init__(self, items):
        self.items = list(items)


def list_it(V, lv):
    return It(lambda st, k: k < V.list_len(st, lv),
              lambda st, k: V.list_get(st, lv, k),
              lambda st: V.list_len(st, lv),
              src=lambda st, q: z3.Select(V.sel(st, V.lcomps(lv.t.elem)[0][0], V.lcomps(lv.t.elem)[0][1], lv.a[0]), q))


def make_iter(V, st, v):
    if isinstance(v, VTuple):
        return StaticIt(v.items)
    if isinstance(v, VPy) and v.kind == 'emptylist':
        if v.data.get('v') is not None:
            v = v.data['v']
        else:
            return StaticIt([])
    if isinstance(v, V_):
        if isinstance(v.t, TOpt):
            v = V.unopt(st, v)
        if isinstance(v.t, TList):
            if v.t.opt:
                V.may_raise(st, v.a[0] == 0, 'TypeError', 'iteration over None')
                v = V_(TList(v.t.elem), v.a[0])
            return list_it(V, v)
        if isinstance(v.t, TRef):
            v = V.deref(st, v, '__iter__')
            cls = V.prog.classes.get(v.t.cls)
            if cls is not None and '__iter__' in cls.methods:
                return make_iter(V, st, V.call_method(st, v, '__iter__', [], {}))
            if cls is not None and '__getitem__' in cls.methods and '__len__' in cls.methods:
                lv = seq_field(V, st, v, cls)
                if lv is not None:
                    return list_it(V, lv)
    if isinstance(v, VPy) and v.kind == 'gen':
        fn, selfv, args, kwargs = v.data
        if kwargs:
            raise Unsupported('generator keyword arguments')
        return GenIt(fn, selfv, args)
    if isinstance(v, VPy) and v.kind == 'range':
        a, b, step = v.data
        if step == 1:
            return It(lambda s, k: a + k < b, lambda s, k: V_(INT, z3.simplify(a + k)),
                      lambda s: z3.If(b > a, b - a, z3.IntVal(0)), lambda s, k: a + k - 1)
        if step == -1:
            return It(lambda s, k: a - k > b, lambda s, k: V_(INT, z3.simplify(a - k)),
                      lambda s: z3.If(a > b, a - b, z3.IntVal(0)), lambda s, k: a - k + 1)
        raise Unsupported('range step')
    if isinstance(v, VPy) and v.kind == 'enumerate':
        it, start = v.data
        inner = make_iter(V, st, it) if not hasattr(it, 'kind') or isinstance(it, VPy) else it
        if inner.kind == 'static':
            return StaticIt(VTuple([V_(INT, z3.simplify(start + i)), x]) for i, x in enumerate(inner.items))
        if inner.kind != 'idx':
            raise Unsupported('enumerate of a generator')
        return It(lambda s, k: inner.cond(V, s, k),
                  lambda s, k: VTuple([V_(INT, z3.simplify(start + k)), inner.item(V, s, k)]),
                  (lambda s: inner.bound(V, s)) if inner._b else None,
                  src=inner._s)
    if isinstance(v, VPy) and v.kind == 'reversed':
        lv = v.data
        n0 = V.list_len(st, lv)
        return It(lambda s, k: k < n0, lambda s, k: V.list_get(s, lv, n0 - 1 - k), lambda s: n0)
    if isinstance(v, VPy) and v.kind == 'zip':
        its = [make_iter(V, st, x) for x in v.data]
        if any(i.kind != 'idx' for i in its):
            raise Unsupported('zip')
        return It(lambda s, k: conj(*[i.cond(V, s, k) for i in its]),
                  lambda s, k: VTuple([i.item(V, s, k) for i in its]),
                  (lambda s: _minlist([i.bound(V, s) for i in its])) if all(i._b for i in its) else None)
    if isinstance(v, VPy) and v.kind == 'listiter':
        lv, ref = v.data
        base = V.sel(st, '$iter.pos', z3.IntSort(), ref)
        V.sto(st, '$iter.pos', z3.IntSort(), ref, V.fresh('iterpos', z3.IntSort()))
        if isinstance(lv, VPy):       # reversed
            inner = make_iter(V, st, lv)
        else:
            inner = list_it(V, lv)
        return It(lambda s, k: inner.cond(V, s, base + k), lambda s, k: inner.item(V, s, base + k),
                  lambda s: inner.bound(V, s) - base)
    if isinstance(v, VPy) and v.kind in ('genexp', 'mapobj', 'filterobj'):
        lv = to_list(V, st, v)
        return list_it(V, lv)
    raise Unsupported('iteration over %r' % (v,))


def _minlist(xs):
    m = xs[0]
    for x in xs[1:]:
        m = z3.If(x < m, x, m)
    return m


V_ = V


def seq_field(V, st, v, cls):
    """value classes delegating __getitem__/__len__ to one list field"""
    f = None
    for name in ('__getitem__', '__len__'):
        fn = cls.methods[name].node
        if len(fn.body) != 1 or not isinstance(fn.body[0], ast.Return):
            return None
        e = fn.body[0].value
        if name == '__getitem__':
            if not (isinstance(e, ast.Subscript) and isinstance(e.value, ast.Attribute)
                    and isinstance(e.value.value, ast.Name) and e.value.value.id == 'self'
                    and isinstance(e.slice, ast.Name) and e.slice.id == fn.args.args[1].arg):
                return None
            f = e.value.attr
        else:
            if ast.unparse(e) != 'len(self.%s)' % f:
                return None
    return V.read_field(st, v.a[0], v.t.cls, f)


def to_list(V, st, v, name=None):
    """list(v)"""
    if isinstance(v, VPy) and v.kind == 'genexp':
        e, depth = v.data
        return V.comprehension(st, e)
    if isinstance(v, VPy) and v.kind == 'mapobj':
        fn, src = v.data
        it = make_iter(V, st, src)
        if it.kind == 'gen':
            return gen_list(V, st, it, fn)
        box = {}

        def bind(x, val):
            box['v'] = val
        return V.map_filter(st, it, bind, None, lambda x: V.call(x, fn, [box['v']], {}))
    if isinstance(v, VPy) and v.kind == 'filterobj':
        fn, src = v.data
        it = make_iter(V, st, src)
        if it.kind == 'gen':
            raise Unsupported('filter of a generator')
        box = {}

        def bind(x, val):
            box['v'] = val

        def cond(x):
            if isinstance(fn, V_) and isinstance(fn.t, TNone):
                return V.truth(x, box['v'])
            return V.truth(x, V.call(x, fn, [box['v']], {}))
        r = V.map_filter(st, it, bind, cond, lambda x: box['v'])
        # `filter(partial(is_not, None), ...)`: elements of the result are not None
        return r
    if isinstance(v, V_) and isinstance(v.t, TList):
        return V.get_slice(st, v, ast.Slice(None, None, None))
    if isinstance(v, VPy) and v.kind == 'emptylist':
        if v.data.get('v') is not None:
            return to_list(V, st, v.data['v'])
        return VPy('emptylist', {'v': None})
    if isinstance(v, VTuple):
        if not v.items:
            return VPy('emptylist', {'v': None})
        from .types import typeof
        return V.new_list(st, typeof(v.items[0]), v.items)
    if isinstance(v, VPy) and v.kind == 'gen':
        return gen_list(V, st, make_iter(V, st, v), None)
    it = make_iter(V, st, v)
    if it.kind == 'idx':
        box = {}

        def bind(x, val):
            box['v'] = val
        return V.map_filter(st, it, bind, None, lambda x: box['v'])
    raise Unsupported('list(%r)' % (v,))


def gen_list(V, st, it, fn):
    """list(generator): desugared to a loop appending to a fresh list; its
    invariant is the entry of the enclosing function at ordinal 'list'"""
    fr = V.frames[-1]
    sp = V.reg.loops.get(fr.qual, {}).get('list')
    t = V.reg.locals.get(fr.qual, {}).get('list')
    if sp is None or t is None:
        raise Unsupported('list() over a generator in ' + fr.qual)
    lv = V.new_list(st, t.elem)
    name = '$acc'
    st.env[name] = lv
    body = ast.parse('for _el in None:\n    acc_append(_el)').body[0]

    tgt = ast.Name('$el', ast.Store())
    call = ast.Expr(ast.Call(ast.Attribute(ast.Name(name, ast.Load()), 'append', ast.Load()),
                             [ast.Name('$el', ast.Load()) if fn is None
                              else ast.Call(ast.Name('$fn', ast.Load()), [ast.Name('$el', ast.Load())], [])], []))
    if fn is not None:
        st.env['$fn'] = fn
    loop = ast.For(tgt, ast.Constant(None), [call], [])
    ast.copy_location(loop, fr.fn.node if fr.fn else body)
    ast.fix_missing_locations(loop)
    fr.loops[id(loop)] = 'list'
    V.keep = getattr(V, 'keep', []) + [loop]
    V.run_generator(st, loop, it)
    for k in ('$fn', '$el'):
        st.env.pop(k, None)
    r = st.env.pop(name, lv)
    return r


# ------------------------------------------------------------------ builtins
def numeric(V, st, v):
    v = V.unopt(st, v)
    if not isinstance(v, V_):
        raise Unsupported('number expected')
    return v


def builtin(V, st, name, args, kwargs):
    f = globals().get('b_' + name)
    if f is None:
        raise Unsupported('builtin ' + name)
    return f(V, st, args, kwargs)


def b_len(V, st, args, kw):
    v = args[0]
    if isinstance(v, VTuple):
        return vint(len(v.items))
    if isinstance(v, VPy) and v.kind == 'emptylist':
        if v.data.get('v') is None:
            return vint(0)
        v = v.data['v']
    if isinstance(v, VPy) and v.kind == 'range':
        a, b, s = v.data
        return vint(z3.simplify(z3.If(b > a, b - a, z3.IntVal(0)) if s == 1 else z3.If(a > b, a - b, z3.IntVal(0))))
    if isinstance(v, V_) and isinstance(v.t, TList):
        if v.t.opt:
            V.may_raise(st, v.a[0] == 0, 'TypeError', 'len(None)')
        return vint(V.list_len(st, v))
    if isinstance(v, V_) and isinstance(v.t, TRef):
        return V.call_method(st, V.deref(st, v, '__len__'), '__len__', [], {})
    raise Unsupported('len')


def b_abs(V, st, args, kw):
    v = numeric(V, st, args[0])
    if isinstance(v.t, (TBool, TEnum)):
        v = V.num_to(v, INT)
    if isinstance(v.t, (TInt, TReal)):
        x = v.a[0]
        return V_(v.t, z3.simplify(z3.If(x >= 0, x, -x)) if z3.is_int_value(x) else z3.If(x >= 0, x, -x))
    if isinstance(v.t, TBV):
        x = v.a[0]
        return V_(BV, z3.If(x >= 0, x, -x))
    if isinstance(v.t, TXReal):
        return V_(XREAL, v.a[0], z3.If(v.a[1] >= 0, v.a[1], -v.a[1]))
    if isinstance(v.t, TNReal):
        return V_(NREAL, v.a[0], z3.If(v.a[1] >= 0, v.a[1], -v.a[1]))
    if isinstance(v.t, TFP):
        return V_(FP, z3.fpAbs(v.a[0]))
    raise Unsupported('abs')


def minmax(V, st, args, kw, lt):
    if len(args) == 1:
        raise Unsupported('min/max of an iterable')
    if kw:
        raise Unsupported('min/max key')
    acc = args[0]
    for x in args[1:]:
        c = V.truth(st, V.order(st, ast.Lt(), x, acc) if lt else V.order(st, ast.Gt(), x, acc))
        acc = V.join_vals(c, x, acc)
    return acc


def b_min(V, st, args, kw):
    return minmax(V, st, args, kw, True)


def b_max(V, st, args, kw):
    return minmax(V, st, args, kw, False)


def b_range(V, st, args, kw):
    xs = [V.num_to(numeric(V, st, a), INT) for a in args]
    if any(x is None for x in xs):
        raise Unsupported('range')
    a, b, s = z3.IntVal(0), None, 1
    if len(xs) == 1:
        b = xs[0].a[0]
    else:
        a, b = xs[0].a[0], xs[1].a[0]
    if len(xs) == 3:
        sv = z3.simplify(xs[2].a[0])
        if not z3.is_int_value(sv):
            raise Unsupported('range step')
        s = sv.as_long()
    return VPy('range', (a, b, s))


def b_enumerate(V, st, args, kw):
    start = kw.get('start', args[1] if len(args) > 1 else vint(0))
    return VPy('enumerate', (args[0], start.a[0]))


def b_reversed(V, st, args, kw):
    v = args[0]
    if isinstance(v, VPy) and v.kind == 'emptylist' and v.data.get('v') is not None:
        v = v.data['v']
    if isinstance(v, V_) and isinstance(v.t, TList):
        return VPy('reversed', v)
    if isinstance(v, VPy) and v.kind == 'range':
        a, b, s = v.data
        if s == 1:
            n = z3.If(b > a, b - a, z3.IntVal(0))
            return VPy('range', (a + n - 1, a - 1, -1))
    if isinstance(v, V_) and isinstance(v.t, TRef):
        v = V.deref(st, v, '__reversed__')
        return V.call_method(st, v, '__reversed__', [], {})
    if isinstance(v, VTuple):
        return VTuple(reversed(v.items))
    raise Unsupported('reversed')


def b_iter(V, st, args, kw):
    v = args[0]
    if isinstance(v, V_) and isinstance(v.t, TList):
        r = V.new_ref(st)
        V.sto(st, '$iter.pos', z3.IntSort(), r, z3.IntVal(0))
        return VPy('listiter', (v, r))
    if isinstance(v, V_) and isinstance(v.t, TRef):
        v = V.deref(st, v, '__iter__')
        return V.call_method(st, v, '__iter__', [], {})
    raise Unsupported('iter')


def b_next(V, st, args, kw):
    v = args[0]
    if isinstance(v, VPy) and v.kind == 'listiter':
        lv, ref = v.data
        pos = V.sel(st, '$iter.pos', z3.IntSort(), ref)
        it = make_iter(V, st, lv) if isinstance(lv, VPy) else list_it(V, lv)
        c = it.cond(V, st, pos)
        if len(args) > 1:
            raise Unsupported('next with default on an iterator')
        V.may_raise(st, neg(c), 'StopIteration', 'next')
        r = it.item(V, st, pos)
        V.sto(st, '$iter.pos', z3.IntSort(), ref, z3.simplify(pos + 1))
        return r
    if isinstance(v, VPy) and v.kind == 'genexp':
        return first_match(V, st, v.data[0], args[1] if len(args) > 1 else None)
    raise Unsupported('next(%r)' % (v,))


def first_match(V, st, e, default):
    """next((elt for x in xs if cond), default): the first match"""
    if len(e.generators) != 1:
        raise Unsupported('nested generator expression')
    g = e.generators[0]
    it = V.iterable(st, V.eval(st, g.iter))
    if it.kind != 'idx':
        raise Unsupported('next over this iterable')
    n = it.bound(V, st)
    i = V.fresh('i', z3.IntSort())

    def at(idx, want):
        x = st.copy()
        x.pc = conj(x.pc, 0 <= idx, idx < n)
        h0 = dict(x.heap)
        V.assign(x, g.target, it.item(V, x, idx))
        c = conj(*[V.truth(x, V.eval(x, q)) for q in g.ifs]) if g.ifs else TRUE
        v = None
        if want:
            x.pc = conj(x.pc, c)
            v = V.eval(x, e.elt)
        for k2, a2 in x.heap.items():
            if not a2.eq(h0.get(k2, V.base[k2])):
                raise Unsupported('generator expression with effects')
        return c, v
    c, _ = at(i, False)
    m = V.fresh('first', z3.IntSort())
    q = z3.Int('i!q%d' % next(V.counter))
    V.assume(st, z3.And(0 <= m, m <= n))
    src = it.src_term(V, st, q)
    kw = {'patterns': [src]} if src is not None else {}
    V.assume(st, z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < m), neg(z3.substitute(c, (i, q)))), **kw))
    V.assume(st, z3.Implies(m < n, z3.substitute(c, (i, m))))
    V.assumptions.add('Python semantics of next() over a filtering generator expression (library model)')
    if default is None:
        V.may_raise(st, m >= n, 'StopIteration', 'next')
        _, v = at(m, True)
        return v
    _, v = at(m, True)
    return V.join_vals(m < n, v, default)


def b_isinstance(V, st, args, kw):
    v, c = args
    names = [x.data for x in (c.items if isinstance(c, VTuple) else [c])]
    if isinstance(v, V_) and isinstance(v.t, TRef):
        hit = v.t.cls in names
        if v.t.opt:
            return vbool(z3.And(hit, v.a[0] != 0) if hit else FALSE)
        return vbool(hit)
    if isinstance(v, V_) and isinstance(v.t, TNone):
        return vbool(False)
    raise Unsupported('isinstance')


def b_int(V, st, args, kw):
    v = args[0]
    if isinstance(v, VPy) and v.kind == 'decimal':
        return v.data[1] if isinstance(v.data, tuple) and v.data[0] == 'int' else _trunc(V, v.data)
    v = numeric(V, st, v)
    if isinstance(v.t, (TInt, TBV)):
        return v
    if isinstance(v.t, (TBool, TEnum)):
        return V.num_to(v, INT)
    if isinstance(v.t, TReal):
        return _trunc(V, v)
    if isinstance(v.t, TXReal):
        V.oblige(st, 'safety: finite operand at line %d' % V.line, neg(v.a[0]))
        return _trunc(V, V_(REAL, v.a[1]))
    raise Unsupported('int()')


def _trunc(V, v):
    x = v.a[0]
    return V_(INT, z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x)))


def b_float(V, st, args, kw):
    v = numeric(V, st, args[0])
    if isinstance(v.t, (TReal, TXReal, TNReal, TFP)):
        return v
    r = V.num_to(v, REAL)
    if r is None:
        raise Unsupported('float()')
    return r


def b_bool(V, st, args, kw):
    return vbool(V.truth(st, args[0]))


def b_list(V, st, args, kw):
    if not args:
        return VPy('emptylist', {'v': None})
    return to_list(V, st, args[0])


def b_tuple(V, st, args, kw):
    if args and isinstance(args[0], VTuple):
        return args[0]
    raise Unsupported('tuple()')


def b_filter(V, st, args, kw):
    return VPy('filterobj', (args[0], args[1]))


def b_map(V, st, args, kw):
    return VPy('mapobj', (args[0], args[1]))


def b_zip(V, st, args, kw):
    return VPy('zip', list(args))


def b_id(V, st, args, kw):
    v = args[0]
    if isinstance(v, V_) and isinstance(v.t, (TRef, TList)):
        return vint(v.a[0])
    raise Unsupported('id')


def quant(V, st, v, universal):
    if not (isinstance(v, VPy) and v.kind == 'genexp'):
        raise Unsupported('any/all')
    e = v.data[0]
    if len(e.generators) != 1:
        raise Unsupported('nested generator expression')
    g = e.generators[0]
    it = V.iterable(st, V.eval(st, g.iter))
    if it.kind == 'static':
        acc = []
        for x in it.items:
            s2 = st.copy()
            V.assign(s2, g.target, x)
            c = conj(*[V.truth(s2, V.eval(s2, q)) for q in g.ifs]) if g.ifs else TRUE
            t = V.truth(s2, V.eval(s2, e.elt))
            acc.append(z3.Implies(c, t) if universal else conj(c, t))
        return vbool(conj(*acc) if universal else disj(*acc))
    if it.kind != 'idx':
        raise Unsupported('any/all over this iterable')
    n = it.bound(V, st)
    i = V.fresh('i', z3.IntSort())
    x = st.copy()
    x.pc = conj(x.pc, 0 <= i, i < n)
    h0 = dict(x.heap)
    V.assign(x, g.target, it.item(V, x, i))
    c = conj(*[V.truth(x, V.eval(x, q)) for q in g.ifs]) if g.ifs else TRUE
    t = V.truth(x, V.eval(x, e.elt))
    for k2, a2 in x.heap.items():
        if not a2.eq(h0.get(k2, V.base[k2])):
            raise Unsupported('generator expression with effects')
    q = z3.Int('i!q%d' % next(V.counter))
    rng = z3.And(0 <= q, q < n)
    c, t = z3.substitute(c, (i, q)), z3.substitute(t, (i, q))
    if universal:
        return vbool(z3.ForAll([q], z3.Implies(z3.And(rng, c), t)))
    return vbool(z3.Exists([q], z3.And(rng, c, t)))


def b_any(V, st, args, kw):
    return quant(V, st, args[0], False)


def b_all(V, st, args, kw):
    return quant(V, st, args[0], True)


def b_round(V, st, args, kw):
    raise Unsupported('round()')


def b_sorted(V, st, args, kw):
    v = args[0]
    lv = to_list(V, st, v)
    if isinstance(lv, VPy):
        return lv
    sort_in_place(V, st, lv, kw)
    return lv


def sort_in_place(V, st, lv, kw):
    """library model of stable sorting: the result is a permutation of the
    input (ghost bijection), ordered by the key / by the elements' <"""
    n = V.list_len(st, lv)
    src, bag = V.content(st, lv), V.bag(st, lv)
    key, rev = kw.get('key'), kw.get('reverse')
    rv = False
    if rev is not None:
        r = z3.simplify(V.truth(st, rev))
        if not (z3.is_true(r) or z3.is_false(r)):
            raise Unsupported('symbolic reverse')
        rv = z3.is_true(r)
    if any(k not in ('key', 'reverse') for k in kw):
        raise Unsupported('sort arguments')
    perm = z3.Function('srt_p!%d' % next(V.counter), z3.IntSort(), z3.IntSort())
    inv = z3.Function('srt_i!%d' % next(V.counter), z3.IntSort(), z3.IntSort())
    q = z3.Int('i!q%d' % next(V.counter))
    q2 = z3.Int('j!q%d' % next(V.counter))

    def ax(arrs):
        for a, s in zip(arrs, src):
            yield z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), a[q] == s[perm(q)]), patterns=[a[q]])
            yield z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), a[inv(q)] == s[q]), patterns=[s[q]])
        rng = z3.And(0 <= q, q < n)
        yield z3.ForAll([q], z3.Implies(rng, z3.And(0 <= perm(q), perm(q) < n, inv(perm(q)) == q)), patterns=[perm(q)])
        yield z3.ForAll([q], z3.Implies(rng, z3.And(0 <= inv(q), inv(q) < n, perm(inv(q)) == q)), patterns=[inv(q)])
    arrs = V.havoc_content(st, lv, n, ax, bag)
    # order of an arbitrary pair i < j: not (key[j] < key[i])
    i, j = V.fresh('i', z3.IntSort()), V.fresh('j', z3.IntSort())
    x = st.copy()
    x.pc = conj(x.pc, 0 <= i, i < j, j < n)
    h0 = dict(x.heap)
    f0 = len(V.facts)
    a, b = V.list_get(x, lv, i), V.list_get(x, lv, j)
    if key is not None and not (isinstance(key, V_) and isinstance(key.t, TNone)):
        a, b = V.call(x, key, [a], {}), V.call(x, key, [b], {})
    lt = V.truth(x, V.order(x, ast.Lt(), b, a) if not rv else V.order(x, ast.Lt(), a, b))
    for k2, a2 in x.heap.items():
        if not a2.eq(h0.get(k2, V.base[k2])):
            raise Unsupported('sort key with effects')
    rel = z3.substitute(neg(lt), (i, q), (j, q2))
    # facts generated while evaluating the comparison on the arbitrary pair hold for all pairs
    V.assume(st, z3.ForAll([q, q2], z3.Implies(z3.And(0 <= q, q < q2, q2 < n), rel),
                           patterns=[z3.MultiPattern(arrs[0][q], arrs[0][q2])]))
    V.last_sort = (perm, inv)
    V.assumptions.add('list sorting is a permutation ordered by <, assuming < is a strict weak order (library model)')


# ------------------------------------------------------------------ external
def external(V, st, name, args, kw):
    if not isinstance(name, str):
        return extattr(V, st, name, args, kw)
    f = EXT.get(name)
    if f is None:
        raise Unsupported('external ' + name)
    return f(V, st, args, kw)


def extattr(V, st, d, args, kw):
    obj, attr = d
    if isinstance(obj, VPy) and obj.kind == 'decimal' and attr == 'quantize':
        exp = args[0]
        mode = args[1] if len(args) > 1 else kw.get('rounding')
        if not (isinstance(mode, VPy) and mode.kind == 'ext'):
            raise Unsupported('rounding mode')
        if not (isinstance(exp, V_) and z3.is_int_value(exp.a[0]) and exp.a[0].as_long() == 0):
            raise Unsupported('quantize exponent')
        x = obj.data.a[0]
        half = z3.Q(1, 2)
        m = mode.data.split('.')[-1]
        fl = lambda t: z3.ToInt(t)
        ce = lambda t: -z3.ToInt(-t)
        if m == 'ROUND_HALF_UP':          # ties away from zero
            r = z3.If(x >= 0, fl(x + half), -fl(-x + half))
        elif m == 'ROUND_HALF_DOWN':      # ties towards zero
            r = z3.If(x >= 0, ce(x - half), -ce(-x - half))
        elif m == 'ROUND_FLOOR':
            r = fl(x)
        elif m == 'ROUND_CEILING':
            r = ce(x)
        elif m == 'ROUND_DOWN':
            r = z3.If(x >= 0, fl(x), ce(x))
        elif m == 'ROUND_UP':
            r = z3.If(x >= 0, ce(x), fl(x))
        elif m == 'ROUND_HALF_EVEN':
            f = fl(x + half)
            r = z3.If(z3.And(z3.ToReal(f) == x + half, f % 2 == 1), f - 1, f)
        else:
            raise Unsupported('rounding mode ' + m)
        V.assumptions.add('decimal.Decimal(v).quantize(0, mode) as the named rounding of the exact value '
                          '(magnitude below 10**28: the decimal context precision)')
        return VPy('decimal', ('int', V_(INT, r)))
    raise Unsupported('external attribute %s' % attr)


def _floor(V, st, args, kw):
    v = numeric(V, st, args[0])
    if isinstance(v.t, TInt):
        return v
    if isinstance(v.t, TXReal):
        V.may_raise(st, v.a[0], 'OverflowError', 'floor of infinity')
        return V_(INT, z3.ToInt(v.a[1]))
    if isinstance(v.t, TReal):
        return V_(INT, z3.ToInt(v.a[0]))
    raise Unsupported('floor')


def _ceil(V, st, args, kw):
    v = numeric(V, st, args[0])
    if isinstance(v.t, TInt):
        return v
    if isinstance(v.t, TXReal):
        V.may_raise(st, v.a[0], 'OverflowError', 'ceil of infinity')
        return V_(INT, -z3.ToInt(-v.a[1]))
    if isinstance(v.t, TReal):
        return V_(INT, -z3.ToInt(-v.a[0]))
    raise Unsupported('ceil')


def _isinf(V, st, args, kw):
    v = numeric(V, st, args[0])
    if isinstance(v.t, TXReal):
        return vbool(v.a[0])
    if isinstance(v.t, (TInt, TReal)):
        return vbool(False)
    if isinstance(v.t, TFP):
        return vbool(z3.fpIsInf(v.a[0]))
    raise Unsupported('isinf')


def _isnan(V, st, args, kw):
    v = numeric(V, st, args[0])
    if isinstance(v.t, TNReal):
        return vbool(v.a[0])
    if isinstance(v.t, (TInt, TReal, TXReal)):
        return vbool(False)
    if isinstance(v.t, TFP):
        return vbool(z3.fpIsNaN(v.a[0]))
    raise Unsupported('isnan')


def _decimal(V, st, args, kw):
    v = numeric(V, st, args[0])
    if isinstance(v.t, TXReal):
        V.oblige(st, 'safety: finite operand at line %d' % V.line, neg(v.a[0]))
        v = V_(REAL, v.a[1])
    v = V.num_to(v, REAL)
    if v is None:
        raise Unsupported('Decimal()')
    return VPy('decimal', v)


def _pack(V, st, args, kw):
    fmt, v = args
    if not (isinstance(fmt, VPy) and fmt.kind == 'str' and fmt.data in ('!d', '>d', '<d')):
        raise Unsupported('struct.pack format')
    if not isinstance(v.t, TFP):
        v = V.num_to(v, FP)
        if v is None:
            raise Unsupported('struct.pack operand')
    # FP terms built from bit patterns keep them (NaN payloads included)
    t = v.a[0]
    if z3.is_app_of(t, z3.Z3_OP_FPA_TO_FP) and t.num_args() == 1 and isinstance(t.arg(0), z3.BitVecRef):
        bits = t.arg(0)
    else:
        bits = z3.fpToIEEEBV(t)
    return VPy('bytes', (fmt.data[0], bits))


def _unpack(V, st, args, kw):
    fmt, b = args
    if not (isinstance(fmt, VPy) and fmt.kind == 'str' and isinstance(b, VPy) and b.kind == 'bytes'):
        raise Unsupported('struct.unpack')
    if fmt.data[0] != b.data[0] and not {fmt.data[0], b.data[0]} <= {'!', '>'}:
        raise Unsupported('struct byte order')
    bits = b.data[1]
    if fmt.data[1] == 'Q':
        return VTuple([V_(BV, z3.ZeroExt(BVW - 64, bits))])
    if fmt.data[1] == 'q':
        return VTuple([V_(BV, z3.SignExt(BVW - 64, bits))])
    raise Unsupported('struct.unpack format')


def _cwrap(bits, signed):
    def f(V, st, args, kw):
        v = numeric(V, st, args[0])
        if isinstance(v.t, TBV):
            low = z3.Extract(bits - 1, 0, v.a[0])
            return VPy('ctypes', V_(BV, (z3.SignExt if signed else z3.ZeroExt)(BVW - bits, low)))
        v = V.num_to(v, INT)
        if v is None:
            raise Unsupported('ctypes')
        m = z3.IntVal(2 ** bits)
        x = v.a[0] % m
        if signed:
            x = z3.If(x >= 2 ** (bits - 1), x - m, x)
        return VPy('ctypes', V_(INT, x))
    return f


def _partial(V, st, args, kw):
    return VPy('partial', (args[0], tuple(args[1:]), dict(kw)))


def _is_not(V, st, args, kw):
    return vbool(neg(V.identical(st, args[0], args[1])))


def _is_(V, st, args, kw):
    return vbool(V.identical(st, args[0], args[1]))


def _bisect(left):
    def f(V, st, args, kw):
        """bisect_left/right on a list sorted by <= (the model asks for
        sortedness: unsorted input is an obligation)"""
        lv, x = args[0], args[1]
        if len(args) > 2 or kw:
            raise Unsupported('bisect arguments')
        n = V.list_len(st, lv)
        if lv.t.elem.key not in ('real', 'int'):
            raise Unsupported('bisect element')
        x = V.coerce(st, x, lv.t.elem, 'bisect value').a[0]
        arr = V.content(st, lv)[0]
        q = z3.Int('i!q%d' % next(V.counter))
        p = z3.Int('j!q%d' % next(V.counter))
        V.oblige(st, 'precondition: bisect on a sorted list at line %d' % V.line,
                 z3.ForAll([q, p], z3.Implies(z3.And(0 <= q, q <= p, p < n), arr[q] <= arr[p])), 'precondition')
        r = V.fresh('bisect', z3.IntSort())
        V.assume(st, z3.And(0 <= r, r <= n))
        lo = (lambda t: t < x) if left else (lambda t: t <= x)
        V.assume(st, z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < r), lo(arr[q])), patterns=[arr[q]]))
        V.assume(st, z3.ForAll([q], z3.Implies(z3.And(r <= q, q < n), z3.Not(lo(arr[q]))), patterns=[arr[q]]))
        V.assume(st, z3.Implies(r < n, z3.Not(lo(arr[r]))))
        V.assume(st, z3.Implies(r > 0, lo(arr[r - 1])))
        V.assumptions.add('bisect.bisect_left contract (library model)')
        return vint(r)
    return f


EXT = {
    'math.floor': _floor, 'math.ceil': _ceil, 'math.isinf': _isinf, 'math.isnan': _isnan,
    'decimal.Decimal': _decimal, 'struct.pack': _pack, 'struct.unpack': _unpack,
    'ctypes.c_uint64': _cwrap(64, False), 'ctypes.c_int32': _cwrap(32, True),
    'ctypes.c_int64': _cwrap(64, True), 'ctypes.c_uint32': _cwrap(32, False),
    'functools.partial': _partial, 'operator.is_not': _is_not, 'operator.is_': _is_,
    'bisect.bisect_left': _bisect(True), 'bisect.bisect_right': _bisect(False), 'bisect.bisect': _bisect(False),
}
