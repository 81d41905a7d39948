"""Frames by effect inference: which fields and lists a function may write,
closed over everything it may call. An over-approximation computed from the
source text: receivers of unknown class stand for every class with that
attribute, method names for every method of that name, comparisons for every
__eq__/__lt__. Writes to objects that the function itself creates
are no effect. Used (1) to summarise callees in proofs, (2) as the
frame contracts of whole operations."""
import ast
import builtins

from .types import *

MUTATORS = {'append', 'insert', 'extend', 'pop', 'remove', 'clear', 'sort', 'reverse', 'add', 'discard',
            'update', 'setdefault', 'popleft', 'appendleft', 'extendleft'}
FRESHMAKERS = {'list', 'sorted', 'dict', 'set', 'deque', 'defaultdict', 'tuple', 'OrderedDict', 'reversed', 'enumerate'}


def lkey(t):
    from .exec import Verifier
    return 'L.' + Verifier.lkey(t.elem)


class Effects:
    def __init__(self, prog, fields):
        self.prog, self.fields = prog, fields
        self.by_method, self.by_prop, self.by_setter = {}, {}, {}
        self.aliases = {}
        for m in prog.trees.values():
            for n in m.body:
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) \
                        and isinstance(n.value, ast.Subscript):
                    self.aliases[n.targets[0].id] = ast.unparse(n.value).replace("'", '')
        for c in prog.classes.values():
            for n, f in c.methods.items():
                self.by_method.setdefault(n, []).append(f)
            for n, f in c.props.items():
                self.by_prop.setdefault(n, []).append(f)
            for n, f in c.setters.items():
                self.by_setter.setdefault(n, []).append(f)
        self.direct, self.calls, self.elems = {}, {}, {}
        for q, f in prog.funcs.items():
            self.direct[q], self.calls[q] = self.scan(f)
        self.closure = {q: set(e) for q, e in self.direct.items()}
        changed = True
        while changed:
            changed = False
            for q, cs in self.calls.items():
                for c in cs:
                    new = self.closure.get(c, set()) - self.closure[q]
                    if new:
                        self.closure[q] |= new
                        changed = True

    def of(self, qual):
        return self.closure[qual]

    def path(self, qual, effect):
        """a call chain by which the effect arises"""
        from collections import deque
        prev = {qual: None}
        todo = deque([qual])
        while todo:
            q = todo.popleft()
            if effect in self.direct.get(q, ()):
                out = []
                while q is not None:
                    out.append(q)
                    q = prev[q]
                return out[::-1]
            for c in self.calls.get(q, ()):
                if c not in prev and effect in self.closure.get(c, ()):
                    prev[c] = q
                    todo.append(c)
        return [qual]

    # ------------------------------------------------------------ one function
    def annotated(self, node):
        """(kind, name) of an annotation: ('obj', class) | ('list', elem T)"""
        if node is None:
            return None
        try:
            s = ast.unparse(node).replace("'", '')
        except Exception:
            return None
        s = self.aliases.get(s, s)
        import re
        m = re.fullmatch(r'(?:Optional\[)?(\w+)\]?', s)
        if m and m.group(1) in self.prog.classes:
            return ('obj', m.group(1))
        if m and m.group(1) in ('int', 'float', 'bool', 'Coordinate'):
            return ('num', None)
        m = re.fullmatch(r'(?:Mutable)?(?:List|Sequence|Iterable|Iterator)\[(?:Optional\[)?(\w+)\]*', s)
        if m:
            n = m.group(1)
            if n in self.prog.classes:
                return ('list', TRef(n))
            if n == 'Coordinate':
                return ('list', REAL)
            if n == 'int':
                return ('list', INT)
        m = re.fullmatch(r'Dict\[\w+, List\[Tuple\[(\w+), (\w+)\]\]\]', s)
        if m and all(x in self.prog.classes for x in m.groups()):
            return ('dict', ('list', TTuple(*[TRef(x) for x in m.groups()])))
        if re.match(r'Deque\[|Dict\[|Set\[', s):
            return ('dict', None)
        if re.match(r'(?:Mutable)?(?:List|Sequence)\[', s):
            return ('list', None)
        return None

    def scan(self, fn):
        eff, calls = set(), set()
        node = fn.node
        params = {}
        args = node.args.args + node.args.kwonlyargs
        for i, a in enumerate(args):
            if i == 0 and fn.cls and fn.kind in ('method', 'property', 'setter'):
                params[a.arg] = ('obj', fn.cls)
            elif i == 0 and fn.kind == 'classmethod':
                params[a.arg] = ('cls', fn.cls)
            else:
                params[a.arg] = self.annotated(a.annotation)
        assigned = {}

        def bindings(t, v):
            if isinstance(t, ast.Name):
                assigned.setdefault(t.id, []).append(v)
            elif isinstance(t, (ast.Tuple, ast.List)):
                if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
                    for a, b in zip(t.elts, v.elts):
                        bindings(a, b)
                else:
                    for a in t.elts:
                        bindings(a, None)
            elif isinstance(t, ast.Starred):
                bindings(t.value, None)

        for n in ast.walk(node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    bindings(t, n.value)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                bindings(n.target, n.value)
            elif isinstance(n, (ast.For, ast.comprehension)):
                it = n.iter
                if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'enumerate' \
                        and isinstance(n.target, ast.Tuple) and len(n.target.elts) == 2 and it.args:
                    bindings(n.target.elts[0], ast.Constant(0))
                    bindings(n.target.elts[1], ('iter', it.args[0]))
                else:
                    bindings(n.target, ('iter', it))
            elif isinstance(n, ast.withitem) and n.optional_vars:
                bindings(n.optional_vars, None)

        def fresh(e, depth=0):
            """the expression denotes a newly created object"""
            if depth > 4 or e is None or isinstance(e, tuple):
                return False
            if isinstance(e, (ast.List, ast.ListComp, ast.Dict, ast.Set, ast.SetComp, ast.DictComp, ast.Constant)):
                return True
            if isinstance(e, ast.Call):
                f = e.func
                if isinstance(f, ast.Name):
                    if f.id in FRESHMAKERS or f.id in self.prog.classes:
                        return True
                    if params.get(f.id, (None,))[0:1] == ('cls',):
                        return True
            if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice):
                return True
            if isinstance(e, ast.BinOp):
                return fresh(e.left, depth + 1) and fresh(e.right, depth + 1) or isinstance(e.op, (ast.Add, ast.Mult)) and (
                    fresh(e.left, depth + 1) or fresh(e.right, depth + 1))
            if isinstance(e, ast.IfExp):
                return fresh(e.body, depth + 1) and fresh(e.orelse, depth + 1)
            if isinstance(e, ast.Name):
                return e.id not in params and e.id in assigned and all(fresh(v, depth + 1) for v in assigned[e.id])
            return False

        visiting = set()

        def elem(t, e):
            if t == ('bottom', None):
                return t
            if t and t[0] == 'list':
                if isinstance(t[1], TRef):
                    return ('obj', t[1].cls)
                if t[1] in (INT, REAL, BOOL):
                    return ('num', None)
                return None
            if t and t[0] == 'obj' and t[1] in self.prog.classes:
                f = self.prog.classes[t[1]].methods.get('__iter__') or self.prog.classes[t[1]].methods.get('__getitem__')
                if f is not None and f.node.returns is not None:
                    a = self.annotated(f.node.returns)
                    return elem(a, None) if a and a[0] == 'list' else a
            return None

        def typ(e, depth=0):
            if depth > 12 or e is None:
                return None
            if isinstance(e, tuple):
                t = typ(e[1], depth + 1)
                return elem(t, e[1])
            if isinstance(e, ast.Constant):
                return ('num', None) if isinstance(e.value, (int, float)) else None
            if isinstance(e, (ast.Compare,)) or isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
                return ('num', None)
            if isinstance(e, ast.UnaryOp):
                return typ(e.operand, depth + 1)
            if isinstance(e, ast.BinOp):
                a, b = typ(e.left, depth + 1), typ(e.right, depth + 1)
                return ('num', None) if a and b and a[0] == b[0] == 'num' else None
            if isinstance(e, ast.Name):
                if e.id in visiting:
                    return ('bottom', None)
                if e.id not in assigned:
                    return params.get(e.id)
                visiting.add(e.id)
                ts = {}
                for v in assigned[e.id]:
                    if isinstance(v, ast.Constant) and v.value is None:
                        continue
                    t = typ(v, depth + 1)
                    if t != ('bottom', None):
                        ts[repr(t)] = t
                visiting.discard(e.id)
                if e.id in params:
                    ts[repr(params[e.id])] = params[e.id]
                return next(iter(ts.values())) if len(ts) == 1 else None
            if isinstance(e, ast.Attribute):
                b = typ(e.value, depth + 1)
                owners = [b[1]] if b and b[0] == 'obj' else [c for c in self.fields if e.attr in self.fields[c]]
                ts = {}
                for c in owners:
                    t = self.fields.get(c, {}).get(e.attr)
                    if isinstance(t, TRef):
                        ts[t.cls] = ('obj', t.cls)
                    elif isinstance(t, TList):
                        ts[t.key] = ('list', t.elem)
                    elif t is None:
                        p = self.prog.classes[c].props.get(e.attr) if c in self.prog.classes else None
                        q = self.annotated(p.node.returns) if p else None
                        ts[repr(q)] = q
                    elif t in (INT, REAL, BOOL) or type(t).__name__ in ('TXReal', 'TNReal', 'TEnum', 'TOpt'):
                        ts['num'] = ('num', None)
                    else:
                        ts[t.key] = None
                return next(iter(ts.values())) if len(ts) == 1 else None
            if isinstance(e, ast.Subscript) and not isinstance(e.slice, ast.Slice):
                t = typ(e.value, depth + 1)
                return t[1] if t and t[0] == 'dict' else elem(t, e.value)
            if isinstance(e, ast.Subscript):
                t = typ(e.value, depth + 1)
                return t if t and t[0] == 'list' else None
            if isinstance(e, ast.IfExp):
                a, b = typ(e.body, depth + 1), typ(e.orelse, depth + 1)
                return a if a == b else None
            if isinstance(e, ast.Call):
                if isinstance(e.func, ast.Name):
                    if e.func.id in self.prog.classes:
                        return ('obj', e.func.id)
                    if e.func.id in ('len', 'abs', 'int', 'float', 'bool', 'id', 'isinstance', 'round'):
                        return ('num', None)
                    if e.func.id in ('list', 'sorted', 'reversed', 'iter', 'tuple') and e.args:
                        t = typ(e.args[0], depth + 1)
                        if t == ('bottom', None):
                            return t
                        if t and t[0] == 'obj':
                            x = elem(t, None)
                            return ('list', TRef(x[1])) if x and x[0] == 'obj' else None
                        return t if t and t[0] == 'list' else None
                    if e.func.id == 'filter' and len(e.args) == 2:
                        t = typ(e.args[1], depth + 1)
                        return t if t and t[0] == 'list' else None
                    if e.func.id == 'range':
                        return ('list', INT)
                    if e.func.id in ('next',) and e.args:
                        return elem(typ(e.args[0], depth + 1), None)
                    if e.func.id in ('min', 'max') and e.args:
                        a = [typ(x, depth + 1) for x in e.args]
                        return a[0] if len(a) > 1 and all(x == a[0] for x in a) else None
                    r = self.prog.resolve(fn.module, e.func.id)
                    if r and r[0] == 'func':
                        return self.annotated(r[1].node.returns)
                elif isinstance(e.func, ast.Attribute):
                    rs = {repr(self.annotated(f.node.returns)): self.annotated(f.node.returns)
                          for f in self.by_method.get(e.func.attr, [])}
                    return next(iter(rs.values())) if len(rs) == 1 else None
            return None

        init_self = fn.node.name == '__init__' and args and args[0].arg

        def rooted_fresh(e):
            """receiver is an object this function created"""
            if isinstance(e, ast.Name):
                if init_self and e.id == args[0].arg:
                    return True
                return fresh(e)
            return fresh(e)

        def compares(t, cls):
            if t is None:
                return True
            if t == ('bottom', None):
                return False
            if t[0] == 'dict':
                return False
            if t[0] == 'list':
                return isinstance(t[1], TRef) and t[1].cls == cls or not isinstance(t[1], TRef) and t[1] not in (INT, REAL, BOOL)
            return t[0] == 'obj' and t[1] == cls

        def write_field(t):
            if rooted_fresh(t.value):
                return
            b = typ(t.value)
            for s in self.by_setter.get(t.attr, []):
                calls.add(s.qual)
            owners = [b[1]] if b and b[0] == 'obj' else [c for c in self.fields if t.attr in self.fields[c]]
            if not owners:
                if t.attr not in self.by_setter:
                    eff.add('?.%s' % t.attr)
                return
            for c in owners:
                if t.attr in self.fields.get(c, {}):
                    # corners of a ring's box are told apart from other points
                    v = t.value
                    if (c == 'Point' and isinstance(v, ast.Attribute) and v.attr in ('minimum', 'maximum')
                            and isinstance(v.value, ast.Attribute) and v.value.attr == 'box'):
                        eff.add('corner of Ring.box.' + t.attr)
                    else:
                        eff.add('%s.%s' % (c, t.attr))
                elif t.attr not in self.by_setter:
                    eff.add('%s.%s' % (c, t.attr))

        def made_by_class(e, depth=0):
            if isinstance(e, ast.Name) and depth < 4:
                return any(made_by_class(v, depth + 1) for v in assigned.get(e.id, [None]))
            return not isinstance(e, (ast.List, ast.ListComp, ast.Dict, ast.Set, ast.Subscript)) and not (
                isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in FRESHMAKERS)

        def owner_of(e, depth=0):
            """the field holding the list, when that is certain"""
            if isinstance(e, ast.Attribute):
                b = typ(e.value)
                if b and b[0] == 'obj' and isinstance(self.fields.get(b[1], {}).get(e.attr), TList):
                    return '%s.%s' % (b[1], e.attr)
                owners = [c for c in self.fields if e.attr in self.fields[c]]
                if b is None and owners and not any(e.attr in c.props for c in self.prog.classes.values()):
                    return ' or '.join('%s.%s' % (c, e.attr) for c in sorted(owners))
                return None
            if isinstance(e, ast.Name) and depth < 4 and e.id in assigned and e.id not in params:
                os = {owner_of(v, depth + 1) if isinstance(v, ast.AST) else None for v in assigned[e.id]}
                return os.pop() if len(os) == 1 else None
            if isinstance(e, ast.IfExp):
                a, b = owner_of(e.body, depth + 1), owner_of(e.orelse, depth + 1)
                return ' or '.join(sorted({a, b})) if a and b else None
            return None

        def write_list(e):
            if rooted_fresh(e):
                return
            t = typ(e)
            if t and t[0] == 'dict':
                eff.add('D.dict')
            elif t and t[0] == 'list' and t[1] is not None:
                k = lkey(TList(t[1]))
                self.elems[k] = t[1]
                where = owner_of(e)
                eff.add(k + (' of ' + where if where else ''))
            elif t == ('bottom', None):
                return
            elif t and t[0] == 'obj':
                c = self.prog.classes.get(t[1])
                for m in ('__setitem__', '__delitem__', 'insert'):
                    if c and m in c.methods:
                        calls.add(c.methods[m].qual)
            else:
                eff.add('L.*')

        def target(t):
            if isinstance(t, ast.Attribute):
                write_field(t)
            elif isinstance(t, ast.Subscript):
                write_list(t.value)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for x in t.elts:
                    target(x)
            elif isinstance(t, ast.Starred):
                target(t.value)

        for n in ast.walk(node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    target(t)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                target(n.target)
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                    t = typ(n.target)
                    if not fresh(n.target) and (t is None or t[0] == 'list') and isinstance(n.op, ast.Add) and t is not None:
                        write_list(n.target)
            elif isinstance(n, ast.Delete):
                for t in n.targets:
                    target(t)
            elif isinstance(n, (ast.For, ast.comprehension)):
                target(n.target)
                for m in ('__iter__', '__next__'):
                    t = typ(n.iter)
                    if t and t[0] == 'list':
                        continue
                    for f in self.by_method.get(m, []):
                        if t is None or f.cls == t[1]:
                            calls.add(f.qual)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                t = typ(n.value)
                if t is None and fresh(n.value) and not made_by_class(n.value):
                    t = ('list', None)
                for f in self.by_prop.get(n.attr, []):
                    if t is None or t[0] == 'obj' and t[1] == f.cls:
                        calls.add(f.qual)
                # a method or function passed as a value may be called
                for f in self.by_method.get(n.attr, []):
                    if t is None or t[0] in ('obj', 'cls') and t[1] == f.cls:
                        calls.add(f.qual)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                r = self.prog.resolve(fn.module, n.id)
                if r and r[0] == 'func' and n.id not in params and n.id not in assigned:
                    calls.add(r[1].qual)
                elif r and r[0] == 'class':
                    c = self.prog.classes[r[1]]
                    if '__init__' in c.methods:
                        calls.add(c.methods['__init__'].qual)
            elif isinstance(n, ast.Compare):
                for op in n.ops:
                    ms = {ast.Eq: ['__eq__'], ast.NotEq: ['__eq__', '__ne__'], ast.Lt: ['__lt__', '__gt__'],
                          ast.Gt: ['__lt__', '__gt__'], ast.LtE: ['__le__', '__lt__'], ast.GtE: ['__ge__', '__lt__'],
                          ast.In: ['__eq__', '__contains__'], ast.NotIn: ['__eq__', '__contains__']}.get(type(op), [])
                    tys = [typ(x) for x in [n.left] + n.comparators]
                    for m in ms:
                        for f in self.by_method.get(m, []):
                            if any(compares(t, f.cls) for t in tys):
                                calls.add(f.qual)
            elif isinstance(n, ast.BinOp):
                m = {ast.BitAnd: '__and__', ast.Add: '__add__', ast.Sub: '__sub__', ast.BitOr: '__or__'}.get(type(n.op))
                tys = [typ(n.left), typ(n.right)]
                for f in self.by_method.get(m, []):
                    if any(compares(t, f.cls) for t in tys):
                        calls.add(f.qual)
            if isinstance(n, ast.Call):
                f = n.func
                if isinstance(f, ast.Attribute):
                    if f.attr in MUTATORS:
                        t = typ(f.value)
                        if not (t and t[0] == 'obj'):
                            write_list(f.value)
                elif isinstance(f, ast.Name) and f.id in ('sorted', 'min', 'max', 'sort'):
                    for g in self.by_method.get('__lt__', []):
                        calls.add(g.qual)
                elif isinstance(f, ast.Name) and f.id in ('setattr', 'exec', 'eval', 'globals', 'vars'):
                    eff.add('?.*')
                elif isinstance(f, ast.Name) and f.id in ('quicksort', 'bubble_sort', 'insort_unique', 'heappush'):
                    # arguments that these change in place
                    if f.id in ('quicksort', 'insort_unique') and n.args:
                        write_list(n.args[0])
        # generic helpers that change their argument: charged to the caller
        if fn.qual in ('utils.quicksort', 'utils.insort_unique'):
            eff.discard('L.*')
        return eff, calls
