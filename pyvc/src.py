"""Mechanical extraction: parses /repo/wagyu/*.py on every run. Nothing is
rewritten; docstrings, annotations, `__repr__` and `__slots__` are the only
things the verifier ignores."""
import ast
import os

REPO = os.environ.get('WAGYU_REPO', '/repo')


class Fn:
    __slots__ = ('name', 'qual', 'node', 'module', 'cls', 'kind', 'loops', 'comps')

    def __init__(self, name, qual, node, module, cls, kind):
        self.name, self.qual, self.node = name, qual, node
        self.module, self.cls, self.kind = module, cls, kind
        self.loops, self.comps = index_loops(node)

    @property
    def is_generator(self):
        return any(isinstance(n, (ast.Yield, ast.YieldFrom))
                   for n in own_nodes(self.node))

    def __repr__(self):
        return 'Fn(%s)' % self.qual


def own_nodes(fn):
    """nodes of a function, excluding nested function bodies"""
    todo = list(fn.body) if isinstance(fn, ast.FunctionDef) else [fn.body]
    while todo:
        n = todo.pop(0)
        yield n
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda)):
                continue
            todo.append(c)


def index_loops(fn):
    loops = [n for n in own_nodes(fn) if isinstance(n, (ast.For, ast.While))]
    loops.sort(key=lambda n: (n.lineno, n.col_offset))
    comps = [n for n in own_nodes(fn)
             if isinstance(n, (ast.ListComp, ast.GeneratorExp))]
    comps.sort(key=lambda n: (n.lineno, n.col_offset))
    return {id(n): i for i, n in enumerate(loops)}, {id(n): i for i, n in enumerate(comps)}


class Cls:
    def __init__(self, name, module, node):
        self.name, self.module, self.node = name, module, node
        self.bases = [ast.unparse(b) for b in node.bases]
        self.methods, self.props, self.setters, self.consts = {}, {}, {}, {}
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                decs = [ast.unparse(d) for d in s.decorator_list]
                q = module + '.' + name + '.' + s.name
                if 'property' in decs:
                    self.props[s.name] = Fn(s.name, q, s, module, name, 'property')
                elif any(d.endswith('.setter') for d in decs):
                    self.setters[s.name] = Fn(s.name, q + '!set', s, module, name, 'setter')
                elif 'classmethod' in decs:
                    self.methods[s.name] = Fn(s.name, q, s, module, name, 'classmethod')
                elif 'staticmethod' in decs:
                    self.methods[s.name] = Fn(s.name, q, s, module, name, 'static')
                else:
                    self.methods[s.name] = Fn(s.name, q, s, module, name, 'method')
            elif (isinstance(s, ast.Assign) and len(s.targets) == 1
                  and isinstance(s.targets[0], ast.Name)):
                self.consts[s.targets[0].id] = s.value
        self.is_enum = any(b in ('Base', 'IntEnum', 'enum.IntEnum', 'Enum') for b in self.bases)
        self.members = {}
        if self.is_enum:
            for k, v in self.consts.items():
                try:
                    self.members[k] = ast.literal_eval(v)
                except ValueError:
                    pass


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules, self.classes, self.funcs, self.trees = {}, {}, {}, {}
        d = os.path.join(self.repo, 'wagyu')
        for f in sorted(os.listdir(d)):
            if not f.endswith('.py'):
                continue
            m = f[:-3]
            with open(os.path.join(d, f)) as h:
                text = h.read()
            tree = ast.parse(text)
            names = {}
            self.modules[m] = names
            self.trees[m] = tree
            self._scan(m, names, tree.body)

    def _scan(self, m, names, body):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                fn = Fn(s.name, m + '.' + s.name, s, m, None, 'function')
                names[s.name] = ('func', fn)
                self.funcs[fn.qual] = fn
            elif isinstance(s, ast.ClassDef):
                c = Cls(s.name, m, s)
                names[s.name] = ('class', s.name)
                self.classes[s.name] = c
                for g in (c.methods, c.props, c.setters):
                    for fn in g.values():
                        self.funcs[fn.qual] = fn
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    if s.level:
                        names[a.asname or a.name] = ('import', (s.module, a.name))
                    else:
                        names[a.asname or a.name] = ('ext', s.module + '.' + a.name)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    names[a.asname or a.name] = ('extmod', a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        names[t.id] = ('const', (m, s.value))
            elif isinstance(s, ast.Try):
                self._scan(m, names, s.body)

    def resolve(self, module, name, depth=0):
        e = self.modules.get(module, {}).get(name)
        if e is None:
            return None
        if e[0] == 'import':
            if depth > 8:
                return None
            return self.resolve(e[1][0], e[1][1], depth + 1)
        return e


def fingerprint(fn):
    """normalised text of a function (no docstring, no no-op statements)"""
    import copy
    node = copy.deepcopy(fn.node)

    class Strip(ast.NodeTransformer):
        def generic_visit(self, n):
            super().generic_visit(n)
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(n, f, None)
                if isinstance(b, list):
                    b2 = [s for s in b
                          if not (isinstance(s, ast.Pass)
                                  or isinstance(s, ast.Expr) and isinstance(s.value, (ast.Constant, ast.Name)))]
                    setattr(n, f, b2 or ([ast.Pass()] if f == 'body' and b else []))
            return n
    return ast.dump(Strip().visit(node))
