"""Ghost circles: the vertices of a ring, from a head, in the order of the
successor links. Symbolically an arbitrary circle of arbitrary length;
concretely the walk over the real links."""
import z3

from pyvc.types import *
from pyvc.spec import *
from pyvc import spec as SP
from pyvc.spec import ground


def cross(p, c):
    """the area term of the piece from p to c"""
    return (p.x + c.x) * (p.y - c.y)


class SymCircle:
    def __init__(self, V, view, head, tag):
        self.V, self.view = V, view
        self.head = head
        self.n = z3.Int('n_' + tag)
        self.N = z3.Function('N_' + tag, z3.IntSort(), z3.IntSort())
        self.idx = z3.Function('idx_' + tag, z3.IntSort(), z3.IntSort())
        self.S_ = z3.Function('S_' + tag, z3.IntSort(), z3.RealSort())
        st = view.st
        self.nx, self.pv = V.arr(st, 'PointNode.next', z3.IntSort()), V.arr(st, 'PointNode.prev', z3.IntSort())
        N, n, idx = self.N, self.n, self.idx
        self.idx = lambda x: idx(x.ref if isinstance(x, SRef) else x)
        j = z3.Int('j!s')
        F = V.facts
        live = head.ref != 0
        F.append(z3.And(z3.Implies(live, z3.And(n >= 1, N(0) == head.ref)), z3.Implies(z3.Not(live), n == 0)))
        inr = z3.And(0 <= j, j < n)
        F.append(z3.ForAll([j], z3.Implies(inr, z3.And(N(j) >= 1, N(j) < st.alloc, idx(N(j)) == j)), patterns=[N(j)]))
        F.append(z3.ForAll([j], z3.Implies(inr, self.nx[N(j)] == z3.If(j + 1 == n, N(0), N(j + 1))), patterns=[self.nx[N(j)]]))
        F.append(z3.ForAll([j], z3.Implies(inr, self.pv[N(j)] == z3.If(j == 0, N(n - 1), N(j - 1))), patterns=[self.pv[N(j)]]))
        F.append(self.S_(0) == 0)

    def unfold(self, j):
        N, n = self.N, self.n
        if not ground(j):
            return
        self.V.facts.append(z3.Implies(z3.And(0 <= j, j < n), z3.And(
            N(j) >= 1, N(j) < self.view.st.alloc, self.idx(N(j)) == j,
            self.nx[N(j)] == z3.If(j + 1 == n, N(0), N(j + 1)),
            self.pv[N(j)] == z3.If(j == 0, N(n - 1), N(j - 1)))))

    def at(self, j):
        j = j if z3.is_expr(j) else z3.IntVal(j)
        self.unfold(j)
        return SRef(self.view, self.N(j), 'PointNode')

    def term(self, j):
        return self.N(j)

    def cyc(self, j):
        """vertex at position j modulo the length, -n <= j < 2n"""
        return self.at(z3.If(j < 0, j + self.n, z3.If(j >= self.n, j - self.n, j)))

    def S(self, j):
        """sum of the area terms of the pieces into the first j vertices"""
        j = j if z3.is_expr(j) else z3.IntVal(j)
        if ground(j):
            for i in (j, j - 1):
                i = z3.simplify(i)
                x = self.at(i)
                self.V.facts.append(z3.Implies(z3.And(0 <= i, i < self.n), self.S_(i + 1) == self.S_(i) + cross(x.prev, x)))
        return self.S_(z3.simplify(j))

    def has(self, x):
        x = x.ref if isinstance(x, SRef) else x
        i = self.idx(x)
        return z3.And(0 <= i, i < self.n, self.N(i) == x)

    ok = True

    def all(self, f):
        return ForAll(0, self.n, lambda j: f(self.at(j)), pat=self.term)


class ConcCircle:
    LIMIT = 5000

    def __init__(self, view, head):
        self.nodes, self.ok = [], True
        self.view = view
        x = head
        if x is None:
            self.n = 0
            return
        while True:
            y = x.next
            if y is None or y.prev is None or y.prev.obj is not x.obj or len(self.nodes) > self.LIMIT:
                self.ok = False
                self.n = 1
                self.nodes = [x]
                return
            self.nodes.append(x)
            x = y
            if x.obj is head.obj:
                break
        self.n = len(self.nodes)
        self.pos = {id(x.obj): i for i, x in enumerate(self.nodes)}

    def at(self, j):
        return self.nodes[j]

    cyc = lambda self, j: self.nodes[j % self.n]
    term = lambda self, j: None

    def all(self, f):
        return all(f(x) for x in self.nodes)

    def S(self, j):
        return sum(cross(self.nodes[i - 1], self.nodes[i]) for i in range(j))

    def has(self, x):
        x = x.obj if isinstance(x, CRef) else x
        return id(x) in self.pos if self.n else False

    def idx(self, x):
        x = x.obj if isinstance(x, CRef) else x
        return self.pos.get(id(x), -1)


class G:
    pass


class Circles:
    """ghosts: a circle per named head (a function of the entry view)"""

    def __init__(self, extra=None, **heads):
        self.heads, self.extra = heads, extra

    def symbolic(self, V, st, env):
        view = SP.SymView(V, st.copy(), env)
        g = G()
        for k, f in self.heads.items():
            setattr(g, k, SymCircle(V, view, f(view), k))
        if self.extra:
            self.extra(g, view, V)
        return g

    def concrete(self, env):
        from pyvc.contract import FIELDS
        snap = SP.Snapshot(list(env.values()), FIELDS)
        view = SP.ConcView(env, FIELDS, {}, snap=snap, roots_snap=snap)
        g = G()
        for k, f in self.heads.items():
            h = f(view)
            setattr(g, k, ConcCircle(view, h))
        if self.extra:
            self.extra(g, view, None)
        return g


def closed(n, seq, length, pat=None):
    """in view n the vertices seq(0) .. seq(length-1) form one closed circle"""
    last = length - 1

    def ok(j):
        x = n.at(seq(j))
        return And(same(x.next, seq(If(j == last, 0, j + 1))), same(x.prev, seq(If(j == 0, last, j - 1))))
    return ForAll(0, length, ok, pat=pat)


class Around(Circles):
    """ghosts: a circle somewhere on which a given vertex lies (as a
    precondition says), not necessarily as its head"""

    def symbolic(self, V, st, env):
        view = SP.SymView(V, st.copy(), env)
        g = G()
        for k in self.heads:
            h = V.fresh('head_' + k, z3.IntSort())
            V.facts.append(h >= 1)
            setattr(g, k, SymCircle(V, view, SRef(view, h, 'PointNode'), k))
        return g


class Seen:
    """a caller's circle as ghost argument of a callee: its vertices in the
    callee's entry state; that it is closed there is for the caller to prove"""

    def __init__(self, base, view):
        self.base, self.view, self.n = base, view, base.n
        self.ok = And(base.n >= 1, closed(view, base.at, base.n, pat=base.term))

    def at(self, j):
        return self.view.at(self.base.at(j))

    def term(self, j):
        return self.base.term(j)

    def has(self, x):
        return self.base.has(x)

    def idx(self, x):
        return self.base.idx(x.ref if isinstance(x, SRef) else x)

    def all(self, f):
        return ForAll(0, self.n, lambda j: f(self.at(j)), pat=self.term)


class Joint:
    """two circles of the caller joined into one, as ghost argument"""

    def __init__(self, one, two, view, ok):
        self.one, self.two, self.view, self.ok, self.n = one, two, view, ok, one.n + two.n

    def has(self, x):
        return Or(self.one.has(x), self.two.has(x))

    def all(self, f):
        return And(*[ForAll(0, c.n, lambda j, c=c: f(self.view.at(c.at(j))), pat=c.term) for c in (self.one, self.two)])


def seen(**circles):
    """ghost arguments: circles of the function under contract, by the name
    the callee gives them"""
    def f(root, o):
        g = G()
        for k, w in circles.items():
            setattr(g, k, Seen(w(root.G, o), o))
        return g
    return f
