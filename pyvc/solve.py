"""Discharging obligations: z3 (in-process), z3 nlsat on a purified
abstraction, cvc5 (binary) as a second opinion on unknowns."""
import os
import subprocess
import tempfile
import time

import z3

from .exec import has_quant


def conjuncts(f):
    if z3.is_and(f):
        out = []
        for c in f.children():
            out += conjuncts(c)
        return out
    return [f]


def purify(fs):
    """replace non-arithmetic leaves (array reads, applications) of
    quantifier-free formulas by fresh constants: a sound weakening"""
    cache, sub = {}, {}

    def is_arith_op(t):
        k = t.decl().kind()
        return k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_DIV, z3.Z3_OP_LE,
                     z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_AND,
                     z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_ITE, z3.Z3_OP_TRUE, z3.Z3_OP_FALSE,
                     z3.Z3_OP_ANUM, z3.Z3_OP_XOR, z3.Z3_OP_IFF, z3.Z3_OP_TO_REAL, z3.Z3_OP_IDIV, z3.Z3_OP_MOD,
                     z3.Z3_OP_TO_INT)

    def go(t):
        k = t.get_id()
        if k in cache:
            return cache[k][1]
        if z3.is_quantifier(t) or z3.is_var(t):
            raise ValueError
        if z3.is_app(t) and is_arith_op(t) and not (t.num_args() == 2 and z3.is_array(t.arg(0))):
            ch = [go(c) for c in t.children()]
            r = t.decl()(*ch) if ch and t.decl().kind() not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_DISTINCT) else (
                t if not ch else z3.And(*ch) if z3.is_and(t) else z3.Or(*ch) if z3.is_or(t)
                else z3.Sum(*ch) if t.decl().kind() == z3.Z3_OP_ADD
                else z3.Product(*ch) if t.decl().kind() == z3.Z3_OP_MUL else z3.Distinct(*ch))
        elif z3.is_const(t):
            r = t
        else:
            r = z3.Const('pur!%d' % k, t.sort())
        cache[k] = (t, r)
        return r
    out = []
    for f in fs:
        try:
            out.append(go(f))
        except ValueError:
            continue
    return out


_MEMO = {}      # results per formula (which is kept alive)


def memo(name, f, compute):
    k = (name, f.get_id())
    r = _MEMO.get(k)
    if r is None:
        if len(_MEMO) > 400000:
            _MEMO.clear()
        r = _MEMO[k] = (f, compute(f))
    return r[1]


def abstract_products(fs):
    """products of unknowns in quantifier-free formulas as an uninterpreted
    function of which only the sign is known: a sound weakening that is
    decided by congruence and linear arithmetic. None when there are none"""
    R = z3.RealSort()
    mul = z3.Function('mul!r', R, R, R)

    def go(t):
        """the term and the products in it"""
        if not z3.is_app(t) or not t.num_args():
            return t, ()
        sub = [memo('mul', c, go) for c in t.children()]
        ch, terms = [c for c, _ in sub], {}
        for _, ts in sub:
            terms.update((x.get_id(), x) for x in ts)
        if t.decl().kind() == z3.Z3_OP_MUL and t.sort() == R:
            nums = [c for c in ch if z3.is_rational_value(c)]
            rest = [c for c in ch if not z3.is_rational_value(c)]
            if len(rest) > 1:
                r = rest[0]
                for c in rest[1:]:
                    r = mul(r, c)
                    terms[r.get_id()] = r
                for c in nums:
                    r = c * r
            else:
                r = z3.Product(*ch)
        elif not terms:
            r = t
        else:
            r = rebuild(t, ch)
        return r, tuple(terms.values())
    out, terms = [], {}
    for f in fs:
        if has_quant(f):
            out.append(f)
        else:
            r, ts = memo('mul', f, go)
            out.append(r)
            terms.update((x.get_id(), x) for x in ts)
    if not terms:
        return None
    for t in terms.values():
        a, b = t.arg(0), t.arg(1)
        out += [z3.Implies(z3.Or(a == 0, b == 0), t == 0), z3.Implies(z3.And(a > 0, b > 0), t > 0),
                z3.Implies(z3.And(a < 0, b < 0), t > 0), z3.Implies(z3.And(a > 0, b < 0), t < 0),
                z3.Implies(z3.And(a < 0, b > 0), t < 0)]
    return out


def parts(f):
    """conjuncts of a fact, below the condition it holds under"""
    if z3.is_app_of(f, z3.Z3_OP_IMPLIES):
        return [z3.Implies(f.arg(0), g) for g in conjuncts(f.arg(1))]
    return conjuncts(f)


def productless(f):
    """the conjuncts of a fact without products of unknowns"""
    return memo('parts', f, lambda f: [g for g in parts(f) if not has_products(g)])


def rebuild(t, ch):
    k = t.decl().kind()
    if k == z3.Z3_OP_AND:
        return z3.And(*ch)
    if k == z3.Z3_OP_OR:
        return z3.Or(*ch)
    if k == z3.Z3_OP_ADD:
        return z3.Sum(*ch)
    if k == z3.Z3_OP_MUL:
        return z3.Product(*ch)
    if k == z3.Z3_OP_DISTINCT:
        return z3.Distinct(*ch)
    if k == z3.Z3_OP_SUB:
        r = ch[0]
        for c in ch[1:]:
            r = r - c
        return r
    return t.decl()(*ch)


def has_products(f):
    return memo('prod', f, _has_products)


def _has_products(x):
    if z3.is_quantifier(x):
        return has_products(x.body())
    if not z3.is_app(x) or not x.num_args():
        return False
    ch = x.children()
    if x.decl().kind() == z3.Z3_OP_MUL and sum(not z3.is_rational_value(c) and not z3.is_int_value(c) for c in ch) > 1:
        return True
    return any(has_products(c) for c in ch)


def symbols(f, acc=None):
    acc = set() if acc is None else acc
    todo, seen = [f], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(x.decl().name())
            todo += x.children()
    return acc


def cvc5_check(fs, timeout):
    s = z3.Solver()
    for f in fs:
        s.add(f)
    txt = s.to_smt2()
    fd, path = tempfile.mkstemp(suffix='.smt2')
    try:
        with os.fdopen(fd, 'w') as h:
            h.write('(set-logic ALL)\n' + txt)
        r = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), path], capture_output=True, text=True,
                           timeout=timeout + 5)
        out = r.stdout.strip().split('\n')[0]
        return out if out in ('sat', 'unsat') else 'unknown'
    except (subprocess.TimeoutExpired, OSError):
        return 'unknown'
    finally:
        os.unlink(path)


_SK = [0]


def opened(goal):
    """hypotheses and what is left to show: conditions assumed, universally
    quantified variables replaced by fresh constants"""
    hyps = []
    while True:
        if z3.is_app_of(goal, z3.Z3_OP_IMPLIES):
            hyps.append(goal.arg(0))
            goal = goal.arg(1)
        elif z3.is_quantifier(goal) and goal.is_forall():
            vs = []
            for i in range(goal.num_vars()):
                _SK[0] += 1
                vs.append(z3.Const('%s!sk%d' % (goal.var_name(i).split('!')[0], _SK[0]), goal.var_sort(i)))
            goal = z3.substitute_vars(goal.body(), *reversed(vs))
        else:
            return hyps, goal


def check(fs, goal, pc, timeout=6.0, want_model=True, deadline=None, use_cvc5=True):
    """returns (result, backend, model or None, seconds)"""
    hyps, goal = opened(goal)
    if z3.is_and(goal) and goal.num_args() > 1 and use_cvc5:
        # the hard ones piece by piece
        total, how = 0.0, 'z3'
        for g in conjuncts(goal):
            r, b, m, t = check(list(fs) + hyps, g, pc, timeout, want_model, deadline, use_cvc5)
            total += t
            if r != 'unsat':
                return r, b, m, total
            how = b if b != 'z3' else how
        return 'unsat', how, None, total
    t0 = time.time()
    neg = z3.Not(goal)
    base = list(fs) + [pc] + hyps + [neg]

    def left():
        return max(0.2, (deadline - time.time())) if deadline else 1e9

    def run(solver, fml, tmo, backend):
        solver.set('timeout', int(min(tmo, left()) * 1000))
        for f in fml:
            solver.add(f)
        try:
            r = solver.check()
        except z3.Z3Exception:
            return 'unknown', None
        return str(r), (solver.model() if r == z3.sat and want_model else None)
    # 1. quantifier-free part first (sound for unsat)
    qf = [f for f in base if not has_quant(f)]
    hq = len(qf) < len(base)
    cand = None
    if hq and not has_quant(neg):
        r, m = run(z3.Solver(), qf, min(2.0, timeout), 'z3')
        if r == 'unsat':
            return 'unsat', 'z3', None, time.time() - t0
        cand = m
    try:
        ab = abstract_products(base)
    except z3.Z3Exception:
        ab = None
    if ab is not None:
        # the facts without products are often enough
        if not has_products(neg):
            s = z3.Solver()
            s.set('smt.mbqi', False)
            r, m = run(s, [f for b in base for f in productless(b)], max(timeout, 4.0), 'z3')
            if r == 'unsat':
                return 'unsat', 'z3', None, time.time() - t0
        if hq and not has_quant(neg):
            r, m = run(z3.Solver(), [f for f in ab if not has_quant(f)], timeout, 'z3')
            if r == 'unsat':
                return 'unsat', 'z3 with products abstracted', None, time.time() - t0
        r, m = run(z3.Solver(), ab, timeout, 'z3')
        if r == 'unsat':
            return 'unsat', 'z3 with products abstracted', None, time.time() - t0
    r, m = run(z3.Solver(), base, timeout if hq else timeout, 'z3')
    if r == 'unsat':
        return 'unsat', 'z3', None, time.time() - t0
    if r == 'sat':
        return 'sat', 'z3', m, time.time() - t0
    # 2. nonlinear arithmetic
    try:
        pf = purify(qf)
        s = z3.Then('simplify', 'purify-arith', 'elim-term-ite', 'qfnra-nlsat').solver()
        r2, m2 = run(s, pf, timeout, 'nlsat')
        if r2 == 'unsat':
            return 'unsat', 'z3-nlsat', None, time.time() - t0
    except (z3.Z3Exception, ValueError):
        pass
    # 3. other strategies
    s = z3.SolverFor('AUFLIRA') if False else z3.Solver()
    s.set('smt.arith.solver', 2)
    s.set('smt.mbqi', False)
    r3, m3 = run(s, base, timeout, 'z3-old')
    if r3 == 'unsat':
        return 'unsat', 'z3-arith2', None, time.time() - t0
    if use_cvc5 and left() > 1:
        r4 = cvc5_check(base, min(timeout, left()))
        if r4 == 'unsat':
            return 'unsat', 'cvc5', None, time.time() - t0
    return 'unknown', 'z3+cvc5', cand, time.time() - t0
