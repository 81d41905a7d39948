"""Contracts monitored during whole executions of the real code: every call
of a function under contract is checked against its contract, whoever calls
it. Bounded: it covers the calls that happen."""
import inspect
import sys
import time
import random

from . import concrete
from . import spec as SP
from .contract import FIELDS
from .types import *
from .types import TRef, TList, TOpt


class Monitor:
    def __init__(self, contracts, sample=1.0, rng=None, limit=None):
        self.contracts = contracts
        self.calls, self.skipped, self.violation = {}, {}, None
        self.distinct = set()
        self.sample, self.rng = sample, rng or random.Random(0)
        self.notes = {}
        self.undo = []
        self.suspended = 0
        self.limit = limit          # per contract and execution
        self.count = {}

    def wrapper(self, c, fn):
        sig = inspect.signature(fn)
        params = list(sig.parameters.values())

        def w(*a, **kw):
            if self.suspended or self.violation or (self.limit and self.count.get(c.id, 0) >= self.limit) \
                    or self.rng.random() > self.sample:
                return fn(*a, **kw)
            try:
                b = sig.bind(*a, **kw)
                b.apply_defaults()
            except TypeError:
                return fn(*a, **kw)
            env = {}
            for p in params:
                v = b.arguments[p.name]
                if p.kind is p.VAR_POSITIONAL:
                    v = list(v)
                env[p.name] = v
            if not all(fits(env[k], t) for k, t in c.params.items() if k in env):
                return fn(*a, **kw)
            if any(p.kind in (p.VAR_POSITIONAL, p.VAR_KEYWORD) for p in params):
                return fn(*a, **kw)
            self.count[c.id] = self.count.get(c.id, 0) + 1
            called = []

            def call(**kw2):
                called.append(1)
                return fn(**kw2)
            pre = None
            try:
                pre = '; '.join('%s = %s' % (k, concrete.describe(v)) for k, v in env.items()) if len(self.distinct) < 5000 else None
                bad, out = concrete.check_call(c, env, FIELDS, None, call)
            except concrete.Timeout:
                raise
            except Exception as e:
                self.notes[c.id] = '%s: %s' % (type(e).__name__, e)
                if not called:
                    return fn(*a, **kw)
                raise MonitorGone() from e
            if bad is None:
                self.skipped[c.id] = self.skipped.get(c.id, 0) + 1
                if c.pre_always and not self.violation:
                    self.violation = {'contract': c.id, 'violated': ['precondition ' + str(out)], 'input': pre}
                return fn(*a, **kw)
            self.calls[c.id] = self.calls.get(c.id, 0) + 1
            if pre is not None:
                self.distinct.add(hash(pre))
            bad = [x for x in bad if not x.startswith('safety') and not x.startswith('termination')]
            if bad and not self.violation:
                self.violation = {'contract': c.id, 'violated': bad, 'input': pre}
            if out[0] == 'exc':
                raise out[1]
            return out[1]
        w.__name__ = getattr(fn, '__name__', 'w')
        w.__wrapped_by_monitor__ = True
        return w

    def install(self):
        mods = [m for n, m in list(sys.modules.items()) if n.startswith('wagyu.') and m is not None]
        by_qual = {}
        for c in self.contracts:
            by_qual.setdefault(c.qual, []).append(c)
        for qual, cs in by_qual.items():
            c = cs[0]
            try:
                real = concrete.real_function(qual)
                if not concrete.signature_matches(c, real):
                    self.notes[c.id] = 'signature changed'
                    continue
                parts = qual.replace('!set', '').split('.')
                m = concrete.module(parts[0])
                if len(parts) == 2:
                    f = getattr(m, parts[1])
                    w = f
                    for c in cs:
                        w = self.wrapper(c, w)
                    for mod in mods:
                        for k, v in list(vars(mod).items()):
                            if v is f:
                                self.undo.append((mod, k, f))
                                setattr(mod, k, w)
                else:
                    k = getattr(m, parts[1])
                    d = k.__dict__[parts[2]]
                    if isinstance(d, property):
                        if qual.endswith('!set'):
                            w = property(d.fget, self.wrapper(c, d.fset))
                        else:
                            w = property(self.wrapper(c, d.fget), d.fset)
                    elif isinstance(d, (classmethod, staticmethod)):
                        continue
                    else:
                        w = d
                        for c in cs:
                            w = self.wrapper(c, w)
                    self.undo.append((k, parts[2], d))
                    setattr(k, parts[2], w)
            except (AttributeError, KeyError, ImportError) as e:
                self.notes[c.id] = 'function not found: %s' % e

    def remove(self):
        for o, k, v in reversed(self.undo):
            setattr(o, k, v)
        self.undo = []


def fits(v, t):
    """the argument has the declared type of the contract"""
    if isinstance(t, TRef):
        return v is None and t.opt or type(v).__name__ == t.cls
    if isinstance(t, TList):
        return isinstance(v, list) and all(fits(x, t.elem) for x in v[:50])
    if isinstance(t, TOpt):
        return v is None or fits(v, t.inner)
    if t == INT or t == REAL:
        return isinstance(v, (int, float)) and not isinstance(v, bool)
    return True


class MonitorGone(Exception):
    pass


def task(contracts, gen, execute, seconds, seed, limit=40):
    """run generated executions of the real code with every contract active"""
    rng = random.Random(seed)
    out = {'evals': 0, 'distinct': 0, 'violation': None, 'samples': [], 'executions': 0, 'gone': 0}
    M = Monitor(contracts, rng=rng, limit=limit)
    t0 = time.time()
    M.install()
    try:
        while time.time() - t0 < seconds and not M.violation:
            case = gen(rng)
            M.count = {}
            try:
                concrete.timed(lambda: execute(case), 10)
            except concrete.Timeout:
                pass
            except MonitorGone:
                out['gone'] += 1
                if out['gone'] > 20:
                    break
            except Exception:
                pass
            out['executions'] += 1
            if len(out['samples']) < 2:
                out['samples'].append(str(case)[:300])
            if M.violation:
                out['violation'] = dict(M.violation, execution=str(case))
    finally:
        M.remove()
    out['evals'] = sum(M.calls.values())
    out['calls'] = M.calls
    out['outside_precondition'] = M.skipped
    out['distinct'] = len(M.distinct)
    out['notes'] = M.notes
    out['wall'] = round(time.time() - t0, 2)
    return out
