"""Concrete evaluation of contracts on the real running code: replay of
counter-models, and the bounded stand-in."""
import importlib
import math
import os
import signal
import sys
import traceback
from fractions import Fraction

import z3

from .types import *
from .types import TNone, TInt, TReal, TBool, TXReal, TNReal
from . import spec as SP
from .src import REPO

sys.path.insert(0, REPO)
sys.path.append('/opt/venv/lib/python3.12/site-packages')
sys.dont_write_bytecode = True


def module(name):
    return importlib.import_module('wagyu.' + name)


CLS_MODULE = {'Point': 'point', 'PointNode': 'point_node', 'Box': 'box', 'Edge': 'edge', 'Bound': 'bound',
              'Ring': 'ring', 'LocalMinimum': 'local_minimum', 'LocalMinimumList': 'local_minimum',
              'LinearRing': 'linear_ring', 'Polygon': 'polygon', 'Multipolygon': 'polygon',
              'IntersectNode': 'intersect_node', 'RingManager': 'ring_manager', 'Wagyu': 'wagyu',
              'FillKind': 'enums', 'OperationKind': 'enums', 'PolygonKind': 'enums', 'EdgeSide': 'enums',
              'PointInPolygonResult': 'enums'}


def cls(name):
    return getattr(module(CLS_MODULE[name]), name)


def real_function(qual):
    """the real callable named by a qualified name, taking all parameters
    by keyword (self included)"""
    setter = qual.endswith('!set')
    parts = qual.replace('!set', '').split('.')
    obj = module(parts[0])
    if len(parts) == 2:
        return getattr(obj, parts[1])
    c = getattr(obj, parts[1])
    d = c.__dict__[parts[2]]
    if isinstance(d, property):
        return d.fset if setter else d.fget
    if isinstance(d, classmethod):
        f = getattr(c, parts[2])
        return lambda cls=None, **kw: f(**kw)
    if isinstance(d, staticmethod):
        return getattr(c, parts[2])
    return d


class Timeout(BaseException):
    pass


def _alarm(sig, frm):
    raise Timeout()


def timed(fn, seconds=10):
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return fn()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def describe(x, depth=0, seen=None):
    """readable rendering of an argument graph"""
    seen = {} if seen is None else seen
    n = type(x).__name__
    if isinstance(x, (list, tuple)):
        if id(x) in seen and isinstance(x, list):
            return '<list %d>' % seen[id(x)]
        return ('[%s]' if isinstance(x, list) else '(%s)') % ', '.join(describe(i, depth + 1, seen) for i in x)
    if n in CLS_MODULE and n not in ('FillKind', 'OperationKind', 'PolygonKind', 'EdgeSide', 'PointInPolygonResult'):
        if id(x) in seen:
            return '<%s %d>' % (n, seen[id(x)])
        seen[id(x)] = len(seen)
        if n == 'Point':
            return 'Point(%s, %s)' % (x.x, x.y)
        out = []
        for s in x.__slots__:
            try:
                v = SP.getattr_raw(x, s)
            except AttributeError:
                continue
            if isinstance(v, type(x)) and depth > 40:
                v = '...'
            out.append('%s=%s' % (s, describe(v, depth + 1, seen)))
        return '%s#%d(%s)' % (n, seen[id(x)], ', '.join(out))
    if callable(x):
        return '<callable %s>' % getattr(x, 'desc', '')
    return repr(x)


class Unavailable(Exception):
    """the code no longer has the shape this contract talks about"""


def run_contract(contract, env, fields, timeout=10, fn=None):
    """None if the precondition does not hold; else list of violated clauses
    (each a string)"""
    return check_call(contract, env, fields, timeout, fn)[0]


def check_call(contract, env, fields, timeout=10, fn=None):
    """(violations or None, ('ret', value) | ('exc', exception) | None)"""
    fn = fn or real_function(contract.qual)
    roots = list(env.values())
    snap = SP.Snapshot(roots, fields)
    ghosts = None
    o = SP.ConcView(env, fields, contract.params, snap=snap, roots_snap=snap)
    if contract.ghosts:
        try:
            ghosts = contract.ghosts.concrete(env)
        except ValueError:
            return None, None
        o.ghosts = o.G = ghosts
    req = contract.conc_requires or contract.requires
    if req is not None:
        for nm, f in named(req(o)):
            if not f:
                return None, nm
    expected = {}
    for exc, cf in contract.raises.items():
        expected[exc] = None if cf is None else bool(SP.And(cf(o)))
    logs = {}
    call_env = {}
    for k, v in env.items():
        t = contract.params.get(k)
        if isinstance(t, TFun) and t.log:
            logs[t.log] = []

            def rec(*a, _l=logs[t.log], _v=v):
                _l.append(a)
                return _v(*a) if callable(_v) else None
            call_env[k] = rec
        else:
            call_env[k] = v
    bad = []
    gen = False
    try:
        if timeout is None:
            r = fn(**call_env)
            if hasattr(r, '__next__'):
                r, gen = list(r), True
        else:
            r = timed(lambda: fn(**call_env), timeout)
            if hasattr(r, '__next__'):
                r, gen = timed(lambda: list(r), timeout), True
    except Timeout:
        if timeout is None:
            raise
        return ['termination: no result within %s s' % timeout], None
    except RecursionError as e:
        return ['termination: RecursionError'], ('exc', e)
    except Exception as e:
        name = type(e).__name__
        if name in expected and expected[name] is not False:
            return [], ('exc', e)
        return ['safety: unexpected %s: %s (%s)' % (name, e, traceback.format_exc().strip().split('\n')[-3].strip())], ('exc', e)
    out = ('ret', iter(r) if gen else r)
    for exc, must in expected.items():
        if must:
            bad.append('raises %s whenever required' % exc)
    n = SP.ConcView(env, fields, contract.params, snap=None, ghosts=ghosts, logs=logs, roots_snap=snap)
    rv = SP.cwrap(n, r, contract.ret)
    ens = contract.conc_ensures or contract.ensures
    if ens is not None:
        try:
            for nm, f in named(ens(o, n, rv)):
                if not f:
                    bad.append('postcondition ' + nm)
        except (AttributeError, TypeError, IndexError, KeyError) as e:
            if isinstance(e, SP.MissingField):
                raise Unavailable(str(e))
            bad.append('postcondition: result of an unexpected shape (%s: %s)' % (type(e).__name__, e))
    if not contract.noframe:
        bad += frame_violations(contract, o, snap, fields)
    return bad, out


def signature_matches(contract, fn):
    """the real function still takes the parameters the contract names"""
    import inspect
    try:
        ps = inspect.signature(fn).parameters
    except (TypeError, ValueError):
        return True
    if contract.params.get('cls', 0) == NONE:
        return True
    req = {n for n, p in ps.items() if p.default is p.empty and p.kind not in (p.VAR_POSITIONAL, p.VAR_KEYWORD)}
    names = set(contract.params)
    return req <= names and names <= set(ps)


def frame_violations(contract, o, snap, fields):
    allowed = {}
    preds = {}
    for comp, what in (contract.modifies(o) if contract.modifies else []):
        comp0 = comp.split('#')[0]
        if comp0.startswith('L.'):
            comp0 = 'LIST'
        if isinstance(what, str) or callable(what) and not type(what).__name__ in fields:
            preds.setdefault(comp0, []).append(what)
        else:
            allowed.setdefault(comp0, set()).add(id(what))
    bad = []
    for x in snap.keep:
        if isinstance(x, list):
            if contract.frame_only is not None:
                continue
            if len(x) != len(snap.objs[id(x)]) or any(a is not b for a, b in zip(x, snap.objs[id(x)])):
                ok = id(x) in allowed.get('LIST', ()) or any(
                    p == 'ALL' or p(x) for p in preds.get('LIST', []))
                if not ok:
                    bad.append('frame: content of a list outside the frame changed')
        elif isinstance(x, tuple):
            continue
        else:
            for f, v in snap.objs[id(x)].items():
                try:
                    w = SP.getattr_raw(x, f)
                except AttributeError:
                    w = None
                if w is not v and not (isinstance(w, (int, float, Fraction)) and not isinstance(w, bool)
                                       and (w == v or w != w and v != v)):
                    comp = '%s.%s' % (type(x).__name__, f)
                    ok = id(x) in allowed.get(comp, ()) or any(
                        p == 'ALL' or p(x) for p in preds.get(comp, []))
                    if contract.frame_only is not None and comp not in contract.frame_only:
                        ok = True
                    if not ok:
                        bad.append('frame: %s changed outside the frame' % comp)
    return sorted(set(bad))


def named(r):
    if r is None:
        return []
    if isinstance(r, dict):
        return [(k, bool(SP.And(v))) for k, v in r.items()]
    if isinstance(r, (list, tuple)):
        return [(str(i), bool(SP.And(v))) for i, v in enumerate(r)]
    return [('0', bool(r))]


# ------------------------------------------------------------ counter-models
class Concretizer:
    MAXLEN = 12
    MAXOBJ = 200

    def __init__(self, V, model, mode='exact'):
        self.V, self.m, self.mode = V, model, mode
        self.objs = {}
        self.lists = {}

    def ev(self, t):
        return self.m.eval(t, model_completion=True)

    def number(self, t, integer=False):
        v = self.ev(t)
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            f = Fraction(v.numerator_as_long(), v.denominator_as_long())
        elif z3.is_algebraic_value(v):
            a = v.approx(20)
            f = Fraction(a.numerator_as_long(), a.denominator_as_long())
        else:
            raise ValueError('number')
        if f.denominator == 1:
            return int(f)
        if self.mode == 'exact':
            return f
        return round(f * 8) / 8 if self.mode == 'dyadic' else float(f)

    def build(self, v):
        if isinstance(v, VTuple):
            return tuple(self.build(i) for i in v.items)
        if isinstance(v, VPy):
            raise ValueError('py value')
        t = v.t
        if isinstance(t, TNone):
            return None
        if isinstance(t, TInt):
            return self.number(v.a[0])
        if isinstance(t, TReal):
            return self.number(v.a[0])
        if isinstance(t, TBool):
            return z3.is_true(self.ev(v.a[0]))
        if isinstance(t, TXReal):
            return math.inf if z3.is_true(self.ev(v.a[0])) else self.number(v.a[1])
        if isinstance(t, TNReal):
            return math.nan if z3.is_true(self.ev(v.a[0])) else self.number(v.a[1])
        if t.key == 'fp':
            x = self.ev(z3.fpToIEEEBV(v.a[0])).as_long()
            import struct
            return struct.unpack('!d', x.to_bytes(8, 'big'))[0]
        if isinstance(t, TEnum):
            return cls(t.cls)(self.number(v.a[0]))
        if isinstance(t, TOpt):
            return None if z3.is_true(self.ev(v.a[0])) else self.build(V(t.inner, *v.a[1:]))
        if isinstance(t, TRef):
            r = self.number(v.a[0])
            if r == 0 and t.opt:
                return None
            return self.obj(t.cls, r)
        if isinstance(t, TList):
            r = self.number(v.a[0])
            if r == 0 and t.opt:
                return None
            return self.list(t.elem, r)
        raise ValueError('build %s' % t)

    def obj(self, cn, r):
        k = (cn, r)
        if k in self.objs:
            return self.objs[k]
        if len(self.objs) > self.MAXOBJ:
            raise ValueError('too many objects')
        c = cls(cn)
        x = c.__new__(c)
        # an object the model leaves open is new at every place it is needed
        self.objs[k if r > 0 else (cn, r, len(self.objs))] = x
        st = self.V.entry_state
        for f in self.V.fields[cn]:
            fv = self.V.read_field(st, z3.IntVal(r), cn, f, assume=False)
            d = None
            for q in type(x).__mro__:
                if f in q.__dict__ and type(q.__dict__[f]).__name__ == 'member_descriptor':
                    d = q.__dict__[f]
            val = self.build(fv)
            if d is not None:
                d.__set__(x, val)
            else:
                object.__setattr__(x, f, val)
        return x

    def list(self, elem, r):
        k = (self.V.lkey(elem), r)
        if k in self.lists:
            return self.lists[k]
        out = []
        if r > 0:
            self.lists[k] = out
        st = self.V.entry_state
        lv = V(TList(elem), z3.IntVal(r))
        n = self.number(self.V.list_len(st, lv))
        if n < 0 or n > self.MAXLEN:
            raise ValueError('list length %d' % n)
        for i in range(n):
            out.append(self.build(self.V.list_get(st, lv, z3.IntVal(i), assume=False)))
        return out

    def env(self):
        out = {}
        for k, v in self.V.entry_env.items():
            if k not in self.V.contract.params:
                continue
            t = self.V.contract.params[k]
            if isinstance(t, TFun):
                if t.log:
                    out[k] = None
                    continue
                raise ValueError('opaque function parameter')
            out[k] = self.build(v)
        return out


def replay(contract, V, model, fields):
    """(violated clauses, description) when the counter-model, turned into
    real objects, violates the contract on the real code; (None, why) when it
    could not be turned into an input; ([], desc) when the code satisfies the
    contract on it"""
    last = None
    for mode in ('exact', 'dyadic'):
        try:
            env = Concretizer(V, model, mode).env()
            desc = '; '.join('%s = %s' % (k, describe(v)) for k, v in env.items())
            bad = run_contract(contract, env, fields)
        except (ValueError, TypeError, AttributeError, ZeroDivisionError, RecursionError, IndexError, Unsupported) as e:
            last = (None, '%s: %s' % (type(e).__name__, e))
            continue
        if bad is None:
            last = last or (None, 'the rounded model does not satisfy the precondition')
            continue
        if bad and mode == 'exact' and any('TypeError' in b for b in bad):
            continue
        if bad:
            return bad, desc
        last = (bad, desc)
    return last
