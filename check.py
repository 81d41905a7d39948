#!/usr/bin/env python3-vt
"""check.py PROPERTY [quick|thorough]   decide one property
   check.py --replay FILE               run a recorded failing input again"""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'

from pyvc import run, src, spec, concrete, monitor       # noqa
from pyvc.contract import REG                            # noqa
import contracts                                         # noqa
from e2e import tasks as T                               # noqa
from e2e import watch                                    # noqa
from e2e import cases as G, real, native                         # noqa

TRUSTED = [
    'pyvc (this repository): translation of the Python subset to verification conditions (symbolic executor, heap model, loop rule, builtin models); re-run on the source text of /repo at every run',
    'z3 4.x / cvc5 1.1.2 answering unsat correctly',
    'CPython semantics of the modelled builtins (list, sorted, filter, enumerate, range, min/max/abs, struct, ctypes, decimal quantize)',
]


def load():
    contracts.load()
    prog = src.Program()
    spec._Enums.prog = prog
    return prog


def jobs_of(prop, tier, seed, prog):
    cs = [c for c in REG.all if prop in c.props and (tier == 'thorough' or c.tier == 'quick')]
    scale = 1 if tier == 'quick' else 8
    jobs = []
    for c in sorted(cs, key=lambda c: -c.budget):
        if c.prove:
            b = c.budget * (1 if tier == 'quick' else 3)
            jobs.append((('prove', c.id), run.prove, (c, prog, b), b + 60))
    ts = [t for t in T.TASKS if prop in t.props]
    total = sum(t.weight for t in ts)
    # end-to-end share: about 8 cpu x 35 s
    for t in ts:
        shards = max(1, round(8 * t.weight / total))
        for k in range(shards):
            sec = t.seconds * scale if getattr(t, 'seconds', None) else 32 * scale
            jobs.append((('e2e', t.name, k), T.run_task, (t, sec, '%s-%d' % (seed, k)), sec + 60))
    mon = [c for c in cs if c.monitor and not c.fp]
    if mon:
        for k in range(4 if not ts else 2):
            sec = 20 * scale
            jobs.append((('monitor', k), monitor.task, (mon, G.any_case, real.run, sec, '%s-%d' % (seed, k)), sec + 60))
    for c in cs:
        if c.gen is not None:
            sec = (c.conc_time or 4) * scale
            jobs.append((('bounded', c.id), run.bounded, (c, sec, '%s-%s' % (seed, c.id)), sec + 60))
    return cs, ts, jobs


def decide(prop, tier, seed):
    t0 = time.time()
    prog = load()
    known = known_findings(prop)
    T.KNOWN[:] = known
    cs, ts, jobs = jobs_of(prop, tier, seed, prog)
    pre_notes = []
    if prop in NATIVE:
        err = native.prepare()
        if err:
            print('%s: the native library does not compile: %s' % (prop, err[-600:]))
            return 2
        os.environ['VERIF_PROGRESS'] = os.path.join(native.STATE['dir'], 'case')
    try:
        return decide2(prop, tier, seed, t0, known, cs, ts, jobs)
    finally:
        native.cleanup()


def native_crash(ts):
    """a worker died or hung inside the native library: find the case"""
    import glob
    import subprocess
    for p in glob.glob(os.environ['VERIF_PROGRESS'] + '-*'):
        try:
            r = subprocess.run([sys.executable, os.path.abspath(__file__), '--native-case', p,
                                native.STATE['dir']], timeout=40, capture_output=True)
            if r.returncode >= 0:
                continue
            what = 'killed by signal %d' % -r.returncode
        except subprocess.TimeoutExpired:
            what = 'no result within 40 s'
        case = eval(open(p).read(), {})
        return {'violated': ['termination: the native library: %s' % what], 'input': repr(case), 'case': case,
                'task': ts[0].name}
    return None


def recorded(known):
    """run the recorded failing inputs again"""
    lines, viol = [], []
    for k in known:
        if 'input' not in k:
            continue
        t = next(t for t in T.TASKS if t.name == k['task'])
        bad = T.run_case(t, eval(k['input'], {}))
        if bad:
            lines.append(k['what'])
    return lines


def decide2(prop, tier, seed, t0, known, cs, ts, jobs):
    said = recorded(known)
    res = run.parallel(jobs, jobs=int(os.environ.get('VERIF_JOBS', '8')))
    by = {c.id: c for c in cs}
    violations = []
    obligations = discharged = 0
    backends, solver_s = {}, 0.0
    assumptions = set()
    functions = []
    evals = distinct = 0
    samples = []
    notes = []
    for key, r in sorted(res.items(), key=lambda kr: str(kr[0])):
        if 'crash' in r:
            notes.append('%s: %s' % (key, r['crash']))
            if os.environ.get('VERIF_DEBUG'):
                print(key, r)
            if prop in NATIVE and key[0] == 'e2e':
                v = native_crash(ts)
                if v:
                    violations.append(dict(v, kind='e2e', contract=key[1], seed=seed))
            continue
        if key[0] == 'prove':
            c = by[key[1]]
            n = len(r['obligations'])
            d = sum(o['result'] == 'discharged' for o in r['obligations'])
            obligations += n
            discharged += d
            for o in r['obligations']:
                solver_s += o['time']
                if o['result'] == 'discharged':
                    backends[o['backend']] = backends.get(o['backend'], 0) + 1
            assumptions.update(r['assumptions'])
            f = {'contract': c.id, 'status': r['status'], 'obligations': n, 'discharged': d,
                 'relies_on': sorted(r.get('used_contracts', {}))}
            if r['note']:
                f['note'] = r['note']
            if r['status'] != 'proved':
                f['undischarged'] = r.get('failed', [])[:20]
                f['decided_by'] = 'bounded'
            functions.append(f)
            if r['replay']:
                violations.append({'kind': 'counter-model', 'contract': c.id, 'obligation': r['replay']['obligation'],
                                   'violated': r['replay']['violated'], 'input': r['replay']['input']})
            elif r['status'] == 'refuted' and not c.loops and c.decides:
                outs = [x['outcome'] for x in r.get('replays', [])]
                if outs and all(x == 'no input' for x in outs):
                    violations.append({'kind': 'refuted', 'contract': c.id, 'obligation': r['failed'][0],
                                       'violated': r['failed'], 'input': None, 'model': r.get('model')})
            elif r['status'] == 'vacuous':
                notes.append('%s: %s' % (c.id, r['note']))
        else:
            for i in r.get('known', {}):
                if known[i]['what'] not in said:
                    said.append(known[i]['what'])
            evals += r['evals']
            distinct += r['distinct']
            for s in r.get('samples', [])[:1]:
                if len(samples) < 8:
                    samples.append('%s: %s' % (key[1] if key[0] != 'monitor' else 'monitored execution', s))
            if r.get('note'):
                notes.append('%s: %s' % (key[1], r['note']))
            if os.environ.get('VERIF_DEBUG') and r.get('harness_error'):
                print(key, r['harness_error'])
            if r.get('violation'):
                v = dict(r['violation'])
                v['kind'] = key[0]
                v.setdefault('contract', key[1])
                v['seed'] = seed
                violations.append(v)
    bounded_only = sorted(c.id for c in cs if not c.prove) + sorted('whole operation: ' + t.name for t in ts)
    proved = [f for f in functions if f['status'] == 'proved']
    level = LEVEL.get(prop, 'proof' if proved else 'exploration')
    cov = {
        'obligations': obligations, 'discharged': discharged,
        'checker_cmd': 'python3-vt check.py %s %s' % (prop, tier),
        'trusted_base': TRUSTED,
        'functions_under_contract': functions,
        'functions_proved': len(proved), 'backends': backends, 'solver_s': round(solver_s, 1),
        'bounded_stand_ins': bounded_only + ['unproved obligations of ' + f['contract'] for f in functions if f['status'] != 'proved'],
        'evaluations': evals, 'distinct_nontrivial': distinct,
        'rule': 'bounded part (never counted as proved): contracts evaluated on the real functions for generated inputs inside their precondition, on every call during generated whole operations, and '
                + ('; '.join('%s (%s)' % (t.name, t.rule) for t in ts) or 'no whole-operation task')
                + '; distinct counts different inputs',
        'samples': samples or ['none'],
        'calls_monitored': {},
    }
    for key, r in res.items():
        if key[0] == 'monitor' and 'calls' in r:
            for k, v in r['calls'].items():
                cov['calls_monitored'][k] = cov['calls_monitored'].get(k, 0) + v
    if notes:
        cov['notes'] = notes[:60]
    ev = {'property': prop, 'tier': tier, 'seed': int(seed) if str(seed).isdigit() else 0, 'level': level,
          'coverage': cov, 'assumptions': sorted(assumptions) + ASSUME.get(prop, []),
          'wall_s': round(time.time() - t0, 1), 'violations': len(violations)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for w in said:
        print('KNOWN-FINDING: property=%s %s' % (prop, w))
    code = 0
    d = os.path.join(HERE, 'replays', prop)
    n = 0
    for v in order(violations):
        os.makedirs(d, exist_ok=True)
        n += 1
        path = os.path.join(d, '%d.json' % n)
        with open(path, 'w') as f:
            json.dump(dict(v, property=prop), f, indent=1, default=str)
        if n <= 5:
            print('%s: %s' % (v['contract'], '; '.join(v['violated'])[:300]))
            print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if v.get('input') else ' no-failing-input-found'))
        code = 1
    print('%s: %d/%d obligations discharged, %d of %d functions proved, %d bounded evaluations, %.0f s'
          % (prop, discharged, obligations, len(proved), len(functions), evals, time.time() - t0))
    return code


def order(vs):
    """failing inputs first"""
    return sorted(vs, key=lambda v: v.get('input') is None)


def known_findings(prop):
    try:
        with open(os.path.join(HERE, 'known_findings.json')) as f:
            return [k for k in json.load(f)['known'] if k['property'] == prop]
    except FileNotFoundError:
        return []


with open(os.path.join(HERE, 'MANIFEST.json')) as _f:
    LEVEL = {c['property']: c['level'] for c in json.load(_f)['checks']}
ASSUME = {}
NATIVE = ('C18',)


def selftest():
    """the engine proves what holds and refutes what does not"""
    from pyvc.contract import Contract
    prog = load()
    c = next(c for c in REG.all if c.qual == 'utils.round_half_up' and c.prove and not c.fp)
    r = run.prove(c, prog)
    ok = r['status'] == 'proved'
    print('selftest: %s %s (%d obligations)' % (c.id, r['status'], len(r['obligations'])))
    import copy
    d = copy.copy(c)
    d.ensures = lambda o, n, r: {'wrong': r > o.number + 5}
    r = run.prove(d, prog)
    print('selftest: a false postcondition is %s' % r['status'])
    ok = ok and r['status'] != 'proved'
    return 0 if ok else 1


def replay(path):
    with open(path) as f:
        v = json.load(f)
    load()
    if v.get('task'):
        t = next(t for t in T.TASKS if t.name == v['task'])
        case = eval(v['input'], {}) if isinstance(v['input'], str) else v['case']
        bad = T.run_case(t, case)
        print('input:', case)
        print('violated:', bad)
        return 1 if bad else 0
    print(json.dumps(v, indent=1))
    if v['kind'] == 'bounded':
        c = next(c for c in REG.all if c.id == v['contract'])
        r = run.bounded(c, 60, '%s-%s' % (v['seed'], c.id))
        print('again:', r['violation'])
        return 1 if r['violation'] else 0
    return 1


if __name__ == '__main__':
    if sys.argv[1] == '--replay':
        sys.exit(replay(sys.argv[2]))
    if sys.argv[1] == '--selftest':
        sys.exit(selftest())
    if sys.argv[1] == '--native-case':
        native.STATE['dir'] = sys.argv[3]
        native.outcome(eval(open(sys.argv[2]).read(), {}))
        sys.exit(0)
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(decide(sys.argv[1], tier, os.environ.get('VERIF_SEED', '1')))
