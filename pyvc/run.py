"""Runs the contracts of one property: proof, concrete replay, bounded
stand-in; writes evidence; prints verdict lines."""
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

import z3

from .types import *
from . import spec as SP
from .src import Program, fingerprint, REPO
from .exec import Verifier, has_quant
from . import solve
from . import concrete
from .contract import REG, FIELDS, Contract


def prove(contract, prog, budget=None):
    """generate and discharge all obligations of one contract"""
    t0 = time.time()
    res = {'id': contract.id, 'qual': contract.qual, 'obligations': [], 'status': None, 'note': '',
           'assumptions': [], 'gen_s': 0.0, 'replay': None}
    fn = prog.funcs.get(contract.qual)
    if fn is None:
        res['status'], res['note'] = 'unsupported', 'function not found (renamed or removed)'
        return res
    budget = budget or contract.budget
    fields = FIELDS
    if contract.fp:
        fields = {k: {f: (FP if t == REAL else t) for f, t in v.items()} for k, v in FIELDS.items()}
    V = Verifier(prog, REG.for_contract(contract), fields, fp=contract.fp)
    try:
        obs = V.verify(contract, fn)
    except (Unsupported, RecursionError, z3.Z3Exception, KeyError, AttributeError, IndexError, TypeError, ValueError) as e:
        res['status'] = 'unsupported'
        tb = traceback.extract_tb(e.__traceback__)[-1]
        res['note'] = '%s: %s%s' % (type(e).__name__, e, '' if isinstance(e, Unsupported) else ' (%s:%s)' % (os.path.basename(tb.filename), tb.lineno))
        res['gen_s'] = time.time() - t0
        return res
    res['gen_s'] = round(time.time() - t0, 2)
    res['assumptions'] = sorted(V.assumptions)
    res['used_contracts'] = dict(V.used)
    # vacuity: the precondition is satisfiable
    s = z3.Solver()
    s.set('timeout', 3000)
    for f in V.facts[:V.nreq]:
        if not has_quant(f):
            s.add(f)
    r = s.check()
    res['pre_sat'] = str(r)
    if r == z3.unsat:
        res['status'], res['note'] = 'vacuous', 'contradictory precondition'
        return res
    deadline = t0 + budget
    status = 'proved'
    models = []
    def attempt(ob, timeout, use_cvc5):
        spent = ob.time or 0.0
        fs = V.facts_of(ob)
        if use_cvc5 and ob.kind == 'post':      # with the postconditions that hold already
            fs += [z3.Implies(x.pc, x.goal) for x in obs if x.kind == 'post' and x.res == 'discharged' and x.pc.eq(ob.pc)]
        ob.res, ob.backend, model, t = solve.check(fs, ob.goal, ob.pc, timeout=timeout,
                                                   deadline=deadline, use_cvc5=use_cvc5)
        ob.time = spent + t
        if ob.res == 'unsat':
            ob.res = 'discharged'
        elif ob.res == 'sat':
            ob.res = 'refuted'
            models.append((ob, model))
        elif model is not None and use_cvc5:
            models.append((ob, model))
    def run_all(todo, quick):
        for ob in todo:
            if time.time() > deadline:
                ob.res, ob.backend = 'unknown', 'budget exhausted'
            else:
                attempt(ob, min(2.0, contract.timeout) if quick else contract.timeout, not quick)
    # all obligations quickly first, then the rest of the budget on the hard ones
    for quick in (True, False):
        todo = [ob for ob in obs if quick or ob.res == 'unknown']
        if len(todo) < (150 if quick else 8):
            run_all(todo, quick)
            continue
        redo = split_work(todo, lambda part: run_all(part, quick), deadline)
        run_all(redo[:6], quick)
    for ob in obs:
        res['obligations'].append({'name': ob.name, 'kind': ob.kind, 'line': ob.line, 'result': ob.res,
                                   'backend': ob.backend, 'time': round(ob.time, 3)})
        if ob.res != 'discharged':
            if ob.res == 'refuted' and status != 'refuted':
                status = 'refuted'
            elif status == 'proved':
                status = 'undecided'
    if not obs:
        status, res['note'] = 'vacuous', 'no obligations generated'
    # reachability: some return is feasible
    res['returns'] = len(V.rets)
    res['status'] = status
    if status != 'proved':
        res['failed'] = [o['name'] for o in res['obligations'] if o['result'] != 'discharged']
    for ob, model in models[:6]:
        try:
            bad, desc = concrete.replay(contract, V, model, FIELDS)
        except Exception as e:      # noqa
            bad, desc = None, 'replay failed: %s: %s' % (type(e).__name__, e)
        if bad:
            res['replay'] = {'obligation': ob.name, 'violated': bad, 'input': desc}
            break
        res.setdefault('replays', []).append({'obligation': ob.name, 'outcome': 'satisfied' if bad == [] else 'no input', 'detail': desc[:400]})
        res['model'] = str(model)[:1500]
    res['wall'] = round(time.time() - t0, 2)
    return res


def split_work(todo, work, deadline, jobs=6):
    """obligations of a large contract, in forked processes; those with a
    counterexample (or whose process died) are returned, to be done here"""
    procs = []
    todo = list(todo)
    for w in range(jobs):
        part = todo[w::jobs]
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                work(part)
                with os.fdopen(wr, 'w') as h:
                    json.dump([(ob.res, ob.backend, ob.time) for ob in part], h)
            finally:
                os._exit(0)
        os.close(wr)
        procs.append((pid, r, part))
    redo = []
    for pid, r, part in procs:
        with os.fdopen(r) as h:
            txt = h.read()
        os.waitpid(pid, 0)
        got = json.loads(txt) if txt else []
        for ob, (res, backend, t) in zip(part, got):
            ob.res, ob.backend, ob.time = res, backend, t
            if res == 'refuted':
                redo.append(ob)
        if len(got) < len(part):
            for ob in part:
                ob.res, ob.backend, ob.time = 'unknown', 'solver process ended', ob.time or 0.0
    return redo


def bounded(contract, seconds, seed):
    """the contract evaluated on generated inputs of the real function"""
    out = {'id': contract.id, 'evals': 0, 'skipped': 0, 'distinct': 0, 'violation': None, 'samples': []}
    if contract.gen is None:
        return out
    rng = random.Random(seed)
    t0 = time.time()
    seen = set()
    try:
        fn = concrete.real_function(contract.qual)
    except (AttributeError, KeyError, ImportError) as e:
        out['note'] = 'function not found: %s' % e
        return out
    if not concrete.signature_matches(contract, fn):
        out['note'] = 'signature changed'
        return out
    for env in contract.gen(rng):
        if time.time() - t0 > seconds:
            break
        desc = None
        if len(out['samples']) < 3 or out['evals'] % 7 == 0:
            desc = '; '.join('%s = %s' % (k, concrete.describe(v)) for k, v in env.items())
        try:
            pre = concrete.describe(list(env.values())) if contract.modifies or desc is None else desc
            bad = concrete.run_contract(contract, env, FIELDS, fn=fn)
        except concrete.Unavailable as e:
            out['note'] = 'unavailable: %s' % e
            break
        except Exception as e:
            out['note'] = 'harness: %s: %s' % (type(e).__name__, e)
            out['harness_error'] = traceback.format_exc()[-1500:]
            break
        if bad is None:
            out['skipped'] += 1
            continue
        out['evals'] += 1
        seen.add(hash(pre))
        if len(out['samples']) < 2:
            out['samples'].append(pre[:300])
        if bad:
            out['violation'] = {'violated': bad, 'input': pre}
            break
    out['distinct'] = len(seen)
    out['wall'] = round(time.time() - t0, 2)
    return out


def _worker(conn, fn, args):
    os.setpgrp()
    try:
        conn.send(fn(*args))
    except BaseException as e:      # noqa
        conn.send({'crash': '%s: %s' % (type(e).__name__, e), 'tb': traceback.format_exc()[-2000:]})
    conn.close()


def parallel(tasks, jobs=8, progress=None):
    """tasks: list of (key, fn, args, hard time limit). Forked processes."""
    ctx = mp.get_context('fork')
    results, running, todo = {}, {}, list(tasks)
    while todo or running:
        while todo and len(running) < jobs:
            key, fn, args, limit = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_worker, args=(b, fn, args))
            p.start()
            b.close()
            running[key] = (p, a, time.time() + limit)
        done = []
        for key, (p, conn, dl) in running.items():
            if conn.poll(0.01):
                try:
                    results[key] = conn.recv()
                except EOFError:
                    results[key] = {'crash': 'worker died'}
                done.append(key)
            elif not p.is_alive():
                if conn.poll(0.05):
                    try:
                        results[key] = conn.recv()
                    except EOFError:
                        results[key] = {'crash': 'worker died'}
                else:
                    results[key] = {'crash': 'worker died'}
                done.append(key)
            elif time.time() > dl:
                results[key] = {'crash': 'time limit'}
                done.append(key)
        for key in done:
            p, conn, _ = running.pop(key)
            if p.is_alive():
                p.join(0.2)
                if p.is_alive():
                    try:
                        os.kill(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
            p.join()
            conn.close()
            if progress:
                progress(key, results[key])
        if not done:
            time.sleep(0.01)
    return results
