"""Bounded checks of whole operations: the postconditions of the public entry
points, evaluated on generated inputs of the real code. A task returns
(violations, description of the case) per case."""
import math
import os
import random
import time
from fractions import Fraction as Fr

from pyvc import concrete
from . import cases as G
from . import oracle as O
from . import real

TASKS = []


class Task:
    def __init__(self, name, props, gen, check, rule, weight):
        self.name, self.props, self.gen, self.check = name, tuple(props), gen, check
        self.rule, self.weight = rule, weight


def task(name, props, gen, rule, weight=1):
    def deco(fn):
        TASKS.append(Task(name, props, gen, fn, rule, weight))
        return fn
    return deco


class Skip(Exception):
    pass


def run_task(t, seconds, seed):
    rng = random.Random('%s/%s' % (t.name, seed))
    out = {'id': 'e2e:' + t.name, 'evals': 0, 'distinct': 0, 'skipped': 0, 'violation': None, 'samples': [], 'known': {},
           'rule': t.rule}
    seen = set()
    t0 = time.time()
    while time.time() - t0 < seconds:
        case = t.gen(rng)
        bad = run_case(t, case)
        if bad is None:
            out['skipped'] += 1
            continue
        out['evals'] += 1
        key = repr(sorted(case.items()))
        seen.add(hash(key))
        if len(out['samples']) < 2:
            out['samples'].append(key[:400])
        if bad:
            k = known(t, bad)
            if k is not None and out['known'].get(k, 0) < 6:
                out['known'][k] = out['known'].get(k, 0) + 1
                continue
            case, bad = shrink(t, case, bad)
            if k is not None:
                bad = bad + ['more often than the recorded finding']
            out['violation'] = {'violated': bad, 'input': repr(case), 'case': case, 'task': t.name}
            break
    out['distinct'] = len(seen)
    out['wall'] = round(time.time() - t0, 2)
    return out


KNOWN = []      # recorded findings of the property (known_findings.json)


def known(t, bad):
    """index of the recorded finding this violation is an instance of"""
    text = '%s | %s' % (t.name, '; '.join(bad))
    for i, k in enumerate(KNOWN):
        if k.get('match') and t.name in k['tasks'] and all(m in text for m in k['match']):
            return i
    return None


def run_case(t, case, limit=20):
    try:
        return concrete.timed(lambda: t.check(case), limit)
    except Skip:
        return None
    except concrete.Timeout:
        return ['termination: no result within %d s' % limit]


def shrink(t, case, bad):
    """drop rings and vertices while the violation persists"""
    t0 = time.time()
    changed = True
    while changed and time.time() - t0 < 10:
        changed = False
        for key in ('subj', 'clip'):
            for i in range(len(case.get(key, ()))):
                c2 = dict(case, **{key: case[key][:i] + case[key][i + 1:]})
                b2 = safe(t, c2)
                if b2:
                    case, bad, changed = c2, b2, True
                    break
            else:
                continue
            break
    return case, bad


def safe(t, case):
    try:
        return run_case(t, case, 5)
    except Exception:
        return None


class Raised(Exception):
    pass


def outcome(case):
    try:
        return real.plain(real.run(case))
    except RecursionError:
        return 'RecursionError'
    except Exception as e:
        return '%s: %s' % (type(e).__name__, e)


# --------------------------------------------------------------- C01 region
@task('region on exact grids', ['C01'], G.exact_case,
      'rings whose edges all cross on grid points; non-trivial: result or expectation non-empty', 3)
def region_exact(case):
    res = outcome(case)
    if isinstance(res, str):
        return ['the operation failed: %s' % res]
    rr = O.tenfold([r for pg in res for r in pg])
    exp = O.expected10(case)
    for x, y in O.oct_samples(case['n']):
        got = sum(O.wn(r, x, y) for r in rr) % 2 != 0
        want = exp(x, y)
        if got != want:
            return ['postcondition region: point (%s/10, %s/10) is %s the result but %s the %s of the operands'
                    % (x, y, 'in' if got else 'not in', 'in' if want else 'not in', case['op'])]
    return []


@task('region of general polygons', ['C01'], G.general_case,
      'random rings; sample points farther than 1 from every input edge', 2)
def region_general(case):
    res = outcome(case)
    if isinstance(res, str):
        raise Skip()
    rr = [r for pg in res for r in pg]
    es = O.edges(case['subj'] + case['clip'])
    xs = [p[0] for r in case['subj'] + case['clip'] for p in r]
    ys = [p[1] for r in case['subj'] + case['clip'] for p in r]
    rng = random.Random(repr(sorted(case.items())))
    for _ in range(40):
        x, y = rng.uniform(min(xs) - 2, max(xs) + 2), rng.uniform(min(ys) - 2, max(ys) + 2)
        if any(O.dist2(x, y, a, b) <= 1.05 for a, b in es):
            continue
        got = sum(O.wn(r, x, y) for r in rr) % 2 != 0
        want = O.expected(case, x, y)
        if got != want:
            return ['postcondition region: point (%r, %r) is %s the result but %s the %s of the operands'
                    % (x, y, 'in' if got else 'not in', 'in' if want else 'not in', case['op'])]
    return []


# ------------------------------------------------------- C12, C14 structure
def structure(case, res):
    bad = []
    for pg in res:
        if not pg:
            bad.append('postcondition: a polygon without rings')
        for i, r in enumerate(pg):
            if not r or r[0] != r[-1]:
                bad.append('postcondition: an open ring')
                continue
            if len(r) < 4:
                bad.append('postcondition: a ring of fewer than three vertices')
            if any(a == b for a, b in zip(r, r[1:])):
                bad.append('postcondition: consecutive equal vertices')
            if len(set(r[:-1])) != len(r) - 1:
                bad.append('postcondition: a ring passing twice through one point')
            a = O.area2(r)
            if a == 0:
                bad.append('postcondition: a ring without area')
            elif (a > 0) != ((i == 0) != case['rev']):
                bad.append('postcondition: %s with the wrong orientation' % ('exterior' if i == 0 else 'hole'))
    return bad


@task('structure of results', ['C14'], G.any_case, 'random operands; non-trivial: a non-empty result', 2)
def structure_task(case):
    res = outcome(case)
    if isinstance(res, str) or not res:
        raise Skip()
    return structure(case, res)


def interior_point(r):
    """a point strictly inside a simple ring, near one of its vertices"""
    n = len(r) - 1
    s = 1 if O.area2(r) > 0 else -1
    for i in range(n):
        a, b, c = r[i - 1] if i else r[n - 1], r[i], r[(i + 1) % n]
        if s * ((b[0] - a[0]) * (c[1] - b[1]) - (b[1] - a[1]) * (c[0] - b[0])) > 0:
            q = Fr(1, 10 ** 7)
            p = (b[0] + q * (a[0] + c[0] - 2 * b[0]), b[1] + q * (a[1] + c[1] - 2 * b[1]))
            if O.wn(r, *p) != 0:
                return p
    return None


@task('nesting of results', ['C12', 'C14'], G.exact_case, 'operands with exact crossings; non-trivial: a non-empty result', 2)
def nesting(case):
    res = outcome(case)
    if isinstance(res, str) or not res:
        raise Skip()
    bad = []
    sgn = -1 if case['rev'] else 1
    rr = O.tenfold([r for pg in res for r in pg])
    for x, y in O.oct_samples(case['n']):
        w = sgn * sum(O.wn(r, x, y) for r in rr)
        if w not in (0, 1):
            return ['postcondition: nesting of all rings is not alternating at (%s/10, %s/10)' % (x, y)]
    ext = [pg[0] for pg in res]
    for k, pg in enumerate(res):
        for h in pg[1:]:
            p = interior_point(h)
            if p is None:
                continue
            owners = [j for j, e in enumerate(ext) if O.wn(e, *p) != 0]
            if k not in owners:
                bad.append('postcondition: a hole outside its own exterior')
                continue
            # innermost exterior that contains the hole is its own
            mine = abs(O.area2(ext[k]))
            if any(j != k and abs(O.area2(ext[j])) < mine
                   and abs(O.area2(ext[j])) > abs(O.area2(h)) for j in owners):
                bad.append('postcondition: a hole assigned to an outer polygon')
    return bad


# ------------------------------------------------------------- C15 purity
def prepared(w):
    return [(m.y, m.minimum_has_horizontal, [
        ([(e.bottom.x, e.bottom.y, e.top.x, e.top.y, e.slope) for e in b.edges], b.winding_delta, b.polygon_kind, id(b.maximum_bound))
        for b in (m.left_bound, m.right_bound)]) for m in w.minimums]


def content(x):
    return [(p.x, p.y, type(p.x), type(p.y)) for p in x.points], [id(p) for p in x.points]


def extent_of(w):
    ls = [e for m in w.minimums for b in (m.left_bound, m.right_bound) for e in b.edges]
    ps = [(p.x, p.y) for e in ls for p in (e.bottom, e.top)] or [(0, 0)]
    return (min(p[0] for p in ps), min(p[1] for p in ps), max(p[0] for p in ps), max(p[1] for p in ps))


@task('operands undisturbed, operations repeatable', ['C15'], G.any_case,
      'random operands; a random history of additions (rings and polygons, some of them repeated), removals of all '
      'operands, operations and extents queries on one object', 2)
def purity(case):
    W, P, R = concrete.cls('Wagyu'), concrete.cls('Point'), concrete.cls('LinearRing')
    K, F = concrete.cls('PolygonKind'), concrete.cls('FillKind')
    rng = random.Random(repr(sorted(case.items())))
    w = W(case['rev'])
    pool = [(R([P(*p) for p in r]), k, r) for k, rs in ((K.SUBJECT, case['subj']), (K.CLIP, case['clip'])) for r in rs]
    before = [content(x) for x, _, _ in pool]
    there, waiting, steps = [], list(pool), []

    def now():
        return dict(case, subj=[r for _, k, r in there if k is K.SUBJECT], clip=[r for _, k, r in there if k is K.CLIP])

    def unchanged():
        return [content(x) for x, _, _ in pool] == before

    def fresh(op, sf, cf):
        v = W(case['rev'])
        for _, k, r in there:
            v.add_linear_ring(R([P(*p) for p in r]), k)
        return real.plain(getattr(v, op)(F(sf), F(cf))), v
    for step in range(len(pool) + 7):
        what = rng.choice(['operate', 'operate', 'extents', 'again', 'clear'] if not waiting else ['add'] * 4 + ['operate', 'extents'])
        if what == 'again':
            if rng.random() < .5:
                continue
            waiting.append(rng.choice(pool))
            what = 'add'
        steps.append(what)
        if what == 'add':
            x, k, r = waiting.pop(0)
            if rng.random() < .3:
                w.add_polygon(concrete.cls('Polygon')([x]), k)
            else:
                w.add_linear_ring(x, k)
            there.append((x, k, r))
            if not unchanged():
                return ['frame: adding a ring changed a ring of the caller']
            continue
        state = prepared(w)
        if what == 'clear':
            if rng.random() < .6:
                continue
            w.clear()
            there, waiting = [], rng.sample(pool, rng.randint(0, len(pool)))
            continue
        if what == 'extents':
            b = w.bounds
            got, want = (b.minimum.x, b.minimum.y, b.maximum.x, b.maximum.y), extent_of(w)
            if got != want:
                return ['repeatability: after %s the extents are reported as %r, those of the edges are %r' % (', '.join(steps), got, want)]
            if rng.random() < .5:       # the answer is the caller's
                b.minimum.x = b.maximum.y = 77
        else:
            op, sf, cf = ((case['op'], case['sf'], case['cf']) if rng.random() < .6 else
                          (rng.choice(G.OPS), rng.randrange(4), rng.randrange(4)))
            try:
                r = real.plain(getattr(w, op)(F(sf), F(cf)))
                want, v = fresh(op, sf, cf)
            except RuntimeError:
                raise Skip()
            if r != want:
                return ['repeatability: after %s the operation %s(%d, %d) gives %r, on a fresh object %r' % (', '.join(steps), op, sf, cf, r, want)]
        if not unchanged():
            return ['frame: %s changed a ring of the caller' % what]
        if prepared(w) != state:
            return ['frame: %s changed the prepared operands' % what]
    return []


@task('extents', ['C15'], G.any_case, 'random operands')
def extents(case):
    w = real.build(case)
    ls = [e for m in w.minimums for b in (m.left_bound, m.right_bound) for e in b.edges]
    if not ls:
        raise Skip()
    pts = [(p.x, p.y) for e in ls for p in (e.bottom, e.top)]
    b = w.bounds
    got = (b.minimum.x, b.minimum.y, b.maximum.x, b.maximum.y)
    want = (min(p[0] for p in pts), min(p[1] for p in pts), max(p[0] for p in pts), max(p[1] for p in pts))
    return [] if got == want else ['postcondition: bounds %r, extents of the edges %r' % (got, want)]


# -------------------------------------------------------- C13 decomposition
def gen_ring(rng):
    n = rng.choice([3, 4, 6, 8])
    g = rng.choice([G.rectil, G.octil, G.general, G.general, G.star])
    r = g(rng, n)
    m = rng.random()
    if m < .3:                       # spikes, repeats, collinear runs
        k = rng.randrange(len(r) - 1)
        p, q = r[k], r[k + 1]
        ins = rng.choice([[p], [q, p], [(p[0] + q[0], p[1] + q[1]), p], [((p[0] + q[0]) // 2, (p[1] + q[1]) // 2)]])
        r = r[:k + 1] + ins + r[k + 1:]
    if rng.random() < .3:
        r = r[:-1]
    if rng.random() < .2:
        r = r[::-1]
    return dict(ring=r, kind=rng.randrange(2))


def lean(b):
    """where a chain is just above its horizontal start"""
    for e in b.edges:
        if e.bottom.y != e.top.y:
            return Fr(e.bottom.x), Fr(e.top.x - e.bottom.x) / Fr(e.bottom.y - e.top.y)


@task('decomposition keeps the boundary', ['C13'], gen_ring, 'random rings with spikes, repeats and collinear runs', 2)
def decomposition(case):
    ring = case['ring']
    w = concrete.cls('Wagyu')()
    P = concrete.cls('Point')
    K = concrete.cls('PolygonKind')(case['kind'])
    try:
        added = w.add_linear_ring(concrete.cls('LinearRing')([P(*p) for p in ring]), K)
    except RuntimeError as e:
        return ['safety: %s' % e]
    bad = []
    es = []
    for m in w.minimums:
        for b, side in ((m.left_bound, 0), (m.right_bound, 1)):
            if not b.edges:
                bad.append('postcondition: a chain without edges')
            if b.polygon_kind is not K:
                bad.append('postcondition: a chain of the other operand')
            for e in b.edges:
                if e.top.y > e.bottom.y:
                    bad.append('postcondition: an edge upside down')
                es.append((e, b.winding_delta))
            for e, f in zip(b.edges, b.edges[1:]):
                if (e.top.x, e.top.y) != (f.bottom.x, f.bottom.y):
                    bad.append('postcondition: a chain that is not connected')
        lb, rb = m.left_bound, m.right_bound
        if lb.edges and rb.edges:
            if (lb.edges[0].bottom.x, lb.edges[0].bottom.y) != (rb.edges[0].bottom.x, rb.edges[0].bottom.y):
                bad.append('postcondition: two chains of one minimum that start apart')
            if lb.winding_delta + rb.winding_delta != 0 or abs(lb.winding_delta) != 1:
                bad.append('postcondition: directions of the two chains of a minimum')
            if m.y != lb.edges[0].bottom.y:
                bad.append('postcondition: height of a minimum')
            if lb.side != 0 or rb.side != 1:
                bad.append('postcondition: sides of the chains')
            l, r = lean(lb), lean(rb)
            if l and r and l > r:
                bad.append('postcondition: the left chain of a minimum lies to the right')
    for m in w.minimums:
        for b in (m.left_bound, m.right_bound):
            t = b.maximum_bound
            if t is None or t.maximum_bound is not b or t is b:
                bad.append('postcondition: chains not paired at their maxima')
            elif (t.edges[-1].top.x, t.edges[-1].top.y) != (b.edges[-1].top.x, b.edges[-1].top.y):
                bad.append('postcondition: chains paired at different maxima')
    if bad:
        return sorted(set(bad))
    if bool(added) != bool(es):
        return ['postcondition: reports whether something was added']
    # the winding number around every point is unchanged
    xs, ys = [p[0] for p in ring], [p[1] for p in ring]
    rng = random.Random(repr(case))
    ref = ring if ring[0] == ring[-1] else ring + [ring[0]]
    pieces = O.edges([ref])
    sign = None
    for _ in range(60):
        x = Fr(rng.randrange(2 * min(xs) - 2, 2 * max(xs) + 3), 2) + Fr(1, 7)
        y = Fr(rng.randrange(2 * min(ys) - 2, 2 * max(ys) + 3), 2) + Fr(1, 11)
        if any(O.on_segment((x, y), a, b) for a, b in pieces):
            continue
        want = O.wn(ref, x, y)
        got = 0
        for e, d in es:
            if e.top.y < y <= e.bottom.y and e.top.y != e.bottom.y:
                ex = e.bottom.x + Fr(e.top.x - e.bottom.x) * (y - e.bottom.y) / (e.top.y - e.bottom.y)
                if ex < x:
                    got += d
        if want == 0 and got == 0:
            continue
        if abs(got) != abs(want):
            return ['postcondition: winding number %d of (%s, %s) became %d' % (want, x, y, got)]
        s = got * want > 0
        if sign is None:
            sign = s
        if s != sign or not s:
            return ['postcondition: winding number %d of (%s, %s) became %d' % (want, x, y, got)]
    return []


# ------------------------------------------------------------ C17 vertices
@task('provenance of vertices', ['C17'], G.any_case, 'random operands; non-trivial: a non-empty result', 2)
def provenance(case):
    res = outcome(case)
    if isinstance(res, str) or not res:
        raise Skip()
    es = O.edges(case['subj'] + case['clip'])
    ok = {p for r in case['subj'] + case['clip'] for p in r}
    near = None
    for pg in res:
        for r in pg:
            for p in r:
                if p in ok:
                    continue
                if near is None:
                    near = list(O.crossings(es))
                tol = Fr(1, 2) + Fr(1, 10 ** 6)
                if not any(abs(p[0] - x) <= tol and abs(p[1] - y) <= tol for x, y in near):
                    return ['postcondition: vertex %r is neither a vertex nor a rounded crossing of the operands' % (p,)]
                if any(v != int(v) for v in p):
                    return ['postcondition: crossing vertex %r off the grid' % (p,)]
    return []


@task('edges snapped to vertices', ['C17'], G.exact_case, 'operands with exact crossings; non-trivial: a non-empty result', 2)
def noding(case):
    """no vertex of the result lies inside an edge of the result"""
    res = outcome(case)
    if isinstance(res, str) or not res:
        raise Skip()
    vs = {p for pg in res for r in pg for p in r}
    twice = O.edges([[(2 * x, 2 * y) for x, y in r] for r in case['subj'] + case['clip']])
    for a, b in O.edges([r for pg in res for r in pg]):
        for p in vs:
            if p != a and p != b and O.on_segment(p, a, b):
                return ['postcondition: vertex %r inside the edge %r %r of the result' % (p, a, b)]
        g = math.gcd(b[0] - a[0], b[1] - a[1])
        sx, sy = (b[0] - a[0]) // g, (b[1] - a[1]) // g
        mids = [(2 * a[0] + (2 * k + 1) * sx, 2 * a[1] + (2 * k + 1) * sy) for k in range(g)]
        if not all(any(O.on_segment(m, c, d) for c, d in twice) for m in mids):
            return ['postcondition: edge %r %r of the result does not lie on an edge of the operands' % (a, b)]
    return []


# ------------------------------------------------ C18 agreement, C19 totality
def normal(res):
    def rr(r):
        r = [(float(x), float(y)) for x, y in r[:-1]]
        k = r.index(min(r)) if r else 0
        return r[k:] + r[:k]
    return sorted(sorted(rr(r) for r in pg) for pg in res)


def many_rings(rng):
    """more rings than the other generators make"""
    n = rng.choice([5, 8, 12])
    gs = rng.choice([(G.general,), (G.general, G.rectil, G.octil), (G.rectil, G.box), (G.octil,)])
    return dict(subj=[rng.choice(gs)(rng, n) for _ in range(rng.randrange(1, 5))],
                clip=[rng.choice(gs)(rng, n) for _ in range(rng.randrange(0, 5))],
                op=rng.choice(G.OPS), sf=rng.randrange(4), cf=rng.randrange(4), rev=rng.random() < .5, n=n)


def native_case(rng):
    return many_rings(rng) if rng.random() < .4 else G.any_case(rng)


def note(case):
    p = os.environ.get('VERIF_PROGRESS')
    if p:
        with open('%s-%d' % (p, os.getpid()), 'w') as f:
            f.write(repr(case))


@task('agreement with the native library', ['C18'], native_case,
      'random operands run by both implementations; the native one compiled from the current tree', 4)
def agreement(case):
    from . import native
    note(case)
    try:
        b = real.build(case).bounds
        ext = ((b.minimum.x, b.minimum.y), (b.maximum.x, b.maximum.y))
    except RecursionError:
        raise Skip()
    mine = outcome(case)
    theirs, ext2 = native.outcome(case)
    bad = []
    if ext != ext2:
        bad.append('postcondition: extents %s, native %s' % (ext, ext2))
    if isinstance(mine, str) or isinstance(theirs, str):
        if not (isinstance(mine, str) and isinstance(theirs, str) and mine.rstrip('.') == theirs.rstrip('.')):
            bad.append('postcondition: outcome %s, native %s' % (str(mine)[:200], str(theirs)[:200]))
    elif normal(mine) != normal(theirs):
        bad.append('postcondition: result %s, native %s' % (str(mine)[:200], str(theirs)[:200]))
    return bad


def totality(case):
    """no failure, no endless loop; the call site of a failure is named"""
    import traceback
    try:
        real.run(case)
    except concrete.Timeout:
        raise
    except Exception as e:
        fr = [f for f in traceback.extract_tb(e.__traceback__) if '/wagyu/' in f.filename]
        site = fr[-1].name if fr else '?'
        return ['postcondition completes: %s in %s: %s' % (type(e).__name__, site, str(e)[:120])]
    return []


task('completion on exact grids', ['C19'], G.exact_case, 'operands whose crossings are grid points', 2)(totality)
task('completion of general operands', ['C19'], G.general_case, 'random operands, coordinates up to 10^6', 2)(totality)
task('completion with many rings', ['C19'], many_rings, 'up to 8 rings', 2)(totality)
