"""Inputs of whole operations (deterministic per seed)."""


def rectil(rng, n):
    """rectilinear ring: every crossing is a grid point"""
    k = rng.choice([4, 4, 6, 8])
    pts = []
    x, y = rng.randrange(n), rng.randrange(n)
    for _ in range(k // 2):
        x2 = rng.randrange(n)
        pts.append((x, y))
        pts.append((x2, y))
        x, y = x2, rng.randrange(n)
        pts.append((x, y))
    pts.append((pts[0][0], y))
    return pts + [pts[0]]


def octil(rng, n):
    """edges horizontal, vertical or diagonal on even points: every crossing
    is a grid point"""
    k = rng.randrange(2, 7)
    x, y = 2 * rng.randrange(n // 2 + 1), 2 * rng.randrange(n // 2 + 1)
    pts = [(x, y)]
    for _ in range(k):
        for _ in range(10):
            dx, dy = rng.choice([(1, 0), (0, 1), (-1, 0), (0, -1), (1, 1), (1, -1), (-1, 1), (-1, -1)])
            s = 2 * rng.randrange(1, n // 2 + 1)
            if 0 <= x + dx * s <= n and 0 <= y + dy * s <= n:
                break
        else:
            continue
        x += dx * s
        y += dy * s
        pts.append((x, y))
    x0, y0 = pts[0]
    if x != x0 and y != y0:
        pts.append((x0, y))
    return pts + [pts[0]]


def box(rng, n):
    x, y = rng.randrange(n), rng.randrange(n)
    w, h = rng.randrange(1, n + 1), rng.randrange(1, n + 1)
    p = [(x, y), (x + w, y), (x + w, y + h), (x, y + h), (x, y)]
    return p if rng.random() < .5 else p[::-1]


def nested(rng, n):
    """concentric boxes and diamonds, some touching"""
    out = []
    m = 2 * (n // 2)
    lo, hi = 0, m
    while hi - lo >= 2 and len(out) < 4:
        c = (lo + hi) // 2
        if (hi - lo) % 4 == 0 and rng.random() < .4:
            p = [(c, lo), (hi, c), (c, hi), (lo, c), (c, lo)]
        else:
            p = [(lo, lo), (hi, lo), (hi, hi), (lo, hi), (lo, lo)]
        out.append(p if rng.random() < .5 else p[::-1])
        d = rng.choice([0, 2, 2, 4])
        lo, hi = lo + d, hi - d
    return out


def general(rng, n):
    k = rng.randrange(3, 7)
    pts = [(rng.randrange(n), rng.randrange(n)) for _ in range(k)]
    return pts + [pts[0]]


def star(rng, n):
    """general ring, larger coordinates"""
    k = rng.randrange(4, 9)
    pts = [(rng.randrange(-n, n), rng.randrange(-n, n)) for _ in range(k)]
    if rng.random() < .2:
        pts.insert(rng.randrange(len(pts)), rng.choice(pts))
    return pts + [pts[0]]


def doubled(g):
    return lambda rng, n: [(2 * x, 2 * y) for x, y in g(rng, max(2, n // 2))]


RECT = (rectil, rectil, box)
OCT = (octil, octil, octil, doubled(rectil), doubled(box))


def exact_case(rng, n=None):
    """every crossing of two edges is a grid point"""
    n = n or rng.choice([4, 6, 6, 8, 10])
    r = rng.random()
    fam = RECT if r < .3 else OCT
    if r > .85:
        subj, clip = nested(rng, n), [rng.choice(OCT)(rng, n) for _ in range(rng.choice([0, 1]))]
        if rng.random() < .3:
            clip = nested(rng, n)
    else:
        subj = [rng.choice(fam)(rng, n) for _ in range(rng.choice([1, 1, 2, 3]))]
        clip = [rng.choice(fam)(rng, n) for _ in range(rng.choice([0, 1, 1, 2]))]
    if rng.random() < .05:
        subj, clip = clip, subj
    m = max([v for r in subj + clip for p in r for v in p] or [0])
    return dict(subj=subj, clip=clip, op=rng.choice(OPS), sf=rng.randrange(4), cf=rng.randrange(4),
                rev=rng.random() < .4, n=m)


def general_case(rng, n=None):
    n = n or rng.choice([5, 6, 8, 12, 20])
    big = rng.random() < .25
    g = (lambda q, m: star(q, 10 ** rng.choice([2, 3, 6]))) if big else general
    subj = [g(rng, n) for _ in range(rng.choice([1, 1, 2, 3]))]
    clip = [g(rng, n) for _ in range(rng.choice([0, 1, 1, 2]))]
    return dict(subj=subj, clip=clip, op=rng.choice(OPS), sf=rng.randrange(4), cf=rng.randrange(4),
                rev=rng.random() < .4, n=n)


def any_case(rng):
    return exact_case(rng) if rng.random() < .5 else general_case(rng)


OPS = ('intersect', 'unite', 'subtract', 'symmetric_subtract')
