"""Mathematical definitions the results are compared with (exact rational
arithmetic, no code of the repository)."""
from fractions import Fraction as Fr


def wn(ring, x, y):
    """winding number of a ring around a point off its edges"""
    w, n = 0, len(ring)
    for i in range(n):
        x1, y1 = ring[i]
        x2, y2 = ring[(i + 1) % n]
        if (y1 <= y) != (y2 <= y):
            t = (x2 - x1) * (y - y1) - (x - x1) * (y2 - y1)
            if y2 > y1:
                if t > 0:
                    w += 1
            elif t < 0:
                w -= 1
    return w


EVEN_ODD, NON_ZERO, POSITIVE, NEGATIVE = range(4)


def filled(w, k):
    return w % 2 != 0 if k == EVEN_ODD else w != 0 if k == NON_ZERO else w > 0 if k == POSITIVE else w < 0


OP = {'intersect': lambda a, b: a and b, 'unite': lambda a, b: a or b,
      'subtract': lambda a, b: a and not b, 'symmetric_subtract': lambda a, b: a != b}


def expected10(case):
    """membership in the result region, at points given in tenths"""
    s, c = tenfold(case['subj']), tenfold(case['clip'])
    op, sf, cf = OP[case['op']], case['sf'], case['cf']
    return lambda x, y: op(filled(sum(wn(r, x, y) for r in s), sf), filled(sum(wn(r, x, y) for r in c), cf))


def expected(case, x, y):
    ws = sum(wn(r, x, y) for r in case['subj'])
    wc = sum(wn(r, x, y) for r in case['clip'])
    return OP[case['op']](filled(ws, case['sf']), filled(wc, case['cf']))


def oct_samples(n):
    """four points of every unit cell (in tenths), off all horizontal,
    vertical and diagonal lines through the grid"""
    for i in range(-10, 10 * n + 10, 10):
        for j in range(-10, 10 * n + 10, 10):
            for dx, dy in ((5, 2), (5, 8), (2, 5), (8, 5)):
                yield i + dx, j + dy


def tenfold(rings):
    return [[(10 * x, 10 * y) for x, y in r] for r in rings]


def dist2(x, y, a, b):
    (x1, y1), (x2, y2) = a, b
    dx, dy = x2 - x1, y2 - y1
    q = dx * dx + dy * dy
    t = 0 if q == 0 else max(0, min(1, ((x - x1) * dx + (y - y1) * dy) / q))
    return (x - x1 - t * dx) ** 2 + (y - y1 - t * dy) ** 2


def area2(ring):
    """twice the signed area of a closed ring"""
    return sum(ring[i][0] * ring[i + 1][1] - ring[i + 1][0] * ring[i][1] for i in range(len(ring) - 1))


def edges(rings):
    return [(r[i], r[i + 1]) for r in rings for i in range(len(r) - 1) if r[i] != r[i + 1]]


def crossings(es):
    """every point where two input segments meet in exactly one point"""
    for i, (a, b) in enumerate(es):
        for c, d in es[:i]:
            den = (b[0] - a[0]) * (d[1] - c[1]) - (b[1] - a[1]) * (d[0] - c[0])
            if den == 0:
                continue
            t = Fr((c[0] - a[0]) * (d[1] - c[1]) - (c[1] - a[1]) * (d[0] - c[0]), den)
            u = Fr((c[0] - a[0]) * (b[1] - a[1]) - (c[1] - a[1]) * (b[0] - a[0]), den)
            if 0 <= t <= 1 and 0 <= u <= 1:
                yield a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])


def on_segment(p, a, b):
    return ((b[0] - a[0]) * (p[1] - a[1]) == (b[1] - a[1]) * (p[0] - a[0])
            and min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1]))
