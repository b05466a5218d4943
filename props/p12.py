"""C12  A simple moving average is the mean over its trailing window."""
from fractions import Fraction

from sx.harness import inst
from props.common import FREE, make_points, mask_ys
from curvepy import Points

BOUNDS = ('series of 2-5 points (thorough: 2-7), any real values, degree 1-4 on regular or free real abscissae, any real '
          'period up to 4 steps on regular abscissae, any real query; 13 points at fixed places and degrees up to 9')
ASSUMES = ('real arithmetic; gaps in [1/16, 4]; a period is a multiple of the step or differs from one by >= 1/64 step; '
           'queries are knots or >= 1/64 step from a knot')


def mean(xs, ys, a, b):
    """Mean height of the polyline between knots a and b."""
    if a == b:
        return ys[a]
    area = sum((xs[i + 1] - xs[i]) * (ys[i] + ys[i + 1]) / 2 for i in range(a, b))
    return area / (xs[b] - xs[a])


def away(c, u):
    if u is not None and not (isinstance(u, int) and u == 0):
        c.assume(c.Or(u == 0, c.And(u >= Fraction(1, 64), u <= Fraction(63, 64))))


def degree(c, n, spacing, d):
    f, xs, ys = make_points(c, n, spacing)
    g = f.sma(d, uniform=spacing not in FREE)
    if d > n:
        c.check(bool(g.domain.is_empty), 'no window, no average')
        c.eq(g.y(xs[c.cint('j', 0, n - 1)]), None, 'no average')
        return
    c.eq([g.domain.start, g.domain.end, g.domain.start_open, g.domain.end_open], [xs[d - 1], xs[-1], False, False], 'domain')
    x, k, u = c.query(xs)
    away(c, u)
    if k < d - 1 or k >= n:
        c.eq(g.y(x), None, 'undefined until the window fills')
        return
    at = mean(xs, ys, k - d + 1, k)
    if k == n - 1 or u == 0:
        want = at
    else:
        want = at + (mean(xs, ys, k - d + 2, k + 1) - at) * u
    c.eq(g.y(x), want, 'mean of the window')


def period(c, n, m):
    """A period covers the knots less than a period back."""
    f, xs, ys = make_points(c, n, 'uniform')
    h = xs[1] - xs[0]
    v = c.real('v', 0, 1)
    c.assume(v < 1)
    away(c, v)
    p = h * (v + m)
    c.assume(p > 0)
    whole = bool(v == 0)
    d = m if whole else m + 1         # knots in (x - p, x]
    g = f.sma(p, is_period=True)
    if d == 0:
        return c.eq(True, True)
    if d > n:
        c.check(bool(g.domain.is_empty), 'no window, no average')
        c.eq(g.y(xs[c.cint('j', 0, n - 1)]), None, 'no average')
        return
    c.eq([g.domain.start, g.domain.end], [xs[d - 1], xs[-1]], 'domain')
    j = c.cint('j', 0, n - 1)
    c.eq(g.y(xs[j]), None if j < d - 1 else mean(xs, ys, j - d + 1, j), 'mean of the period')
    if j >= d - 1 and j < n - 1:
        # between points the average is interpolated
        w = c.real('w', Fraction(1, 64), Fraction(63, 64))
        c.assume(c.Or(w == v, w - v >= Fraction(1, 64), v - w >= Fraction(1, 64)))
        a, b = (mean(xs, ys, i - d + 1, i) for i in (j, j + 1))
        c.eq(g.y(xs[j] + h * w), a + (b - a) * w, 'between the means')


def family(c, n, count, stride, centered, is_period, base):
    """Several averages whose degrees or periods are multiples of a base nearest to powers of the golden ratio."""
    xs, ys = list(range(n)), [c.real('y%d' % i) for i in range(n)]
    f = Points(list(zip(xs, ys)))
    ratio = (1 + 5 ** 0.5) / 2
    sizes = [round(ratio ** (i * (stride + 1))) for i in range(count)]
    if is_period:
        base = c.real('base', Fraction(1, 2), 2)
        for k in set(sizes):
            for m in range(1, n + 2):
                c.assume(c.Or(base * k == m, base * k >= m + Fraction(1, 64), base * k <= m - Fraction(1, 64)))
    sizes = [base * k for k in sizes]
    if centered:
        sizes.reverse()
    got = (f.centered_macs if centered else f.harmonic_smas)(base, count, stride=stride, is_period=is_period)
    c.check(len(got) == count, 'count')
    j = c.cint('j', 0, n - 1)
    for g, size in zip(got, sizes):
        i = j
        if is_period:
            while i > 0 and (xs[j] - xs[i - 1] < size):
                i -= 1
            full = i > 0 or bool(xs[j] - xs[0] + 1 >= size)
        else:
            i = j - size + 1
            full = i >= 0
        c.eq(g.y(xs[j]), mean(xs, ys, i, j) if full else None, 'average of size')


def constants(c, n, d):
    """Averages of a constant and of a line."""
    x0, h, xs = c.grid(n)
    a, b = c.real('a', -8, 8), c.real('b', -8, 8)
    f = Points([(x, x * a + b) for x in xs])
    j = c.cint('j', d - 1, n - 1)
    c.eq(f.sma(d).y(xs[j]), (xs[j] + xs[j - d + 1]) / 2 * a + b, 'average of a line')


def reads(c, n, d, spacing, times=3):
    """Any order of reads."""
    f, xs, ys = make_points(c, n, spacing)
    g = f.sma(d, uniform=spacing not in FREE)
    for i in range(times):
        j = c.cint('j%d' % i, 0, n - 1)
        c.eq(g.y(xs[j]), None if j < d - 1 else mean(xs, ys, j - d + 1, j), 'mean of the window')


def instances(tier):
    out = []
    quick = tier == 'quick'
    for n in (2, 3, 4, 5) if quick else (1, 2, 3, 4, 5, 6, 7):
        for d in (1, 2, 3, 4):
            for spacing in ('uniform', 'free'):
                out.append(inst(degree, n=n, spacing=spacing, d=d, cost=n))
                if d <= n and n <= 4:
                    out.append(inst(reads, n=n, spacing=spacing, d=d, cost=n))
            if d <= n:
                out.append(inst(constants, n=n, d=d))
        if n > 1:
            for m in (0, 1, 2, 3, 4, 6):
                out.append(inst(period, n=n, m=m, cost=n))
    for n in (4, 6) if quick else (4, 6, 9):
        for centered in (False, True):
            for count, stride in ((0, 1), (1, 1), (2, 1), (3, 0), (2, 2), (3, 1)):
                for base in (1, 2):
                    out.append(inst(family, n=n, count=count, stride=stride, centered=centered, is_period=False, base=base))
                if count:
                    out.append(inst(family, n=n, count=count, stride=stride, centered=centered, is_period=True, base=0))
    for spacing in ('unit', 'uneven'):
        for n, d in ((13, 6), (13, 9)) if quick else ((13, 6), (13, 9), (30, 20)):
            out.append(inst(degree, n=n, spacing=spacing, d=d, cost=5))
            out.append(inst(reads, n=n if n < 20 else 13, spacing=spacing, d=min(d, 9), times=2, cost=5))
    return out
