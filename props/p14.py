"""C14  Trailing windows apply the function to exactly the points of the window."""
from fractions import Fraction

from sx.harness import inst
from props.common import FREE, make_points
from curvepy import Points

BOUNDS = ('series of 1-5 points (thorough: 1-7), regular or free real abscissae, any real values, windows of 1-4 points or any real '
          'period in (0, 4], functions of the values (least, greatest, sum, latest minus earliest) or of position and values, '
          'all three interpolation rules; any real query; 12 points at fixed places, windows of 7')
ASSUMES = 'real arithmetic; gaps in [1/16, 4]; windows by period use a grid with unit steps'

FUNCS = {
    'min': (min, lambda x, w: least(w)),
    'max': (max, lambda x, w: -least([-v for v in w])),
    'sum': (lambda ys: sum(ys), lambda x, w: sum(w)),
    'change': (lambda ys: ys[0] - ys[-1], lambda x, w: w[-1] - w[0]),
    'pair': (lambda x, ys: x * len(ys) + ys[0], lambda x, w: x * len(w) + w[-1]),
    'weighted': (lambda ys: sum(y * (i + 1) for i, y in enumerate(ys)), lambda x, w: sum(y * (i + 1) for i, y in enumerate(w[::-1]))),
}


def least(w):
    r = w[0]
    for v in w[1:]:
        if v < r:
            r = v
    return r


def make(f, func, d, interp, **kw):
    if func == 'min':
        return f.trailing_min(d, interpolation=interp, **kw)
    if func == 'max':
        return f.trailing_max(d, interpolation=interp, **kw)
    return f.accumulator_map(FUNCS[func][0], d, interpolation=interp, **kw)


def expect(c, want, interp, k, u):
    n = len(want)
    if k < 0 or k >= n:
        return None
    if k == n - 1 or u == 0 or interp == -1:
        return want[k]
    if interp == 1:
        return want[k + 1]
    return want[k] + (want[k + 1] - want[k]) * u


def count(c, n, spacing, d, func, interp):
    """Window of a number of points."""
    f, xs, ys = make_points(c, n, spacing)
    g = make(f, func, d, interp, uniform=spacing not in FREE)
    x, k, u = c.query(xs)
    want = []
    for i in range(n):
        want.append(FUNCS[func][1](xs[i], ys[max(0, i - d + 1):i + 1]) if i in (k, k + 1) else 0)
    c.eq(g.y(x), expect(c, want, interp or 0, k, u), 'window value')
    c.eq(g.domain, f.domain, 'domain')


def reads(c, n, spacing, d, func):
    """Two reads at any two points, in any order."""
    f, xs, ys = make_points(c, n, spacing)
    g = make(f, func, d, None, uniform=spacing not in FREE)
    for i in range(2):
        j = c.cint('j%d' % i, 0, n - 1)
        c.eq(g.y(xs[j]), FUNCS[func][1](xs[j], ys[max(0, j - d + 1):j + 1]), 'window value')


def period(c, n, func):
    """Window of a period: the points from a period back up to now."""
    h = 1
    xs = [c.num(i * h) for i in range(n)]
    ys = [c.real('y%d' % i) for i in range(n)]
    f = Points(list(zip(xs, ys)))
    p = c.real('p', 0, 4)
    c.assume(p > Fraction(1, 64))
    g = make(f, func, p, None, is_period=True)
    j = c.cint('j', 0, n - 1)
    start = xs[j] - p
    w = [ys[i] for i in range(j + 1) if xs[i] >= start]
    c.eq(g.y(xs[j]), FUNCS[func][1](xs[j], w), 'window value')


def nested(c, n):
    """The least of a window is at most every value in it and at least that of a wider window."""
    f, xs, ys = make_points(c, n, 'uniform')
    j = c.cint('j', 0, n - 1)
    a, b = f.trailing_min(2).y(xs[j]), f.trailing_min(3).y(xs[j])
    c.le(b, a, 'a wider window is not greater')
    c.le(a, ys[j], 'at most the current value')
    c.eq(f.trailing_max(2).y(xs[j]), (-(-f).trailing_min(2)).y(xs[j]), 'mirrored')


def instances(tier):
    out = []
    quick = tier == 'quick'
    for n in (1, 2, 3, 4, 5) if quick else (1, 2, 3, 4, 5, 6, 7):
        for spacing in ('uniform', 'free'):
            for d in (1, 2, 3, 4):
                if d > n + 1:
                    continue
                for func in ('min', 'max', 'sum', 'change', 'pair', 'weighted'):
                    if n <= (4 if quick else 6) or func == 'sum':
                        out.append(inst(count, n=n, spacing=spacing, d=d, func=func, interp=None, cost=n))
                for interp in (-1, 0, 1):
                    out.append(inst(count, n=n, spacing=spacing, d=d, func='change', interp=interp, cost=n))
                if n in (3, 4):
                    out.append(inst(reads, n=n, spacing=spacing, d=d, func='change', cost=n))
                    out.append(inst(reads, n=n, spacing=spacing, d=d, func='max', cost=n))
        if 1 < n <= (4 if quick else 6):
            for func in ('min', 'max', 'sum', 'change', 'pair', 'weighted'):
                out.append(inst(period, n=n, func=func, cost=n))
            out.append(inst(nested, n=n, cost=n))
    for spacing in ('unit', 'uneven'):
        for n, d in ((12, 7),) if quick else ((12, 7), (30, 20)):
            for func in ('sum', 'change', 'weighted'):
                out.append(inst(count, n=n, spacing=spacing, d=d, func=func, interp=None, cost=5))
            out.append(inst(reads, n=n, spacing=spacing, d=d, func='change', cost=5))
        out.append(inst(count, n=6 if quick else 8, spacing=spacing, d=5, func='max', interp=None, cost=5))
    return out
