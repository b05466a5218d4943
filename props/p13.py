"""C13  Exponential averages follow their recurrence."""
from fractions import Fraction

from sx.harness import inst
from props.common import FREE, make_points, mask_ys
from curvepy import Points

BOUNDS = ('series of 1-4 points (thorough: 1-6), regular or free real abscissae, any real values or undefined, any real smoothing '
          'factor in [0, 1] or any real period in [1/4, 16], optional start value or start curve, smoothed degrees 1, 2, 4; any real query; 10 points at fixed places, degree 8')
ASSUMES = 'real arithmetic; gaps in [1/16, 4]'


def between(want, n, k, u):
    """Reference value at a located query of the polyline through the knot values."""
    if k < 0 or k >= n:
        return None
    if k == n - 1 or u == 0:
        return want[k]
    if want[k] is None or want[k + 1] is None:
        return None
    return want[k] + (want[k + 1] - want[k]) * u


def recurrence(xs, ys, factor, init=None):
    out, e = [], None
    for i, y in enumerate(ys):
        if y is not None:
            if e is None:
                e = y if init is None else init(i)
            else:
                e = e + (y - e) * factor(i)
        out.append(e)
    return out


def alpha(c, n, spacing, init, none):
    """Constant smoothing factor."""
    f, xs, ys = make_points(c, n, spacing, none=none)
    a = c.real('alpha', 0, 1)
    kw = dict(uniform=spacing not in FREE)
    start = None
    if init == 'number':
        v = c.real('init', -8, 8)
        kw['init'] = v
        start = lambda i: v
    elif init == 'curve':
        vs = [None if i == 0 else c.real('v%d' % i) for i in range(n)]
        kw['init'] = Points(list(zip(xs, vs)), uniform=spacing not in FREE)
        start = lambda i: vs[i]
    g = f.ema(a, **kw)
    want = recurrence(xs, ys, lambda i: a, start)
    x, k, u = c.query(xs)
    c.eq(g.y(x), between(want, n, k, u), 'average')
    c.eq(g.domain, f.domain, 'domain')


def period(c, n, spacing, none):
    """Factor proportional to the gap."""
    f, xs, ys = make_points(c, n, spacing, none=none)
    p = c.real('period', Fraction(1, 4), 16)
    g = f.ema(p, is_period=True, uniform=spacing not in FREE)
    want = recurrence(xs, ys, lambda i: (xs[i] - xs[i - 1]) / p)
    x, k, u = c.query(xs)
    c.eq(g.y(x), between(want, n, k, u), 'average')


def fixed(c, n, spacing, a):
    """A given factor (or, above 1, period) over many points."""
    f, xs, ys = make_points(c, n, spacing)
    a = Fraction(a)
    g = f.ema(c.num(a), is_period=a > 1, uniform=spacing not in FREE)
    if a > 1:
        want = recurrence(xs, ys, lambda i: (xs[i] - xs[i - 1]) / c.num(a))
    else:
        want = recurrence(xs, ys, lambda i: c.num(a))
    x, k, u = c.query(xs)
    c.eq(g.y(x), between(want, n, k, u), 'average')


def smoothed(c, n, spacing, d):
    """Smoothed average: a simple average first, then factor 1/d."""
    f, xs, ys = make_points(c, n, spacing)
    g = f.smma(d, uniform=spacing not in FREE)
    want, e = [], None
    for i, y in enumerate(ys):
        if i == d - 1:
            if d == 1:
                e = y
            else:
                area = sum((xs[j + 1] - xs[j]) * (ys[j] + ys[j + 1]) / 2 for j in range(i - d + 1, i))
                e = area / (xs[i] - xs[i - d + 1])
        elif i >= d:
            e = e + (y - e) / d
        want.append(e)
    x, k, u = c.query(xs)
    c.eq(g.y(x), between(want, n, k, u), 'smoothed average')


def bounded(c, n):
    """The average stays between the least and the greatest value seen."""
    f, xs, ys = make_points(c, n, 'uniform')
    a = c.real('alpha', 0, 1)
    g = f.ema(a)
    lo, hi = c.real('lo'), c.real('hi')
    for y in ys:
        c.assume(y >= lo)
        c.assume(y <= hi)
    for x in xs:
        v = g.y(x)
        c.le(lo, v, 'at least the least value')
        c.le(v, hi, 'at most the greatest value')


def affine(c, n, a):
    """Scaling and shifting the values scales and shifts the average."""
    f, xs, ys = make_points(c, n, 'uniform')
    s, t = c.real('s', -4, 4), c.real('t', -8, 8)
    g = Points([(x, y * s + t) for x, y in zip(xs, ys)])
    j = c.cint('j', 0, n - 1)
    a = c.num(Fraction(a))
    c.eq(g.ema(a).y(xs[j]), f.ema(a).y(xs[j]) * s + t, 'affine')
    c.eq((f * s + t).ema(a).y(xs[j]), f.ema(a).y(xs[j]) * s + t, 'affine')


def instances(tier):
    out = []
    quick = tier == 'quick'
    for n in (1, 2, 3, 4) if quick else (1, 2, 3, 4, 5, 6):
        for spacing in ('uniform', 'free'):
            for none in (False, True):
                if none and n > (3 if quick else 5):
                    continue
                out.append(inst(period, n=n, spacing=spacing, none=none, cost=n))
                for init in (None, 'number', 'curve'):
                    out.append(inst(alpha, n=n, spacing=spacing, init=init, none=none, cost=n))
            for d in (1, 2, 4):
                out.append(inst(smoothed, n=n, spacing=spacing, d=d, cost=n))
        if n > 1:
            out.append(inst(affine, n=n, a='1/3', cost=n))
        if n < 4 or not quick:
            out.append(inst(bounded, n=n, cost=n))
    for spacing in ('unit', 'uneven'):
        for n in (10,) if quick else (10, 20):
            out.append(inst(smoothed, n=n, spacing=spacing, d=8, cost=5))
            out.append(inst(fixed, n=n, spacing=spacing, a='1/4', cost=5))
            out.append(inst(fixed, n=n, spacing=spacing, a='8', cost=5))
    return out
