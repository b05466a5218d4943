"""C11  The integral of a series is the exact accumulated area."""
from fractions import Fraction

from sx.harness import inst
from props.common import FREE, make_points, mask_ys
from curvepy import Points

BOUNDS = ('series of 1-4 points (thorough: 1-6), regular or free real abscissae, any real values or undefined, any real '
          'constant of integration, all three area rules, any one real query after up to two reads at any knots; 13 points at fixed places')
ASSUMES = 'real arithmetic; gaps in [1/16, 4]'


def areas(xs, ys, const, rule):
    """Reference running integral at the knots: undefined until the first defined value."""
    out, total = [], None
    for i, y in enumerate(ys):
        if y is not None:
            if total is None:
                total = 0
            if i > 0 and ys[i - 1] is not None:
                w = xs[i] - xs[i - 1]
                a = ys[i - 1]
                total = total + (w * (a + y) / 2 if rule == 0 else w * a if rule < 0 else w * y)
        out.append(None if total is None else total + const)
    return out


def build(c, n, spacing, rule, none):
    f, xs, ys = make_points(c, n, spacing, 0, none=none)
    k = c.real('const', -8, 8)
    if rule == 'default':
        g = f.integral(const=k, uniform=spacing not in FREE)
        rule = 0
    else:
        g = f.integral(const=k, interpolation=rule, uniform=spacing not in FREE)
    return f, xs, ys, g, areas(xs, ys, k, rule)


def value(c, n, spacing, rule, none):
    f, xs, ys, g, want = build(c, n, spacing, rule, none)
    x, k, u = c.query(xs)
    if k < 0 or k >= n:
        w = None
    elif k == n - 1 or u == 0:
        w = want[k]
    elif want[k] is None or want[k + 1] is None:
        w = None
    else:
        w = want[k] + (want[k + 1] - want[k]) * u
    c.eq(g.y(x), w, 'integral')
    c.eq(g.domain, f.domain, 'domain')


def after_reads(c, n, spacing, rule):
    f, xs, ys, g, want = build(c, n, spacing, rule, False)
    for i in range(2):
        j = c.cint('j%d' % i, 0, n - 1)
        c.eq(g.y(xs[j]), want[j], 'integral after reads')
    c.eq([g.y(x) for x in xs], want, 'integral at all knots')


def calculus(c, n, spacing):
    """Differences of the integral give back the mean height; integration is linear."""
    f, xs, ys = make_points(c, n, spacing)
    zs = mask_ys(c, n, 'z')
    g = Points(list(zip(xs, zs)), uniform=spacing not in FREE)
    F = f.integral(uniform=spacing not in FREE)
    j = c.cint('j', 1, n - 1)
    c.eq((F.y(xs[j]) - F.y(xs[j - 1])) / (xs[j] - xs[j - 1]), (ys[j] + ys[j - 1]) / 2, 'mean height')
    k = c.real('k', -4, 4)
    a = (f * k + g).integral(uniform=spacing not in FREE).y(xs[j])
    c.eq(a, F.y(xs[j]) * k + g.integral(uniform=spacing not in FREE).y(xs[j]), 'linear')
    c.eq(F.y(xs[0]), 0, 'starts at zero')


def instances(tier):
    out = []
    quick = tier == 'quick'
    for n in (1, 2, 3, 4) if quick else (1, 2, 3, 4, 5, 6):
        for spacing in ('uniform', 'free'):
            for rule in (-1, 0, 1, 'default'):
                out.append(inst(value, n=n, spacing=spacing, rule=rule, none=n < 4, cost=n))
            if n > 1:
                out.append(inst(after_reads, n=n, spacing=spacing, rule=0, cost=n))
                out.append(inst(calculus, n=n, spacing=spacing, cost=n))
    for spacing in ('unit', 'uneven'):
        for n in (13,) if quick else (13, 30):
            for rule in (-1, 0, 1):
                out.append(inst(value, n=n, spacing=spacing, rule=rule, none=False, cost=5))
            out.append(inst(after_reads, n=n, spacing=spacing, rule=0, cost=5))
    return out
