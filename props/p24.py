"""C24  The derivative of a curve is the slope to its neighbouring point, and differentials follow it."""
from fractions import Fraction

from sx.harness import inst
from props.p23 import build
from curvepy import Points
import math

BOUNDS = ('curves derived from one or two series of 2-4 points (thorough: 5) in 15 ways, curves extended at both ends, lines and constants; any position at least 1/16 away from the points or on one of them, '
          'forward and backward, any minimum step up to 4 for series, maps, offsets and sums; 9 points at fixed places')
ASSUMES = 'real arithmetic'

NEAR = Fraction(1, 16)


def position(c, knots, name='x', lo=-4, hi=8):
    x = c.real(name, lo, hi)
    for k in knots:
        c.assume(c.Or(x == k, x >= k + NEAR, x <= k - NEAR))
    return x


def neighbour(dom, knots, x, forward, m=0):
    """The next or previous point of the curve (m away), or None."""
    if x < dom[0] or x > dom[1]:
        near = [k for k in knots if k >= dom[0] and k <= dom[1]]
        near = [k for k in near if (k >= x + m if forward else k <= x - m)]
    else:
        near = [k for k in knots if k >= dom[0] and k <= dom[1] and (k > x and k >= x + m if forward else k < x and k <= x - m)]
    if not near:
        return None
    return min(near) if forward else max(near)


def slope(g, dom, knots, x, forward, m=0):
    x1 = neighbour(dom, knots, x, forward, m)
    if x1 is None:
        return None
    y, y1 = g.y(x), g.y(x1)
    if y is None or y1 is None:
        return None
    return (y1 - y) / (x1 - x)


def derivative(c, n, spacing, kind, forward):
    g, dom, knots = build(c, kind, n, spacing)
    x = position(c, knots)
    want = slope(g, dom, knots, x, forward)
    c.eq(g.d_y(x, forward=forward), want, 'derivative')
    d = g.differential(forward=forward)
    c.eq(d.y(x), want, 'differential')
    c.eq(d(x), want, 'differential called')
    c.eq([d.domain.start, d.domain.end], list(dom), 'domain')
    c.eq((d * 2 + 1).y(x), None if want is None else want * 2 + 1, 'differential in an expression')


def straight(c, kind, forward):
    g, dom, knots = build(c, kind, 2, 'unit')
    x = c.real('x', -4, 4)
    want = g.y(1) - g.y(0)
    c.eq(g.d_y(x, forward=forward), want, 'derivative')
    c.eq(g.differential(forward=forward).y(x), want, 'differential')
    c.eq(g.differential(forward=forward).differential(forward=forward).y(x), 0, 'second')


def far(c, n, spacing, kind, forward):
    """With a minimum step the slope is that to the first point at least so far away."""
    g, dom, knots = build(c, kind, n, spacing)
    x = position(c, knots)
    m = c.real('m', NEAR, 4)
    c.eq(g.d_y(x, forward=forward, min_step=m), slope(g, dom, knots, x, forward, m), 'derivative')


def second(c, n, forward):
    """The differential of a differential is the difference quotient of the slopes."""
    xs, ys = list(range(n)), [c.real('y%d' % i, -4, 4) for i in range(n)]
    f = Points(list(zip(xs, ys)))
    d = f.differential(forward=forward).differential(forward=forward)
    s = 1 if forward else -1
    for i in range(n):
        j = (i + s, i + 2 * s)
        want = ys[i] - ys[j[0]] * 2 + ys[j[1]] if 0 <= min(j) and max(j) < n else None
        c.eq(d.y(i), want, 'second difference')


def extended(c, n, kind, forward):
    """Outside of its curve an extended curve has the slope of the extension, also towards it at its ends."""
    ys = [c.real('y%d' % i, -4, 4) for i in range(n)]
    g = Points(list(enumerate(ys))).extension(kind, start=True)
    x = position(c, list(range(n)), lo=-3, hi=n + 2)
    i = 0
    while i < n and (x >= i if forward else x > i):
        i += 1
    # between the points i - 1 and i
    if 0 < i < n:
        want = ys[i] - ys[i - 1]
    elif kind == 'constant':
        want = 0
    else:
        want = ys[1] - ys[0] if i == 0 else ys[-1] - ys[-2]
    c.eq(g.d_y(x, forward=forward), want, 'derivative')
    c.eq(g.differential(forward=forward).y(x), want, 'differential')


def instances(tier):
    quick = tier == 'quick'
    out = []
    for forward in (False, True):
        for kind in ('points', 'map', 'sum', 'first', 'moved', 'add', 'sub', 'max0', 'sma2', 'ema', 'integral', 'diff', 'tmax2', 'abs', 'square'):
            free = kind in ('points', 'map', 'moved', 'add', 'abs', 'max0', 'sub')
            for n in (2, 3, 4) if quick else (2, 3, 4, 5):
                out.append(inst(derivative, n=n, spacing='free' if free else 'unit', kind=kind, forward=forward, cost=n))
            if kind in ('points', 'map', 'moved', 'sum'):
                out.append(inst(far, n=3 if quick else 5, spacing='free' if free else 'unit', kind=kind, forward=forward, cost=n))
        for kind in ('line', 'segment', 'constant', 'moved_line'):
            out.append(inst(straight, kind=kind, forward=forward))
        for n in (2, 3, 4):
            for kind in ('constant', 'tangent'):
                out.append(inst(extended, n=n, kind=kind, forward=forward))
        for n in (3, 4):
            out.append(inst(second, n=n, forward=forward))
        for kind in ('points', 'map', 'add', 'sma2', 'ema', 'integral', 'diff'):
            out.append(inst(derivative, n=9 if quick else 16, spacing='unit', kind=kind, forward=forward, cost=5))
    return out
