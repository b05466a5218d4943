"""C25  Minimising and maximising walk to a local extremum of the curve, or say that there is none on the way."""
from fractions import Fraction

from sx.harness import inst
from props.p23 import build
from props.p24 import position
from curvepy import Points
import math

BOUNDS = ('curves derived from one or two series of 2-4 points (thorough: 5) in 12 ways, any values also equal and undefined ones, any start at least 1/16 away from the points or on one; '
          'steps of 1/2 to 2 over a valley of three points')
ASSUMES = 'real arithmetic'


def found(c, n, spacing, kind, up, none):
    if none:
        xs = list(range(n))
        ys = [None if i == none else c.real('y%d' % i, -4, 4) for i in range(n)]
        g, dom, knots = Points(list(zip(xs, ys))), (0, n - 1), xs
    else:
        g, dom, knots = build(c, kind, n, spacing)
    knots = [k for k in knots if dom[0] <= k and k <= dom[1]]
    x = position(c, knots)
    r = g.maximise(x, max_iterations=12) if up else g.minimise(x, max_iterations=12)
    s = -1 if up else 1
    y = g.y(x)
    if x < dom[0] or x > dom[1] or y is None:
        c.eq(r, None, 'nothing outside of the curve')
        return
    # the curve at the start and at its points on either side
    left = [(k, g.y(k)) for k in reversed(knots) if k < x]
    right = [(k, g.y(k)) for k in knots if k > x]
    if r is None:
        # going down from the start leads out of the curve, on one side at least
        ok = []
        for side in (left, right):
            p, down = y, []
            for k, q in side:
                if q is None:
                    break
                down.append((q - p) * s <= 0)
                p = q
            ok.append(c.And(*down))
        c.check(c.Or(*ok), 'nothing on the way')
        return
    c.check(dom[0] <= r and r <= dom[1], 'on the curve')
    v = g.y(r)
    c.check(v is not None, 'defined')
    c.le(v * s, y * s, 'not worse than the start')
    before = [g.y(k) for k in knots if k < r][-1:]
    after = [g.y(k) for k in knots if k > r][:1]
    for q in before + after:
        if q is not None:
            c.le(v * s, q * s, 'no better neighbour')
    # no higher point in between
    way = [q for k, q in left if k > r] if r < x else list(reversed([q for k, q in right if k < r]))
    way = ([y] + [q for k, q in left if k > r] + [v]) if r < x else ([y] + [q for k, q in right if k < r] + [v])
    if r != x:
        for p, q in zip(way, way[1:]):
            c.le(q * s, p * s, 'downhill all the way')


def stepping(c, up):
    """By a fixed step the bottom of a valley is approached to within a step."""
    s = -1 if up else 1
    a, b = c.real('a', Fraction(1, 4), 4), c.real('b', Fraction(1, 4), 4)
    g = Points([(-4, a * 4 * s), (0, c.num(0)), (4, b * 4 * s)])
    x = c.real('x', -3, 3)
    h = c.real('h', Fraction(1, 2), 1)
    c.assume(c.Or(x == 0, x >= Fraction(1, 16), x <= -Fraction(1, 16)))
    n = 8
    r = g.maximise(x, step=h, max_iterations=n) if up else g.minimise(x, step=h, max_iterations=n)
    c.check(r is not None, 'found')
    c.check(c.And(r <= h, r >= -h), 'within a step')


def instances(tier):
    quick = tier == 'quick'
    out = []
    for up in (False, True):
        for kind in ('points', 'map', 'sum', 'moved', 'add', 'sub', 'max0', 'sma2', 'ema', 'tmax2', 'abs', 'square'):
            free = kind in ('points', 'map', 'moved', 'add')
            for n in (2, 3, 4) if quick else (2, 3, 4, 5):
                out.append(inst(found, n=n, spacing='free' if free else 'unit', kind=kind, up=up, none=0, cost=n))
        for n in (3, 4):
            for none in range(1, n - 1):
                out.append(inst(found, n=n, spacing='unit', kind='points', up=up, none=none, cost=n))
        out.append(inst(stepping, up=up))
    return out
