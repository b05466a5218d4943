"""C15  The relative strength index is Wilder's ratio and stays between 0 and 100."""
from fractions import Fraction

from sx.harness import inst
from props.common import FREE, make_points
from curvepy import Points

BOUNDS = ('series of 1-4 points (thorough: 1-6), any real values, unit or free spacing, degrees 1, 2, 4; any one point queried, or any '
          'position between points; 16 points at fixed places with every third step a fall, degrees 8 and 16')
ASSUMES = 'real arithmetic; gaps in [1/16, 4]'


def strength(xs, ys, d):
    """Index at every point."""
    up = dn = 0
    out = []
    for i in range(len(xs)):
        if i:
            s = (ys[i] - ys[i - 1]) / (xs[i] - xs[i - 1])
            if s >= 0:
                up, dn = up + (s - up) / d, dn - dn / d
            else:
                up, dn = up - up / d, dn + (-s - dn) / d
        out.append((up, dn))
    return out


def index(up, dn):
    if dn == 0:
        return 100
    return up * 100 / (up + dn)


def value(c, n, spacing, d):
    f, xs, ys = make_points(c, n, spacing)
    g = f.rsi(d, uniform=spacing not in FREE)
    j = c.cint('j', 0, n - 1)
    up, dn = strength(xs[:j + 1], ys[:j + 1], d)[j]
    c.eq(g.y(xs[j]), index(up, dn), 'index')
    c.eq(g.domain, f.domain, 'domain')


def longer(c, n, d):
    """Many points, of which every third step is a fall."""
    f, xs, ys = make_points(c, n, 'unit')
    for i in range(1, n):
        c.assume(ys[i] < ys[i - 1] if i % 3 == 2 else ys[i] > ys[i - 1])
    g = f.rsi(d)
    j = c.cint('j', 1, n - 1)
    up, dn = strength(xs[:j + 1], ys[:j + 1], d)[j]
    c.eq(g.y(xs[j]), index(up, dn), 'index')


def inside(c, n, d):
    """Bounds, anywhere."""
    f, xs, ys = make_points(c, n, 'uniform')
    g = f.rsi(d)
    x, k, u = c.query(xs, outside=False)
    v = g.y(x)
    c.le(0, v, 'not below 0')
    c.le(v, 100, 'not above 100')


def mirrored(c, n, d):
    """Mirroring the values mirrors the index (where it moved at all)."""
    f, xs, ys = make_points(c, n, 'uniform')
    j = c.cint('j', 1, n - 1)
    up, dn = strength(xs[:j + 1], ys[:j + 1], d)[j]
    c.assume(c.And(up > 0, dn > 0))
    c.eq((-f).rsi(d).y(xs[j]), 100 - f.rsi(d).y(xs[j]), 'mirrored')
    c.eq((f * 3 + 5).rsi(d).y(xs[j]), f.rsi(d).y(xs[j]), 'scale does not matter')


def monotone(c, n, d, way):
    """Only rises give 100, only falls give 0."""
    f, xs, ys = make_points(c, n, 'uniform')
    for i in range(1, n):
        c.assume(ys[i] > ys[i - 1] if way == 'up' else ys[i] < ys[i - 1])
    j = c.cint('j', 1, n - 1)
    c.eq(f.rsi(d).y(xs[j]), 100 if way == 'up' else 0, 'extreme')


def instances(tier):
    out = []
    quick = tier == 'quick'
    for n in (1, 2, 3, 4) if quick else (1, 2, 3, 4, 5):
        for d in (1, 2, 4):
            for spacing in ('uniform', 'free'):
                if spacing == 'free' and n > 3 and quick:
                    continue
                out.append(inst(value, n=n, spacing=spacing, d=d, cost=n))
            if n > 1 and (n < 4 or not quick):
                out.append(inst(inside, n=n, d=d, cost=n))
                if n > 2 and d > 1:
                    out.append(inst(mirrored, n=n, d=d, cost=n))
            if n > 1:
                for way in ('up', 'down'):
                    out.append(inst(monotone, n=n, d=d, way=way, cost=n))
    for d in (8, 16):
        out.append(inst(longer, n=16, d=d, cost=5))
    return out
