"""C08  Lines and constants: geometry, inverse, exact integrals, and change detection."""
import math
from fractions import Fraction

from sx.harness import inst
from curvepy import Line, Constant, Curve
from curvepy.empty import Empty

BOUNDS = 'any two real points / intercept and slope in [-8, 8], any real query; two successive re-definitions of a line'
ASSUMES = 'real arithmetic; points of a sloped line are >= 1/16 apart in x'


def two_points(c, how):
    x1, y1 = c.real('x1', -8, 8), c.real('y1', -8, 8)
    g = c.real('g', -8, 8)
    c.assume(c.Or(g >= Fraction(1, 16), g <= Fraction(-1, 16)))
    m = c.real('m', -8, 8)
    x2, y2 = x1 + g, y1 + m * g
    if how == 'points':
        f = Line(points=[(x1, y1), (x2, y2)])
    elif how == 'p1p2':
        f = Line(p1=(x1, y1), p2=(x2, y2))
    elif how == 'slope':
        f = Line(p1=(x1, y1), slope=m)
    elif how == 'const':
        f = Line(const=y1 - m * x1, slope=m)
    elif how == 'const_p2':
        f = Line(const=y1, p2=(g, y1 + m * g))
        x1, x2 = c.num(0), g
    elif how == 'set':
        f = Line(const=c.real('c0'), slope=c.real('m0'))
        f.set(points=[(x1, y1), (x2, y2)])
    c.eq(f.y(x1), y1, 'passes through p1')
    c.eq(f.y(x2), y2, 'passes through p2')
    c.eq(f.slope, m, 'slope')
    c.eq(f.const, y1 - m * x1, 'intercept')
    x = c.real('q', -16, 16)
    c.eq(f.y(x), y1 + m * (x - x1), 'y')
    c.eq(f(x), y1 + m * (x - x1), 'call')
    c.check(bool(f.domain.is_infinite), 'domain')
    c.eq(f.d_y(x), m, 'derivative')
    c.eq(f.d_y(x, forward=True), m, 'derivative')


def inverse(c):
    x1, y1, m = c.real('x1', -8, 8), c.real('y1', -8, 8), c.real('m', -8, 8)
    c.assume(m != 0)
    f = Line(p1=(x1, y1), slope=m)
    x = c.real('q', -16, 16)
    c.eq(f.x(f.y(x)), x, 'x(y(x)) = x')
    y = c.real('r', -16, 16)
    c.eq(f.y(f.x(y)), y, 'y(x(y)) = y')


def vertical(c):
    x1, y1, y2 = c.real('x1', -8, 8), c.real('y1', -8, 8), c.real('y2', -8, 8)
    f = Line(p1=(x1, y1), p2=(x1, y2))
    c.eq(f.slope, math.inf if y2 >= y1 else -math.inf, 'vertical slope')


def area(c):
    f = Line(p1=(c.real('x1', -8, 8), c.real('y1', -8, 8)), slope=c.real('m', -8, 8))
    a, b, d = c.real('a', -8, 8), c.real('b', -8, 8), c.real('d', -8, 8)
    c.eq(f.partial_integration(a, b), (f.y(a) + f.y(b)) * (b - a) / 2, 'trapezium area')
    c.eq(f.partial_integration(a, b) + f.partial_integration(b, d), f.partial_integration(a, d), 'additive')
    c.eq(f.partial_integration(a, b), -f.partial_integration(b, a), 'antisymmetric')
    c.eq(f.partial_integration(a, a), 0, 'empty interval')


def redefine(c):
    """Observers hear about a line exactly when it changes."""
    p, m = (c.real('x1', -8, 8), c.real('y1', -8, 8)), c.real('m', -8, 8)
    f = Line(p1=p, slope=m)
    log = []
    f.add_observer(begin=lambda: log.append('b'), end=lambda: log.append('e'))
    q, k = (c.real('x2', -8, 8), c.real('y2', -8, 8)), c.real('k', -8, 8)
    f.set(p1=q, slope=k)
    same = bool(c.And(q[0] == p[0], q[1] == p[1], k == m))
    c.eq(log, [] if same else ['b', 'e'], 'notified iff changed')
    x = c.real('q', -8, 8)
    c.eq(f.y(x), q[1] + k * (x - q[0]), 'new line')
    f.set(p1=q, slope=k)
    c.eq(log, [] if same else ['b', 'e'], 'not notified again')


def invalid(c):
    p = (c.real('x1', -8, 8), c.real('y1', -8, 8))
    c.check(c.raises(lambda: Line(p1=p)) is not None, 'needs a slope')
    c.check(c.raises(lambda: Line(slope=c.real('m', -8, 8))) is not None, 'needs a point')
    c.check(c.raises(lambda: Line()) is not None, 'needs anything')
    f = Line(p1=p, slope=2)
    c.check(c.raises(lambda: f.set(slope=3)) is not None, 'refused')
    c.eq(f.y(p[0] + 1), p[1] + 2, 'refused change leaves the line')
    c.check(not f.is_updating, 'not left updating')


def constant(c):
    v, w, x = c.real('v', -8, 8), c.real('w', -8, 8), c.real('q', -16, 16)
    f = Constant(v)
    log = []
    f.add_observer(begin=lambda: log.append('b'), end=lambda: log.append('e'))
    c.eq([f.y(x), f(x), f.value, f.d_y(x)], [v, v, v, 0], 'constant')
    c.check(bool(f.domain.is_infinite), 'domain')
    f.value = w
    c.eq(f.y(x), w, 'new value')
    c.eq(log, [] if v == w else ['b', 'e'], 'notified iff changed')
    c.eq((f + x).y(x), w + x, 'in arithmetic')
    c.eq(Curve.parse(v).y(x), v, 'number as a curve')
    e = Curve.empty()
    c.eq([e.y(x), e.d_y(x)], [None, None], 'empty curve')
    c.check(bool(e.domain.is_empty), 'empty domain')
    c.eq((e + f).y(x), None, 'empty plus anything')


def instances(tier):
    out = [inst(two_points, how=h) for h in ('points', 'p1p2', 'slope', 'const', 'const_p2', 'set')]
    out += [inst(f) for f in (inverse, vertical, area, redefine, invalid, constant)]
    return out
