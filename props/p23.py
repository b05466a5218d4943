"""C23  A curve is sampled at the ends of the window and at every point in it; ranges and regressions are those of its samples."""
from fractions import Fraction

from sx.harness import inst
from props.common import make_points
from props.pipes import PIPES, moved_by
from curvepy import Points, Curve, Line, Constant, Piecewise
from intervalpy import Interval
from curvepy.generic import Generic
import math

BOUNDS = ('curves derived from one series of 2-3 points (combinations of two) in 14 ways, lines and constants; windows with any ends, open or closed, beyond the curve or not, '
          'whose ends are on a point or at least 1/16 away from all; steps of 1/4 to 2; regressions over up to five samples; 12 points at fixed places')
ASSUMES = 'real arithmetic'

SCANS = {
    'ema': lambda c, f: f.ema(c.num(Fraction(1, 2)), uniform=False),
    'tmax2': lambda c, f: f.trailing_max(2, uniform=False),
}
NEAR = Fraction(1, 16)


def build(c, kind, n, spacing):
    """A curve, its domain and the abscissae of its points."""
    if kind == 'line':
        return Line(const=c.real('b', -4, 4), slope=c.real('m', -4, 4)), (-math.inf, math.inf), []
    if kind == 'segment':
        x0 = c.real('x0', -2, 2)
        x1 = x0 + c.real('w', 1, 4)
        return Line(p1=(x0, c.real('y0', -4, 4)), p2=(x1, c.real('y1', -4, 4))), (-math.inf, math.inf), []
    if kind == 'constant':
        return Constant(c.real('b', -4, 4)), (-math.inf, math.inf), []
    if kind == 'moved_line':
        return Line(const=c.real('b', -4, 4), slope=c.real('m', -4, 4)).offset(c.real('o', -4, 4)), (-math.inf, math.inf), []
    if spacing == 'unit':
        xs, ys = list(range(n)), [c.real('y%d' % i, -4, 4) for i in range(n)]
        f = Points(list(zip(xs, ys)))
    else:
        f, xs, ys = make_points(c, n, spacing)
    if kind == 'sum':
        b0, w = c.cint('b0', -2, 1) * Fraction(1, 2), c.cint('w', 1, 3) * Fraction(1, 2)
        f2 = Points([(c.num(b0), c.num(1)), (c.num(b0 + w), c.num(-1))])
        lo, hi = max(xs[0], b0), min(xs[-1], b0 + w)
        c.assume(hi > lo)
        g = f + f2
        knots = sorted(xs + [b0, b0 + w])
        c.assume(c.And(*[c.Or(b == a, b >= a + NEAR) for a, b in zip(knots, knots[1:])]))
        return g, (lo, hi), knots
    if kind == 'first':
        f2 = Points([(xs[-1] + 1, c.num(1)), (xs[-1] + 2, c.num(3))])
        return Curve.first([f, f2]), (xs[0], xs[-1] + 2), xs + [xs[-1] + 1, xs[-1] + 2]
    o = moved_by(c, kind)
    if kind == 'moved':
        o = c.real('o', -4, 4)
        g = f.offset(o)
    else:
        g = f if kind == 'points' else SCANS[kind](c, f) if kind in SCANS else PIPES[kind](c, f)
    if kind == 'sma2':
        xs = xs[1:]
    xs = [x + o for x in xs]
    return g, (xs[0], xs[-1]), xs


def window(c, knots, dom, lo_open, hi_open, wide=2):
    lo, hi = c.real('lo', -4, 8), c.real('hi', -4, 8)
    c.assume(lo < hi if lo_open or hi_open else lo <= hi)
    for x in list(knots) + [hi]:
        c.assume(c.Or(lo == x, lo >= x + NEAR, lo <= x - NEAR))
    for x in knots:
        c.assume(c.Or(hi == x, hi >= x + NEAR, hi <= x - NEAR))
    a, ao = (lo, lo_open) if lo >= dom[0] else (dom[0], False)
    b, bo = (hi, hi_open) if hi <= dom[1] else (dom[1], False)
    return Interval(lo, hi, start_open=lo_open, end_open=hi_open), a, b, ao, bo


def expected(c, kind, knots, a, b, ao, bo):
    """The positions at which a curve is sampled between a and b."""
    if a > b or (a == b and (ao or bo)):
        return []
    if kind == 'points':
        # a series is sampled at its own points
        return [x for x in knots if (x > a if ao else x >= a) and (x < b if bo else x <= b)]
    out = [] if ao else [a]
    for x in knots:
        if x > a and x < b and (not out or x > out[-1]):
            out.append(x)
    if b > a and not bo:
        out.append(b)
    return out


def samples(c, n, spacing, kind, lo_open, hi_open):
    g, dom, knots = build(c, kind, n, spacing)
    w, a, b, ao, bo = window(c, knots, dom, lo_open, hi_open)
    want = expected(c, kind, knots, a, b, ao, bo)
    got = g.sample_points(domain=w)
    c.eq([p[0] for p in got], want, 'positions')
    c.eq([p[1] for p in got], [g.y(x) for x in want], 'values')


def everywhere(c, n, spacing, kind):
    g, dom, knots = build(c, kind, n, spacing)
    want = expected(c, kind, knots, dom[0], dom[1], False, False)
    got = g.sample_points()
    c.eq([p[0] for p in got], want, 'positions')
    c.eq([p[1] for p in got], [g.y(x) for x in want], 'values')


def steps(c, n, spacing, kind, lo_open, hi_open):
    g, dom, knots = build(c, kind, n, spacing)
    w, a, b, ao, bo = window(c, knots, dom, lo_open, hi_open)
    c.assume(b <= a + 3)
    h = c.real('h', 1, 2)
    if kind == 'points':
        c.assume(h != knots[-1] - knots[0])
    want = []
    if a < b or (a == b and not ao and not bo):
        x = a + h if ao else a
        while x < b or (x == b and not bo):
            want.append(x)
            x = x + h
    got = g.sample_points(domain=w, step=h)
    c.eq([p[0] for p in got], want, 'positions')
    c.eq([p[1] for p in got], [g.y(x) for x in want], 'values')


def fine(c, lo_open, hi_open, own):
    """A curve without points is sampled by its minimum step, or the one asked for if that is larger."""
    m, k = [c.num(Fraction(c.choice(n, ['1', '5/4', '2']))) for n in 'mk']
    lo = c.real('lo', -4, 4)
    hi = lo + c.real('w', 0, 4)
    c.assume(c.Or(hi == lo, hi > lo + NEAR) if not lo_open and not hi_open else hi > lo + NEAR)
    g = Generic(lambda x: x * 2 + 1, domain=Interval.infinite(), min_step=m if own else c.num(NEAR))
    got = g.sample_points(Interval(lo, hi, start_open=lo_open, end_open=hi_open), min_step=k)
    h = max(m, k) if own else k
    want, x = [] if lo_open else [lo], lo + h
    while x < hi:
        want.append(x)
        x = x + h
    if hi > lo and not hi_open:
        want.append(hi)
    c.eq([p[0] for p in got], want, 'positions')
    c.eq([p[1] for p in got], [x * 2 + 1 for x in want], 'values')


def extended(c, n, kind, lo_open, hi_open):
    """Past the end of the curve an extended curve is sampled by the last step of the curve."""
    xs, ys = list(range(n)), [c.real('y%d' % i, -4, 4) for i in range(n)]
    f = Points(list(zip(xs, ys)))
    g = f.extension(kind)
    w, a, b, ao, bo = window(c, xs, (xs[0], math.inf), lo_open, hi_open)
    h = 1
    want = []
    if a < b or (a == b and not ao and not bo):
        if not ao:
            want.append(a)
        x = a
        while True:
            x = next((k for k in xs if k > x), None) or x + h
            if not x < b:
                break
            want.append(x)
        if b > a and not bo:
            want.append(b)
    got = g.sample_points(w, min_step=c.num(Fraction(1, 32)))
    c.eq([p[0] for p in got], want, 'positions')
    c.eq([p[1] for p in got], [g.y(x) for x in want], 'values')


def regression(c, n, kind, spacing):
    """A regression is the line with the least squares through the samples."""
    g, dom, knots = build(c, kind, n, spacing)
    w, a, b, ao, bo = window(c, knots, dom, False, False)
    q = [(x, g.y(x)) for x in expected(c, kind, knots, a, b, ao, bo)]
    r = g.regression(w)
    if len(q) < 2 or any(p[1] is None for p in q):
        c.eq(r, None, 'no line')
    else:
        rest = [p[1] - r.y(p[0]) for p in q]
        c.eq(sum(rest), 0, 'balanced')
        c.eq(sum(e * (p[0] - a) for e, p in zip(rest, q)), 0, 'best slope')


def spread(c, n, spacing, kind, lo_open, hi_open):
    g, dom, knots = build(c, kind, n, spacing)
    w, a, b, ao, bo = window(c, knots, dom, lo_open, hi_open)
    ys = [y for y in [g.y(x) for x in expected(c, kind, knots, a, b, ao, bo)] if y is not None]
    r = g.get_range(w)
    c.check(r.is_empty == (len(ys) == 0), 'empty')
    if ys:
        c.eq([r.start, r.end], [min(ys), max(ys)], 'range')


def instances(tier):
    quick = tier == 'quick'
    out = []
    for kind in ('points', 'map', 'sum', 'first', 'moved', 'add', 'sub', 'max0', 'sma2', 'ema', 'integral', 'diff', 'tmax2', 'line', 'moved_line', 'segment', 'constant'):
        for lo_open in (False, True):
            for hi_open in (False, True):
                free = kind in ('points', 'map', 'moved', 'add', 'line', 'moved_line', 'segment', 'constant')
                n = 2 if free and quick else 3
                out.append(inst(samples, n=n, spacing='free' if free else 'unit', kind=kind, lo_open=lo_open, hi_open=hi_open, cost=n))
                out.append(inst(steps, n=n, spacing='unit', kind=kind, lo_open=lo_open, hi_open=hi_open, cost=n))
                out.append(inst(spread, n=2, spacing='free' if free else 'unit', kind=kind, lo_open=lo_open, hi_open=hi_open, cost=n))
        if kind not in ('tmax2', 'ema', 'integral', 'diff', 'sub', 'sum') or not quick:
            out.append(inst(regression, n=3 if kind in ('points', 'map') else 2, kind=kind, spacing='unit', cost=3))
        if kind not in ('line', 'segment', 'moved_line', 'constant'):
            out.append(inst(everywhere, n=3, spacing='free' if kind in ('points', 'map', 'moved', 'add', 'sub', 'max0', 'ema', 'diff', 'tmax2') else 'unit', kind=kind))
    for lo_open in (False, True):
        for hi_open in (False, True):
            for own in (True, False):
                out.append(inst(fine, lo_open=lo_open, hi_open=hi_open, own=own))
            for kind in ('constant', 'tangent'):
                out.append(inst(extended, n=2, kind=kind, lo_open=lo_open, hi_open=hi_open))
    for kind in ('points', 'map', 'sma2', 'integral'):
        out.append(inst(everywhere, n=12, spacing='unit', kind=kind))
        out.append(inst(samples, n=5 if quick else 7, spacing='unit', kind=kind, lo_open=False, hi_open=True, cost=5))
    if not quick:
        out.append(inst(regression, n=4, kind='points', spacing='unit', cost=3))
    return out
