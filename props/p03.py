"""C03  Stepping and sampling a point series visit exactly its knots."""
from fractions import Fraction

from sx.harness import inst
from props.common import make_points
from curvepy import Points, Curve
from intervalpy import Interval
import math

BOUNDS = ('series of 1-4 points (thorough: 1-6), real abscissae with gaps >= 1/16, any real start abscissa and '
          'min_step in [0, 6]; sampling windows with any real ends, open or closed; limits -3..3; 13 points at fixed places')
ASSUMES = 'real arithmetic'


def next_knot(c, xs, lo):
    for x in xs:
        if x >= lo:
            return x
    return None


def prev_knot(c, xs, hi):
    for x in reversed(xs):
        if x <= hi:
            return x
    return None


def step(c, n, spacing, interp):
    f, xs, ys = make_points(c, n, spacing, interp)
    val = dict()
    t, k, u = c.query(xs)            # the abscissa stepped to or past
    m = c.real('m', 0, 6)
    x = t - m
    want = next_knot(c, xs, t)
    got = f.x_next(x, min_step=m)
    c.eq(got, want, 'x_next is the first knot at least min_step ahead')
    p = f.next_point(x, min_step=m)
    c.eq(p, None if want is None else (want, ys[[bool(a == want) for a in xs].index(True)]), 'next_point')
    x = t + m
    want = prev_knot(c, xs, t)
    got = f.x_previous(x, min_step=m)
    c.eq(got, want, 'x_previous is the last knot at least min_step behind')
    p = f.previous_point(x, min_step=m)
    c.eq(p, None if want is None else (want, ys[[bool(a == want) for a in xs].index(True)]), 'previous_point')


def default_step(c, n, spacing):
    """With the default minimum step every knot is reached from its neighbour."""
    f, xs, ys = make_points(c, n, spacing)
    for i, x in enumerate(xs):
        c.eq(f.x_next(x), xs[i + 1] if i + 1 < n else None, 'x_next')
        c.eq(f.x_previous(x), xs[i - 1] if i else None, 'x_previous')
    c.eq(f.x_next(-math.inf), xs[0], 'first knot from minus infinity')
    c.eq(f.x_previous(math.inf), xs[-1], 'last knot from infinity')


def sampling(c, n, spacing, lo_open, hi_open):
    f, xs, ys = make_points(c, n, spacing)
    c.eq([tuple(p) for p in f.sample_points()], list(zip(xs, ys)), 'all points')
    lo, klo, _ = c.query(xs, 'lo')
    hi, khi, _ = c.query(xs, 'hi')
    c.assume(hi > lo if lo_open or hi_open else hi >= lo)
    d = Interval(lo, hi, start_open=lo_open, end_open=hi_open)
    want = []
    for x, y in zip(xs, ys):
        if (x > lo if lo_open else x >= lo) and (x < hi if hi_open else x <= hi):
            want.append((x, y))
    c.eq([tuple(p) for p in f.sample_points(domain=d)], want, 'points in window')


def half_lines(c, n, spacing, side, open_end):
    f, xs, ys = make_points(c, n, spacing)
    t, k, _ = c.query(xs)
    if side == 'from':
        d = Interval(t, math.inf, start_open=open_end)
        want = [(x, y) for x, y in zip(xs, ys) if (x > t if open_end else x >= t)]
    else:
        d = Interval(-math.inf, t, end_open=open_end)
        want = [(x, y) for x, y in zip(xs, ys) if (x < t if open_end else x <= t)]
    c.eq([tuple(p) for p in f.sample_points(domain=d)], want, 'points in half line')


def walk(c, n, spacing, limit, backward, open):
    """sample_points_from_x returns at most |limit| consecutive points; a negative limit walks the other way."""
    f, xs, ys = make_points(c, n, spacing)
    j = c.cint('j', 0, n - 1)
    x = xs[j]
    back = backward if limit >= 0 else not backward
    seq = list(range(j, -1, -1)) if back else list(range(j, n))
    if open:
        seq = seq[1:]
    want = [(xs[i], ys[i]) for i in seq][:abs(limit)]
    if not open and limit == 0:
        return c.eq(True, True)
    kw = dict(min_step=c.num(Fraction(1, 32))) if c.bool('own') else {}
    got = f.sample_points_from_x(x, limit, backward=backward, open=open, **kw)
    c.eq([tuple(p) for p in got], want, 'walk')


def derived(c, n, spacing, kind):
    """A curve computed pointwise from series steps over the (shifted) knots of the series."""
    f, xs, ys = make_points(c, n, spacing)
    if kind == 'map':
        g, knots = f.map(lambda y: y * 2), xs
    elif kind == 'offset':
        o = c.real('o', -8, 8)
        g, knots = f.offset(o), [x + o for x in xs]
    elif kind == 'sum':
        # an irregular second series
        b0 = c.real('b0', -8, 8)
        g1, g2 = c.real('bg1', Fraction(1, 16), 4), c.real('bg2', Fraction(1, 16), 4)
        c.assume(g2 >= g1 + Fraction(1, 64))
        xs2 = [b0, b0 + g1, b0 + g1 + g2]
        f2 = Points([(x, c.num(1)) for x in xs2], uniform=False)
        g, knots = f + f2, None
    elif kind == 'scaled':
        g, knots = f * 3, xs
    m = c.real('m', 0, 6)
    if knots is not None:
        t, k, u = c.query(knots)
        want = next_knot(c, knots, t)
        wantp = prev_knot(c, knots, t)
        c.assume(m >= Fraction(1, 16))
        if want is not None or kind != 'scaled':
            c.eq(g.x_next(t - m, min_step=m), want, kind + ' x_next')
        if wantp is not None or kind != 'scaled':
            c.eq(g.x_previous(t + m, min_step=m), wantp, kind + ' x_previous')
    else:
        t, k, u = c.query(xs)
        c.assume(m >= Fraction(1, 16))
        a, b = next_knot(c, xs, t), next_knot(c, xs2, t)
        want = b if a is None else a if b is None else (a if a <= b else b)
        c.eq(g.x_next(t - m, min_step=m), want, 'sum x_next')
        a, b = prev_knot(c, xs, t), prev_knot(c, xs2, t)
        want = b if a is None else a if b is None else (a if a >= b else b)
        c.eq(g.x_previous(t + m, min_step=m), want, 'sum x_previous')


def instances(tier):
    out = []
    top = 4 if tier == 'quick' else 6
    for n in range(1, top + 1):
        for spacing in ('uniform', 'free'):
            for interp in ((0,) if tier == 'quick' else (-1, 0, 1)):
                out.append(inst(step, n=n, spacing=spacing, interp=interp, cost=n))
            out.append(inst(default_step, n=n, spacing=spacing))
            for lo_open in (False, True):
                for hi_open in (False, True):
                    out.append(inst(sampling, n=n, spacing=spacing, lo_open=lo_open, hi_open=hi_open, cost=n))
            for side in ('from', 'to'):
                for o in (False, True):
                    out.append(inst(half_lines, n=n, spacing=spacing, side=side, open_end=o, cost=n))
            for limit in (1, 2, 3, -2):
                for backward in (False, True):
                    for o in (False, True):
                        if n <= 3 or tier != 'quick':
                            out.append(inst(walk, n=n, spacing=spacing, limit=limit, backward=backward, open=o))
            for kind in ('map', 'offset', 'sum', 'scaled'):
                if kind == 'sum' and tier == 'quick' and (n > 2 or spacing == 'free'):
                    continue
                if n <= 3 or tier != 'quick':
                    out.append(inst(derived, n=n, spacing=spacing, kind=kind, cost=n))
    for spacing in ('unit', 'uneven'):
        for n in (13,) if tier == 'quick' else (13, 30):
            out.append(inst(step, n=n, spacing=spacing, interp=0, cost=5))
            out.append(inst(default_step, n=n, spacing=spacing))
            out.append(inst(sampling, n=9 if tier == 'quick' else 13, spacing=spacing, lo_open=False, hi_open=True, cost=5))
            for limit in (7, -9):
                out.append(inst(walk, n=n, spacing=spacing, limit=limit, backward=False, open=True))
    return out
