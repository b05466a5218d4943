"""C01  A point series evaluates by its knots and interpolation rule."""
from sx.harness import inst
from props.common import make_points, mask_ys, points_oracle
from curvepy import Points

BOUNDS = '1-5 points (thorough: 1-8), any real abscissae with gaps >= 1/16, any real values or None, any real query; 17 points at fixed places, any values'
ASSUMES = 'real arithmetic (no float rounding)'


def knots(c, n, spacing, interp):
    f, xs, ys = make_points(c, n, spacing, interp, none=True)
    x, k, u = c.query(xs)
    c.eq(f.y(x), points_oracle(c, xs, ys, interp, x, k, u), 'y(x)')
    c.eq(f(x), f.y(x), 'call')
    d = f.domain
    c.eq([d.start, d.end, d.start_open, d.end_open], [xs[0], xs[-1], False, False], 'domain')
    c.eq(f.y_start(), ys[0], 'y_start')
    c.eq(f.y_end(), ys[-1], 'y_end')
    c.eq(f.first_point(), (xs[0], ys[0]), 'first_point')
    c.eq(f.last_point(), (xs[-1], ys[-1]), 'last_point')


def longer(c, n, spacing, interp):
    """Many points, one of which may be undefined."""
    f, xs, ys = make_points(c, n, spacing, interp)
    if c.bool('gap'):
        ys[n // 2] = None
        f = Points(list(zip(xs, ys)), interpolation=interp, uniform=spacing == 'unit')
    x, k, u = c.query(xs)
    c.eq(f.y(x), points_oracle(c, xs, ys, interp, x, k, u), 'y(x)')


def empty(c, uniform):
    f = Points([], uniform=uniform)
    x = c.real('x')
    c.eq(f.y(x), None, 'y')
    c.check(f.domain.is_empty, 'domain')
    c.eq(f.y_start(), None)
    c.eq(f.y_end(), None)
    c.eq(f.first_point(), None)
    c.eq(f.last_point(), None)


def instances(tier):
    out = [inst(empty, uniform=u) for u in (True, False)]
    for n in range(1, 6 if tier == 'quick' else 9):
        for spacing in ('uniform', 'regular', 'free'):
            for interp in (-1, 0, 1):
                out.append(inst(knots, n=n, spacing=spacing, interp=interp, cost=n))
    # long series
    for n in (17,) if tier == 'quick' else (17, 40):
        for spacing in ('unit', 'uneven'):
            for interp in (-1, 0, 1):
                out.append(inst(longer, n=n, spacing=spacing, interp=interp, cost=5))
    return out
