"""C16  Extensions continue a curve past its ends as requested, and leave it alone inside."""
from fractions import Fraction

from sx.harness import inst
from props.common import make_points, points_oracle
from curvepy import Generic, Line, Points
from intervalpy import Interval

BOUNDS = ('series of 0-4 points (thorough: 0-6), regular or free real abscissae, any real values or undefined, every interpolation rule; constant and '
          'tangent extensions of either or both ends, tangents by regression over 1-3 steps or any real period in (0, 4] (then on a grid of unit steps); pieces of lines '
          'with real borders, open or closed; any real query; 10 points at fixed places, regression over up to 7 steps')
ASSUMES = 'real arithmetic; gaps in [1/16, 4]; steps start at a point or at least 1/1024 away from one; sine extensions are not covered'

ENDS = [(True, False), (False, True), (True, True)]
INF = float('inf')


def outside(c, e, xs, ys, interp, start, end, first, last):
    """Check values everywhere: first/last give the value of the extension at a query, or are None when there is none."""
    x, k, u = c.query(xs)
    n = len(xs)
    if k < 0:
        want = first(x) if start and first else None
    elif k >= n:
        want = last(x) if end and last else None
    else:
        want = points_oracle(c, xs, ys, interp, x, k, u)
    c.eq(e.y(x), want, 'extended value')
    return x, k


def constant(c, n, spacing, ends, none, interp):
    start, end = ends
    f, xs, ys = make_points(c, n, spacing, interp=interp, none=none)
    e = f.extension('constant', start=start, end=end)
    outside(c, e, xs, ys, interp, start, end, lambda x: ys[0], lambda x: ys[-1])
    c.eq(e.domain, Interval(-INF if start else xs[0], INF if end else xs[-1]), 'domain')


def slope(p, q):
    return (q[1] - p[1]) / (q[0] - p[0])


def tangent(c, n, spacing, ends, none, interp):
    start, end = ends
    f, xs, ys = make_points(c, n, spacing, interp=interp, none=none)
    e = f.extension('tangent', start=start, end=end)
    first = last = None
    if n > 1:
        if ys[0] is not None and ys[1] is not None:
            s = slope((xs[0], ys[0]), (xs[1], ys[1]))
            first = lambda x: ys[0] + (x - xs[0]) * s
        if ys[-1] is not None and ys[-2] is not None:
            t = slope((xs[-2], ys[-2]), (xs[-1], ys[-1]))
            last = lambda x: ys[-1] + (x - xs[-1]) * t
    if c.bool('early'):
        c.eq(e.domain, Interval(-INF if start and first else xs[0], INF if end and last else xs[-1]), 'domain')
    outside(c, e, xs, ys, interp, start, end, first, last)
    c.eq(e.domain, Interval(-INF if start and first else xs[0], INF if end and last else xs[-1]), 'domain')


def fit(pts):
    """Least squares through the points."""
    n = len(pts)
    if n < 2:
        return None
    mx, my = sum(p[0] for p in pts) / Fraction(n), sum(p[1] for p in pts) / Fraction(n)
    m = sum((p[0] - mx) * (p[1] - my) for p in pts) / Fraction(sum((p[0] - mx) ** 2 for p in pts))
    return lambda x: my + (x - mx) * m


def frac(v):
    return v if isinstance(v, Fraction) else Fraction(v)


def regression(c, n, steps, ends, degree):
    """Tangents by regression: over a number of steps, or over a period."""
    start, end = ends
    xs = [Fraction(v) for v in steps[:n]]
    ys = [c.real('y%d' % i) for i in range(n)]
    f = Points([(c.num(x), y) for x, y in zip(xs, ys)], uniform=False)
    if degree:
        e = f.extension('tangent', start=start, end=end, regression_degree=degree)
        near, far = list(zip(xs, ys))[:degree + 1], list(zip(xs, ys))[-degree - 1:]
    else:
        p = c.real('p', Fraction(1, 8), 4)
        e = f.extension('tangent', start=start, end=end, regression_period=p)
        near = [(x, y) for x, y in zip(xs, ys) if x - xs[0] <= p]
        far = [(x, y) for x, y in zip(xs, ys) if xs[-1] - x <= p]
    first, last = fit(near), fit(far)
    outside(c, e, [c.num(x) for x in xs], ys, 0, start, end, first, last)
    c.eq(e.domain, Interval(-INF if start and first else c.num(xs[0]), INF if end and last else c.num(xs[-1])), 'domain')


def empty(c, kind, ends):
    """Nothing to extend."""
    name, kw = kind
    f = Points([])
    e = f.extension(name, start=ends[0], end=ends[1], **kw)
    c.eq(e.y(c.real('q')), None, 'extension of an empty series')
    if name == 'tangent':
        c.eq(e.domain, Interval.empty(), 'domain')
    x, h = c.real('x', -8, 8), c.real('h', Fraction(1, 16), 4)
    ys = [c.real('y0'), c.real('y1')]
    f.append((x, ys[0]))
    f.append((x + h, ys[1]))
    g = Points([(x, ys[0]), (x + h, ys[1])]).extension(name, start=ends[0], end=ends[1], **kw)
    d = c.real('d', 0, 4)
    c.eq(e.y(x - d), g.y(x - d), 'after points were added')
    c.eq(e.y(x + h + d), g.y(x + h + d), 'after points were added')


def strict(c, n, kind, ends):
    """Asked to raise when an end cannot be extended: it does then, and only then."""
    f, xs, ys = make_points(c, n, 'uniform', none=True)
    e = f.extension(kind, start=ends[0], end=ends[1])
    g = f.extension(kind, start=ends[0], end=ends[1], raise_on_empty=True)
    x, k, u = c.query(xs)
    if kind == 'tangent':
        ok = n > 1 and not (ends[0] and (ys[0] is None or ys[1] is None)) and not (ends[1] and (ys[-1] is None or ys[-2] is None))
    else:
        ok = True
    if ok:
        c.eq(g.y(x), e.y(x), 'extended value')
        c.eq(g.domain, e.domain, 'domain')
    else:
        c.check(c.raises(lambda: g.domain) is not None, 'raises when it cannot extend')


def line_piece(c, so, eo, ends):
    """The tangents of a piece of a line continue the line."""
    line = Line(p1=(0, c.real('a')), slope=c.real('s', -8, 8))
    lo = c.real('lo', -8, 8)
    hi = lo + c.real('len', 1, 8)
    piece = Generic(line.y, domain=Interval(lo, hi, start_open=so, end_open=eo))
    if not so and not eo and c.bool('subset'):
        piece = line.subset(Interval(lo, hi))
    e = piece.extension('tangent', start=ends[0], end=ends[1])
    q = c.real('q', -32, 32)
    want = line.y(q)
    if not ends[0] and (q < lo or (so and q == lo)):
        want = None
    if not ends[1] and (q > hi or (eo and q == hi)):
        want = None
    c.eq(e.y(q), want, 'line goes on')


def infinite(c, kind):
    """An end at infinity is left alone."""
    line = Line(p1=(0, c.real('a')), slope=c.real('s', -8, 8))
    q = c.real('q', -32, 32)
    c.eq(line.extension(kind, start=True, end=True).y(q), line.y(q), 'infinite curve')
    lo = c.real('lo', -8, 8)
    e = Generic(line.y, domain=Interval.gte(lo)).extension(kind, start=True, end=True)
    c.eq(e.y(q), line.y(q) if q >= lo or kind == 'tangent' else line.y(lo), 'half infinite curve')
    c.eq(e.domain, Interval.infinite(), 'domain')


def steps(c, n, spacing, kind, ends):
    """Stepping goes on past an extended end with the step of that end."""
    f, xs, ys = make_points(c, n, spacing)
    e = f.extension(kind, start=ends[0], end=ends[1])
    d = c.real('d', 0, 8)
    c.eq(e.x_next(xs[-1] + d), xs[-1] + d + (xs[-1] - xs[-2]) if ends[1] else None, 'next')
    c.eq(e.x_previous(xs[0] - d), xs[0] - d - (xs[1] - xs[0]) if ends[0] else None, 'previous')
    x, k, u = c.query(xs, outside=False)
    if u != 0:
        c.assume(c.And(x - xs[k] >= Fraction(1, 1024), xs[k + 1] - x >= Fraction(1, 1024)))
    if k < n - 1:
        c.eq(e.x_next(x), xs[k + 1], 'next inside')
    if k or u:
        c.eq(e.x_previous(x), xs[k] if u != 0 else xs[k - 1], 'previous inside')


def twice(c, n, spacing):
    """Extending both ends at once or one after the other is the same."""
    f, xs, ys = make_points(c, n, spacing)
    kinds = c.choice('kind', ['constant', 'tangent'])
    a = f.extension(kinds, start=True, end=True)
    b = f.extension(kinds, start=True, end=False).extension(kinds, start=False, end=True)
    x, k, u = c.query(xs)
    c.eq(a.y(x), b.y(x), 'both ends')


def longer(c, n, spacing, kind, interp):
    """Many points."""
    f, xs, ys = make_points(c, n, spacing, interp=interp)
    e = f.extension(kind, start=True)
    if kind == 'constant':
        first, last = (lambda x: ys[0]), (lambda x: ys[-1])
    else:
        first = lambda x: ys[0] + (x - xs[0]) * slope((xs[0], ys[0]), (xs[1], ys[1]))
        last = lambda x: ys[-1] + (x - xs[-1]) * slope((xs[-2], ys[-2]), (xs[-1], ys[-1]))
    outside(c, e, xs, ys, interp, True, True, first, last)
    c.eq(e.domain, Interval.infinite(), 'domain')


def instances(tier):
    out = []
    quick = tier == 'quick'
    for n in (1, 2, 3, 4) if quick else (1, 2, 3, 4, 5, 6):
        for spacing in ('uniform', 'free'):
            for ends in ENDS:
                for none in (False, True):
                    if none and n > (3 if quick else 5):
                        continue
                    for interp in (0, -1, 1):
                        if interp and n > 3 and quick:
                            continue
                        out.append(inst(constant, n=n, spacing=spacing, ends=ends, none=none, interp=interp, cost=n))
                        out.append(inst(tangent, n=n, spacing=spacing, ends=ends, none=none, interp=interp, cost=n))
                if n > 1:
                    for kind in ('constant', 'tangent'):
                        out.append(inst(steps, n=n, spacing=spacing, kind=kind, ends=ends, cost=n))
            if n > 1:
                out.append(inst(twice, n=n, spacing=spacing, cost=n))
        for ends in ENDS:
            for kind in ('constant', 'tangent'):
                if n < (4 if quick else 6):
                    out.append(inst(strict, n=n, kind=kind, ends=ends, cost=n))
            for grid in ((0, 1, 2, 3, 4, 5), ('1/2', 1, '5/2', 3, 5, '11/2')):
                for degree in (1, 2, 3, 0):
                    out.append(inst(regression, n=n, steps=grid, ends=ends, degree=degree, cost=n))
    for ends in ENDS:
        for so in (False, True):
            for eo in (False, True):
                out.append(inst(line_piece, so=so, eo=eo, ends=ends))
        for kind in (('constant', {}), ('tangent', {}), ('tangent', {'regression_degree': 2}), ('tangent', {'regression_period': 2})):
            out.append(inst(empty, kind=kind, ends=ends))
    for kind in ('constant', 'tangent'):
        out.append(inst(infinite, kind=kind))
    for spacing in ('unit', 'uneven'):
        for kind in ('constant', 'tangent'):
            out.append(inst(longer, n=10 if quick else 25, spacing=spacing, kind=kind, interp=0, cost=5))
    for ends in ENDS:
        for degree in (5, 7):
            out.append(inst(regression, n=9, steps=[0, 1, 2, 3, 4, 5, 6, 7, 8], ends=ends, degree=degree, cost=5))
    return out
