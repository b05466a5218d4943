"""C09  Offsetting moves a curve along x by exactly the offset, or by that many calendar spans."""
from fractions import Fraction

from sx.harness import inst
from props.common import make_points, points_oracle, mask_ys
from curvepy import Generic, Line, Points
from intervalpy import Interval

BOUNDS = ('series of 1-4 points, any real abscissae, values (or undefined), numeric offset and query; calendar offsets -2..3 '
          'of second, minute, hour, uneven 20-hour and 7-hour spans over series of 2-4 points starting at a span boundary; 10 points at fixed places')
ASSUMES = 'real arithmetic; calendar spans that need no calendar library (seconds to hours, UTC)'


def numeric(c, n, spacing, interp):
    f, xs, ys = make_points(c, n, spacing, interp, none=True)
    o = c.real('o', -8, 8)
    g = f.offset(o)
    x, k, u = c.query(xs)
    want = points_oracle(c, xs, ys, interp, x, k, u)
    c.eq(g.y(x + o), want, 'value moved')
    c.eq(g(x + o), want, 'call')
    d = g.domain
    c.eq([d.start, d.end, d.start_open, d.end_open], [xs[0] + o, xs[-1] + o, False, False], 'domain moved')
    c.eq(g.first_point(), (xs[0] + o, ys[0]), 'first point')
    c.eq(g.last_point(), (xs[-1] + o, ys[-1]), 'last point')


def slopes(c, n, spacing):
    f, xs, ys = make_points(c, n, spacing)
    o = c.real('o', -8, 8)
    g = f.offset(o)
    j = c.cint('j', 0, n - 1)
    c.eq(g.d_y(xs[j] + o), None if j == 0 else (ys[j] - ys[j - 1]) / (xs[j] - xs[j - 1]), 'slope behind')
    c.eq(g.d_y(xs[j] + o, forward=True),
         None if j == n - 1 else (ys[j + 1] - ys[j]) / (xs[j + 1] - xs[j]), 'slope ahead')


def nested(c, n):
    f, xs, ys = make_points(c, n, 'free')
    a, b = c.real('a', -8, 8), c.real('b', -8, 8)
    x, k, u = c.query(xs)
    want = points_oracle(c, xs, ys, 0, x, k, u)
    c.eq(f.offset(a).offset(b).y(x + a + b), want, 'offsets add up')
    c.eq(f.offset(a).offset(-a).y(x), want, 'an offset and back')


def commutes(c, n):
    """Offsetting an expression of curves offsets every operand."""
    f, xs, ys = make_points(c, n, 'uniform', name='f')
    g = Points([(x, y) for x, y in zip(xs, mask_ys(c, n, 'z'))])
    o = c.real('o', -8, 8)
    x, k, u = c.query(xs)
    c.eq((f * 2 + g).offset(o).y(x + o), (f.offset(o) * 2 + g.offset(o)).y(x + o), 'sum')
    c.eq(f.map(lambda v: v * v, skip_none=True).offset(o).y(x + o), f.offset(o).map(lambda v: v * v, skip_none=True).y(x + o), 'map')


def longer(c, n, spacing):
    """Many points, moved any way."""
    f, xs, ys = make_points(c, n, spacing)
    o = c.real('o', -100, 100)
    g = f.offset(o)
    x, k, u = c.query(xs)
    c.eq(g.y(x + o), points_oracle(c, xs, ys, 0, x, k, u), 'value moved')
    c.eq(g.domain, Interval(xs[0] + o, xs[-1] + o), 'domain moved')


def _bounds(span, n):
    """Span boundaries from zero, computed independently: (boundaries, duration)."""
    hour, day = 3600, 86400
    if span == '1s':
        return [i for i in range(-4, n)]
    if span == '5s':
        return [i * 5 for i in range(-4, n)]
    if span == '1m':
        return [i * 60 for i in range(-4, n)]
    if span == '1h':
        return [i * hour for i in range(-4, n)]
    per = {'20h': (0, 20), '7h': (0, 7, 14, 21)}[span]
    out = []
    d = -(4 + len(per) - 1) // len(per)
    while len(out) < n + 4 + len(per):
        out += [d * day + p * hour for p in per]
        d += 1
    zero = out.index(0)
    return out[zero - 4:zero + n]


def calendar(c, span, o, n, what):
    B = _bounds(span, n + 6)
    Z = 4
    s = c.cint('s', 0, 1)
    xs = [c.num(v) for v in B[Z + s:Z + s + n]]
    ys = mask_ys(c, n, 'y', what == 'y')
    f = Points(list(zip(xs, ys)), uniform=span not in ('20h', '7h'))
    g = f.offset(o, duration=span)
    moved = [c.num(v) for v in B[Z + s + o:Z + s + o + n]]
    d = g.domain
    c.eq([d.start, d.end], [moved[0], moved[-1]], 'domain moved by spans')
    k = c.cint('k', 0, n - 1)
    if what == 'y':
        if k == n - 1:
            c.eq(g.y(moved[k]), ys[k], 'value at a moved knot')
            v = c.real('v', 0, 1)
            c.assume(v > 0)
            before = c.num(B[Z + s + o - 1])
            c.eq(g.y(moved[0] - (moved[0] - before) * v), None, 'undefined before')
        else:
            u = c.real('u', 0, 1)
            c.assume(u < 1)
            got = g.y(moved[k] + (moved[k + 1] - moved[k]) * u)
            if u == 0:
                c.eq(got, ys[k], 'value at a moved knot')
            elif ys[k] is None or ys[k + 1] is None:
                c.eq(got, None, 'undefined next to an undefined value')
            else:
                c.eq(got, ys[k] + (ys[k + 1] - ys[k]) * u, 'value')
    else:
        u = c.real('u', 0, 1)
        c.assume(u < 1)
        if k < n - 1:
            x = moved[k] + (moved[k + 1] - moved[k]) * u
            c.eq(g.x_next(x), moved[k + 1], 'next moved knot')
            c.assume(u > 0)
            c.eq(g.x_previous(x), moved[k], 'previous moved knot')


def pieces(c, shape):
    """Pieces of a line with open, closed or infinite ends."""
    line = Line(p1=(0, c.real('p')), slope=c.real('s', -4, 4))
    lo = c.real('lo', -8, 8)
    hi = lo + c.real('len', Fraction(1, 4), 8)
    so, eo = shape[0] in '(<', shape[1] in ')>'
    d = Interval(float('-inf') if shape[0] == '<' else lo, float('inf') if shape[1] == '>' else hi, start_open=so, end_open=eo)
    o = c.real('o', -8, 8)
    f = line.subset(d) if c.bool('subset') else Generic(line.y, domain=d)
    g = f.offset(o)
    q = c.real('q', -32, 32)
    inside = True
    if shape[0] != '<' and (q <= lo if so else q < lo):
        inside = False
    if shape[1] != '>' and (q >= hi if eo else q > hi):
        inside = False
    c.eq(g.y(q + o), line.y(q) if inside else None, 'value moved')
    c.eq(g.domain, Interval(d.start if shape[0] == '<' else lo + o, d.end if shape[1] == '>' else hi + o, start_open=so, end_open=eo), 'domain moved')


def instances(tier):
    out = []
    quick = tier == 'quick'
    for n in (1, 2, 3) if quick else (1, 2, 3, 4, 5):
        for spacing in ('uniform', 'free'):
            for interp in (-1, 0, 1):
                out.append(inst(numeric, n=n, spacing=spacing, interp=interp, cost=n))
            if n > 1:
                out.append(inst(slopes, n=n, spacing=spacing, cost=n))
        out.append(inst(nested, n=n, cost=n))
        if n > 1:
            out.append(inst(commutes, n=n, cost=n))
    for spacing in ('unit', 'uneven'):
        out.append(inst(longer, n=10 if quick else 25, spacing=spacing, cost=5))
    for span in ('1m', '20h'):
        for o in (-3, 5):
            out.append(inst(calendar, span=span, o=o, n=4, what='y', cost=8))
    for a in '[(<':
        for b in '])>':
            out.append(inst(pieces, shape=a + b))
    for span in ('1s', '5s', '1m', '1h', '20h', '7h'):
        for o in (-2, -1, 0, 1, 3) if quick else (-3, -2, -1, 0, 1, 2, 3, 4):
            for what in ('y', 'step'):
                for n in (3,) if quick else (2, 3, 4):
                    out.append(inst(calendar, span=span, o=o, n=n, what=what, cost=5))
    return out
