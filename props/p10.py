"""C10  Piecewise curves, blends and subsets answer from the right piece."""
import math
from fractions import Fraction

from sx.harness import inst
from props.common import make_points, points_oracle, mask_ys
from curvepy import Points, Line, Constant, Curve, Piecewise
from intervalpy import Interval

BOUNDS = ('2-4 adjacent or gapped pieces with real borders, open or closed at either side, each a constant, line or series; '
          'blends of lines, constants and series between two real abscissae inside the domain; any real query; 5 pieces')
ASSUMES = 'real arithmetic; pieces are given in ascending order and overlap at most in a border'


def borders(c, n, gaps):
    """n pieces: list of (lo, hi) with optional gaps between."""
    x = c.real('b0', -8, 8)
    out = []
    for i in range(n):
        w = c.real('w%d' % i, Fraction(1, 16), 4)
        out.append((x, x + w))
        x = x + w
        if gaps and i < n - 1:
            x = x + c.real('gap%d' % i, Fraction(1, 16), 4)
    return out


def pieces(c, n, gaps, flags, ends):
    bs = borders(c, n, gaps)
    curves = [Line(const=c.real('c%d' % i, -8, 8), slope=c.real('m%d' % i, -8, 8)) if i % 2 == 0
              else Constant(c.real('c%d' % i, -8, 8)) for i in range(n)]
    doms = []
    for i, (lo, hi) in enumerate(bs):
        f = flags[i % len(flags)]
        a, b = lo, hi
        if ends == 'infinite' and i == 0:
            a = -math.inf
        if ends == 'infinite' and i == n - 1:
            b = math.inf
        doms.append(Interval(a, b, start_open=f in 'oh', end_open=f in 'oH'))
    p = Piecewise(curves, doms)
    flat = []
    for lo, hi in bs:
        if not flat or gaps:
            flat.append(lo)
        flat.append(hi)
    x, k, u = c.query(flat)
    want = None
    for d, f in zip(doms, curves):
        lo_ok = True if not c.symbolic and math.isinf(d.start) or d.start == -math.inf else \
            (x > d.start if d.start_open else x >= d.start)
        hi_ok = True if d.end == math.inf else (x < d.end if d.end_open else x <= d.end)
        if lo_ok and hi_ok:
            want = f.y(x)
            break
    c.eq(p.y(x), want, 'value of the first piece containing x')
    c.eq(p.domain, Interval(doms[0].start, doms[-1].end, start_open=doms[0].start_open, end_open=doms[-1].end_open), 'domain')


def mismatch(c):
    c.check(c.raises(lambda: Piecewise([Constant(1)], [(0, 1), (1, 2)])) is not None, 'needs one domain per curve')


def series_pieces(c, n):
    f, xs, ys = make_points(c, n, 'uniform', none=True)
    g = Constant(c.real('k', -8, 8))
    p = Piecewise([f, g], [(xs[0], xs[-1]), Interval.gt(xs[-1])])
    x, k, u = c.query(xs)
    want = points_oracle(c, xs, ys, 0, x, k, u)
    if k >= n:
        want = g.value
    c.eq(p.y(x), want, 'series then constant')


def blend(c, kind):
    a = c.real('a', -4, 4)
    w = c.real('w', Fraction(1, 16), 4)
    b = a + w
    if kind == 'lines':
        f = Line(const=c.real('c0', -4, 4), slope=c.real('m0', -4, 4))
        g = Line(const=c.real('c1', -4, 4), slope=c.real('m1', -4, 4))
    elif kind == 'constants':
        f, g = Constant(c.real('c0', -4, 4)), Constant(c.real('c1', -4, 4))
    else:
        xs = [c.num(-16), c.num(16)]
        f = Points([(x, c.real('f%d' % i)) for i, x in enumerate(xs)])
        g = Points([(x, c.real('g%d' % i)) for i, x in enumerate(xs)])
    h = f.blend(g, a, b)
    x, k, u = c.query([a, b])
    if kind == 'series':
        c.assume(c.And(x >= -16, x <= 16))
    fy, gy = f.y(x), g.y(x)
    if k < 0:
        want = fy
    elif k == 0:
        want = fy * (1 - u) + gy * u
    else:
        want = gy
    c.eq(h.y(x), want, 'blend')
    if kind == 'series':
        c.eq([h.domain.start, h.domain.end], [-16, 16], 'blend domain')
        c.eq([h.y(c.num(-17)), h.y(c.num(17))], [None, None], 'outside')
    else:
        c.check(bool(h.domain.is_infinite), 'blend domain')


def subset(c, n, lo_open, hi_open):
    f, xs, ys = make_points(c, n, 'free', none=True)
    lo, kl, _ = c.query(xs, 'lo', outside=False)
    w = c.real('w', Fraction(1, 16), 8)
    hi = lo + w
    d = Interval(lo, hi, start_open=lo_open, end_open=hi_open)
    g = f.subset(d)
    c.eq(g.domain, d, 'subset domain')
    j = c.cint('j', 0, n + 1)
    x = xs[j] if j < n else lo if j == n else hi
    inside = (x > lo if lo_open else x >= lo) and (x < hi if hi_open else x <= hi)
    c.eq(g.y(x), f.y(x) if inside else None, 'subset value')


def instances(tier):
    out = []
    quick = tier == 'quick'
    for n in (2, 3) if quick else (2, 3, 4):
        for gaps in (False, True):
            # c closed, o open, h open-closed, H closed-open
            for flags in ('c', 'o', 'h', 'H', 'cH', 'hc', 'oc', 'co'):
                for ends in ('finite', 'infinite'):
                    out.append(inst(pieces, n=n, gaps=gaps, flags=flags, ends=ends, cost=n))
    for flags in ('h', 'H'):
        out.append(inst(pieces, n=5 if quick else 7, gaps=flags == 'h', flags=flags, ends='finite', cost=5))
    out.append(inst(mismatch))
    for n in (2, 3):
        out.append(inst(series_pieces, n=n))
        for a in (False, True):
            for b in (False, True):
                out.append(inst(subset, n=n, lo_open=a, hi_open=b))
    for kind in ('lines', 'constants', 'series'):
        out.append(inst(blend, kind=kind))
    return out
