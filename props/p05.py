"""C05  What a history-dependent curve answers does not depend on what it was asked before."""
from fractions import Fraction

from sx.harness import inst
from props.pipes import PIPES, moved_by
from curvepy import Points

BOUNDS = ('series of 3-4 points on a regular grid, real start, step and values; 2 earlier reads (thorough: 3), each at '
          'any knot or midpoint and of any kind (value, step forward/backward, slope, sampling), then one more read '
          'compared with the same read on a freshly built curve; 9 points and windows of up to 6 at fixed places')
ASSUMES = 'real arithmetic; grid step in [1/16, 4]; reads at knots and midpoints; histories with sampling use the grid -1, -1/2, 0, ...'

SCANS = ('ema', 'smma', 'sma2', 'sma3', 'integral', 'tmax2', 'tmin3', 'acc', 'ema_of_sma', 'sma_plus_ema', 'max_of_smas',
         'sma_offset', 'integral_of_offset', 'tmax_of_sum', 'ema_of_add', 'sma_of_max0', 'tmin_of_scaled', 'rsi')
READS = ('y', 'next', 'previous', 'slope', 'sample')


def build(c, name, xs, ys):
    f = Points(list(zip(xs, ys)))
    if name == 'periodic_ema':
        return f.ema(c.num(8), is_period=True)
    if name == 'ema_diff':
        return f.ema(c.num(Fraction(1, 2))).differential()
    if name == 'sma_ext':
        return f.sma(2).extension('constant', start=True)
    return PIPES[name](c, f)


def read(g, kind, x):
    if kind == 'y':
        return g.y(x)
    if kind == 'next':
        return g.x_next(x)
    if kind == 'previous':
        return g.x_previous(x)
    if kind == 'slope':
        return [g.d_y(x), g.d_y(x, forward=True)]
    if kind == 'sample':
        return [tuple(p) for p in g.sample_points()]
    raise ValueError(kind)


def order(c, name, n, reads):
    if 'sample' in reads:
        h = c.num(Fraction(1, 2))
        xs = [h * i - 1 for i in range(n)]
    else:
        x0, h, xs = c.grid(n)
    ys = [c.real('y%d' % i) for i in range(n)]
    g = build(c, name, xs, ys)
    off = moved_by(c, name)
    kinds = reads.split('+')
    half = c.num(Fraction(1, 2))
    x = None
    for i, kind in enumerate(kinds):
        j = c.cint('j%d' % i, 0, 2 * (n - 1)) if kind != 'sample' else 0
        x = xs[j // 2] + off
        if j % 2:
            x = x + h * half
        got = read(g, kind, x)
    want = read(build(c, name, xs, ys), kinds[-1], x)
    c.eq(got, want, 'same answer as a fresh curve: ' + kinds[-1])


def repeat(c, name, n):
    """Reading everything twice, in both directions, gives the same answers."""
    x0, h, xs = c.grid(n)
    ys = [c.real('y%d' % i) for i in range(n)]
    g = build(c, name, xs, ys)
    off = moved_by(c, name)
    first = [g.y(x + off) for x in reversed(xs)]
    second = [g.y(x + off) for x in xs]
    third = [g.y(x + off) for x in reversed(xs)]
    c.eq(first, list(reversed(second)), 'forward = backward')
    c.eq(first, third, 'repeatable')


WIDE = {
    'sma5': lambda c, f: f.sma(5),
    'smma4': lambda c, f: f.smma(4),
    'sma_of_sma': lambda c, f: f.sma(3).sma(4),
    'total4': lambda c, f: f.accumulator_map(lambda ys: sum(ys), 4),
    'change6': lambda c, f: f.accumulator_map(lambda ys: ys[-1] - ys[0], 6),
    'ema_minus_sma': lambda c, f: f.ema(c.num(Fraction(1, 4))) - f.sma(4),
    'integral_of_ema': lambda c, f: f.ema(c.num(Fraction(1, 4))).integral(),
}


def longer(c, name, n, reads):
    """Many points, wide windows, several reads of any kind at a few places."""
    xs = [c.num(i) for i in range(n)]
    ys = [c.real('y%d' % i) for i in range(n)]
    g = WIDE[name](c, Points(list(zip(xs, ys))))
    kinds = reads.split('+')
    x = None
    for i, kind in enumerate(kinds):
        x = c.num(c.choice('x%d' % i, [Fraction(1, 2), 3, 5, n - Fraction(3, 2), n - 1]))
        got = read(g, kind, x)
    c.eq(got, read(WIDE[name](c, Points(list(zip(xs, ys)))), kinds[-1], x), 'same answer as a fresh curve: ' + kinds[-1])


def instances(tier):
    out = []
    n = 4
    names = SCANS + ('periodic_ema', 'ema_diff', 'sma_ext')
    for name in names:
        slow = name in ('sma_ext', 'max_of_smas', 'sma_plus_ema', 'sma_offset', 'sma_of_max0', 'rsi')
        out.append(inst(repeat, name=name, n=n))
        for last in READS:
            if name == 'sma_ext' and last == 'sample':
                continue
            out.append(inst(order, name=name, n=3 if slow and tier == 'quick' else 4, reads='y+' + last, cost=2))
        for reads in ('y+y+y', 'y+next+y', 'next+y+previous', 'sample+y+next', 'y+slope+y'):
            if name == 'sma_ext' and 'sample' in reads or tier == 'quick' and slow and reads != 'y+y+y':
                continue
            out.append(inst(order, name=name, n=3, reads=reads, cost=4 + 4 * slow))
        if tier != 'quick':
            for a in READS:
                for b in READS:
                    if name == 'sma_ext' and 'sample' in (a, b):
                        continue
                    out.append(inst(order, name=name, n=3, reads=a + '+' + b + '+y', cost=10))
                    out.append(inst(order, name=name, n=5, reads=a + '+' + b, cost=10))
    for name in WIDE:
        for reads in ('y+y+y', 'y+slope+next') + (('sample+y+previous+y', 'next+y+slope+y') if tier != 'quick' else ()):
            out.append(inst(longer, name=name, n=9 if tier == 'quick' else 12, reads=reads, cost=3))
    return out
