"""C18  Observers of a curve are told of every change, once, at the right time."""
from fractions import Fraction

from sx.harness import inst
from curvepy import Constant, Curve, Line, Piecewise, Points
from intervalpy import Interval

HALF = Fraction(1, 2)


def double(y):
    return y * 2 + 1


def diamond(c, f):
    return f + f.map(double, skip_none=True)


# Curves derived from a series f, most of them using it along more than one way.
PIPES = {
    'itself': lambda c, f: f,
    'map': lambda c, f: f.map(double, skip_none=True),
    'offset': lambda c, f: f.offset(c.num(1)),
    'diamond': diamond,
    'nested': lambda c, f: diamond(c, f) - f.map(double, skip_none=True) * 3,
    'extrema': lambda c, f: Curve.max([f.map(double, skip_none=True), f, 0]),
    'shifted': lambda c, f: f - f.offset(c.num(1)),
    'integral': lambda c, f: f.integral(uniform=False),
    'ema': lambda c, f: f.ema(c.num(HALF), uniform=False),
    'smma': lambda c, f: f.smma(2, uniform=False),
    'sma': lambda c, f: f.sma(2, uniform=False),
    'window': lambda c, f: f.accumulator_map(lambda ys: ys[0] - ys[-1], 2, uniform=False),
    'map_minus_ema': lambda c, f: f.map(double, skip_none=True) - f.ema(c.num(HALF), uniform=False),
    'ema_of_diamond': lambda c, f: diamond(c, f).ema(c.num(HALF), uniform=False),
    'ema_of_ema': lambda c, f: f.ema(c.num(HALF), uniform=False).ema(c.num(HALF), uniform=False),
    'sum_of_scans': lambda c, f: f.integral(uniform=False) + f.ema(c.num(HALF), uniform=False) * 2,
    'diff': lambda c, f: f.differential(),
    'diff_forward': lambda c, f: f.differential(forward=True),
    'ema_of_diff_forward': lambda c, f: f.differential(forward=True).ema(c.num(HALF), uniform=False),
    'subset': lambda c, f: f.subset(Interval.gte(c.x1)),
    'pieces': lambda c, f: Piecewise([f, f.map(double, skip_none=True), diamond(c, f)],
                                     [Interval.open_closed(c.x0 - 8, c.x1), Interval.open_closed(c.x1, c.x1 + c.h),
                                      Interval.open_closed(c.x1 + c.h, c.x1 + 16 * c.h)]),
    'constant_end': lambda c, f: f.extension('constant'),
    'tangent_both': lambda c, f: f.extension('tangent', start=True),
    'extension_minus': lambda c, f: f.extension('constant', start=True) - f,
    'map_of_extension': lambda c, f: f.extension('tangent').map(double, skip_none=True),
}
# Curves derived from a series f and a second source: a line, or another series.
TWO = {
    'first_source': lambda c, f, g: f,
    'second_source': lambda c, f, g: g,
    'sum': lambda c, f, g: f + g,
    'difference': lambda c, f, g: g - f * 2,
    'larger': lambda c, f, g: Curve.max([f, g], ignore_empty=True),
    'offset_sum': lambda c, f, g: (f.offset(c.num(1)) + g),
    'second_map': lambda c, f, g: g.map(double, skip_none=True),
    'pieces': lambda c, f, g: Piecewise([f, g], [Interval.open_closed(c.x0 - 8, c.x1), Interval.open_closed(c.x1, c.x1 + 16 * c.h)]),
    'blend': lambda c, f, g: f.blend(g, c.x1, c.x1 + c.h),
    'ema_of_sum': lambda c, f, g: (f + g).ema(c.num(HALF), uniform=False),
    'sum_and_scan': lambda c, f, g: g + (f + g).ema(c.num(HALF), uniform=False),
    'ema_with_init': lambda c, f, g: f.ema(c.num(HALF), init=g, uniform=False),
    'second_subset': lambda c, f, g: g.subset(Interval.closed(c.x1, c.x1 + c.h)) * 2,
    'first_extended': lambda c, f, g: Curve.first([f, g]),
    'extension_minus': lambda c, f, g: f.extension('constant', start=True) - g,
}
EDITS = ('append', 'append2', 'insert', 'replace', 'remove', 'set', 'truncate', 'behead', 'clear')

BOUNDS = ('series of 3 points (thorough: 4) at uneven multiples 0, 1, 3, 6 of any real step, any real start and values; every kind of edit at every place; %d '
          'kinds of derived curves of a series and %d of a series and a line, constant or second series, either of which is edited; compared at every knot, in every gap and one step beyond the ends, before and after; observers that '
          'read the curve in neither, either or both callbacks; 3 edits in a row of 4 points at fixed places' % (len(PIPES), len(TWO)))
ASSUMES = 'real arithmetic; step in [1/16, 4]; observers do not edit curves; borders of pieces are fixed'


def edit(c, f, xs, ys, h, op):
    """Edit the series in place; returns the new (xs, ys)."""
    n = len(xs)
    if op == 'clear':
        f.reset()
        return [], []
    if op == 'truncate':
        j = c.cint('j', 1, n - 1)
        f.reset(Interval.gte(xs[j]))
        return xs[:j], ys[:j]
    if op == 'behead':
        j = c.cint('j', 0, n - 2)
        f.reset(Interval.lte(xs[j]))
        return xs[j + 1:], ys[j + 1:]
    if op == 'remove':
        j = c.cint('j', 1, n - 2)
        f.reset(Interval.point(xs[j]))
        return xs[:j] + xs[j + 1:], ys[:j] + ys[j + 1:]
    y = c.real('y')
    if op == 'append':
        x = xs[-1] + h * c.choice('g', [1, 2])
        f.append((x, y))
        return xs + [x], ys + [y]
    if op == 'append2':
        z = c.real('z')
        f.append_list([(xs[-1] + h, y), (xs[-1] + h * 3, z)])
        return xs + [xs[-1] + h, xs[-1] + h * 3], ys + [y, z]
    if op == 'set':
        k = c.choice('k', [-3, 1, 8])
        z = c.real('z')
        x = [xs[0] + h * k, xs[0] + h * (k + 3)]
        f.set([(x[0], y), (x[1], z)])
        return x, [y, z]
    j = c.cint('j', 0, n - (2 if op == 'insert' else 1))
    if op == 'insert':
        x = xs[j] + (xs[j + 1] - xs[j]) * c.num(HALF)
        f.replace((x, y))
        return xs[:j + 1] + [x] + xs[j + 1:], ys[:j + 1] + [y] + ys[j + 1:]
    f.replace((xs[j], y))
    return xs, ys[:j] + [y] + ys[j + 1:]


def series(xs, ys):
    return Points(list(zip(xs, ys)), uniform=False)


def notified(c, pipe, n, op, reads):
    xs, ys, x = setting(c, n, reads)
    f = series(xs, ys)
    watch(c, PIPES[pipe](c, f), x, PIPES[pipe](c, series(xs, ys)).y(x), reads,
          lambda: edit(c, f, xs, ys, c.h, op), lambda r: PIPES[pipe](c, series(*r)).y(x))


def two_sources(c, pipe, n, kind, op, reads):
    """The same for curves of two sources; either of them is edited."""
    xs, ys, x = setting(c, n, reads)
    make = TWO[pipe]
    if kind == 'constant':
        def second(p):
            return Constant(p[0])
        q = (c.real('a'),)
    elif kind == 'line':
        a, s = c.real('a'), c.real('s')

        def second(p):
            return Line(p1=(c.x0, p[0]), slope=p[1])
        q = (a, s)
    else:
        q = ([c.x0, c.x0 + c.h * 3], [c.real('a'), c.real('b')])

        def second(p):
            return series(*p)
    f, g = series(xs, ys), second(q)
    before = make(c, series(xs, ys), second(q)).y(x)

    def change():
        if op != 'second':
            return edit(c, f, xs, ys, c.h, op), q
        if kind == 'constant':
            g.value = c.real('d')
            return (xs, ys), (g.value,)
        if kind == 'line':
            r = (a, c.real('t')) if c.bool('slope') else (c.real('d'), s)
            if c.bool('points'):
                g.set(points=[(c.x0, r[0]), (c.x0 + c.h, r[0] + r[1] * c.h)])
            else:
                g.set(p1=(c.x0, r[0]), slope=r[1])
            return (xs, ys), r
        return (xs, ys), edit(c, g, q[0], q[1], c.h, c.choice('op', ['append', 'replace', 'insert', 'set']))

    watch(c, make(c, f, g), x, before, reads, change, lambda r: make(c, series(*r[0]), second(r[1])).y(x))


def setting(c, n, reads):
    x0, h, _ = c.grid(n)
    c.x0, c.x1, c.h = x0, x0 + h, h
    xs = [x0 + h * (i * (i + 1) // 2) for i in range(n)]
    ys = [c.real('y%d' % i) for i in range(n)]
    x = xs[0] + h * c.num(Fraction(c.cint('at', -4, n * (n + 1) + 4), 2)) + (h * c.num(Fraction(1, 4)) if reads == '' else 0)
    return xs, ys, x


def watch(c, g, x, before, reads, change, fresh):
    """Observe g during a change; fresh(r) is the value expected after a change that returned r."""
    events = []

    def begin(d):
        events.append(('begin', d, g.y(x) if 'b' in reads else before))

    def end(d):
        events.append(('end', d, g.y(x) if 'e' in reads else None))

    g.add_observer(begin=begin, end=end)
    if 'w' in reads:
        g.y(x)
    after = fresh(change())
    c.eq(g.y(x), after, 'value after the edit')
    kinds = [e[0] for e in events]
    k = len(kinds)
    c.check(k == 0 or kinds == ['begin'] * (k - 1) + ['end'] and k > 1, 'one end, after its beginnings')
    c.check(not g.is_updating, 'not left updating')
    told = events[-1][1] if k else Interval.empty()
    for kind, d, y in events:
        c.check(bool(told.is_superset_of(d)), 'the end covers the beginnings')
        if kind == 'begin':
            c.eq(y, before, 'value while the edit begins')
        elif 'e' in reads:
            c.eq(y, after, 'value when the edit has ended')
    if not told.contains(x):
        c.eq(before, after, 'value outside of the announced interval')


def several(c, pipe, reads, first):
    """A history of edits, watched by one observer all the time."""
    c.x0, c.x1, c.h = c.num(0), c.num(1), c.num(1)
    n = 4
    xs = [c.num(i * (i + 1) // 2) for i in range(n)]
    ys = [c.real('y%d' % i) for i in range(n)]
    f = series(xs, ys)
    g = PIPES[pipe](c, f)
    told = []

    def begin(d):
        told.append(('begin', d))
        if 'b' in reads:
            g.y(xs[1])

    def end(d):
        told.append(('end', d))
        if 'e' in reads:
            g.y(xs[-1])

    g.add_observer(begin=begin, end=end)
    half = c.num(HALF)
    for i in range(3):
        op = first if i == 0 else c.choice('op%d' % i, ['append', 'replace', 'behead', 'insert'])
        if 'w' in reads:
            g.y(xs[-1])
        old = list(zip(xs, ys))
        y = c.real('e%d' % i)
        if op == 'append':
            xs, ys = xs + [xs[-1] + 2], ys + [y]
            f.append((xs[-1], y))
        elif op == 'replace':
            j = len(xs) // 2
            ys = ys[:j] + [y] + ys[j + 1:]
            f.replace((xs[j], y))
        elif op == 'behead':
            f.reset(Interval.lte(xs[0]))
            xs, ys = xs[1:], ys[1:]
        else:
            j = len(xs) - 1
            x = (xs[j - 1] + xs[j]) * half
            f.replace((x, y))
            xs, ys = xs[:j] + [x] + xs[j:], ys[:j] + [y] + ys[j:]
        a, b = [PIPES[pipe](c, series(*zip(*p))) for p in (old, list(zip(xs, ys)))]
        kinds = [k for k, d in told]
        c.check(kinds == [] or kinds == ['begin'] * (len(kinds) - 1) + ['end'] and len(kinds) > 1, 'one end, after its beginnings')
        c.check(not g.is_updating, 'not left updating')
        d = told[-1][1] if told else Interval.empty()
        places = sorted(set([p[0] for p in old] + xs))
        places = [places[0] - 1] + places + [(p + q) * half for p, q in zip(places, places[1:])] + [places[-1] + 1]
        for x in places:
            v = b.y(x)
            c.eq(g.y(x) if 'w' in reads or i == 2 else v, v, 'value after the edit')
            if not d.contains(x):
                c.eq(a.y(x), v, 'value outside of the announced interval')
        del told[:]


def instances(tier):
    out = []
    quick = tier == 'quick'
    for i, pipe in enumerate(PIPES):
        for j, op in enumerate(EDITS):
            for reads in ('', 'wbe')[(i + j) % 2:] if quick else ('', 'e', 'b', 'we', 'wb', 'wbe'):
                out.append(inst(notified, pipe=pipe, n=3, op=op, reads=reads, cost=3))
                if not quick:
                    out.append(inst(notified, pipe=pipe, n=4, op=op, reads=reads, cost=6))
    for i, pipe in enumerate(TWO):
        for j, (kind, op) in enumerate([('line', 'second'), ('line', 'append'), ('constant', 'second'), ('line', 'replace'), ('series', 'second'), ('series', 'insert'), ('series', 'truncate')]):
            if pipe == 'blend' and op != 'second':
                # a blend keeps the border of the first curve
                continue
            for reads in ('', 'wbe')[(i + j) % 2:] if quick else ('', 'e', 'b', 'we', 'wb', 'wbe'):
                out.append(inst(two_sources, pipe=pipe, n=3, kind=kind, op=op, reads=reads, cost=3))
    for i, pipe in enumerate(PIPES):
        if pipe == 'extrema':
            continue
        for j, first in enumerate(('append', 'replace', 'behead', 'insert')):
            for reads in ('', 'wbe')[(i + j) % 2:][:1] if quick else ('', 'w', 'be', 'wbe'):
                out.append(inst(several, pipe=pipe, reads=reads, first=first, cost=3))
    return out
