"""C04  A derived curve that saw its source edited equals one built afterwards."""
from fractions import Fraction

from sx.harness import inst
from props.common import make_points
from props.pipes import PIPES, moved_by
from curvepy import Points

BOUNDS = ('series of 3 points (thorough: 2-4) on a regular grid with any real start, step and values; one edit of every '
          'kind (thorough: every ordered pair), before which the derived curve is read at any one knot or at every knot '
          'and midpoint; %d kinds of derived curve; compared at every knot and midpoint, and beyond the ends for extensions; 9 points and windows of up to 6, and streams of 5 points with values read in between, at fixed places'
          % len(PIPES))
ASSUMES = ('real arithmetic; grid step in [1/16, 4]; the derived curve keeps the series it was built from; '
           'probes are knots and midpoints')


def apply_edit(c, f, xs, ys, h, op, t):
    """Edit the series in place; returns the new (xs, ys)."""
    n = len(xs)
    if op == 'append':
        y = c.real(t + 'y')
        f.append((xs[-1] + h, y))
        return xs + [xs[-1] + h], ys + [y]
    if op == 'extend2':
        y, z = c.real(t + 'y'), c.real(t + 'z')
        f.append_list([(xs[-1] + h, y), (xs[-1] + h * 2, z)])
        return xs + [xs[-1] + h, xs[-1] + h * 2], ys + [y, z]
    if op == 'replace':
        j = c.cint(t + 'j', 0, n - 1)
        y = c.real(t + 'y')
        f.replace((xs[j], y))
        return xs, ys[:j] + [y] + ys[j + 1:]
    if op == 'upsert':
        y = c.real(t + 'y')
        f.replace((xs[-1] + h, y), or_append=True)
        return xs + [xs[-1] + h], ys + [y]
    if op == 'truncate':
        from intervalpy import Interval
        j = c.cint(t + 'j', 1, n - 1)
        f.reset(Interval.gte(xs[j]))
        return xs[:j], ys[:j]
    if op == 'behead':
        from intervalpy import Interval
        j = c.cint(t + 'j', 0, n - 2)
        f.reset(Interval.lte(xs[j]))
        return xs[j + 1:], ys[j + 1:]
    if op == 'set':
        y = [c.real(t + 'y%d' % i) for i in range(n)]
        f.set(list(zip(xs, y)))
        return xs, y
    if op == 'move':
        k = c.cint(t + 'k', -4, 4)
        m = c.cint(t + 'm', 1, 2)
        x = [xs[0] + h * (k + i) for i in range(m)]
        y = [c.real(t + 'y%d' % i) for i in range(m)]
        f.set(list(zip(x, y)))
        return x, y
    if op == 'clear':
        f.reset()
        return [], []
    if op == 'refill':
        f.reset()
        y = [c.real(t + 'y%d' % i) for i in range(n)]
        f.set(list(zip(xs, y)))
        return xs, y
    raise ValueError(op)


def probes(c, xs, h):
    out = []
    for i, x in enumerate(xs):
        out.append(x)
        if i + 1 < len(xs):
            out.append(x + h * c.num(Fraction(1, 2)))
    return out


def incremental(c, pipe, n, ops, warm):
    x0, h, xs = c.grid(n)
    ys = [c.real('y%d' % i) for i in range(n)]
    f = Points(list(zip(xs, ys)))
    g = PIPES[pipe](c, f)
    off = moved_by(c, pipe)
    for i, op in enumerate(ops.split('+')):
        # look at the curve before the edit (fills caches), at one chosen place or everywhere
        if warm == 'all':
            for x in probes(c, xs, h):
                g.y(x + off)
            g.domain
        elif warm == 'one':
            j = c.cint('w%d' % i, 0, len(xs))
            if j < len(xs):
                g.y(xs[j] + off)
        xs, ys = apply_edit(c, f, xs, ys, h, op, 'e%d' % i)
    ref = PIPES[pipe](c, Points(list(zip(xs, ys))))
    c.eq(g.domain, ref.domain, 'domain')
    ps = probes(c, xs, h)
    if xs and pipe.startswith('ext'):
        ps = [xs[0] - h] + ps + [xs[-1] + h]
    for x in ps:
        c.eq(g.y(x + off), ref.y(x + off), 'y')


def step_edit(c, f, xs, ys, h, op, t):
    """Edit a series with uneven gaps in place; returns the new (xs, ys)."""
    n = len(xs)
    y = c.real(t + 'y')
    if op == 'append':
        x = xs[-1] + h * c.choice(t + 'g', [1, 2])
        f.append((x, y))
        return xs + [x], ys + [y]
    j = c.cint(t + 'j', 0, n - 1 if op == 'replace' else n - 2)
    if op == 'insert':
        x = xs[j] + (xs[j + 1] - xs[j]) * c.num(c.choice(t + 'u', [Fraction(1, 2), Fraction(1, 4)]))
        f.replace((x, y))
        return xs[:j + 1] + [x] + xs[j + 1:], ys[:j + 1] + [y] + ys[j + 1:]
    if op == 'replace':
        f.replace((xs[j], y))
        return xs, ys[:j] + [y] + ys[j + 1:]
    from intervalpy import Interval
    f.reset(Interval.open(xs[j], xs[-1]))
    return xs[:j + 1] + xs[-1:], ys[:j + 1] + ys[-1:]


FREE = {
    'ema': lambda c, f: f.ema(c.num(Fraction(1, 2)), uniform=False),
    'ema_period': lambda c, f: f.ema(c.num(8), is_period=True, uniform=False),
    'smma': lambda c, f: f.smma(2, uniform=False),
    'sma': lambda c, f: f.sma(2, uniform=False),
    'integral': lambda c, f: f.integral(uniform=False),
    'tmax': lambda c, f: f.trailing_max(2, uniform=False),
    'change': lambda c, f: f.accumulator_map(lambda ys: ys[0] - ys[-1], 3, uniform=False),
    'sum': lambda c, f: f + f.offset(c.num(0)) * 2,
    'ema_of_forward_diff': lambda c, f: f.differential(forward=True).ema(c.num(Fraction(1, 2)), uniform=False),
    'subset_plus': lambda c, f: f.subset(f.domain.extended_to_positive_infinity()) + f,
    'ema_of_sum': lambda c, f: (f + 3).ema(c.num(Fraction(1, 2)), uniform=False),
}


def irregular(c, pipe, n, op):
    """The same for series with uneven gaps, where points may be inserted and removed anywhere."""
    x0, h, xs = c.grid(n)
    xs = [x0 + h * (i * (i + 1) // 2) for i in range(n)]
    ys = [c.real('y%d' % i) for i in range(n)]
    f = Points(list(zip(xs, ys)), uniform=False)
    g = FREE[pipe](c, f)
    j = c.cint('w', 0, n)
    if j < n:
        g.y(xs[j])
    xs, ys = step_edit(c, f, xs, ys, h, op, 'e')
    ref = FREE[pipe](c, Points(list(zip(xs, ys)), uniform=False))
    c.eq(g.domain, ref.domain, 'domain')
    for x in xs:
        c.eq(g.y(x), ref.y(x), 'y')


WIDE = {
    'sma5': lambda c, f: f.sma(5),
    'smma4': lambda c, f: f.smma(4),
    'ema_of_smma': lambda c, f: f.smma(4).ema(c.num(Fraction(1, 4))),
    'sma_of_sma': lambda c, f: f.sma(3).sma(4),
    'total4': lambda c, f: f.accumulator_map(lambda ys: sum(ys), 4),
    'change6': lambda c, f: f.accumulator_map(lambda ys: ys[-1] - ys[0], 6),
    'ema_minus_sma': lambda c, f: f.ema(c.num(Fraction(1, 4))) - f.sma(4),
    'slope_of_sma': lambda c, f: f.sma(4).differential(),
    'sum': lambda c, f: f + f.map(lambda y: y * 2, skip_none=True).offset(c.num(2)),
    'sma_ext': lambda c, f: f.sma(4).extension('constant', start=True),
    'integral_of_ema': lambda c, f: f.ema(c.num(Fraction(1, 4))).integral(),
}


def longer(c, pipe, n, op, places=3):
    """Many points and wide windows."""
    xs = [c.num(i) for i in range(n)]
    ys = [c.real('y%d' % i) for i in range(n)]
    f = Points(list(zip(xs, ys)))
    g = WIDE[pipe](c, f)
    w = c.choice('w', [-1, n // 2, n - 1][3 - places:])
    if w >= 0:
        g.y(xs[w])
    xs, ys = apply_edit(c, f, xs, ys, c.num(1), op, 'e')
    ref = WIDE[pipe](c, Points(list(zip(xs, ys))))
    c.eq(g.domain, ref.domain, 'domain')
    for x in xs:
        c.eq(g.y(x), ref.y(x), 'y')


def stream(c, pipe, n, feed, window, read):
    """Points arrive one by one (and the oldest may leave); the curve is read in between or not."""
    from intervalpy import Interval
    wide = pipe in WIDE
    build = (WIDE if wide else PIPES)[pipe]
    off = 0 if wide else moved_by(c, pipe)
    xs = [c.num(i) for i in range(n + feed)]
    ys = [c.real('y%d' % i) for i in range(n + feed)]
    f = Points(list(zip(xs[:n], ys[:n])))
    g = build(c, f)
    first = 0
    for i in range(n, n + feed):
        f.append((xs[i], ys[i]))
        if read == 'last':
            g.y(xs[i] + off)
        elif read == 'some' and i % 2:
            g.y(xs[i - 1] + off)
        if window and i + 1 - first > window:
            first = i + 1 - window
            f.reset(Interval.lte(xs[first - 1]))
            if read == 'last':
                g.y(xs[i] + off)
    ref = build(c, Points(list(zip(xs[first:], ys[first:]))))
    c.eq(g.domain, ref.domain, 'domain')
    for x in xs[first:]:
        c.eq(g.y(x + off), ref.y(x + off), 'y')


EDITS = ('append', 'extend2', 'replace', 'upsert', 'truncate', 'behead', 'set', 'move', 'clear', 'refill')


def instances(tier):
    out = []
    for pipe in FREE:
        for op in ('append', 'insert', 'replace', 'remove'):
            out.append(inst(irregular, pipe=pipe, n=3, op=op, cost=3))
            if tier != 'quick':
                out.append(inst(irregular, pipe=pipe, n=4, op=op, cost=6))
    for pipe in PIPES:
        for op in EDITS:
            slow = pipe in ('sma_of_max0', 'sma_period', 'rsi', 'max_of_smas')
            for warm in ('one', 'all')[:1 if slow and tier == 'quick' and op != 'replace' else 2]:
                out.append(inst(incremental, pipe=pipe, n=2 if slow and tier == 'quick' and op == 'extend2' else 3, ops=op, warm=warm, cost=3))
                if tier != 'quick' and op != 'behead':
                    out.append(inst(incremental, pipe=pipe, n=2, ops=op, warm=warm, cost=2))
        if tier != 'quick':
            for op in EDITS:
                out.append(inst(incremental, pipe=pipe, n=4, ops=op, warm='one', cost=10))
            for a in ('append', 'replace', 'truncate', 'behead', 'set', 'clear'):
                for b in ('append', 'replace', 'set') + (('upsert',) if a == 'clear' else ()):
                    if a == 'clear' and b != 'set':
                        continue
                    out.append(inst(incremental, pipe=pipe, n=3, ops=a + '+' + b, warm='one', cost=20))
    forks = ('abs', 'max0', 'min0', 'tmax2', 'tmin3', 'tmax_of_sum', 'tmax_of_offset', 'sma_of_max0', 'tmin_of_scaled', 'rsi', 'max_of_smas')
    for pipe in WIDE:
        for op in ('replace', 'append', 'truncate', 'set') + (('behead', 'extend2', 'move') if tier != 'quick' else ()):
            out.append(inst(longer, pipe=pipe, n=9 if tier == 'quick' else 12, op=op, cost=5))
    for pipe in list(WIDE) + [p for p in PIPES if p not in forks]:
        for window in (0, 4):
            for read in ('last', 'some'):
                out.append(inst(stream, pipe=pipe, n=3, feed=5 if tier == 'quick' else 12, window=window, read=read, cost=3))
    return out
