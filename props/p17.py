"""C17  Quotes answer, sample, aggregate and accept edits as the list of quotes they hold."""
from fractions import Fraction

from sx.harness import inst
from curvepy import Quotes
from intervalpy import Interval

BOUNDS = ('0-4 quotes (thorough: 0-6) of any real values at whole multiples of a duration (1 s, 60 s, 1 day; calendar months with fixed dates), any '
          'real query or sampling window, trailing windows of 1-3 quotes; edits by append, append_list and set with or without an encoder; '
          'oscillator over 36 quotes, alligator over 15; 12 quotes')
ASSUMES = 'real arithmetic; duration arithmetic of pyduration is executed symbolically for fixed-length durations; steps start on or at least 1/16 of a duration away from a quote'

COLUMNS = ['open', 'high', 'low', 'close', 'volume']
MONTHS = [0, 2678400, 5097600, 7776000, 10368000, 13046400, 15638400]


def rows(c, n, start=0):
    return [tuple(c.real('%s%d' % (k[0] + k[1], start + i)) for k in COLUMNS) for i in range(n)]


def dates(c, n, dur, start=0):
    if dur == 'month':
        return MONTHS[start:start + n]
    return [c.num(dur * (start + i + 3)) for i in range(n)]


def duration(dur):
    return '1 month' if dur == 'month' else dur


def make(c, n, dur):
    ts, qs = dates(c, n, dur), rows(c, n)
    return Quotes(duration(dur), list(zip(ts, qs))), ts, qs


def columns(c, n, dur):
    """Value of every column anywhere."""
    f, ts, qs = make(c, n, dur)
    x, k, u = c.query(ts)
    q = qs[k] if 0 <= k < n else None
    c.eq(f.y(x), q, 'quote')
    name = c.choice('column', COLUMNS + ['hl2'])
    g = getattr(f, name)
    if name == 'hl2':
        c.eq(g.y(x), None if q is None else (q[1] + q[2]) / 2, 'middle')
    else:
        c.eq(g.y(x), None if q is None else q[COLUMNS.index(name)], 'column')
    c.eq(g.domain, Interval(ts[0], ts[-1]), 'domain')
    c.eq([f.first_quote(), f.last_quote()], [qs[0], qs[-1]], 'first and last')


def stepping(c, n, dur):
    """Next and previous quote."""
    f, ts, qs = make(c, n, dur)
    g = c.choice('of', [f, f.close])
    x, k, u = c.query(ts)
    gap = (ts[1] - ts[0]) if n > 1 else 2678400 if dur == 'month' else dur
    for t in ts:
        c.assume(c.Or(x == t, x - t >= Fraction(1, 16) * gap, t - x >= Fraction(1, 16) * gap))
    after = k + 1 if k < n else n
    before = (k if u != 0 and k < n else k - 1) if k >= 0 else -1
    if k >= n:
        before = n - 1
    c.eq(g.x_next(x), ts[after] if after < n else None, 'next')
    c.eq(g.x_previous(x), ts[before] if before >= 0 else None, 'previous')


def window(c, dur):
    a = c.real('a', -2 * dur, 12 * dur)
    b = a + c.real('len', 0, 8 * dur)
    so, eo = c.bool('so'), c.bool('eo')
    if so or eo:
        c.assume(b > a)
    return a, b, so, eo


def covered(ts, dur, a, b, so, eo):
    """Indexes of the quotes whose span [t, t + duration) meets the window."""
    out = []
    for i, t in enumerate(ts):
        if (t < b or (t == b and not eo)) and t + dur > a:
            out.append(i)
    return out


def sampling(c, n, dur):
    """Sampled quotes of any window."""
    f, ts, qs = make(c, n, dur)
    a, b, so, eo = window(c, dur)
    w = Interval(a, b, start_open=so, end_open=eo)
    idx = covered(ts, dur, a, b, so, eo)
    c.eq(f.sample_points(w), [(ts[i], qs[i]) for i in idx], 'sampled points')
    c.eq(f.sample(w), [qs[i] for i in idx], 'sampled quotes')


def everything(c, n, dur):
    """Without a window every quote is sampled."""
    f, ts, qs = make(c, n, dur)
    c.eq(f.sample_points(), list(zip(ts, qs)), 'sampled points')
    c.eq(f.sample(), qs, 'sampled quotes')
    if dur != 'month':
        c.eq(f.get_quote_domain(), Interval(ts[0], ts[-1] + dur, end_open=True), 'time told of')
    else:
        c.eq(f.get_quote_domain(), Interval(ts[0], MONTHS[n], end_open=True), 'time told of')


def no_quotes(c, dur):
    """Without quotes nothing is told."""
    f = Quotes(duration(dur), [] if c.bool('given') else None)
    x = c.real('x', -1000, 1000)
    name = c.choice('column', COLUMNS + ['hl2'])
    c.eq([f.y(x), getattr(f, name).y(x), f.trailing_high(2).y(x)], [None] * 3, 'values')
    c.eq([f.domain, f.get_quote_domain(), f.get_range(), getattr(f, name).domain], [Interval.empty()] * 4, 'domains')
    c.eq([f.sample(), f.sample_points()], [[], []], 'samples')
    c.eq([f.first_quote(), f.last_quote()], [None, None], 'first and last')
    c.eq([f.x_next(x), f.x_previous(x)], [None, None], 'steps')


def price_range(c, n, dur):
    """Least low to greatest high of the quotes in a window."""
    f, ts, qs = make(c, n, dur)
    for q in qs:
        c.assume(q[2] <= q[1])
    if c.bool('all'):
        r, idx = f.get_range(), range(n)
    else:
        a, b, so, eo = window(c, dur)
        r, idx = f.get_range(Interval(a, b, start_open=so, end_open=eo)), covered(ts, dur, a, b, so, eo)
    if not idx:
        c.eq(r, Interval.empty(), 'no quotes')
        return
    lo, hi = qs[idx[0]][2], qs[idx[0]][1]
    for i in idx:
        lo = qs[i][2] if qs[i][2] < lo else lo
        hi = qs[i][1] if qs[i][1] > hi else hi
    c.eq(r, Interval(lo, hi), 'range')


def trailing(c, n, dur, d):
    """Highest high and lowest low of the last quotes."""
    f, ts, qs = make(c, n, dur)
    x, k, u = c.query(ts)
    hi = lo = None
    if 0 <= k < n:
        for q in qs[max(0, k - d + 1):k + 1]:
            hi = q[1] if hi is None or q[1] > hi else hi
            lo = q[2] if lo is None or q[2] < lo else lo
    if c.bool('high'):
        c.eq(f.trailing_high(d).y(x), hi, 'trailing high')
    else:
        c.eq(f.trailing_low(d).y(x), lo, 'trailing low')


def encode(q):
    return (q['t'], (q['o'], q['h'], q['l'], q['c'], q['v']))


def wrap(t, q):
    return dict(t=t, o=q[0], h=q[1], l=q[2], c=q[3], v=q[4])


def edits(c, n, dur, encoder, count):
    """Quotes after edits hold what a list would."""
    kw = dict(encoder=encode) if encoder else {}
    pack = wrap if encoder else lambda t, q: (t, q)
    ts, qs = dates(c, n, dur), rows(c, n)
    f = Quotes(duration(dur), [pack(t, q) for t, q in zip(ts, qs)] if n else None, **kw)
    col = c.choice('column', ['close', 'volume'])
    i = COLUMNS.index(col)
    g = getattr(f, col)
    for step in range(count):
        if n:
            j = c.cint('r%d' % step, 0, len(ts))
            if j < len(ts):
                c.eq(g.y(ts[j]), qs[j][i], 'read before')
        op = c.choice('edit%d' % step, ['append', 'append_list', 'set'])
        m = 1 if op == 'append' else c.cint('m%d' % step, 1, 2)
        if op == 'set':
            s = c.cint('s%d' % step, 0, 1)
            ts, qs = [], []
        else:
            s = len(ts)
        nt = dates(c, m, dur, s if op == 'set' else base(ts, dur))
        nq = [tuple(c.real('e%d_%d_%s' % (step, a, k)) for k in COLUMNS) for a in range(m)]
        new = [pack(t, q) for t, q in zip(nt, nq)]
        if op == 'append':
            f.append(new[0])
        elif op == 'append_list':
            f.append_list(new)
        else:
            f.set(new)
        ts, qs = ts + nt, qs + nq
        c.eq(f.sample_points(), list(zip(ts, qs)), 'quotes held')
        j = c.cint('j%d' % step, 0, len(ts) - 1)
        c.eq(g.y(ts[j]), qs[j][i], 'column')
        c.eq(g.domain, Interval(ts[0], ts[-1]), 'domain')


def base(ts, dur):
    """Ordinal of the date after the last one."""
    if not ts:
        return 0
    if dur == 'month':
        return MONTHS.index(ts[-1]) + 1
    return int(ts[-1] / dur) - 3 + 1


def refused(c, n, dur):
    """A quote that does not continue the series is refused and changes nothing."""
    f, ts, qs = make(c, n, dur)
    t = c.real('t', -2 * dur, 20 * dur)
    c.assume(c.Or(t < ts[-1], t > ts[-1] + dur, c.And(t > ts[-1], t < ts[-1] + dur)))
    if n == 1:
        c.assume(t < ts[-1])
    col = f.close
    c.check(c.raises(lambda: f.append((t, rows(c, 1, 9)[0]))) is not None, 'refused')
    c.eq(f.sample_points(), list(zip(ts, qs)), 'quotes held')
    j = c.cint('j', 0, n - 1)
    c.eq(col.y(ts[j]), qs[j][3], 'column')


def mean(v, d, i):
    """Mean height of the polyline over the window of d values ending at i."""
    w = v[i - d + 1:i + 1]
    return (sum(w) - (w[0] + w[-1]) / 2) / (d - 1)


def oscillator(c, j):
    """Difference of the averages of 5 and 34 middles."""
    n = 36
    qs = [(0, c.real('h%d' % i), c.real('l%d' % i), 0, 0) for i in range(n)]
    ts = [c.num(i) for i in range(n)]
    f = Quotes(1, list(zip(ts, qs)))
    mid = [(q[1] + q[2]) / 2 for q in qs]
    c.eq(f.ao().y(ts[j]), mean(mid, 5, j) - mean(mid, 34, j) if j >= 33 else None, 'oscillator')


def alligator(c, j):
    """Averages of 13, 8 and 5 middles, moved ahead by 8, 5 and 3 quotes."""
    n = 15
    qs = [(0, c.real('h%d' % i), c.real('l%d' % i), 0, 0) for i in range(n)]
    dur = 60
    ts = [c.num(i * dur) for i in range(n)]
    f = Quotes(dur, list(zip(ts, qs)))
    mid = [(q[1] + q[2]) / 2 for q in qs]
    got = [g.y(c.num(j * dur)) for g in f.alligator()]
    want = []
    for d, ahead in ((13, 8), (8, 5), (5, 3)):
        i = j - ahead
        want.append(mean(mid, d, i) if d - 1 <= i < n else None)
    c.eq(got, want, 'alligator')


def instances(tier):
    out = []
    quick = tier == 'quick'
    durs = (1, 60, 86400)
    for n in (1, 2, 3, 4) if quick else (1, 2, 3, 4, 5, 6):
        for dur in durs + ('month',):
            out.append(inst(columns, n=n, dur=dur, cost=n))
            out.append(inst(stepping, n=n, dur=dur, cost=n))
            out.append(inst(everything, n=n, dur=dur, cost=n))
            for d in (1, 2, 3):
                if d <= n:
                    out.append(inst(trailing, n=n, dur=dur, d=d, cost=n))
        for dur in durs:
            if n < (4 if quick else 5):
                out.append(inst(sampling, n=n, dur=dur, cost=n))
                out.append(inst(price_range, n=n, dur=dur, cost=n))
            out.append(inst(refused, n=n, dur=dur, cost=n))
    for dur in durs + ('month',):
        out.append(inst(no_quotes, dur=dur, cost=1))
    for n in (0, 1, 2):
        for dur in (1, 60, 'month'):
            for encoder in (False, True):
                out.append(inst(edits, n=n, dur=dur, encoder=encoder, count=1, cost=2))
                if (dur == 60 and n < 2) or not quick:
                    out.append(inst(edits, n=n, dur=dur, encoder=encoder, count=2, cost=6))
    for j in (32, 33, 34, 35):
        out.append(inst(oscillator, j=j, cost=5))
    for j in (6, 7, 11, 12, 13, 17, 18, 19, 20, 22, 23):
        out.append(inst(alligator, j=j, cost=5))
    for dur in (60, 'month'):
        n = 12 if quick else 24
        n = 6 if dur == 'month' else n
        out.append(inst(columns, n=n, dur=dur, cost=n))
        out.append(inst(stepping, n=n, dur=dur, cost=n))
        out.append(inst(everything, n=n, dur=dur, cost=n))
    return out
