"""C21  Extremas of a curve about a reference are its alternating confirmed turning points."""
from fractions import Fraction

from sx.harness import inst
from curvepy import Points, Constant, Extremas

BOUNDS = ('series of 0-5 points (thorough: up to 6) equally spaced or with uneven gaps, some undefined; reference: any constant, a series over the same or part of the positions, or an '
          'average of the curve itself; minimum deviation 0 or any up to 1; any real query, up to two reads in any order before, and an edit of the curve or of the reference in between; 7-8 points at fixed places whose sides are given')
ASSUMES = 'real arithmetic; real steps of 1/16 to 16'


def oracle(c, xs, ys, refs, dev):
    """Confirmed extremas: of every run of points on one side of the reference but the last, the first furthest one."""
    out, cur = [], None
    for x, y, r in zip(xs, ys, refs):
        if y is None or r is None:
            continue
        p = y - r
        if abs(p) <= dev * abs(r):
            continue
        side = 1 if p > 0 else -1
        if cur is None:
            cur = (x, y, side)
        elif cur[2] != side:
            out.append(cur[:2])
            cur = (x, y, side)
        elif y * side > cur[1] * side:
            cur = (x, y, side)
    return out


def interpolate(ex, x):
    """Value at x of the line through the extremas."""
    if not ex or x < ex[0][0] or x > ex[-1][0]:
        return None
    for (xa, ya), (xb, yb) in zip(ex, ex[1:]):
        if x == xa:
            return ya
        if x < xb:
            return ya + (yb - ya) * (x - xa) / (xb - xa)
    return ex[-1][1]


def reference(c, kind, xs, ys):
    """(reference curve, its value at each position, edit)"""
    n = len(xs)
    if kind == 'const':
        v = c.real('r')
        return Constant(v), [v] * n
    if kind == 'zero':
        return Constant(c.num(0)), [c.num(0)] * n
    if kind == 'series':
        rs = [c.real('r%d' % i) for i in range(n)]
        return Points(list(zip(xs, rs)), uniform=False), rs
    if kind == 'part':
        rs = [c.real('r%d' % i) for i in range(n - 1)]
        return Points(list(zip(xs, rs)), uniform=False), rs + [None]
    raise ValueError(kind)


def checks(c, e, xs, ys, refs, dev, spacing='unit'):
    ex = oracle(c, xs, ys, refs, dev)
    for i, x in enumerate(xs):
        c.eq(e.y(x), interpolate(ex, x), 'value at point %d' % i)
    if len(xs) > 1:
        j = c.cint('m', 0, len(xs) - 2)
        x = (xs[j] + xs[j + 1]) * c.num(Fraction(1, 2))
        c.eq(e.y(x), interpolate(ex, x), 'value between points')
    if spacing == 'unit':
        c.eq([list(p) for p in e.sample_points()], [list(p) for p in ex], 'extremas')
    c.eq([list(p) for p in e.extremas], [list(p) for p in ex], 'list of extremas')


def positions(c, n, spacing):
    if spacing == 'unit':
        return [c.num(i) for i in range(n)], 1
    if spacing == 'scaled':
        x0, h, xs = c.grid(n)
    else:
        x0, h = c.real('x0', -1000, 1000), 1
        xs = [x0 + (i * (i + 1) // 2 if spacing == 'uneven' else i) for i in range(n)]
    return xs, h


def fresh(c, n, ref, dev, spacing, none):
    xs, h = positions(c, n, spacing)
    ys = [None if i == none else c.real('y%d' % i) for i in range(n)]
    f = Points(list(zip(xs, ys)), uniform=spacing != 'uneven')
    g, refs = reference(c, ref, xs, ys)
    d = c.real('dev', 0, 1) if dev else c.num(0)
    e = Extremas(f, g, min_deviation=d)
    c.eq(e.domain, f.domain, 'domain')
    ex = oracle(c, xs, ys, refs, d)
    if n:
        x, k, u = c.query(xs)
        c.eq(e.y(x), interpolate(ex, x), 'value')
    checks(c, e, xs, ys, refs, d, spacing)


def reads(c, n, ref, times):
    """What was asked before does not matter."""
    xs, h = positions(c, n, 'unit')
    ys = [c.real('y%d' % i) for i in range(n)]
    f = Points(list(zip(xs, ys)))
    g, refs = reference(c, ref, xs, ys)
    e = Extremas(f, g)
    ex = oracle(c, xs, ys, refs, c.num(0))
    for i in range(times):
        k = c.cint('q%d' % i, 0, 2 * n - 2)
        x = xs[0] + h * c.num(Fraction(1, 2)) * k
        c.eq(e.y(x), interpolate(ex, x), 'value')
        if i == 0 and len(ex) > 1:
            c.eq(e.x_next(ex[0][0]), ex[1][0], 'next extremum')
            c.eq(e.x_previous(ex[1][0]), ex[0][0], 'previous extremum')


def stepping(c, n, ref, way, warm):
    """Between the first and the last extremum, steps go from extremum to extremum, whatever was read before."""
    xs, h = positions(c, n, 'unit')
    ys = [c.real('y%d' % i) for i in range(n)]
    f = Points(list(zip(xs, ys)))
    g, refs = reference(c, ref, xs, ys)
    e = Extremas(f, g)
    ex = oracle(c, xs, ys, refs, c.num(0))
    if warm:
        e.y(xs[c.cint('w', 0, n - 1)])
    c.check(c.And(*[e2[0] > e1[0] for e1, e2 in zip(ex, ex[1:])]), 'ascending')
    if len(ex) < 2:
        return
    i = c.cint('i', 0, len(ex) - 2)
    d = c.real('d', Fraction(1, 16), ex[i + 1][0] - ex[i][0])
    if way == 'next':
        c.eq(e.x_next(ex[i + 1][0] - d), ex[i + 1][0], 'next extremum')
    else:
        c.eq(e.x_previous(ex[i][0] + d), ex[i][0], 'previous extremum')
    for i, x in enumerate(xs):
        c.eq(e.y(x), interpolate(ex, x), 'value at point %d' % i)


def waves(c, runs, ref):
    """Many points, in runs on either side of the reference."""
    n = sum(runs)
    xs = [c.num(i) for i in range(n)]
    ys = [c.real('y%d' % i) for i in range(n)]
    f = Points(list(zip(xs, ys)))
    g, refs = reference(c, ref, xs, ys)
    i = 0
    for k, m in enumerate(runs):
        for j in range(i, i + m):
            c.assume(ys[j] > refs[j] if k % 2 else ys[j] < refs[j])
        i += m
    e = Extremas(f, g)
    ex = oracle(c, xs, ys, refs, c.num(0))
    c.check(len(ex) == len(runs) - 1, 'one for every run but the last')
    j = c.cint('j', 0, n - 1)
    c.eq(e.y(xs[j]), interpolate(ex, xs[j]), 'value at a point')
    c.eq([list(p) for p in e.sample_points()], [list(p) for p in ex], 'extremas')
    m = c.choice('op', ['append', 'replace'])
    y = c.real('y')
    if m == 'append':
        c.assume(y < refs[-1] if len(runs) % 2 == 0 else y > refs[-1])
        f.append((xs[-1] + 1, y))
        xs, ys, refs = xs + [xs[-1] + 1], ys + [y], refs + [refs[-1]]
        if ref != 'const':
            g.append((xs[-1], refs[-1]))
    else:
        c.assume(y > refs[0])
        f.replace((xs[0], y))
        ys = [y] + ys[1:]
    ex = oracle(c, xs, ys, refs, c.num(0))
    c.eq([list(p) for p in e.sample_points()], [list(p) for p in ex], 'extremas after the edit')


def edited(c, n, ref, op, warm):
    xs, h = positions(c, n, 'unit')
    ys = [c.real('y%d' % i) for i in range(n)]
    f = Points(list(zip(xs, ys)), uniform=False)
    if ref == 'self':
        g, refs = f.ema(c.num(Fraction(1, 2)), uniform=False), None
    else:
        g, refs = reference(c, ref, xs, ys)
    e = Extremas(f, g)
    if warm:
        e.y(xs[c.choice('w', [0, n - 1]) if warm > 1 else n - 1])
    xs, ys, refs = list(xs), list(ys), refs and list(refs)
    j = c.cint('j', 0, n - 1) if op in ('replace', 'remove', 'ref') else 0
    v = c.real('v')
    if op == 'append':
        f.append((xs[-1] + h, v))
        xs.append(xs[-1] + h)
        ys.append(v)
        if refs:
            refs.append(refs[-1] if ref == 'const' else None)
    elif op == 'replace':
        f.replace((xs[j], v))
        ys[j] = v
    elif op == 'remove':
        from intervalpy import Interval
        f.reset(Interval.closed(xs[j], xs[j]))
        for l in (xs, ys) + ((refs,) if refs else ()):
            del l[j]
    elif op == 'truncate':
        from intervalpy import Interval
        f.reset(Interval.open(xs[0], xs[-1] + h))
        xs, ys, refs = xs[:1], ys[:1], refs and refs[:1]
    elif op == 'ref':
        if ref == 'const':
            g.value = v
            refs = [v] * n
        else:
            g.replace((xs[j], v))
            refs[j] = v
    if ref == 'self':
        refs = []
        for y in ys:
            refs.append(y if not refs else (refs[-1] + y) / 2)
    checks(c, e, xs, ys, refs, c.num(0))


def instances(tier):
    deep = tier != 'quick'
    out = []
    for n in (0, 1, 2, 3, 4) + ((5,) if deep else ()):
        for spacing in ('even', 'uneven', 'unit', 'scaled'):
            if n > {'scaled': 2, 'unit': 5}.get(spacing, 4 if deep else 3):
                continue
            out.append(inst(fresh, n=n, ref='const', dev=False, spacing=spacing, none=-1, cost=1 + n * n))
            if n <= (4 if deep else 3):
                out.append(inst(fresh, n=n, ref='const', dev=True, spacing=spacing, none=-1, cost=2 + n * n))
        if n in (2, 3):
            out.append(inst(fresh, n=n, ref='series', dev=False, spacing='unit', none=-1, cost=n * n * 3))
            out.append(inst(fresh, n=n, ref='part', dev=False, spacing='uneven', none=-1, cost=n * n))
            out.append(inst(fresh, n=n, ref='zero', dev=True, spacing='unit', none=-1, cost=n * n))
            for none in range(n):
                out.append(inst(fresh, n=n + 1, ref='const', dev=False, spacing='unit', none=none, cost=n * n))
    if deep:
        out.append(inst(fresh, n=5, ref='zero', dev=False, spacing='unit', none=-1, cost=90))
        out.append(inst(reads, n=4, ref='zero', times=3, cost=90))
    for way in ('next', 'previous'):
        for warm in (0, 1):
            out.append(inst(stepping, n=4, ref='zero', way=way, warm=warm, cost=15))
            if deep:
                out.append(inst(stepping, n=4, ref='const', way=way, warm=warm, cost=50))
                out.append(inst(stepping, n=5, ref='zero', way=way, warm=warm, cost=70))
    out.append(inst(reads, n=3, ref='const', times=2, cost=10))
    out.append(inst(reads, n=4, ref='zero', times=2, cost=20))
    for ref in ('const', 'series', 'self'):
        for op in ('append', 'replace', 'remove', 'truncate', 'ref'):
            if ref == 'self' and op == 'ref':
                continue
            for warm in (0, 2 if deep or ref == 'const' and op != 'ref' else 1):
                out.append(inst(edited, n=3, ref=ref, op=op, warm=warm, cost=30 if warm and op in ('replace', 'ref') else 10))
                if deep and ref == 'const':
                    out.append(inst(edited, n=4, ref=ref, op=op, warm=warm, cost=60))
    for runs in ((1, 2, 1, 2, 1), (2, 1, 3, 1), (1, 1, 1, 1, 1, 1, 1, 1), (4, 3)) + (((3, 2, 3), (2, 2, 2, 2)) if deep else ()):
        for ref in ('const', 'series') if deep else ('const',):
            out.append(inst(waves, runs=runs, ref=ref, cost=20))
    return out
