"""C22  Trend lines run along enough points of the curve, on the right side of it, and follow its edits."""
from fractions import Fraction

from sx.harness import inst
from curvepy import Points, Trend
from intervalpy import Interval

BOUNDS = ('any three points on a unit grid and one edited or appended one, any four points without an edit (thorough: five), and patterns of six points with an unknown '
          'edited or appended value (thorough: of five points with a second one) and of five to seven points touching a line of unknown slope at unknown depths; absolute tolerance 1/8, relative tolerance 1/4 for three points; minimum widths 1 to 3, '
          'two to four points per trend, minimum distances 0 and 2; read at any position of the grid before and after')
ASSUMES = 'real arithmetic; values in [-4, 4]; least squares are exact; points of interest and predictions are only compared between a trend and a new one'

TOL = Fraction(1, 8)


def trend(c, f, more=()):
    k = dict(more)
    if 'y_tol_rel' in k:
        k['y_tol_rel'] = c.num(Fraction(k['y_tol_rel']))
    else:
        k['y_tol_abs'] = c.num(TOL)
    return Trend(f, k.pop('min_width', 2), **k)


def pairs(ps):
    return [[p[0], p[1]] for p in ps]


def described(lines):
    """Everything told about some lines."""
    return [[l.is_upper_trend, pairs(l), pairs(l.trend_points), [l.search_interval.start, l.search_interval.end], pairs(l.intersections), pairs(l.tangent_points),
             pairs(l.extremas), l.prediction_phase, l.prediction_y, l.prediction_failed, l.prediction_succeeded] for l in lines]


def values(c, n, pattern=None):
    """Values of n points; a pattern fixes all but those that are None."""
    return [c.real('y%d' % i, -4, 4) if pattern is None or pattern[i] is None else pattern[i] for i in range(n)]


def edit(c, f, p, op):
    """Edit the series; returns its new points."""
    n = len(p)
    if op == 'read':
        return p
    if op == 'truncate':
        j = c.cint('j', 1, n - 1)
        f.reset(Interval.gte(j))
        return p[:j]
    if op == 'behead':
        j = c.cint('j', 0, n - 2)
        f.reset(Interval.lte(j))
        return p[j + 1:]
    z = (None, c.real('z', -4, 4))[1]
    if op == 'append':
        f.append((n, z))
        return p + [(n, z)]
    if op == 'set':
        q = [(i, z + p[0][1] if i % 2 else p[-1][1]) for i in range(n)]
        f.set(q)
        return q
    j = int(op[7:])                            # replace<j>
    f.replace((j, z))
    return p[:j] + [(j, z)] + p[j + 1:]


def history(c, n, pattern, op, first, more):
    """After reads and an edit the lines are those of a new trend."""
    p = list(enumerate(values(c, n, pattern)))
    f = Points(p)
    t = trend(c, f, more)
    if first == 'both':
        t.y(n - 1)
        t.y(0)
    elif first == 'twice':
        t.lower(c.cint('x', 1, n))
        t.upper(0)
    elif first == 'x':
        t.y(c.cint('x', 0, n - 1))
    p = edit(c, f, p, op)
    u = trend(c, Points(p), more)
    x = c.cint('u', p[0][0], p[-1][0] + 1)
    c.eq(described(t.y(x)), described(u.y(x)), 'lines')
    c.eq(described(t.lines), described(u.lines), 'all lines')


def line_y(l, x):
    return l[0][1] + (l[1][1] - l[0][1]) / (l[1][0] - l[0][0]) * (x - l[0][0])


def sound(c, n, pattern, more):
    """Every line fits enough points, spans enough, and lies beyond the curve it was found along."""
    k = dict(more)
    p = list(enumerate(values(c, n, pattern)))
    t = trend(c, Points(p), more)
    t.scan(n - 1)
    least, wide, far = k.get('min_points', 3), k.get('min_width', 2), k.get('min_point_distance', 0)
    first = [l for ls in (t.nested_upper_lines[0], t.nested_lower_lines[0]) for l in ls]
    lines = t.lines
    c.check(all(l.is_valid for l in lines), 'only valid lines')
    c.eq([l.is_upper_trend for l in lines], [False] * len(t.lower(None)) + [True] * len(t.upper(None)), 'lower lines first')
    for l in lines:
        q = l.trend_points
        xs = [a[0] for a in q]
        c.check(len(q) >= least, 'enough points')
        c.check(all(x in range(n) for x in xs), 'positions of the curve')
        c.eq([a[1] for a in q], [p[x][1] for x in xs], 'points of the curve')
        c.check(all(a < b for a, b in zip(xs, xs[1:])), 'in order')
        c.check(xs[-1] - xs[0] >= wide, 'wide enough')
        c.eq(l.width, xs[-1] - xs[0], 'width')
        c.check(1 + sum(1 for a, b in zip(xs, xs[1:]) if b - a >= far) >= least, 'far enough from each other')
        # the line is the best fit of its points
        c.eq([len(l), l[0][0], l[1][0]], [2, xs[0], xs[-1]], 'ends')
        rest = [a[1] - line_y(l, a[0]) for a in q]
        c.eq(sum(rest), 0, 'balanced')
        c.eq(sum(r * x for r, x in zip(rest, xs)), 0, 'best slope')
        c.eq([l.search_interval.start, l.search_interval.end], [xs[0], xs[0] + (xs[-1] - xs[0]) * k.get('search_length_rel', 10)], 'search interval')
        if len(q) == least:
            for a in q:
                y = line_y(q[::len(q) - 1], a[0])
                c.le(abs(a[1] - y), abs(y) * Fraction(k['y_tol_rel']) + Fraction(1, 2 ** 20) if 'y_tol_rel' in k else TOL, 'points within the tolerance')
            if far == 0 and 'y_tol_rel' not in k and any(l is m for m in first):
                side = 1 if l.is_upper_trend else -1
                for x in range(xs[0], xs[-1]):
                    c.le((p[x][1] - line_y(q[::len(q) - 1], x)) * side, TOL * 2, 'on the right side of the curve')
    for x in range(0, n + 4):
        c.check([id(l) for l in t.lower(x)] == [id(l) for l in lines if l.is_lower_trend and l.search_interval.contains(x)], 'lower lines at a position')
        c.check([id(l) for l in t.upper(x)] == [id(l) for l in lines if l.is_upper_trend and l.search_interval.contains(x)], 'upper lines at a position')
        c.check([id(l) for l in t.y(x)] == [id(l) for l in t.lower(x) + t.upper(x)], 'all lines at a position')
    c.check(True, 'reached')


def found(c, k, upper, fixed, more):
    """A curve that touches a line at every other point and stays beyond it in between has it as a trend."""
    a, m = (1, -2) if fixed == 'line' else (c.real('a', -4, 4), c.real('m', -2, 2))
    side = 1 if upper else -1
    p = []
    for i in range(2 * k - 1):
        y = a + m * i
        if i % 2:
            d = [0, 1, 0, 2, 0, Fraction(1, 2), 0, 1][i] if fixed == 'depths' else c.real('d%d' % i, TOL * 2, 4)
            y = y - d * side
        p.append((i, y))
    t = trend(c, Points(p), more)
    x = c.cint('x', 0, 2 * k - 2)
    ls = [l for l in (t.upper(x) if upper else t.lower(x)) if [q[0] for q in l.trend_points] == list(range(0, 2 * k - 1, 2))]
    c.check(len(ls) > 0, 'found')
    for l in ls:
        c.eq(pairs(l.trend_points), pairs(p[::2]), 'trend points')
        c.eq([l.y(0), l.y(x), l.y(20)], [a, a + m * x, a + m * 20], 'height')
        c.eq(pairs(l), [[0, a], [2 * k - 2, a + m * (2 * k - 2)]], 'ends')
        c.eq(pairs(l.intersections), [], 'never crossed')


def copied(c, n, pattern, more):
    """A copy of a line tells the same and stays as it was."""
    p = list(enumerate(values(c, n, pattern)))
    f = Points(p)
    t = trend(c, f, more)
    t.scan(n - 1)
    ls = [l for nested in (t.nested_upper_lines, t.nested_lower_lines) for ls in nested for l in ls if l.is_ready]
    copies = [l.copy() for l in ls]
    before = described(ls)
    c.eq(described(copies), before, 'same as the line')
    x, y = c.cint('px', 0, n + 1), c.real('py', -4, 4)
    told = [bool(l.is_point_on_trend((x, y))) for l in ls]
    c.eq([bool(l.is_point_on_trend((x, y))) for l in copies], told, 'same points on it')
    f.append((n, c.real('z', -4, 4)))
    t.scan(n)
    c.eq(described(copies), before, 'independent of the line')
    c.eq([bool(l.is_point_on_trend((x, y))) for l in copies], told, 'points on it')


def instances(tier):
    quick = tier == 'quick'
    out = []
    for first in ('x', 'both', 'twice'):
        out.append(inst(history, n=3, pattern=None, op='read', first=first, more=(), cost=3))
    for op in ('append', 'truncate', 'behead', 'replace1', 'replace2'):
        out.append(inst(history, n=3, pattern=None, op=op, first='x', more=(('min_points', 2),), cost=20))
    for op in ('append', 'replace0', 'replace1', 'replace2', 'truncate', 'behead', 'set'):
        out.append(inst(history, n=3, pattern=None, op=op, first='both' if op == 'append' else 'x', more=(), cost=20))
    P = [(1, 3, 2, 4, 3, 5), (2, 2, 2, 1, 3, 2), (1, 2, 1, 2, 1, 3), (0, 1, 2, 3, 2, 1)]
    for i, p in enumerate(P):
        for op in ['append'] + ['replace%d' % j for j in range(6)]:
            out.append(inst(history, n=6, pattern=p, op=op, first='both' if quick else 'x', more=(), cost=8))
        for j in range(1, 5) if not quick else ():
            q = list(p[:5])
            q[j] = None
            out.append(inst(history, n=5, pattern=tuple(q), op='replace%d' % (j - 1), first='both', more=(), cost=8))
    out.append(inst(copied, n=3, pattern=None, more=(('min_points', 2),), cost=10))
    out.append(inst(copied, n=4, pattern=(1, None, 2, 4), more=(), cost=10))
    for n in (3, 4) if quick else (3, 4, 5):
        for more in ((), (('min_points', 2),), (('min_point_distance', 2),), (('min_width', 3),), (('min_width', 1), ('min_points', 2)), (('min_points', 4),), (('search_length_rel', 3),), (('search_length_rel', 3), ('min_points', 2))):
            out.append(inst(sound, n=n, pattern=None, more=more, cost=n * n))
    out.append(inst(sound, n=3, pattern=None, more=(('y_tol_rel', '1/4'),), cost=5))
    for upper in (True, False):
        for more in ((), (('min_width', 3),)):
            for k in (3, 4):
                if k * 2 - 2 >= dict(more).get('min_width', 0):
                    for fixed in ('',) if k == 3 else ('depths',) if quick else ('line', 'depths'):
                        out.append(inst(found, k=k, upper=upper, fixed=fixed, more=more, cost=10))
    return out
