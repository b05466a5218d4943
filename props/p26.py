"""C26  What a trend line tells about the curve along it is so: heights, width, crossings, touches, turning points."""
from fractions import Fraction

from sx.harness import inst
from props.p22 import trend, line_y, pairs, TOL
from curvepy import Points

BOUNDS = ('curves that touch a line (slopes -1, 0, 1/2) at three points from either side, and go on with 1-3 points, one or two of them of any value; any position and height asked for, '
          'any factor and greatest width for the extended line, any crossing by its number')
ASSUMES = 'real arithmetic; values in [-8, 8]; absolute tolerance 1/8; only what is told has to be so (not that every crossing is told)'


def curve(c, tail, slope, upper):
    side = 1 if upper else -1
    depth = [0, 1, 0, 2, 0]
    p = [(i, c.num(4 + Fraction(slope) * i - depth[i] * side)) for i in range(5)]
    return p + [(5 + i, c.real('y%d' % i, -8, 8) if d is None else c.num(4 + Fraction(slope) * (5 + i) + Fraction(d) * side)) for i, d in enumerate(tail)]


def lines_of(c, p, upper):
    """The lines of the curve; among them the one it touches first."""
    t = trend(c, Points(p))
    t.scan(p[-1][0])
    ls = [l for ls in t.nested_upper_lines + t.nested_lower_lines for l in ls if l.is_ready]
    main = [l for l in ls if l.is_upper_trend == upper and [q[0] for q in l.trend_points][:3] == [0, 2, 4]]
    c.check(len(main) > 0, 'a line')
    # the lines along the curve itself, not along touches of other lines
    first = t.nested_upper_lines[0] + t.nested_lower_lines[0]
    return ls, main, first


def off(l, q):
    return abs(q[1] - line_y(l, q[0])) > TOL


def along(c, tail, slope, upper):
    p = curve(c, tail, slope, upper)
    ls, main, first = lines_of(c, p, upper)
    side = 1 if upper else -1
    for l in ls:
        x0, x1 = l[0][0], l[1][0]
        far = [q for q in p if q[0] >= x0]
        # crossings
        for a in l.intersections:
            c.check(x0 < a[0], 'after the beginning')
            c.eq(a[1], line_y(l, a[0]), 'crossing on the line')
            before = [q for q in p if q[0] <= a[0] and off(l, q)][-1:]
            after = [q for q in p if q[0] >= a[0] and off(l, q)][:1]
            c.check(bool(before and after), 'crossing inside')
            u, v = (q[1] - line_y(l, q[0]) for q in (before[0], after[0]))
            c.check(u * v <= 0, 'from one side to the other')
        xs = [a[0] for a in l.intersections]
        c.check(all(a < b for a, b in zip(xs, xs[1:])), 'crossings in order')
        # touches
        for a in l.tangent_points:
            c.check(any(a is q or (a[0] == q[0]) for q in far), 'touch of the curve')
            y = [q[1] for q in p if q[0] == a[0]]
            c.eq([a[1]], y, 'touch on the curve')
            c.le(abs(a[1] - line_y(l, a[0])), TOL, 'touch on the line')
        xs = [a[0] for a in l.tangent_points]
        c.check(all(a < b for a, b in zip(xs, xs[1:])), 'touches in order')
        # turning points
        for a in l.extremas:
            c.eq([a[1]], [q[1] for q in p if q[0] == a[0]], 'turning point on the curve')
            c.check(off(l, a), 'turning point off the line')
            # the farthest of the points on its side next to it
            s = 1 if a[1] > line_y(l, a[0]) else -1
            for step in (-1, 1) if l.is_valid and any(l is o for o in first) else ():
                i = a[0] + step
                while x0 <= i < len(p) and l.search_interval.contains(i) and off(l, p[i]) and (p[i][1] - line_y(l, i)) * s > 0:
                    c.le(p[i][1] * s, a[1] * s, 'farthest on its side')
                    i += step
        xs = [a[0] for a in l.extremas]
        c.check(all(a < b for a, b in zip(xs, xs[1:])), 'turning points in order')
    for l in main:
        if len(l.trend_points) == 3:
            # of the part that is known: touches at the trend points, turning points in between
            c.eq(pairs(l.tangent_points)[:3], pairs(p[:5:2]), 'touches')
            c.eq(pairs(l.extremas)[:2], pairs(p[1:4:2]), 'turning points')
            # the first point that is beyond the line, next to one on the side of the curve
            for i, q in enumerate(p[5:]):
                d = (q[1] - line_y(l, q[0])) * side
                if d > TOL and i:
                    c.check(len(l.intersections) > 0 and l.intersections[0][0] <= q[0], 'crossing found')
                if d >= -TOL:
                    break


def told(c, slope, upper, tail):
    """Heights, positions, width and extensions of a line."""
    p = curve(c, tail, slope, upper)
    ls, main, first = lines_of(c, p, upper)
    m = c.num(Fraction(slope))
    for l in main[:1]:
        if len(l.trend_points) > 3:
            c.check(True, 'other line')
            return
        x = c.real('x', -8, 8)
        c.eq(l.y(x), 4 + m * x, 'height')
        c.eq(l.width, 4, 'width')
        y = c.real('h', -8, 8)
        c.eq(l.x(y), (y - 4) / m if slope != '0' else (0 if y == 4 else None), 'position')
        c.eq(l.is_line_coincident(l), True, 'coincident with itself')
        on = bool(abs(y - l.y(x)) <= TOL) and bool(l.search_interval.contains(x))
        c.eq(bool(l.is_point_on_trend((x, y))), on, 'point on the line')


def extended_line(c, slope, upper, tail):
    """Extensions of a line by a factor, up to a width, up to a crossing."""
    p = curve(c, tail, slope, upper)
    ls, main, first = lines_of(c, p, upper)
    m = c.num(Fraction(slope))
    for l in main[:1]:
        if len(l.trend_points) > 3:
            c.check(True, 'other line')
            return
        k, w = c.real('k', Fraction(1, 2), 4), c.real('w', 1, 8)

        def extended(end, **kw):
            c.eq(pairs(l.line_extended(**kw)), [[0, 4], [end, 4 + m * end]], 'extended')
        extended(4)
        extended(4 * k, width_mult=k)
        extended(w if w < 4 else 4, width_max=w)
        extended(w if w < 4 * k else 4 * k, width_mult=k, width_max=w)
        ints = [a[0] for a in l.intersections]
        for i in (-2, -1, 0, 1):
            if not ints:
                extended(4 * k, width_mult=k, intersection_index=i)
                continue
            j = max(0, len(ints) + i) if i < 0 else min(i, len(ints) - 1)
            end = ints[j] if ints[j] > 4 else 4
            extended(end, intersection_index=i)
            end = end * k
            if j + 1 < len(ints) and ints[j + 1] < end:
                end = ints[j + 1]
            extended(end, width_mult=k, intersection_index=i)


def instances(tier):
    quick = tier == 'quick'
    out = []
    for upper in (False, True):
        for slope in ('0', '1/2', '-1'):
            for tail in ((None,), (None, None), (None, 1, None), (None, -1, None), (-1, None, None), (1, None, None), (1, None, -1)):
                free = len([d for d in tail if d is None])
                if not quick or free < 2 or slope == '1/2' and tail[0] is None and tail[-2] != -1:
                    out.append(inst(along, tail=tail, slope=slope, upper=upper, cost=100 ** free))
            for tail in ((), (None,)):
                out.append(inst(told, tail=tail, slope=slope, upper=upper, cost=10 ** len(tail)))
            for tail in ((), (None,), (-1, 1, None, 2), (-1, 1, -1, None)):
                if not quick or len(tail) < 2 or slope == '1/2':
                    out.append(inst(extended_line, tail=tail, slope=slope, upper=upper, cost=10 ** len(tail)))
    return out
