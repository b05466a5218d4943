"""C02  Point series mutation histories behave like an ordered map, and refused edits change nothing."""
from fractions import Fraction

from sx.harness import inst
from props.common import make_points, points_oracle
from curvepy import Points
from intervalpy import Interval

BOUNDS = ('start series of 0-3 points, histories of 1-2 edits (thorough: 0-4 points, 3 edits), every edit kind, '
          'real abscissae/ordinates, one real query after every edit; one edit of 10 points and 3 edits of 4 points at fixed places')
ASSUMES = ('real arithmetic; gaps >= 1/16; a gap is either exactly the series spacing or differs from it by >= 1/64; '
           'new points are strictly ascending')


class Model:
    """Reference: a sorted association list plus the spacing rule of uniform series."""

    def __init__(self, c, uniform):
        self.c = c
        self.uniform = uniform
        self.pts = []
        self.h = None
        self.given = []

    def give(self, pts):
        """A list handed to the series, which has to stay as it is."""
        self.given.append((list(pts), pts))
        return pts

    def regular(self, pts):
        """Equally spaced, with the spacing the series already has."""
        if not self.uniform or len(pts) < 2:
            return True
        h = self.h if self.h is not None else pts[1][0] - pts[0][0]
        return all(bool(b[0] - a[0] == h) for a, b in zip(pts, pts[1:]))

    def commit(self, pts):
        if not self.regular(pts):
            return False
        self.pts = pts
        self.h = pts[1][0] - pts[0][0] if len(pts) > 1 else None
        return True

    def append_list(self, new):
        if self.pts and new and new[0][0] <= self.pts[-1][0]:
            return False
        return self.commit(self.pts + new)

    def replace(self, p, or_append):
        if not self.pts or p[0] < self.pts[0][0] or p[0] > self.pts[-1][0]:
            return self.append_list([p]) if or_append else False
        for i, q in enumerate(self.pts):
            if q[0] == p[0]:
                self.pts = self.pts[:i] + [p] + self.pts[i + 1:]
                return True
            if q[0] > p[0]:
                if self.uniform:
                    return False
                return self.commit(self.pts[:i] + [p] + self.pts[i:])

    def reset(self, lo, hi, lo_open, hi_open):
        def inside(x):
            return (x > lo if lo_open else x >= lo) and (x < hi if hi_open else x <= hi)
        keep = [p for p in self.pts if not inside(p[0])]
        if len(keep) == len(self.pts):
            return True
        return self.commit(keep)


def gap(c, name, h):
    """A positive gap; when the series has spacing h it is h exactly or visibly different."""
    g = c.real(name, Fraction(1, 16), 4)
    if h is not None:
        c.assume(c.Or(g == h, g >= h + Fraction(1, 64), g <= h - Fraction(1, 64)))
    return g


def new_points(c, name, n, start, m):
    """n strictly ascending points; the first lies at start + gap (any position relative to the series)."""
    out = []
    x = start
    h = m.h
    for i in range(n):
        g = gap(c, '%sg%d' % (name, i), h if m.uniform else None)
        if m.uniform and h is None and (m.pts or i > 0):
            h = g
        x = x + g
        out.append((x, c.real('%sy%d' % (name, i))))
    return out


def compare(c, f, m, tag):
    c.eq([tuple(p) for p in f.sample_points()], m.pts, tag + ' points')
    d = f.domain
    if not m.pts:
        c.check(bool(d.is_empty), tag + ' empty domain')
    else:
        c.eq([d.start, d.end, d.start_open, d.end_open], [m.pts[0][0], m.pts[-1][0], False, False], tag + ' domain')
    c.check(not f.is_updating, tag + ' not left updating')


def edit(c, f, m, op, t):
    if op == 'append':
        x = c.real(t + 'x', -8, 24)
        if m.pts:
            if m.uniform:
                g = x - m.pts[-1][0]
                if m.h is not None:
                    c.assume(c.Or(g == m.h, g >= m.h + Fraction(1, 64), g <= m.h - Fraction(1, 64)))
            c.assume(c.Or(x <= m.pts[-1][0], x >= m.pts[-1][0] + Fraction(1, 16)))
        p = (x, c.real(t + 'y'))
        ok = m.append_list([p])
        e = c.raises(lambda: f.append(p))
    elif op.startswith('extend'):
        n = int(op[-1])
        start = m.pts[-1][0] if m.pts else c.real(t + 's', -8, 8)
        pts = new_points(c, t, n, start, m)
        ok = m.append_list(pts)
        e = c.raises(lambda: f.append_list(m.give(list(pts))))
    elif op == 'replace' or op == 'upsert':
        xs = [q[0] for q in m.pts]
        if xs:
            x, k, u = c.query(xs, t + 'q')
            if k >= len(xs):
                g = x - xs[-1]
                c.assume(g >= Fraction(1, 16))
                if m.uniform and m.h is not None:
                    c.assume(c.Or(g == m.h, g >= m.h + Fraction(1, 64), g <= m.h - Fraction(1, 64)))
            elif not m.uniform and k >= 0 and not (u == 0):
                pass
        else:
            x = c.real(t + 'x', -8, 8)
        p = (x, c.real(t + 'y'))
        ok = m.replace(p, op == 'upsert')
        e = c.raises(lambda: f.replace(p, or_append=(op == 'upsert')))
    elif op == 'reset':
        xs = [q[0] for q in m.pts] or [c.num(0)]
        lo, klo, _ = c.query(xs, t + 'lo')
        hi, khi, _ = c.query(xs, t + 'hi')
        c.assume(hi >= lo)
        lo_open = c.bool(t + 'lo_open')
        hi_open = c.bool(t + 'hi_open')
        if lo_open or hi_open:
            c.assume(hi > lo)
        ok = m.reset(lo, hi, lo_open, hi_open)
        e = c.raises(lambda: f.reset(Interval(lo, hi, start_open=lo_open, end_open=hi_open)))
    elif op == 'clear':
        m.pts, m.h = [], None
        ok = True
        e = c.raises(lambda: f.reset())
    elif op.startswith('set'):
        n = int(op[-1])
        pts = new_points(c, t, n, c.real(t + 's', -8, 8), m)
        ok = m.commit(pts)
        e = c.raises(lambda: f.set(m.give(list(pts))))
    c.check((e is None) == bool(ok), '%s accepted iff it keeps the series valid' % op)


OPS = ('append', 'extend1', 'extend2', 'replace', 'upsert', 'reset', 'clear', 'set0', 'set2', 'set3')


def history(c, n, spacing, ops):
    f, xs, ys = make_points(c, n, spacing)
    m = Model(c, spacing in ('uniform', 'unit'))
    m.commit(list(zip(xs, ys)))
    start = m.give(list(m.pts))
    f = Points(start, uniform=(spacing in ('uniform', 'unit')))
    for i, op in enumerate(ops.split('+')):
        edit(c, f, m, op, 'e%d' % i)
        compare(c, f, m, op)
        # lists handed to or by the series are not shared with it
        f.sample_points()[:] = []
        c.eq([tuple(p) for p in f.sample_points()], m.pts, op + ' points are not shared')
    for before, after in m.given:
        c.eq(list(after), before, 'given list unchanged')
        after[:] = []
    c.eq([tuple(p) for p in f.sample_points()], m.pts, 'points are not those of a given list')
    # values after the history
    xs = [p[0] for p in m.pts]
    if xs:
        x, k, u = c.query(xs)
        c.eq(f.y(x), points_oracle(c, xs, [p[1] for p in m.pts], 0, x, k, u), 'y after history')
    else:
        c.eq(f.y(c.real('q')), None, 'y after history')


def script(c, spacing, count):
    """Several edits in a row at given places."""
    n = 4
    f, xs, ys = make_points(c, n, spacing)
    m = Model(c, spacing == 'unit')
    m.commit(list(zip(xs, ys)))
    half = Fraction(1, 2)
    for i in range(count):
        t = 'e%d' % i
        places = [p[0] for p in m.pts]
        op = c.choice(t, ['append', 'replace', 'cut first', 'cut last', 'append2', 'set'] + (['insert', 'cut one'] if spacing == 'uneven' else ['refused']))
        last = places[-1] if places else c.num(0)
        y = c.real(t + 'y')
        if op == 'append':
            m.append_list([(last + 1, y)])
            f.append((last + 1, y))
        elif op == 'append2':
            pts = [(last + 1, y), (last + 2, c.real(t + 'z'))]
            m.append_list(pts)
            f.append_list(list(pts))
        elif op == 'set':
            pts = [(c.num(2), y), (c.num(3), c.real(t + 'z'))]
            m.h = None
            m.commit(pts)
            f.set(list(pts))
        elif not places:
            continue
        elif op == 'replace':
            p = (places[len(places) // 2], y)
            m.replace(p, False)
            f.replace(p)
        elif op == 'cut first':
            m.reset(places[0], places[0], False, False)
            f.reset(Interval.closed(places[0], places[0]))
        elif op == 'cut last':
            m.reset(places[-1], places[-1], False, False)
            f.reset(Interval.gte(places[-1]))
        elif op == 'cut one':
            x = places[len(places) // 2]
            m.reset(x, x, False, False)
            f.reset(Interval.closed(x, x))
        elif op == 'insert':
            if len(places) > 1:
                p = ((places[0] + places[1]) * c.num(half), y)
                m.replace(p, True)
                f.replace(p, or_append=True)
        elif op == 'refused' and len(places) > 1:
            c.check(c.raises(lambda: f.append((last + c.num(half), y))) is not None, 'refused')
        compare(c, f, m, op)
    c.eq([f.y(p[0]) for p in m.pts], [p[1] for p in m.pts], 'values after the edits')
    for a, b in zip(m.pts, m.pts[1:]):
        c.eq(f.y((a[0] + b[0]) * c.num(half)), (a[1] + b[1]) / 2, 'between')
        c.eq([f.x_next(a[0]), f.x_previous(b[0])], [b[0], a[0]], 'steps')


def instances(tier):
    out = []
    ns = (0, 1, 2, 3) if tier == 'quick' else (0, 1, 2, 3, 4)
    for n in ns:
        for spacing in ('uniform', 'free'):
            for op in OPS:
                out.append(inst(history, n=n, spacing=spacing, ops=op, cost=n))
    second = ('append', 'replace', 'reset') if tier == 'quick' else OPS
    for n in (0, 2) if tier == 'quick' else ns:
        for spacing in ('uniform', 'free'):
            for a in OPS:
                for b in second:
                    if tier == 'quick' and b == 'reset' and (n and spacing == 'free' and a != 'replace' or a in ('set3', 'reset')):
                        continue
                    out.append(inst(history, n=n, spacing=spacing, ops=a + '+' + b, cost=10 + n + 20 * (b == 'reset')))
    if tier != 'quick':
        for n in (0, 2, 3):
            for spacing in ('uniform', 'free'):
                for a in OPS:
                    for b in OPS:
                        for d in ('append', 'upsert'):
                            out.append(inst(history, n=n, spacing=spacing, ops=a + '+' + b + '+' + d, cost=100 + n))
    for spacing in ('unit', 'uneven'):
        for op in ('append', 'extend2', 'replace', 'upsert', 'reset', 'set3'):
            out.append(inst(history, n=(6 if op == 'reset' else 10) if tier == 'quick' else 12, spacing=spacing, ops=op, cost=10))
    for spacing in ('unit', 'uneven'):
        out.append(inst(script, spacing=spacing, count=3 if tier == 'quick' else 4, cost=10))
    return out
