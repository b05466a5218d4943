"""C19  Observers are called exactly while registered, for the updates that meet their interval, in order of priority."""
import gc

from sx.harness import inst
from curvepy import Curve, Line, Points
from intervalpy import Interval

BOUNDS = ('histories of 2 steps (thorough: 3) of adding, removing by token or by object, dropping objects and updating, followed by an update; 2-3 observers '
          'with any real interval with open or closed ends or none, any kind of callback; 1-2 nested or overlapping updates of any real intervals; '
          'observers that remove others or add new ones inside callbacks, in any position')
ASSUMES = 'real arithmetic; intervals of a single position only among closed ones; ends are announced for the intervals that were begun'


class Thing:
    pass


def interval(c, name, closed=False):
    lo = c.real(name + 'lo', -8, 8)
    n = c.real(name + 'len', 0, 8)
    if closed:
        return (lo, lo + n, False, False)
    c.assume(n > 0)
    return (lo, lo + n, c.bool(name + 'so'), c.bool(name + 'eo'))


def make(d):
    return Interval(d[0], d[1], start_open=d[2], end_open=d[3])


def meets(d, e):
    """Two non-empty intervals have a position in common."""
    if d is None:
        return True

    def apart(a, b):
        return bool(a[1] < b[0]) or (bool(a[1] == b[0]) and (a[3] or b[2]))
    return not apart(d, e) and not apart(e, d)


def within(d, e):
    """d lies inside of e."""
    left = bool(e[0] < d[0]) or (bool(e[0] == d[0]) and (d[2] or not e[2]))
    right = bool(d[1] < e[1]) or (bool(e[1] == d[1]) and (d[3] or not e[3]))
    return left and right


def same(c, got, d, name):
    c.eq([got.start, got.end, bool(got.start_open), bool(got.end_open)], list(d), name)


class Watch:
    """One observer and what it was told."""

    def __init__(self, c, f, name, domain=None, obj=None, auto=False, first=False, kind='both', log=None):
        self.name, self.domain, self.obj, self.kind, self.first = name, domain, obj, kind, first
        self.events = []
        self.log = log if log is not None else []
        begin, end = self.begin, self.end
        if kind == 'plain':
            begin, end = (lambda: self.begin(None)), (lambda: self.end(None))
        kw = {}
        if kind != 'end':
            kw['begin'] = begin
        if kind != 'begin':
            kw['end'] = end
        args = [obj] if obj is not None else []
        self.token = f.add_observer(*args, domain=None if domain is None else make(domain), autoremove=auto, prioritize=first, **kw)

    def begin(self, d):
        self.events.append(('begin', d))
        self.log.append((self.name, 'begin'))

    def end(self, d):
        self.events.append(('end', d))
        self.log.append((self.name, 'end'))


def expect(c, w, told, d):
    """The watch was told of exactly one begin and one end of an update of d, or of nothing."""
    want = []
    if told and w.kind != 'end':
        want.append('begin')
    if told and w.kind != 'begin':
        want.append('end')
    c.eq([e[0] for e in w.events], want, 'callbacks of ' + w.name)
    for _, got in w.events:
        if w.kind != 'plain':
            same(c, got, d, 'interval told')
    del w.events[:]


def update(f, d):
    f.begin_update(make(d))
    f.end_update(make(d))


def filtered(c, kinds, closed):
    """Every observer hears of the updates that meet its interval, and of no others."""
    f = Curve()
    ws = [Watch(c, f, 'w%d' % i, domain=None if k == 'all' else interval(c, 'd%d' % i, closed), kind=k if k in ('begin', 'end', 'plain') else 'both')
          for i, k in enumerate(kinds)]
    for r in range(2 if len(kinds) == 1 else 1):
        u = interval(c, 'u%d' % r, closed)
        update(f, u)
        for w in ws:
            expect(c, w, meets(w.domain, u), u)
        c.check(not f.is_updating, 'not left updating')


def edited(c, op):
    """The same when the update is an edit of a series or line."""
    d = interval(c, 'd')
    x, h, xs = c.grid(3)
    if op == 'line':
        f = Line(const=c.real('a'), slope=c.real('s'))
    else:
        f = Points([(t, c.real('y%d' % i)) for i, t in enumerate(xs)])
    everything, some = Watch(c, f, 'all'), Watch(c, f, 'some', domain=d)
    if op == 'append':
        f.append((xs[-1] + h, c.real('y')))
    elif op == 'replace':
        f.replace((xs[c.cint('j', 0, 2)], c.real('y')))
    elif op == 'line':
        f.set(const=c.real('b'), slope=c.real('t'))
    if not everything.events:
        c.check(op == 'line' and not some.events, 'an edit that changes nothing is not announced')
        return
    u = everything.events[0][1]
    if op == 'line':
        told = True
    else:
        told = meets(d, (u.start, u.end, bool(u.start_open), bool(u.end_open)))
    c.eq([e[0] for e in some.events], ['begin', 'end'] if told else [], 'callbacks')


def nested(c, order, touching):
    """Updates that overlap are ended together, once the last of them has ended."""
    f = Curve()
    w, v = Watch(c, f, 'all'), Watch(c, f, 'some', domain=interval(c, 'd'))
    a, b = interval(c, 'a'), interval(c, 'b')
    if touching:
        c.assume(c.And(b[0] <= a[1], a[0] <= b[1]))
    f.begin_update(make(a))
    f.begin_update(make(b))
    c.check(f.is_updating, 'updating')
    hull = Interval.union([make(a), make(b)])
    first, last = (a, b) if order == 'fifo' else (b, a)
    f.end_update(make(first))
    inner = within(a, first) and within(b, first)
    ends = [e for e in w.events if e[0] == 'end']
    c.eq(len(ends), 1 if inner else 0, 'ended as soon as everything begun has ended')
    if not inner:
        f.end_update(make(last))
    begins = [e[1] for e in w.events if e[0] == 'begin']
    ends = [e[1] for e in w.events if e[0] == 'end']
    c.eq(len(ends), 1, 'one end')
    c.eq(len(begins), 1 if within(b, a) else 2, 'a beginning for everything not yet begun')
    same(c, begins[0], a, 'first beginning')
    c.check(bool(ends[0].is_superset_of(hull)), 'the end covers everything begun')
    c.check(not f.is_updating, 'not left updating')
    kinds = [e[0] for e in v.events]
    c.eq(kinds.count('begin'), int(meets(v.domain, a)) + (int(meets(v.domain, b)) if not within(b, a) else 0), 'beginnings of the filtered observer')
    h = (hull.start, hull.end, bool(hull.start_open), bool(hull.end_open))
    c.eq(kinds.count('end'), int(meets(v.domain, h)), 'ends of the filtered observer')


def history(c, steps):
    """Add, remove, drop and update in any order; then everyone still registered is called, prioritised ones first."""
    f = Curve()
    d = interval(c, 'd')
    u = interval(c, 'u')
    log = []
    things = [Thing(), Thing()]
    ws = []      # registered
    gone = []    # removed
    for s in range(steps):
        op = c.choice('op%d' % s, ['token', 'object', 'auto', 'remove', 'forget', 'drop', 'unknown'])
        if op in ('token', 'object', 'auto'):
            i = s % 2
            if op != 'token' and things[i] is None:
                continue
            first = c.bool('first%d' % s)
            ws.append(Watch(c, f, 'w%d' % s, domain=d if s == 1 else None, obj=None if op == 'token' else things[i], auto=op == 'auto', first=first, log=log))
            ws[-1].auto = op == 'auto'
            ws[-1].obj = None if op == 'token' else i
        elif op == 'remove' and ws:
            w = ws.pop(c.cint('which%d' % s, 0, len(ws) - 1))
            f.remove_observer(w.token)
            gone.append(w)
        elif op == 'forget' and things[0] is not None:
            f.remove_observer(things[0])
            gone += [w for w in ws if w.obj == 0]
            ws = [w for w in ws if w.obj != 0]
        elif op == 'drop' and things[0] is not None:
            # an observer that has to be removed by hand stays until it is
            if any(w.obj == 0 and not w.auto for w in ws):
                continue
            things[0] = None
            gc.collect()
            gone += [w for w in ws if w.obj == 0]
            ws = [w for w in ws if w.obj != 0]
        elif op == 'unknown':
            for w in gone:
                f.remove_observer(w.token)
            f.remove_observer(Thing())
    update(f, u)
    called = [w for w in ws if meets(w.domain, u)]
    names = [w.name for w in called]
    for k in ('begin', 'end'):
        got = [n for n, e in log if e == k]
        c.eq(sorted(got), sorted(names), 'called on ' + k)
        top = [w.name for w in called if w.first]
        c.eq(sorted(got[:len(top)]), sorted(top), 'prioritised first')
        c.eq(got[len(top):], [w.name for w in called if not w.first], 'then in order of registration')
    for w in ws:
        expect(c, w, w in called, u)
    for w in gone:
        c.eq(w.events, [], 'a removed observer')


def owned(c, n):
    """Removing an object removes all it has registered and nothing else."""
    f = Curve()
    things = [Thing(), Thing()]
    log = []
    ws = []
    for i in range(n):
        o = c.cint('owner%d' % i, 0, 2)
        ws.append(Watch(c, f, 'w%d' % i, obj=things[o] if o < 2 else None, log=log))
        ws[-1].obj = o
    j = c.cint('removed', 0, 1)
    f.remove_observer(things[j])
    u = interval(c, 'u')
    update(f, u)
    c.eq([m for m, e in log if e == 'begin'], [w.name for w in ws if w.obj != j], 'called on begin')
    for w in ws:
        expect(c, w, w.obj != j, u)


def inside(c, n, phase, act):
    """An observer removes another one, itself, or adds one, inside a callback."""
    f = Curve()
    log = []
    ws = [Watch(c, f, 'w%d' % i, log=log) for i in range(n)]
    actor = c.cint('actor', 0, n - 1)
    victim = c.cint('victim', 0, n - 1)
    once = []

    def hook(d):
        if once:
            return
        once.append(1)
        if act == 'remove':
            f.remove_observer(ws[victim].token)
        else:
            once.append(Watch(c, f, 'new', log=log))
    original = getattr(ws[actor], phase)

    def callback(d):
        original(d)
        hook(d)
    f.remove_observer(ws[actor].token)
    ws[actor].token = f.add_observer(**{'begin': ws[actor].begin, 'end': ws[actor].end, phase: callback})
    order = [i for i in range(n) if i != actor] + [actor]
    u, v = interval(c, 'u'), interval(c, 'v')
    update(f, u)
    for i in order:
        if act == 'remove' and i == victim and i != actor:
            # told until it was removed
            continue
        kinds = [e[0] for e in ws[i].events]
        want = ['begin', 'end'] if act != 'remove' or i != victim or phase == 'end' else ['begin']
        c.eq(kinds, want, 'callbacks of the others')
    for w in ws:
        del w.events[:]
    update(f, v)
    for i, w in enumerate(ws):
        expect(c, w, not (act == 'remove' and i == victim), v)
    if act != 'remove':
        new = once[1]
        kinds = [e[0] for e in new.events]
        c.eq(kinds[-2:], ['begin', 'end'], 'the new observer hears of the next update')


def first_mover(c, phase, back):
    """An observer removed by an earlier callback of the same update is no longer told; the ones after it are."""
    f = Curve()
    ws = []

    def hook(d):
        f.remove_observer(ws[victim].token)
    victim = c.cint('victim', 0, 2)
    a = f.add_observer(**{phase: hook})
    ws += [Watch(c, f, 'w%d' % i) for i in range(3)]
    if back:
        f.remove_observer(a)
        a = f.add_observer(prioritize=True, **{phase: hook})
    u = interval(c, 'u')
    update(f, u)
    for i, w in enumerate(ws):
        kinds = [e[0] for e in w.events]
        if i == victim:
            c.eq(kinds, [] if phase == 'begin' else ['begin'], 'callbacks of the removed observer')
        else:
            c.eq(kinds, ['begin', 'end'], 'callbacks of the others')


def invalid(c):
    """Registering nothing, or automatic removal without an object."""
    f = Curve()
    u = interval(c, 'u')
    t = f.add_observer()
    e = c.raises(lambda: f.add_observer(begin=lambda: None, autoremove=True))
    c.check(e is not None, 'automatic removal needs an object')
    w = Watch(c, f, 'w')
    f.remove_observer(t)
    update(f, u)
    expect(c, w, True, u)


def instances(tier):
    quick = tier == 'quick'
    out = [inst(invalid)]
    for kinds in (('all',), ('some',), ('begin',), ('end',), ('plain',), ('some', 'some'), ('all', 'some'), ('plain', 'end')):
        out.append(inst(filtered, kinds=kinds, closed=False, cost=len(kinds)))
        out.append(inst(filtered, kinds=kinds, closed=True))
    for op in ('append', 'replace', 'line'):
        out.append(inst(edited, op=op))
    for order in ('fifo', 'lifo'):
        for touching in (False, True):
            out.append(inst(nested, order=order, touching=touching, cost=3))
    for steps in (1, 2) if quick else (1, 2, 3):
        out.append(inst(history, steps=steps, cost=steps * steps))
    for n in (2, 3) if quick else (2, 3, 4):
        out.append(inst(owned, n=n, cost=n))
    for phase in ('begin', 'end'):
        for act in ('remove', 'add'):
            for n in (2, 3):
                out.append(inst(inside, n=n, phase=phase, act=act))
        for back in (False, True):
            out.append(inst(first_mover, phase=phase, back=back))
    return out
