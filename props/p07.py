"""C07  min, max and first of curves select among the defined values."""
from fractions import Fraction

from sx.harness import inst
from props.common import mask_ys
from curvepy import Points, Curve

BOUNDS = ('2-3 operands: series of 2-3 points on a common real grid shifted by 0-3 steps, values any reals or undefined, '
          'or real constants, in any order; any real query; 5-6 operands without undefined values')
ASSUMES = 'real arithmetic'


def operands(c, shape, none=True):
    """shape: digits are shifts of 2-point series, k is a constant."""
    x0, h, _ = c.grid(2)
    data = []
    top = 0
    for i, s in enumerate(shape):
        if s == 'k':
            data.append(('k', c.real('k%d' % i, -8, 8)))
        else:
            s = int(s)
            ys = mask_ys(c, 2, 's%d' % i, none)
            data.append((s, ys))
            top = max(top, s + 1)
    allx = [x0 + h * i for i in range(top + 1)]
    x, k, u = c.query(allx)
    curves, vals, spans = [], [], []
    for s, ys in data:
        if s == 'k':
            curves.append(ys)
            vals.append(ys)
            spans.append(None)
            continue
        curves.append(Points([(allx[s], ys[0]), (allx[s + 1], ys[1])]))
        spans.append((s, s + 1))
        if k == s and u == 0:
            vals.append(ys[0])
        elif k == s + 1 and u == 0:
            vals.append(ys[1])
        elif k == s:
            vals.append(None if ys[0] is None or ys[1] is None else ys[0] + (ys[1] - ys[0]) * u)
        else:
            vals.append(None)
    pos = None
    if 0 <= k < len(allx):
        pos = (k, not (u == 0))
    return allx, x, pos, curves, vals, spans


def hull(spans, union):
    """Domain as indexes into the grid; None = everything, False = nothing."""
    fin = [s for s in spans if s is not None]
    if union:
        if len(fin) < len(spans):
            return None
        return min(s[0] for s in fin), max(s[1] for s in fin)
    if not fin:
        return None
    a, b = max(s[0] for s in fin), min(s[1] for s in fin)
    return (a, b) if a <= b else False


def select(c, shape, op, ignore, none=True):
    allx, x, pos, curves, vals, spans = operands(c, shape, none)
    if op == 'first':
        g = Curve.first(curves)
        union = True
    else:
        union = ignore
        g = getattr(Curve, op)(curves, ignore_empty=ignore)
    d = hull(spans, union)
    if d is None:
        inside = True
        c.check(bool(g.domain.is_infinite), 'domain')
    elif d is False:
        inside = False
        c.check(bool(g.domain.is_empty), 'domain')
    else:
        inside = pos is not None and d[0] <= pos[0] and (pos[0] < d[1] or pos[0] == d[1] and not pos[1])
        e = g.domain
        c.eq([e.start, e.end, e.start_open, e.end_open], [allx[d[0]], allx[d[1]], False, False], 'domain')
    want = None
    if inside:
        for v in vals:
            if v is None:
                continue
            if want is None or op == 'max' and v > want or op == 'min' and v < want:
                want = v
    c.eq(g.y(x), want, op)


def args(c, op):
    """Positional operands mean the same as a list."""
    x0, h, xs = c.grid(2)
    f = Points(list(zip(xs, mask_ys(c, 2, 'f'))))
    g = Points(list(zip(xs, mask_ys(c, 2, 'g'))))
    x, k, u = c.query(xs)
    m = getattr(Curve, op)
    c.eq(m(f, g).y(x), m([f, g]).y(x), op)
    c.eq(m(f, 2, g).y(x), m([f, 2, g]).y(x), op)


def instances(tier):
    out = []
    shapes = ['00', '01', '02', '0k', 'k0', '01k', '0k2', '000', '010', '012', '021', '20', '03', 'k', '0']
    if tier != 'quick':
        shapes += ['0123', '30k1', '0k1k', '0202', '000k', '00', '0011']
    for shape in dict.fromkeys(shapes):
        out.append(inst(select, shape=shape, op='first', ignore=False, cost=len(shape)))
        for op in ('min', 'max'):
            for ignore in (False, True):
                out.append(inst(select, shape=shape, op=op, ignore=ignore, cost=len(shape)))
    for op in ('min', 'max', 'first'):
        out.append(inst(args, op=op))
    for shape in ('0k1k0', '120120') if tier == 'quick' else ('0k1k0', '120120', '0123012', 'k1k2k0'):
        out.append(inst(select, shape=shape, op='first', ignore=False, none=False, cost=len(shape)))
        for op in ('min', 'max'):
            for ignore in (False, True):
                out.append(inst(select, shape=shape, op=op, ignore=ignore, none=False, cost=len(shape)))
    return out
