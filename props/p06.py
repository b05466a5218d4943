"""C06  Arithmetic on curves is pointwise, over the common domain, and undefined where an operand is."""
import math
from fractions import Fraction

from sx.harness import inst
from props.common import mask_ys
from curvepy import Points, Curve, Constant

BOUNDS = ('operands: series of 2-3 points (thorough: 2-4) on a common real grid, shifted against each other by 0-3 steps, '
          'values any reals or undefined, and real constants; any real query; all operators with curves and with numbers '
          'on either side, and compound expressions of depth 2; 9 and 7 points, up to 5 operands, at fixed places')
ASSUMES = 'real arithmetic; powers: integer exponents 0-3; reciprocals of non-zero values; logarithms are an uninterpreted function of positive values'

INF = math.inf


def pair(c, n, m, shift, none=True):
    x0, h, _ = c.grid(2)
    fx = [x0 + h * i for i in range(n)]
    gx = [x0 + h * (i + shift) for i in range(m)]
    fy = mask_ys(c, n, 'f', none)
    gy = mask_ys(c, m, 'g', none and n == 2)
    f, g = Points(list(zip(fx, fy))), Points(list(zip(gx, gy)))
    allx = [x0 + h * i for i in range(max(n, m + shift))]
    x, k, u = c.query(allx)

    def val(ys, s, n):
        j = k - s
        if j < 0 or j > n - 1 or (j == n - 1 and not (u == 0)):
            return None, False
        if j == n - 1 or u == 0:
            return ys[j], True
        if ys[j] is None or ys[j + 1] is None:
            return None, True
        return ys[j] + (ys[j + 1] - ys[j]) * u, True
    if k < 0 or k >= len(allx):
        a, b, ina, inb = None, None, False, False
    else:
        a, ina = val(fy, 0, n)
        b, inb = val(gy, shift, m)
    return f, g, fx, gx, x, a, b, ina, inb


def div(a, b):
    if b == 0:
        return INF if a >= 0 else -INF
    return a / b


BIN = {
    'add': (lambda f, g: f + g, lambda a, b: a + b),
    'sub': (lambda f, g: f - g, lambda a, b: a - b),
    'mul': (lambda f, g: f * g, lambda a, b: a * b),
    'div': (lambda f, g: f / g, div),
    'add_m': (lambda f, g: f.add(g), lambda a, b: a + b),
    'sub_m': (lambda f, g: f.subtract(g), lambda a, b: a - b),
    'mul_m': (lambda f, g: f.multiply(g), lambda a, b: a * b),
    'div_m': (lambda f, g: f.divide(g), div),
    'add_many': (lambda f, g: Curve.add_many([f, g, f]), lambda a, b: a + b + a),
    'sub_many': (lambda f, g: Curve.subtract_many([f, g, g]), lambda a, b: a - b - b),
    'mul_many': (lambda f, g: Curve.multiply_many([f, g, 2]), lambda a, b: a * b * 2),
    'add_args': (lambda f, g: Curve.add_many(f, g), lambda a, b: a + b),
    'nested': (lambda f, g: (f + g) * (f - g), lambda a, b: a * a - b * b),
    'nested2': (lambda f, g: -(f - g * 2) + 1, lambda a, b: b * 2 - a + 1),
    'absdiff': (lambda f, g: abs(f - g), lambda a, b: abs(a - b)),
}


def binary(c, op, n, m, shift):
    f, g, fx, gx, x, a, b, ina, inb = pair(c, n, m, shift)
    h = BIN[op][0](f, g)
    want = None if a is None or b is None else BIN[op][1](a, b)
    c.eq(h.y(x), want, op)
    lo = fx[0] if fx[0] >= gx[0] else gx[0]
    hi = fx[-1] if fx[-1] <= gx[-1] else gx[-1]
    d = h.domain
    if lo > hi:
        c.check(bool(d.is_empty), 'empty common domain')
    else:
        c.eq([d.start, d.end, d.start_open, d.end_open], [lo, hi, False, False], 'common domain')


def longer(c, op, n, m, shift):
    """Long operands."""
    xs = [c.num(i) for i in range(max(n, m + shift))]
    fy, gy = mask_ys(c, n, 'f'), mask_ys(c, m, 'g')
    f = Points(list(zip(xs[:n], fy)))
    g = Points(list(zip(xs[shift:shift + m], gy)))
    if op.startswith('many'):
        e = [c.real("e%d" % i, -4, 4) for i in range(2)]
        h, w = {
            'many_add': (Curve.add_many([f, e[0], g, e[1], g]), lambda a, b: a + e[0] + b + e[1] + b),
            'many_sub': (Curve.subtract_many([f, e[0], g, e[1], g]), lambda a, b: a - e[0] - b - e[1] - b),
            'many_mul': (Curve.multiply_many([f, 2, g, -1]), lambda a, b: a * b * -2),
        }[op]
    else:
        h, w = BIN[op][0](f, g), BIN[op][1]
    x, k, u = c.query(xs)
    if not (shift <= k < min(n, shift + m) and (k < min(n, shift + m) - 1 or u == 0)):
        return c.eq(h.y(x), None, op)
    a, b = fy[k], gy[k - shift]
    if not (u == 0):
        a, b = a + (fy[k + 1] - a) * u, b + (gy[k - shift + 1] - b) * u
    c.eq(h.y(x), w(a, b), op)


def no_pow(f, k):
    return f ** k


UN = {
    'neg': (lambda f, k: -f, lambda a, k: -a),
    'abs': (lambda f, k: abs(f), lambda a, k: abs(a)),
    'abs_m': (lambda f, k: f.abs(), lambda a, k: abs(a)),
    'inv_add': (lambda f, k: f.additive_inverse(), lambda a, k: -a),
    'inv_mul': (lambda f, k: f.multiplicative_inverse(), lambda a, k: 1 / a),
    'add': (lambda f, k: f + k, lambda a, k: a + k),
    'radd': (lambda f, k: k + f, lambda a, k: a + k),
    'sub': (lambda f, k: f - k, lambda a, k: a - k),
    'rsub': (lambda f, k: k - f, lambda a, k: k - a),
    'mul': (lambda f, k: f * k, lambda a, k: a * k),
    'rmul': (lambda f, k: k * f, lambda a, k: a * k),
    'div': (lambda f, k: f / k, lambda a, k: div(a, k)),
    'rdiv': (lambda f, k: k / f, lambda a, k: div(k, a)),
    'sum3': (lambda f, k: sum([f, f, k]), lambda a, k: a + a + k),
    'pow0': (lambda f, k: f ** 0, lambda a, k: 1),
    'pow2': (lambda f, k: f ** 2, lambda a, k: a * a),
    'pow3': (lambda f, k: f.pow(3), lambda a, k: a * a * a),
}


def scalar(c, op, n):
    x0, h, xs = c.grid(n)
    ys = mask_ys(c, n, 'f', True)
    f = Points(list(zip(xs, ys)))
    k = c.real('k', -8, 8)
    g = UN[op][0](f, k)
    x, kk, u = c.query(xs)
    if kk < 0 or kk >= n:
        a = None
    elif kk == n - 1 or u == 0:
        a = ys[kk]
    elif ys[kk] is None or ys[kk + 1] is None:
        a = None
    else:
        a = ys[kk] + (ys[kk + 1] - ys[kk]) * u
    if op == 'inv_mul' and a is not None:
        c.assume(a != 0)
    want = None if a is None else UN[op][1](a, k)
    c.eq(g.y(x), want, op)
    c.eq(g.domain, f.domain, 'domain')


def logs(c, base):
    x0, h, xs = c.grid(2)
    ys = [c.real('f%d' % i, Fraction(1, 8), 64) for i in range(2)]
    f = Points(list(zip(xs, ys)))
    j = c.cint('j', 0, 1)
    if base == 'e':
        c.eq(f.log().y(xs[j]), math.log(ys[j]), 'natural logarithm')
    else:
        c.eq(f.log(base).y(xs[j]), math.log(ys[j], base), 'logarithm')
    c.eq(f.log(2).y(xs[0] - 1), None, 'log outside')


def maps(c, n, skip, arity):
    """map applies the function at every point of the domain."""
    x0, h, xs = c.grid(n)
    ys = mask_ys(c, n, 'f', True)
    f = Points(list(zip(xs, ys)))
    mark = c.num(99)
    if arity == 1:
        g = f.map(lambda y: mark if y is None else y * 3 - 2, skip_none=skip)
    else:
        g = f.map(lambda x, y: mark if y is None else y * 3 + x, skip_none=skip)
    x, k, u = c.query(xs, outside=skip)
    a = None
    if 0 <= k < n:
        a = ys[k] if k == n - 1 or u == 0 else None
        if k < n - 1 and not (u == 0) and ys[k] is not None and ys[k + 1] is not None:
            a = ys[k] + (ys[k + 1] - ys[k]) * u
    if a is None:
        want = None if skip else mark
    else:
        want = a * 3 - 2 if arity == 1 else a * 3 + x
    c.eq(g.y(x), want, 'map')
    c.eq(g.domain, f.domain, 'map domain')


def instances(tier):
    out = []
    quick = tier == 'quick'
    for op in BIN:
        for n, m in ((2, 2), (3, 2), (2, 3), (3, 3)) if quick else ((2, 2), (3, 2), (2, 3), (3, 3), (4, 3), (4, 4)):
            for shift in (0, 1, 2, 3) if not quick or op in ('add', 'sub', 'mul', 'div') else (1,):
                out.append(inst(binary, op=op, n=n, m=m, shift=shift, cost=n + m))
    for op in UN:
        for n in (1, 2, 3, 4) if quick else (1, 2, 3, 4, 5):
            out.append(inst(scalar, op=op, n=n))
    for base in ('e', 2, 10):
        out.append(inst(logs, base=base))
    for n in (2, 3):
        for skip in (False, True):
            for arity in (1, 2):
                out.append(inst(maps, n=n, skip=skip, arity=arity))
    for op in ('add', 'sub', 'mul', 'nested2', 'many_add', 'many_sub', 'many_mul'):
        out.append(inst(longer, op=op, n=9, m=7, shift=3, cost=9))
        if not quick:
            out.append(inst(longer, op=op, n=20, m=30, shift=5, cost=20))
    return out
