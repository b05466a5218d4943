"""C20  A JSON descriptor denotes the curve its expression says."""
import itertools
import math
from fractions import Fraction

from sx.harness import inst
from curvepy import Curve, Points, Constant, Line

BOUNDS = ('expressions of up to three nested or chained functions out of $constant, $const, $line (by points, or by constant and slope), $add, $subtract, $multiply, $divide, $min, $max, '
          '$abs, $additive_inverse, $multiplicative_inverse, $pow, $offset, $subset, $blend, $sma, $trailing_max, $integral, $log, $log2, $log10, $raised over curves and number '
          'literals, arguments as a list, a list of operands, a single value, @args (with and without named ones) or chained to a sibling, inside and outside of @log, @log2 and @log10; '
          'all real literals, any real query; dates out of six strings')
ASSUMES = ('logarithms and powers are uninterpreted functions (of positive literals inside @log); divisors non-zero; dates are concrete strings with an offset; real arithmetic')

# An expression is a tuple; the descriptor is written from it and its value is computed from it
# directly, without curves.
#   ('num', name)                      a literal
#   ('const', lit)                     {'$constant': lit}
#   ('lp', l1, l2)                     line by points with abscissae 0 and 1 (or dates inside @log)
#   ('lcs', l1, l2)                    line by constant and slope
#   (op, style, e1, e2, ...)           function of curves or literals
NARY = ('add', 'subtract', 'multiply', 'divide', 'min', 'max')
UNARY = ('abs', 'additive_inverse', 'multiplicative_inverse')
EPOCH = 1581427380      # 2020-02-12 01:23 +1200


class Ctx:
    def __init__(self, c, log):
        self.c, self.log, self.n = c, log, 0
        self.lits = {}

    def lit(self, name):
        v = self.lits.get(name)
        if v is None:
            v = self.lits[name] = self.c.real(name, Fraction(1, 8) if self.log else None, 100 if self.log else None)
        return v

    def val(self, name):
        v = self.lit(name)
        if self.log is None:
            return v
        return math.log(v) if self.log == math.e else math.log(v, self.log)


def describe(e, t):
    k = e[0]
    if k == 'num':
        return t.lit(e[1])
    if k == 'const':
        return {e[2] if len(e) > 2 else '$constant': t.lit(e[1])}
    if k == 'lp':
        if t.log is None:
            xs = [0, 1]
        else:
            xs = [{'@date': '2020-02-12 01:23+1200'}, {'@date': '2020-02-12 01:24+1200'}]
        return {'$line': {'points': [[xs[0], t.lit(e[1])], [xs[1], t.lit(e[2])]]}}
    if k == 'lcs':
        return {'$line': {'const': t.lit(e[1]), 'slope': t.lit(e[2])}}
    style, args = e[1], [describe(a, t) for a in e[2:]]
    if style == 'list':
        return {'$' + k: args}
    if style == 'args':
        return {'$' + k: {'@args': args}}
    if style == 'nested':
        return {'$' + k: [args]}
    if style == 'nestedargs':
        return {'$' + k: {'@args': [args]}}
    if style == 'value':
        return {'$' + k: args[0]}
    d = dict(args[0])                          # chained to its first operand
    if style == 'chain':
        d['$' + k] = args[1:]
    elif style == 'chain1':
        d['$' + k] = args[1]
    elif style == 'chainargs':
        d['$' + k] = {'@args': args[1:]}
    elif style == 'chainlist':                 # the operands as one list
        d['$' + k] = [args[1:]]
    elif style == 'chainargslist':
        d['$' + k] = {'@args': [args[1:]]}
    return d


def value(e, t, x):
    k = e[0]
    if k == 'num' or k == 'const':
        return t.val(e[1])
    if k in ('lp', 'lcs'):
        a, b = t.val(e[1]), t.val(e[2])
        if k == 'lcs':
            return a + b * x
        return a + (b - a) * (x if t.log is None else (x - EPOCH) / 60)
    v = [value(a, t, x) for a in e[2:]]
    if k == 'add':
        return sum(v[1:], v[0])
    if k == 'subtract':
        return v[0] - sum(v[2:], v[1]) if len(v) > 1 else v[0]
    if k == 'multiply':
        return v[0] * (v[1] if len(v) == 2 else v[1] * v[2])
    if k == 'divide':
        for d in v[1:]:
            t.c.assume(d != 0)
        return v[0] / v[1]
    if k == 'min':
        m = v[0]
        for d in v[1:]:
            m = d if d < m else m
        return m
    if k == 'max':
        m = v[0]
        for d in v[1:]:
            m = d if d > m else m
        return m
    if k == 'abs':
        return abs(v[0])
    if k == 'additive_inverse':
        return -v[0]
    if k == 'multiplicative_inverse':
        t.c.assume(v[0] != 0)
        return 1 / v[0]
    raise ValueError(k)


def same(c, a, b):
    """The descriptor a is still what b (a copy of its structure) was."""
    if isinstance(b, dict):
        return isinstance(a, dict) and list(a) == list(b) and all(same(c, a[k], b[k]) for k in b)
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(same(c, p, q) for p, q in zip(a, b))
    return a is b


def copy(d):
    if isinstance(d, dict):
        return {k: copy(v) for k, v in d.items()}
    if isinstance(d, list):
        return [copy(v) for v in d]
    return d


LOGS = {'': None, 'log': math.e, 'log2': 2, 'log10': 10}


def expression(c, e, log, via, outer):
    t = Ctx(c, LOGS[log])
    x = c.real('x') if t.log is None else EPOCH + c.real('x', -100, 100)
    want = value(e, t, x)
    d = describe(e, t)
    if t.log is not None:
        d = {'@' + log: d}
        want = t.log ** want
        if outer == 'chain':                   # chained outside of the decorator: plain literals
            z = c.real('z')
            d['$add'] = z
            want = want + z
    if outer == 'named':
        d = {'price': d, 'note': 'text', 'size': 7}
    keep = copy(d)
    for i in range(2):
        if via == 'parse':
            r = Curve.parse(d)
        else:
            r = Curve.parse_descriptor(d)
        if outer == 'named':
            c.check(isinstance(r, dict) and list(r) == ['price', 'note', 'size'], 'names')
            c.check(r['note'] == 'text' and r['size'] == 7, 'other entries')
            r = r['price']
        c.check(isinstance(r, Curve), 'a curve')
        c.check(same(c, d, keep), 'descriptor left alone')
        c.eq(r.y(x), want, 'value')


METHODS = {
    # name: descriptor of (series, literal v), direct
    'sma': (lambda s, v: {'$sma': [s, 2]}, lambda f, v: f.sma(2)),
    'sma_named': (lambda s, v: {'$sma': {'@args': [s], 'degree': 2}}, lambda f, v: f.sma(2)),
    'tmax': (lambda s, v: {'$trailing_max': [s, 2]}, lambda f, v: f.trailing_max(2)),
    'ema_period': (lambda s, v: {'$ema': {'@args': [s], 'degree': 2, 'is_period': True}}, lambda f, v: f.ema(2, is_period=True)),
    'integral': (lambda s, v: {'$integral': [s], '$add': v}, lambda f, v: f.integral() + v),
    'integral_const': (lambda s, v: {'$integral': {'@args': [s], 'const': v}}, lambda f, v: f.integral(const=v)),
    'offset': (lambda s, v: {'$offset': [s, 1]}, lambda f, v: f.offset(1)),
    'add_many': (lambda s, v: {'$add': [[s, v]]}, lambda f, v: f + v),
    'sub_chain': (lambda s, v: {'$sma': [s, 1], '$subtract': v}, lambda f, v: f - v),
    'sma_of_sma': (lambda s, v: {'$sma': [s, 2], '$offset': 1, '$multiply': [v]}, lambda f, v: f.sma(2).offset(1) * v),
    'differential': (lambda s, v: {'$differential': [s]}, lambda f, v: f.differential()),
    'differential_fwd': (lambda s, v: {'$differential': {'@args': [s], 'forward': True}}, lambda f, v: f.differential(forward=True)),
    'pow': (lambda s, v: {'$abs': [s], '$pow': 2}, lambda f, v: f.abs() ** 2),
    'subset': (lambda s, v: {'$subset': [s, [0, 1]]}, lambda f, v: f.subset([0, 1])),
    'extension': (lambda s, v: {'$extension': [s, 'constant']}, lambda f, v: f.extension('constant')),
    'extension_named': (lambda s, v: {'$extension': {'@args': [s, 'constant'], 'start': True, 'end': False}}, lambda f, v: f.extension('constant', start=True, end=False)),
    'nested': (lambda s, v: {'$add': [{'$sma': [s, 2]}, {'$constant': v, '$multiply': 2}]}, lambda f, v: f.sma(2) + v * 2),
    'max_ignoring': (lambda s, v: {'$max': {'@args': [[s, {'$constant': v}]], 'ignore_empty': True}}, lambda f, v: Curve.max([f, Constant(v)], ignore_empty=True)),
    'max_ignoring_chain': (lambda s, v: {'$sma': [s, 1], '$max': {'@args': [[{'$constant': v}]], 'ignore_empty': True}}, lambda f, v: Curve.max([f, Constant(v)], ignore_empty=True)),
    'first_chain': (lambda s, v: {'$sma': [s, 2], '$first': [[{'$constant': v}]]}, lambda f, v: Curve.first([f.sma(2), Constant(v)])),
    'log2': (lambda s, v: {'$abs': [s], '$add': 1, '$log2': []}, lambda f, v: (f.abs() + 1).log(2)),
    'log': (lambda s, v: {'$abs': [s], '$add': 1, '$log': []}, lambda f, v: (f.abs() + 1).log()),
    'log_base': (lambda s, v: {'$abs': [s], '$add': 1, '$log': {'base': 3}}, lambda f, v: (f.abs() + 1).log(3)),
    'log10': (lambda s, v: {'$log10': {'$abs': [s], '$add': 1}}, lambda f, v: (f.abs() + 1).log(10)),
    'raised': (lambda s, v: {'$raised': {'@args': [s], 'base': 2}}, lambda f, v: f.raised(2)),
    'raised_chain': (lambda s, v: {'$abs': [s], '$raised': 3}, lambda f, v: f.abs().raised(3)),
    'logspace': (lambda s, v: {'$abs': [s], '$add': 1, '$multiply': {'@log2': {'$constant': 4, '$add': {'@args': [8]}}}}, lambda f, v: (f.abs() + 1) * 32),
}


def method(c, name, n):
    """A function named in a descriptor is the curve's function of that name with those arguments."""
    y = [c.real('y%d' % i) for i in range(n)]
    v = c.real('v')
    pts = [[i, y[i]] for i in range(n)]
    d = METHODS[name][0](pts, v)
    keep = copy(d)
    f = Curve.parse_descriptor(d)
    c.check(same(c, d, keep), 'descriptor left alone')
    ref = METHODS[name][1](Points([(i, y[i]) for i in range(n)]), v)
    c.eq(f.domain, ref.domain, 'domain')
    x = c.real('x')
    c.eq(f.y(x), ref.y(x), 'value')


def flag(c, log):
    """A truth value is no number literal: a decorator leaves it alone."""
    y = [c.real('y%d' % i, Fraction(1, 8), 100) for i in range(3)]
    w = c.bool('p')
    xs = [{'@date': '2020-02-12 01:2%d+1200' % (3 + i)} for i in range(3)]
    d = {'@' + log: {'$max': {'@args': [[{'$constant': y[0]}, {'$subset': [{'$constant': y[1]}, [xs[0], xs[1]]]}]], 'ignore_empty': w}}}
    x = EPOCH + c.cint('x', 0, 4) * 30
    base = LOGS[log]
    la, lb = [math.log(v) if base == math.e else math.log(v, base) for v in y[:2]]
    inside = EPOCH <= x <= EPOCH + 60
    r = Curve.parse_descriptor(d).y(x)
    if inside:
        want = base ** (la if la >= lb else lb)
    else:
        want = base ** la if w else None
    c.eq(r, want, 'value')


def literals(c, log):
    """A decorator around a bare literal takes it into and out of its space again."""
    v = c.real('v', Fraction(1, 8), 100)
    base = LOGS[log]
    c.eq(Curve.parse_descriptor({'@' + log: v}, fragment=True), base ** (math.log(v) if base == math.e else math.log(v, base)), 'literal')


def refuse(c, f):
    c.check(c.raises(f) is not None, 'refused')


def parses(c, kind):
    v, w = c.real('v'), c.real('w')
    x = c.real('x')
    if kind == 'none':
        c.check(Curve.parse(None) is None, 'nothing')
    elif kind == 'curve':
        f = Constant(v)
        c.check(Curve.parse(f) is f, 'a curve itself')
    elif kind == 'number':
        c.eq(Curve.parse(v).y(x), v, 'constant')
    elif kind == 'callable':
        c.eq(Curve.parse(lambda t: t * v + w).y(x), x * v + w, 'function')
    elif kind == 'points':
        f = Curve.parse([(0, v), (1, w)])
        c.eq([list(p) for p in f.sample_points()], [[0, v], [1, w]], 'points')
        c.eq(f.y(x), v + (w - v) * x if x >= 0 and x <= 1 else None, 'line of points')
    elif kind == 'no_points':
        f = Curve.parse([])
        c.check(isinstance(f, Points) and bool(f.domain.is_empty), 'no points')
    elif kind == 'many':
        f, g, h = Curve.parse_many(v, Constant(w), None)
        c.eq([f.y(x), g.y(x)], [v, w], 'many')
        c.check(h is None, 'nothing')
        f, g = Curve.parse_many([v, {'$constant': w}])
        c.eq([f.y(x), g.y(x)], [v, w], 'list')
    elif kind == 'refused':
        for bad in ('text', [v, w], [[v, w, v]], object()):
            refuse(c, lambda: Curve.parse(bad))
        refuse(c, lambda: Curve.parse_descriptor({'$no_such_function': [v]}))
        refuse(c, lambda: Curve.parse_descriptor({'$constant': v, 'price': w}))
        refuse(c, lambda: Curve.parse_descriptor(v))
        refuse(c, lambda: Curve.parse_descriptor({'@log': 4, 'price': 5}))


DATES = {'2020-02-12 01:23+1200': 1581427380, '1970-01-01 00:00+0000': 0, '2020-02-29T12:00:00+00:00': 1582977600, '2019-12-31 23:59:59-0100': 1577840399, '1969-12-31 00:00+0000': -86400}


def dates(c, log):
    v, w = c.real('v', 1, 2), c.real('w', 1, 2)
    ds = list(DATES)
    i, j = c.cint('i', 0, len(ds) - 1), c.cint('j', 0, len(ds) - 1)
    if i == j:
        return
    a, b = DATES[ds[i]], DATES[ds[j]]
    base = LOGS[log]

    def f(z):
        return z if base is None else math.log(z) if base == math.e else math.log(z, base)

    line = {'$line': {'points': [[{'@date': ds[i]}, v], [{'@date': ds[j]}, w]]}}
    g = Curve.parse_descriptor(line if base is None else {'@' + log: line})
    for q in (a, b):
        want = v if q == a else w
        c.eq(g.y(q), want if base is None else base ** f(want), 'value at a date')
    c.eq(Curve.parse_descriptor({'@date': ds[i]}, fragment=True), a, 'date')
    c.eq(Curve.parse_descriptor({'@date': [ds[i], ds[j]]}, fragment=True), [a, b], 'dates')


def trees(tier):
    leaves = [('const', 'a'), ('lp', 'a', 'b'), ('lcs', 'a', 'b')]
    out = list(leaves) + [('const', 'a', '$const')]
    for op in NARY:
        for style in ('list', 'args'):
            out.append((op, style, ('num', 'a'), ('num', 'b')))
            out.append((op, style, ('lp', 'a', 'b'), ('num', 'd')))
            out.append((op, style, ('num', 'd'), ('lp', 'a', 'b')))
            out.append((op, style, ('lcs', 'a', 'b'), ('const', 'd')))
            if op != 'divide':
                out.append((op, style, ('num', 'a'), ('const', 'b'), ('num', 'd')))
        for style in ('chain', 'chain1', 'chainargs'):
            out.append((op, style, ('lp', 'a', 'b'), ('num', 'd')))
            out.append((op, style, ('const', 'a'), ('lcs', 'b', 'd')))
        for style in ('nested', 'nestedargs', 'chainlist', 'chainargslist'):
            out.append((op, style, ('lp', 'a', 'b'), ('num', 'd')))
            out.append((op, style, ('const', 'a'), ('lcs', 'b', 'd')))
        if op != 'divide':
            for style in ('chain', 'chainargs', 'nested', 'chainlist', 'chainargslist'):
                out.append((op, style, ('const', 'a'), ('num', 'b'), ('lcs', 'd', 'e')))
    for op in UNARY:
        out.append((op, 'list', ('lp', 'a', 'b')))
        out.append((op, 'args', ('lp', 'a', 'b')))
        out.append((op, 'value', ('lcs', 'a', 'b')))
        out.append((op, 'chain', ('const', 'a')))
        out.append((op, 'value', ('num', 'a')))
        out.append((op, 'args', ('num', 'a')))
    # two levels
    for o1, o2 in itertools.product(('add', 'subtract', 'multiply', 'max'), repeat=2):
        for s1, s2 in itertools.product(('list', 'args', 'chain'), repeat=2):
            inner = (o2, s2, ('lcs', 'a', 'b'), ('num', 'd'))
            if o1 != o2 or s1 != 'chain':      # an object has each key once
                out.append((o1, s1, inner, ('num', 'e')))
            if s1 != 'chain' and (tier != 'quick' or s1 != s2):
                out.append((o1, s1, ('num', 'e'), inner))
                out.append((o1, s1, ('abs', 'value', inner), inner))
    return out


def instances(tier):
    out = []
    for i, e in enumerate(trees(tier)):
        out.append(inst(expression, e=e, log='', via='parse' if i % 2 else 'descriptor', outer='', cost=1))
        if i % 3 == 0 or tier != 'quick':
            out.append(inst(expression, e=e, log='', via='descriptor', outer='named', cost=1))
        if has(e, 'lcs'):
            continue
        for log in ('log', 'log2', 'log10') if tier != 'quick' or i < 60 else ('log',):
            out.append(inst(expression, e=e, log=log, via='descriptor' if i % 2 else 'parse', outer='', cost=1))
            if i % 4 == 0 or tier != 'quick':
                out.append(inst(expression, e=e, log=log, via='descriptor', outer='chain', cost=1))
    for name in METHODS:
        out.append(inst(method, name=name, n=3, cost=2))
        if tier != 'quick':
            out.append(inst(method, name=name, n=4, cost=4))
    for log in ('log', 'log2', 'log10'):
        out.append(inst(flag, log=log, cost=1))
        out.append(inst(literals, log=log, cost=1))
    for log in LOGS:
        out.append(inst(dates, log=log, cost=1))
    for kind in ('none', 'curve', 'number', 'callable', 'points', 'no_points', 'many', 'refused'):
        out.append(inst(parses, kind=kind, cost=1))
    return out


def has(e, k):
    return e[0] == k or any(isinstance(a, tuple) and has(a, k) for a in e[1:])
