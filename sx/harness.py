"""
Harness API.  A harness is a function f(c) written once and run both
symbolically (SymCtx: inputs are solver variables, assertions are decided by z3
for every value on the path) and concretely (ConcCtx: inputs are numbers, used
to replay counterexamples and to validate the encoding on the unpatched code).
"""
import math
from fractions import Fraction

REAL_INF = float('inf')


class Instance:
    """One harness at one choice of bounds."""

    def __init__(self, name, fn, args=None, bounds=None, cost=1, path_s=60, max_paths=200000,
                 max_decisions=4000, query_ms=20000, time_s=None):
        self.name = name
        self.fn = fn
        self.args = args or {}
        self.bounds = bounds or {}
        self.cost = cost
        self.path_s = path_s
        self.max_paths = max_paths
        self.max_decisions = max_decisions
        self.query_ms = query_ms
        self.time_s = time_s

    def __call__(self, c):
        return self.fn(c, **self.args)


def inst(fn, cost=1, **args):
    name = fn.__name__ + ('[' + ','.join('%s=%s' % kv for kv in sorted(args.items())) + ']' if args else '')
    return Instance(name, fn, args, bounds=dict(args), cost=cost)


class Violated(Exception):
    def __init__(self, label, detail=''):
        Exception.__init__(self, '%s %s' % (label, detail))
        self.label = label
        self.detail = detail


class Discard(BaseException):
    """Concrete run does not satisfy an assumption."""


def _is_interval(v):
    return hasattr(v, 'start_open') and hasattr(v, 'end_open') and hasattr(v, 'start')


def _is_seq(v):
    return isinstance(v, (list, tuple))


class Ctx:
    symbolic = False

    def points(self, name, n, lo=-8, hi=8):
        return [self.real('%s%d' % (name, i), lo, hi) for i in range(n)]

    def grid(self, n, name='x', hmax=4):
        """n uniformly spaced abscissae with symbolic start and positive symbolic step."""
        x0 = self.real(name + '0', -8, 8)
        h = self.real(name + 'h', 0, hmax)
        self.assume(h >= Fraction(1, 16))
        return x0, h, [x0 + h * i for i in range(n)]

    def xs(self, n, name='x', gap=Fraction(1, 16), hmax=4):
        """n strictly increasing abscissae with symbolic, independent gaps."""
        x = self.real(name + '0', -8, 8)
        out = [x]
        for i in range(1, n):
            h = self.real('%sg%d' % (name, i), 0, hmax)
            self.assume(h >= gap)
            x = x + h
            out.append(x)
        return out

    def query(self, xs, name='q', outside=True):
        """
        A symbolic abscissa, located: returns (x, k, u) with x = xs[k] + u * (xs[k+1] - xs[k]), 0 <= u < 1,
        for k in 0..n-1 (u = 0 for the last); k = -1 / n: strictly before / after all of them.
        Every real is of one of these forms, so nothing is lost.
        """
        n = len(xs)
        k = self.cint(name + 'k', -1 if outside else 0, n if outside else n - 1)
        if k == n - 1:
            return xs[-1], k, 0
        if k < 0 or k >= n:
            d = self.real(name + 'd', 0, 16)
            self.assume(d > 0)
            return (xs[0] - d if k < 0 else xs[-1] + d), k, None
        u = self.real(name + 'u', 0, 1)
        self.assume(u < 1)
        return xs[k] + (xs[k + 1] - xs[k]) * u, k, u

    # structural comparison producing a flat list of (kind, a, b)
    def _same(self, a, b, out):
        if a is None or b is None:
            out.append((a is None) == (b is None))
            return
        if isinstance(a, (str, bytes, bool)) or isinstance(b, (str, bytes, bool)):
            out.append(type(a) is type(b) and a == b)
            return
        if _is_interval(a) or _is_interval(b):
            if not (_is_interval(a) and _is_interval(b)):
                out.append(False)
                return
            if a.is_empty or b.is_empty:
                out.append(bool(a.is_empty) == bool(b.is_empty))
                return
            out.append(bool(a.start_open) == bool(b.start_open))
            out.append(bool(a.end_open) == bool(b.end_open))
            self._same(a.start, b.start, out)
            self._same(a.end, b.end, out)
            return
        if _is_seq(a) or _is_seq(b):
            if not (_is_seq(a) and _is_seq(b)) or len(a) != len(b):
                out.append(False)
                return
            for x, y in zip(a, b):
                self._same(x, y, out)
            return
        if isinstance(a, dict) or isinstance(b, dict):
            if not (isinstance(a, dict) and isinstance(b, dict)) or sorted(a) != sorted(b):
                out.append(False)
                return
            for k in sorted(a):
                self._same(a[k], b[k], out)
            return
        out.append(self._num_eq(a, b))


class ConcCtx(Ctx):
    def __init__(self, inputs, tol=1e-6):
        self.inputs = inputs
        self.obs = []
        self.fails = []
        self.checks = 0
        self.tol = tol

    def _get(self, name):
        v = self.inputs.get(name, 0)
        v = Fraction(v)
        if v.denominator == 1:
            return int(v)
        return float(v)

    def real(self, name, lo=None, hi=None):
        v = self._get(name)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Discard()
        return v

    def int(self, name, lo=None, hi=None):
        return self.real(name, lo, hi)

    def cint(self, name, lo, hi):
        return int(self.real(name, lo, hi))

    def choice(self, name, options):
        options = list(options)
        return options[int(self._get(name))]

    def bool(self, name):
        return bool(int(self._get(name)))

    def num(self, v):
        if isinstance(v, Fraction):
            return int(v) if v.denominator == 1 else float(v)
        return v

    def assume(self, cond):
        if not cond:
            raise Discard()

    def _fail(self, label, detail=''):
        self.fails.append((label, str(detail)))

    def check(self, cond, label=''):
        self.checks += 1
        if not cond:
            self._fail(label)

    def _num_eq(self, a, b):
        try:
            if a == b:
                return True
            a, b = float(a), float(b)
        except (TypeError, ValueError):
            return a == b
        if math.isinf(a) or math.isinf(b) or math.isnan(a) or math.isnan(b):
            return False
        return abs(a - b) <= self.tol * max(1.0, abs(a), abs(b))

    def eq(self, a, b, label=''):
        self.checks += 1
        out = []
        self._same(a, b, out)
        self.observe(a)
        if not all(out):
            self._fail(label, 'got %r, expected %r' % (a, b))

    def ne(self, a, b, label=''):
        self.checks += 1
        if self._num_eq(a, b):
            self._fail(label, 'both are %r' % (a,))

    def le(self, a, b, label=''):
        self.checks += 1
        if not (a <= b or self._num_eq(a, b)):
            self._fail(label, 'expected %r <= %r' % (a, b))

    def lt(self, a, b, label=''):
        self.checks += 1
        if not a < b:
            self._fail(label, 'expected %r < %r' % (a, b))

    near = eq

    def observe(self, v):
        self.obs.append(_plain(v))

    def And(self, *a):
        return all(a)

    def Or(self, *a):
        return any(a)

    def Not(self, a):
        return not a

    def raises(self, fn):
        try:
            fn()
        except Exception as e:
            return e
        return None


def _plain(v):
    if v is None or isinstance(v, (bool, str)):
        return v
    if _is_interval(v):
        if v.is_empty:
            return 'empty'
        return [_plain(v.start), _plain(v.end), bool(v.start_open), bool(v.end_open)]
    if _is_seq(v):
        return [_plain(x) for x in v]
    if isinstance(v, dict):
        return {str(k): _plain(x) for k, x in v.items()}
    if isinstance(v, (int, float, Fraction)):
        return float(v)
    try:
        return float(v)
    except Exception:
        return repr(type(v))


def make_sym_ctx(eng):
    """Build the symbolic context (imports z3 through the engine)."""
    from . import engine as E

    class SymCtx(Ctx):
        symbolic = True

        def __init__(self):
            self.e = eng
            self.asserts = []       # (label, cond, a, b)
            self.obs = []
            self.checks = 0

        def real(self, name, lo=None, hi=None):
            s = eng.input(name)
            if lo is not None:
                self.assume(s >= lo)
            if hi is not None:
                self.assume(s <= hi)
            return s

        def int(self, name, lo=None, hi=None):
            s = eng.input(name, integer=True)
            if lo is not None:
                self.assume(s >= lo)
            if hi is not None:
                self.assume(s <= hi)
            return s

        def cint(self, name, lo, hi):
            return eng.concretize_int(self.int(name, lo, hi))

        def choice(self, name, options):
            options = list(options)
            if len(options) == 1:
                return options[0]
            return options[self.cint(name, 0, len(options) - 1)]

        def bool(self, name):
            return bool(self.cint(name, 0, 1))

        def num(self, v):
            if isinstance(v, E.Sym):
                return v
            return E.Sym(E.p_const(E.to_frac(v)))

        def assume(self, cond):
            eng.assume(cond)

        def check(self, cond, label=''):
            self.checks += 1
            self.asserts.append((label, cond, None, None))

        def _num_eq(self, a, b):
            if isinstance(a, E.Sym) or isinstance(b, E.Sym):
                try:
                    self._raw.append((E.as_sym(a), E.as_sym(b)))
                    return True
                except (TypeError, ValueError, OverflowError):
                    return False
            try:
                return a == b
            except TypeError:
                return False

        def eq(self, a, b, label=''):
            self.checks += 1
            out = []
            self._raw = []
            self._same(a, b, out)
            self.observe(a)
            raw = self._raw
            i = 0
            for cond in out:
                if isinstance(cond, E.SymBool):
                    self.asserts.append((label, cond, a, b))
                elif not cond:
                    self.asserts.append((label, False, a, b))
            for x, y in raw:
                self.asserts.append((label, ('raw', x, y), a, b))

        near = eq

        def ne(self, a, b, label=''):
            self.checks += 1
            self.asserts.append((label, a != b, a, b))

        def le(self, a, b, label=''):
            self.checks += 1
            self.asserts.append((label, a <= b, a, b))

        def lt(self, a, b, label=''):
            self.checks += 1
            self.asserts.append((label, a < b, a, b))

        def observe(self, v):
            self.obs.append(v)

        def And(self, *a):
            return E.b_and(*a)

        def Or(self, *a):
            return E.b_or(*a)

        def Not(self, a):
            return E.b_not(a)

        def raises(self, fn):
            try:
                fn()
            except Exception as e:
                return e
            return None

    return SymCtx()
