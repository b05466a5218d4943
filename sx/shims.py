"""
Environment for symbolic execution: drop-in `math` and `numpy` modules (exact or
uninterpreted on `Sym`, the real thing on everything else) installed before
intervalpy / pyduration / curvepy are imported, and loading of the packages.
"""
import builtins
import importlib
import math as _math
import os
import sys
import types
from fractions import Fraction

from . import engine as E
from .engine import Sym, mk_cmp, p_const, to_frac

REPO = os.environ.get('CURVEPY_REPO', '/repo')
SITE = '/opt/venv/lib/python3.12/site-packages'
PACKAGES = ('curvepy', 'intervalpy', 'pyduration')


def _sym(*a):
    for v in a:
        if isinstance(v, Sym):
            return True
    return False


def _const(v):
    return float(E.p_constval(v.p)) if isinstance(v, Sym) else v


def _all_const(*a):
    return all(not isinstance(v, Sym) or v.is_const for v in a)


def make_math():
    m = types.ModuleType('math')
    m.__dict__.update({k: v for k, v in vars(_math).items() if not k.startswith('__')})

    def wrap(name, f):
        real = getattr(_math, name)

        def g(*a, **k):
            for v in a:
                if isinstance(v, Sym):
                    return f(*a, **k)
            return real(*a, **k)
        g.__name__ = name
        setattr(m, name, g)

    wrap('isinf', lambda x: False)
    wrap('isnan', lambda x: False)
    wrap('isfinite', lambda x: True)
    wrap('floor', lambda x: x.__floor__())
    wrap('ceil', lambda x: x.__ceil__())
    wrap('trunc', lambda x: x.__trunc__())
    wrap('fabs', abs)
    wrap('sqrt', E.sym_sqrt)

    def modf(x):
        t = x.__trunc__()
        return x - t, t
    wrap('modf', modf)

    def fmod(x, y):
        return x - (x / y).__trunc__() * y
    wrap('fmod', fmod)

    def copysign(x, y):
        x = abs(x)
        return x if y >= 0 else -x
    wrap('copysign', copysign)

    def isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
        if a == b:
            return True
        if _inf(a) or _inf(b):
            return False
        d = abs(a - b)
        return bool(d <= rel_tol * builtins.max(abs(a), abs(b)) or d <= abs_tol)
    wrap('isclose', isclose)

    def _inf(v):
        return not isinstance(v, Sym) and _math.isinf(v)

    def pow_(a, b):
        return a ** b
    wrap('pow', pow_)

    def exp(x):
        if x.is_const:
            return _math.exp(_const(x))
        return E.sym_uf('exp', x)
    wrap('exp', exp)

    def log(x, base=None):
        if _all_const(x, base):
            return _math.log(_const(x)) if base is None else _math.log(_const(x), _const(base))
        if x <= 0:
            raise ValueError('math domain error')
        n = E.sym_uf('ln', x) if _sym(x) and not x.is_const else _math.log(_const(x))
        if base is None:
            return n
        if base <= 0:
            raise ValueError('math domain error')
        if base == 1:
            raise ZeroDivisionError('float division by zero')
        d = E.sym_uf('ln', base) if _sym(base) and not base.is_const else _math.log(_const(base))
        return n / d
    wrap('log', log)
    _rl = m.log

    def log_any(x, *b):
        if _sym(x) or (b and _sym(b[0])):
            return log(x, *b)
        return _math.log(x, *b)
    m.log = log_any

    for name in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan'):
        def mk(name):
            real = getattr(_math, name)

            def f(x):
                if x.is_const:
                    return real(_const(x))
                return E.sym_uf(name, x)
            return f
        wrap(name, mk(name))

    def atan2(y, x):
        if _all_const(y, x):
            return _math.atan2(_const(y), _const(x))
        return E.sym_uf('atan2', y, x)
    wrap('atan2', atan2)

    def hypot(*a):
        return E.sym_sqrt(sum(v * v for v in a))
    wrap('hypot', hypot)

    def fsum(it):
        it = list(it)
        if _sym(*it):
            return sum(it)
        return _math.fsum(it)
    m.fsum = fsum

    def prod(it, *, start=1):
        r = start
        for v in it:
            r = r * v
        return r
    m.prod = prod
    return m


# ---------------------------------------------------------------- numpy

def _tolist(a):
    return a.tolist() if hasattr(a, 'tolist') else list(a)


def _has_sym(a):
    if isinstance(a, Sym):
        return True
    if hasattr(a, 'tolist'):
        a = a.tolist()
    if isinstance(a, (list, tuple)):
        return any(_has_sym(v) for v in a)
    return False


def _ls2(u, v, y):
    """Exact least squares of y on two columns u, v (full column rank, or minimum norm is not modelled)."""
    n = len(y)
    suu = sum(u[i] * u[i] for i in range(n))
    suv = sum(u[i] * v[i] for i in range(n))
    svv = sum(v[i] * v[i] for i in range(n))
    suy = sum(u[i] * y[i] for i in range(n))
    svy = sum(v[i] * y[i] for i in range(n))
    det = suu * svv - suv * suv
    if det == 0:
        raise E.Unsupported('rank-deficient least squares')
    return (suy * svv - svy * suv) / det, (svy * suu - suy * suv) / det


class NumpyShim(types.ModuleType):
    def __init__(self, real):
        super().__init__('numpy')
        self.__dict__['_real'] = real
        lin = types.ModuleType('numpy.linalg')
        lin.__dict__.update({k: v for k, v in vars(real.linalg).items() if not k.startswith('__')})

        def lstsq(A, y, rcond=None):
            if not (_has_sym(A) or _has_sym(y)):
                return real.linalg.lstsq(A, y, rcond=rcond)
            rows = _tolist(A)
            ys = _tolist(y)
            if len(rows[0]) != 2:
                raise E.Unsupported('lstsq with %d columns' % len(rows[0]))
            w = _ls2([r[0] for r in rows], [r[1] for r in rows], ys)
            return list(w), None, None, None
        lin.lstsq = lstsq
        self.__dict__['linalg'] = lin

        def polyfit(x, y, deg, **k):
            if deg != 1 and not (_has_sym(x) or _has_sym(y)):
                return real.polyfit(x, y, deg, **k)
            if deg != 1:
                raise E.Unsupported('polyfit degree %s' % deg)
            xs, ys = ([v if isinstance(v, Sym) else to_frac(v) for v in _tolist(a)] for a in (x, y))
            return list(_ls2(xs, [1] * len(xs), ys))
        self.__dict__['polyfit'] = polyfit

        class poly1d:
            def __new__(cls, c):
                if not (_has_sym(c) or any(isinstance(v, Fraction) for v in c)):
                    return real.poly1d(c)
                o = object.__new__(cls)
                return o

            def __init__(self, c):
                self.c = self.coef = self.coefficients = list(c)

            def __call__(self, x):
                r = 0
                for a in self.c:
                    r = r * x + a
                return r

            def __getitem__(self, i):
                return self.c[len(self.c) - 1 - i]
        self.__dict__['poly1d'] = poly1d

    def __getattr__(self, name):
        return getattr(self.__dict__['_real'], name)


# ---------------------------------------------------------------- float / int

class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, builtins.float) or isinstance(o, Sym)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float)

    def __call__(cls, *a):
        if len(a) == 1 and isinstance(a[0], Sym):
            return a[0]
        return builtins.float(*a)

    def __getattr__(cls, n):
        return getattr(builtins.float, n)

    def __eq__(cls, o):
        return o is builtins.float or o is cls

    def __hash__(cls):
        return hash(builtins.float)


class float_shim(metaclass=_FloatMeta):
    pass


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, builtins.int)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)

    def __call__(cls, *a):
        if len(a) == 1 and isinstance(a[0], Sym):
            # Stays symbolic; it is split into cases when used as an index.
            r = a[0].__trunc__()
            return builtins.int(r) if r.is_const else r
        return builtins.int(*a)

    def __getattr__(cls, n):
        return getattr(builtins.int, n)

    def __eq__(cls, o):
        return o is builtins.int or o is cls

    def __hash__(cls):
        return hash(builtins.int)


class int_shim(metaclass=_IntMeta):
    pass


_loaded = False


def load():
    """Import the packages under the shims. Returns the list of their modules."""
    global _loaded
    if _loaded:
        return
    _loaded = True
    sys.dont_write_bytecode = True
    import numpy
    mm = make_math()
    # modules with function-level use of math must be imported first
    import statistics, random, bisect, inspect, calendar, datetime  # noqa: F401
    if SITE not in sys.path:
        sys.path.append(SITE)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import arrow  # noqa: F401  (uses the real math)
    sys.modules['math'] = mm
    sys.modules['numpy'] = NumpyShim(numpy)
    try:
        for p in PACKAGES:
            importlib.import_module(p)
        import pkgutil
        for p in PACKAGES:
            for mi in pkgutil.walk_packages(sys.modules[p].__path__, p + '.', onerror=lambda n: None):
                importlib.import_module(mi.name)
    finally:
        pass
    for name, mod in list(sys.modules.items()):
        if name.split('.')[0] in PACKAGES:
            mod.__dict__.setdefault('float', float_shim)
            mod.__dict__.setdefault('int', int_shim)
    f = sys.modules['curvepy'].__file__
    if os.path.dirname(os.path.dirname(os.path.abspath(f))) != os.path.abspath(REPO):
        raise RuntimeError('curvepy was imported from %s, not from %s' % (f, REPO))
