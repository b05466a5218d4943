"""
Path-complete symbolic executor for ordinary Python code.

The code under test is executed by the normal interpreter; inputs are `Sym`
objects (polynomials over solver atoms with exact rational coefficients).  Every
truth test on a symbolic comparison is a *decision*: z3 is asked which outcomes
are feasible under the current path condition, and every feasible outcome is
explored (depth first, by re-execution).  At the end of each path the
conjunction of the assertions collected on it is decided by z3 under the path
condition.  No outcome is dropped silently: an undecided query, an exceeded
bound or an unsupported operation raises EngineStop and the instance is
inconclusive.
"""
import math
import time
from fractions import Fraction
from numbers import Number

import z3

F0 = Fraction(0)
F1 = Fraction(1)
INF = math.inf


class EngineStop(BaseException):
    """Base of all control-flow exceptions of the engine (never an Exception)."""


class PathInfeasible(EngineStop):
    pass


class Inconclusive(EngineStop):
    pass


class Unsupported(Inconclusive):
    pass


class PathTimeout(EngineStop):
    pass


_E = None  # current engine


def engine():
    return _E


# ---------------------------------------------------------------- polynomials
# A polynomial is a dict {monomial: Fraction}; a monomial is a sorted tuple of
# atom ids.  The empty tuple is the constant monomial.

def p_const(c):
    return {(): c} if c else {}


def p_add(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def p_neg(a):
    return {m: -c for m, c in a.items()}


def p_sub(a, b):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = -c
        else:
            v = v - c
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def p_scale(a, k):
    if not k:
        return {}
    return {m: c * k for m, c in a.items()}


def p_mul(a, b):
    if len(b) == 1 and () in b:
        return p_scale(a, b[()])
    if len(a) == 1 and () in a:
        return p_scale(b, a[()])
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2)) if m1 and m2 else (m1 or m2)
            v = r.get(m)
            v = c1 * c2 if v is None else v + c1 * c2
            if v:
                r[m] = v
            elif m in r:
                del r[m]
    return r


def p_is_const(a):
    return not a or (len(a) == 1 and () in a)


def p_constval(a):
    return a.get((), F0)


def p_atoms(a):
    return {i for m in a for i in m}


def p_key(a):
    return tuple(sorted(a.items()))


def _mono_div(m, d):
    """Divide monomial m by d, or None."""
    m = list(m)
    for x in d:
        try:
            m.remove(x)
        except ValueError:
            return None
    return tuple(m)


def p_exact_div(a, b):
    """Exact quotient a / b if b divides a, else None."""
    if not a:
        return {}
    lead_b = max(b, key=lambda m: (len(m), m))
    cb = b[lead_b]
    q = {}
    r = dict(a)
    for _ in range(64):
        if not r:
            return q
        lead_r = max(r, key=lambda m: (len(m), m))
        m = _mono_div(lead_r, lead_b)
        if m is None:
            return None
        c = r[lead_r] / cb
        t = {m: c}
        q = p_add(q, t)
        r = p_sub(r, p_mul(t, b))
    return None


# ---------------------------------------------------------------- Sym

def to_frac(v):
    if isinstance(v, Fraction):
        return v
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, int):
        return Fraction(v)
    if isinstance(v, float):
        return Fraction(v)
    return Fraction(float(v))  # numpy scalars etc.


def _is_num(v):
    return isinstance(v, (int, float, Fraction)) or (isinstance(v, Number) and not isinstance(v, (Sym, complex)))


class Sym:
    __slots__ = ('p', '_k')

    def __init__(self, p):
        self.p = p
        self._k = None

    @property
    def key(self):
        if self._k is None:
            self._k = p_key(self.p)
        return self._k

    @property
    def is_const(self):
        return p_is_const(self.p)

    # numbers.Number-like attributes
    real = property(lambda self: self)
    imag = property(lambda self: 0)

    def conjugate(self):
        return self

    def is_integer(self):
        return self == self.__floor__()

    def __repr__(self):
        if self.is_const:
            return str(p_constval(self.p))
        return 'Sym(%s)' % ' + '.join(
            '%s%s' % (c, ''.join('*' + (_E.atom_names[i] if _E else str(i)) for i in m)) for m, c in sorted(self.p.items()))

    def __hash__(self):
        return 0

    # --- arithmetic
    def _other(self, o):
        """Return (poly, special): special is an infinite/nan float or None."""
        if type(o) is Sym:
            return o.p, None
        if _is_num(o):
            if isinstance(o, float) and (o != o or o in (INF, -INF)):
                return None, o
            f = float(o) if not isinstance(o, (int, Fraction)) else None
            if f is not None and (f != f or f in (INF, -INF)):
                return None, f
            return p_const(to_frac(o)), None
        return None, None

    def __add__(self, o):
        p, s = self._other(o)
        if p is None:
            return NotImplemented if s is None else s
        return Sym(p_add(self.p, p))
    __radd__ = __add__

    def __sub__(self, o):
        p, s = self._other(o)
        if p is None:
            return NotImplemented if s is None else -s
        return Sym(p_sub(self.p, p))

    def __rsub__(self, o):
        p, s = self._other(o)
        if p is None:
            return NotImplemented if s is None else s
        return Sym(p_sub(p, self.p))

    def _mul_special(self, s):
        if s != s:
            return s
        if self == 0:
            return math.nan
        return s if self > 0 else -s

    def __mul__(self, o):
        p, s = self._other(o)
        if p is None:
            return NotImplemented if s is None else self._mul_special(s)
        r = p_mul(self.p, p)
        if len(r) > 1 and not p_is_const(p) and not p_is_const(self.p):
            _E.note_product(r, self.p, p)
        return Sym(r)
    __rmul__ = __mul__

    def __neg__(self):
        return Sym(p_neg(self.p))

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def __truediv__(self, o):
        p, s = self._other(o)
        if p is None:
            if s is None:
                return NotImplemented
            return s if s != s else Sym({})
        return _div(self.p, p)

    def __rtruediv__(self, o):
        p, s = self._other(o)
        if p is None:
            if s is None:
                return NotImplemented
            if s != s:
                return s
            if self == 0:
                raise ZeroDivisionError('float division by zero')
            return s if self > 0 else -s
        return _div(p, self.p)

    def __floordiv__(self, o):
        r = self / o
        return r.__floor__() if isinstance(r, Sym) else r

    def __rfloordiv__(self, o):
        r = o / self
        return r.__floor__() if isinstance(r, Sym) else r

    def __mod__(self, o):
        p, s = self._other(o)
        if p is None:
            if s is None:
                return NotImplemented
            raise Unsupported('mod by special')
        q = _div(self.p, p).__floor__()
        return self - q * Sym(p)

    def __rmod__(self, o):
        p, s = self._other(o)
        if p is None:
            return NotImplemented if s is None else math.nan
        return Sym(p) % self

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __pow__(self, o):
        if isinstance(o, Sym) and o.is_const:
            o = p_constval(o.p)
        if not isinstance(o, Sym) and _is_num(o) and float(o) not in (INF, -INF) and float(o) == float(o):
            f = to_frac(o)
            if f.denominator == 1 and abs(f) <= 16:
                n = abs(int(f))
                r = p_const(F1)
                for _ in range(n):
                    r = p_mul(r, self.p)
                if f < 0:
                    return _div(p_const(F1), r)
                return Sym(r)
            if f == Fraction(1, 2):
                return sym_sqrt(self)
        return sym_pow(self, o)

    def __rpow__(self, o):
        if self.is_const:
            v = p_constval(self.p)
            if v.denominator == 1:
                if isinstance(o, float):
                    return Sym(p_const(Fraction(o))) ** self
                return Sym(p_const(to_frac(o) ** int(v)))
        return sym_pow(o, self)

    # --- rounding
    def __floor__(self):
        return Sym(_E.floor(self.p))

    def __ceil__(self):
        return -((-self).__floor__())

    def __trunc__(self):
        return self.__floor__() if self >= 0 else self.__ceil__()

    def __round__(self, n=None):
        if n is not None:
            k = 10 ** n
            return (self * k).__round__() / k
        f = self.__floor__()
        d = self - f
        half = Fraction(1, 2)
        if d < half:
            return f
        if d > half:
            return f + 1
        # tie: to even
        if f % 2 == 0:
            return f
        return f + 1

    def __int__(self):
        return _E.concretize_int(self.__trunc__())

    def __index__(self):
        if not (self == self.__floor__()):
            raise TypeError("'float' object cannot be interpreted as an integer")
        return _E.concretize_int(self)

    def __float__(self):
        if self.is_const:
            return float(p_constval(self.p))
        raise Unsupported('float() of a symbolic value reached C code')

    def __bool__(self):
        return bool(self != 0)

    # --- comparison
    def _cmp(self, op, o, special):
        p, s = self._other(o)
        if p is None:
            if s is None:
                return NotImplemented
            if s != s:
                return op == '!='
            return special(s)
        return mk_cmp(op, p_sub(self.p, p))

    def __lt__(self, o):
        return self._cmp('<', o, lambda s: s > 0)

    def __le__(self, o):
        return self._cmp('<=', o, lambda s: s > 0)

    def __gt__(self, o):
        p, s = self._other(o)
        if p is None:
            if s is None:
                return NotImplemented
            return s == -INF
        return mk_cmp('<', p_sub(p, self.p))

    def __ge__(self, o):
        p, s = self._other(o)
        if p is None:
            if s is None:
                return NotImplemented
            return s == -INF
        return mk_cmp('<=', p_sub(p, self.p))

    def __eq__(self, o):
        r = self._cmp('==', o, lambda s: False)
        return r

    def __ne__(self, o):
        r = self._cmp('!=', o, lambda s: True)
        return r


Number.register(Sym)


def _div(a, b):
    if p_is_const(b):
        c = p_constval(b)
        if not c:
            raise ZeroDivisionError('float division by zero')
        return Sym(p_scale(a, 1 / c))
    if bool(mk_cmp('==', b)):
        raise ZeroDivisionError('float division by zero')
    if not a:
        return Sym({})
    q = p_exact_div(a, b)
    if q is not None:
        return Sym(q)
    return Sym(_E.div_atom(a, b))


def as_sym(v):
    if isinstance(v, Sym):
        return v
    return Sym(p_const(to_frac(v)))


# ---------------------------------------------------------------- SymBool

def mk_cmp(op, p):
    """op in <,<=,==,!= against 0; returns bool or SymBool in canonical form."""
    if p_is_const(p):
        c = p_constval(p)
        return {'<': c < 0, '<=': c <= 0, '==': c == 0, '!=': c != 0}[op]
    lead = min(p)  # () sorts first
    if lead == ():
        lead = sorted(p)[1]
    c = p[lead]
    p = p_scale(p, 1 / c)       # leading coefficient 1
    neg = False
    if op == '!=':
        op, neg = '==', True
    elif c < 0 and op != '==':
        # -q < 0  <=>  not (q <= 0);   -q <= 0  <=>  not (q < 0)
        op, neg = ('<=' if op == '<' else '<'), True
    return SymBool(('cmp', op, p_key(p)), p, neg)


class SymBool:
    """key is ('cmp', op, polykey) | ('and'|'or', keys) ; neg flips it."""
    __slots__ = ('key', 'data', 'neg')

    def __init__(self, key, data, neg=False):
        self.key = key
        self.data = data
        self.neg = neg

    def atoms(self):
        if self.key[0] == 'cmp':
            return p_atoms(self.data)
        r = set()
        for x in self.data[1]:
            if isinstance(x, SymBool):
                r |= x.atoms()
        return r

    def invert(self):
        return SymBool(self.key, self.data, not self.neg)

    def __invert__(self):
        return self.invert()

    def __bool__(self):
        return _E.decide(self)

    def __and__(self, o):
        return b_and(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return b_or(self, o)
    __ror__ = __or__

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    def __hash__(self):
        return hash((self.key, self.neg))

    def __repr__(self):
        return 'SymBool(%s%s)' % ('not ' if self.neg else '', self.key)


def b_not(a):
    return a.invert() if isinstance(a, SymBool) else (not a)


def _b_nary(kind, items):
    out = []
    for i in items:
        if isinstance(i, SymBool):
            out.append(i)
        else:
            if bool(i) != (kind == 'and'):
                return kind != 'and'
    if not out:
        return kind == 'and'
    if len(out) == 1:
        return out[0]
    return SymBool((kind, tuple((o.key, o.neg) for o in out)), (kind, tuple(out)))


def b_and(*items):
    return _b_nary('and', items)


def b_or(*items):
    return _b_nary('or', items)


# ---------------------------------------------------------------- uninterpreted / axiomatised functions

def sym_sqrt(v):
    v = as_sym(v)
    if v.is_const:
        return Sym(p_const(Fraction(math.sqrt(p_constval(v.p)))))
    if v < 0:
        raise ValueError('math domain error')
    return Sym(_E.sqrt_atom(v.p))


def sym_pow(a, b):
    a, b = as_sym(a), as_sym(b)
    za, zb = _E.zpoly(a.p), _E.zpoly(b.p)
    return Sym(_E.uf_atom('pow', (a, b), lambda r: z3.And(z3.Implies(zb == 0, r == 1), z3.Implies(zb == 1, r == za))))


UF_VALUES = {'exp': (0, 1), 'ln': (1, 0), 'sin': (0, 0), 'cos': (0, 1), 'tan': (0, 0), 'asin': (0, 0), 'atan': (0, 0)}


def sym_uf(name, *args):
    """An uninterpreted function, but for its value at one place."""
    args = tuple(as_sym(a) for a in args)
    axiom = None
    if name in UF_VALUES:
        z, (x, y) = _E.zpoly(args[0].p), UF_VALUES[name]
        axiom = lambda r: z3.Implies(z == x, r == y)
    return Sym(_E.uf_atom(name, args, axiom))


# ---------------------------------------------------------------- engine

class Node:
    __slots__ = ('key', 'taken', 'alt', 'alt_model', 'conc_len', 'model')

    def __init__(self, key, taken, alt, alt_model, conc_len):
        self.key = key
        self.taken = taken
        self.alt = alt            # alternative outcome is feasible and unexplored
        self.alt_model = alt_model
        self.conc_len = conc_len  # concretisation candidates chosen before this node
        self.model = None         # model to resume with after a flip


class Model:
    """Lazy view of a z3 model as exact rationals."""

    def __init__(self, m):
        self.m = m
        self.vals = {}

    def atom(self, i):
        v = self.vals.get(i, 0)
        if v != 0 or i in self.vals:
            return v
        d = _E.defs.get(i)
        if d is not None:
            # A defined atom: its definition may not be asserted (see Engine.use_def).
            v = d[1](self) if d[1] is not None else None
            if v is not None or i not in _E.active:
                self.vals[i] = v
                return v
        r = self.m.eval(_E.atoms[i], model_completion=True)
        if z3.is_int_value(r):
            v = Fraction(r.as_long())
        elif z3.is_rational_value(r):
            v = Fraction(r.numerator_as_long(), r.denominator_as_long())
        else:
            v = None
        self.vals[i] = v
        return v

    def poly(self, p):
        t = F0
        for m, c in p.items():
            for i in m:
                v = self.atom(i)
                if v is None:
                    return None
                c = c * v
            t += c
        return t

    def cond(self, b):
        """Truth of a SymBool under the model, or None if not determined."""
        k = b.key[0]
        if k == 'cmp':
            v = self.poly(b.data)
            if v is None:
                return None
            op = b.key[1]
            r = v < 0 if op == '<' else v <= 0 if op == '<=' else v == 0
        else:
            rs = [self.cond(x) for x in b.data[1]]
            if None in rs:
                return None
            r = all(rs) if k == 'and' else any(rs)
        return r != b.neg


class Stats:
    def __init__(self):
        self.paths = 0
        self.aborted = 0          # paths cut by an unsatisfiable assumption
        self.decisions = 0        # branch decisions made (nodes)
        self.queries = 0          # solver queries
        self.unsat = 0
        self.sat = 0
        self.solver_s = 0.0
        self.asserts = 0
        self.identities = 0       # equalities that reduce to a polynomial identity
        self.assert_queries = 0
        self.fallbacks = 0
        self.pruned_sides = 0     # branch outcomes the solver refuted


class Engine:
    def __init__(self, max_paths=200000, max_decisions=4000, query_ms=20000, path_s=60, deadline=None):
        self.max_paths = max_paths
        self.max_decisions = max_decisions
        self.query_ms = query_ms
        self.path_s = path_s
        self.deadline = deadline
        self.stats = Stats()
        self.atoms = []
        self.atom_names = []
        self.atom_int = []
        self.atom_ids = {}
        self.defs = {}            # atom id -> (make z3 constraint, value under a model, atoms it mentions)
        self.atom_defs = {}       # atom id -> z3 constraint
        self.active = set()       # atoms whose definition is asserted on the current path
        self.div_info = {}        # quotient atom id -> (numerator, denominator)
        self._closure = {}
        self.inputs = {}          # name -> atom id
        self._zp = {}
        self._zb = {}
        self.factors = {}         # key of a product -> its factors
        self.uf = {}
        self.trail = []           # decision nodes
        self.conc = []            # concretisation candidates along the current trail
        self.cpos = 0
        self.pos = 0
        self.solver = z3.Solver()
        self.solver.set('timeout', query_ms)
        self.stack = []           # keys of asserted items (one solver frame each)
        self.idx = 0              # index into stack during the path
        self.facts = {}
        self.used_defs = set()
        self.model = None
        self.asserts = []

    # ---- atoms
    def new_atom(self, key, name, integer=False, zexpr=None):
        i = self.atom_ids.get(key)
        if i is None:
            i = len(self.atoms)
            self.atom_ids[key] = i
            if zexpr is None:
                zexpr = z3.Int('%s_%d' % (name, i)) if integer else z3.Real('%s_%d' % (name, i))
            self.atoms.append(zexpr)
            self.atom_names.append(name)
            self.atom_int.append(integer)
        return i

    def use_def(self, i, mk, value=None, deps=()):
        """
        Register the defining constraint of atom i.  It is asserted only once a condition
        mentions the atom: a definition always has a solution (quotients are built on paths
        where the denominator is non-zero), so leaving it out changes no verdict.
        """
        self.used_defs.add(i)
        if i not in self.defs:
            self.defs[i] = (mk, value, frozenset(deps))

    def zdef(self, i):
        z = self.atom_defs.get(i)
        if z is None:
            z = self.atom_defs[i] = self.defs[i][0]()
        return z

    def closure(self, i):
        """Defined atoms that the meaning of atom i depends on, in creation order."""
        r = self._closure.get(i)
        if r is None:
            d = self.defs.get(i)
            r = set()
            if d is not None:
                r.add(i)
                for j in d[2]:
                    r.update(self.closure(j))
            r = self._closure[i] = tuple(sorted(r))
        return r

    def activate(self, atoms):
        """Assert the definitions behind the given atoms on the current path."""
        need = set()
        for i in atoms:
            for j in self.closure(i):
                if j not in self.active:
                    need.add(j)
        for j in sorted(need):
            # The cached model may give the fresh atom an arbitrary value: extend or drop it.
            if self.model is not None and self.model.atom(j) is None:
                self.model = None
            self.active.add(j)
            if self.defs[j][0] is not None:
                self._push(('def', j), self.zdef(j))

    def pending_defs(self):
        """Definitions used on this path that have not been asserted."""
        need = set()
        for i in self.used_defs:
            need.update(self.closure(i))
        return [self.zdef(j) for j in sorted(need) if j not in self.active and self.defs[j][0] is not None]

    def clear(self, p, limit=4000):
        """
        p with quotients replaced by their definition and the (non-zero) denominators multiplied
        out: p == 0 iff the result == 0.  None if it grows too large.
        """
        while True:
            q = -1
            for m in p:
                for i in m:
                    if i > q and i in self.div_info:
                        q = i
            if q < 0:
                return p
            a, b = self.div_info[q]
            by = {}
            for m, c in p.items():
                k = m.count(q)
                rest = tuple(i for i in m if i != q)
                by.setdefault(k, {})[rest] = c
            top = max(by)
            r = {}
            pa = [p_const(F1)]
            pb = [p_const(F1)]
            for _ in range(top):
                pa.append(p_mul(pa[-1], a))
                pb.append(p_mul(pb[-1], b))
            for k, t in by.items():
                t = p_mul(p_mul(t, pa[k]), pb[top - k])
                r = p_add(r, t)
                if len(r) > limit:
                    return None
            p = r

    def input(self, name, integer=False):
        i = self.new_atom(('in', name), name, integer)
        self.inputs[name] = i
        return Sym({(i,): F1})

    def zatom(self, i):
        a = self.atoms[i]
        return z3.ToReal(a) if self.atom_int[i] else a

    def zpoly(self, p):
        k = p_key(p)
        r = self._zp.get(k)
        if r is None:
            terms = []
            for m, c in k:
                t = None
                for i in m:
                    a = self.zatom(i)
                    t = a if t is None else t * a
                cv = z3.RealVal(c)
                if t is None:
                    t = cv
                elif c != 1:
                    t = cv * t
                terms.append(t)
            r = z3.Sum(terms) if len(terms) > 1 else (terms[0] if terms else z3.RealVal(0))
            self._zp[k] = r
        return r

    def note_product(self, r, a, b):
        """Remember factors, so that the sign of a product is a matter of the signs of its factors."""
        lead = min(r)
        if lead == ():
            lead = sorted(r)[1]
        c = 1 / r[lead]
        self.factors.setdefault(p_key(p_scale(r, c)), (p_scale(a, c), b))

    def zbool(self, b):
        if not isinstance(b, SymBool):
            return z3.BoolVal(bool(b))
        r = self._zb.get(b.key)
        if r is None:
            f = self.factors.get(b.key[2]) if b.key[0] == 'cmp' else None
            if f is not None:
                op = b.key[1]
                sa, sb = ([self.zbool(mk_cmp(o, q)) for o, q in ((op, x), (op, p_neg(x)))] for x in f)
                r = z3.Or(z3.And(sa[0], sb[1]), z3.And(sa[1], sb[0])) if op != '==' else z3.Or(sa[0], sb[0])
            elif b.key[0] == 'cmp':
                # lhs (non-constant part) OP -const
                c = b.data.get((), F0)
                lhs = {m: v for m, v in b.data.items() if m != ()}
                l = self.zpoly(lhs)
                rhs = z3.RealVal(-c)
                op = b.key[1]
                r = l < rhs if op == '<' else l <= rhs if op == '<=' else l == rhs
            else:
                zs = [self.zbool(x) for x in b.data[1]]
                r = z3.And(zs) if b.key[0] == 'and' else z3.Or(zs)
            self._zb[b.key] = r
        return z3.Not(r) if b.neg else r

    def div_atom(self, a, b):
        # canonical: scale denominator to leading coefficient 1
        lead = max(b, key=lambda m: (len(m), m))
        k = b[lead]
        b = p_scale(b, 1 / k)
        a = p_scale(a, 1 / k)
        la = max(a, key=lambda m: (len(m), m))
        ka = a[la]
        a = p_scale(a, 1 / ka)
        i = self.new_atom(('div', p_key(a), p_key(b)), 'q')

        def value(m):
            x, y = m.poly(a), m.poly(b)
            return None if x is None or not y else x / y
        self.div_info[i] = (a, b)
        self.use_def(i, lambda: self.atoms[i] * self.zpoly(b) == self.zpoly(a), value, p_atoms(a) | p_atoms(b))
        return {(i,): ka}

    def floor(self, p):
        if p_is_const(p):
            return p_const(Fraction(math.floor(p_constval(p))))
        # split off the integer-valued part
        ip, rest = {}, {}
        for m, c in p.items():
            if m == ():
                fl = Fraction(math.floor(c))
                if fl:
                    ip[()] = fl
                if c != fl:
                    rest[()] = c - fl
            elif c.denominator == 1 and all(self.atom_int[i] for i in m):
                ip[m] = c
            else:
                rest[m] = c
        if p_is_const(rest):
            return ip
        i = self.new_atom(('floor', p_key(rest)), 'fl', integer=True)

        def mk():
            a = z3.ToReal(self.atoms[i])
            z = self.zpoly(rest)
            return z3.And(a <= z, z < a + 1)

        def value(m):
            x = m.poly(rest)
            return None if x is None else Fraction(math.floor(x))
        self.use_def(i, mk, value, p_atoms(rest))
        return p_add(ip, {(i,): F1})

    def sqrt_atom(self, p):
        i = self.new_atom(('sqrt', p_key(p)), 'sqrt')
        self.use_def(i, lambda: z3.And(self.atoms[i] >= 0, self.atoms[i] * self.atoms[i] == self.zpoly(p)), None,
                     p_atoms(p))
        return {(i,): F1}

    def uf_atom(self, name, args, axiom=None):
        key = ('uf', name) + tuple(a.key for a in args)
        f = self.uf.get((name, len(args)))
        if f is None:
            f = z3.Function(name + '_uf', *([z3.RealSort()] * (len(args) + 1)))
            self.uf[(name, len(args))] = f
        i = self.new_atom(key, name, zexpr=f(*[self.zpoly(a.p) for a in args]))
        deps = set()
        for a in args:
            deps |= p_atoms(a.p)
        self.use_def(i, (lambda: axiom(self.atoms[i])) if axiom is not None else None, None, deps)
        return {(i,): F1}

    # ---- solver stack
    def _push(self, key, zexpr):
        """Assert zexpr as the next item of the path (sync with the retained solver stack)."""
        if self.idx < len(self.stack):
            if self.stack[self.idx] != key:
                raise Inconclusive('non-deterministic re-execution: %r vs %r' % (self.stack[self.idx], key))
            self.idx += 1
            return
        self.solver.push()
        self.solver.add(zexpr)
        self.stack.append(key)
        self.idx += 1

    def _pop_to(self, n):
        k = len(self.stack) - n
        if k > 0:
            self.solver.pop(k)
            del self.stack[n:]

    def _check(self, extra=None, want_model=True):
        """sat/unsat of the path condition (plus extra). Raises Inconclusive on unknown."""
        t = time.time()
        self.stats.queries += 1
        if extra is not None:
            self.solver.push()
            self.solver.add(extra)
        try:
            r = self.solver.check()
            m = None
            if r == z3.sat and want_model:
                m = Model(self.solver.model())
            elif r == z3.unknown:
                r, m = self._fallback()
        finally:
            if extra is not None:
                self.solver.pop()
            self.stats.solver_s += time.time() - t
        if r == z3.sat:
            self.stats.sat += 1
            return True, m
        if r == z3.unsat:
            self.stats.unsat += 1
            return False, None
        raise Inconclusive('solver returned unknown')

    def _fallback(self):
        self.stats.fallbacks += 1
        asserts = list(self.solver.assertions())
        for mk in (lambda: z3.Solver(),
                   lambda: z3.Tactic('qfnra-nlsat').solver(),
                   lambda: z3.Then('simplify', 'propagate-values', 'solve-eqs', 'purify-arith', 'qfnra-nlsat').solver()):
            try:
                s = mk()
                s.set('timeout', self.query_ms)
                s.add(*asserts)
                r = s.check()
                if r != z3.unknown:
                    return r, (Model(s.model()) if r == z3.sat else None)
            except z3.Z3Exception:
                continue
        return z3.unknown, None

    # ---- decisions
    def decide(self, b):
        f = self.known(b.key)
        if f is not None:
            return f != b.neg
        if self.pos < len(self.trail):
            node = self.trail[self.pos]
            if node.key != b.key:
                raise Inconclusive('non-deterministic re-execution at decision %d' % self.pos)
            self.pos += 1
            v = node.taken
            self.activate(b.atoms())
            self._assume_fact(b.key, b.data, v)
            if self.pos == len(self.trail):
                self.model = node.model
                node.model = None
            return v != b.neg
        if len(self.trail) >= self.max_decisions:
            raise Inconclusive('decision bound exceeded')
        if self.deadline is not None and time.time() > self.deadline:
            raise Inconclusive('instance time limit')
        pos = SymBool(b.key, b.data)
        zc = self.zbool(pos)
        self.activate(b.atoms())
        self.stats.decisions += 1
        side = self.model.cond(pos) if self.model is not None else None
        if side is None:
            ok, m = self._check(zc)
            if ok:
                side, self.model = True, m
            else:
                # path condition is satisfiable, so the negation is
                self.stats.pruned_sides += 1
                self._record(b, False, False, None)
                return b.neg
        other = z3.Not(zc) if side else zc
        ok, m = self._check(other)
        if not ok:
            self.stats.pruned_sides += 1
        self._record(b, side, ok, m)
        return side != b.neg

    def known(self, key):
        """Outcome of a comparison that already follows from recorded facts, else None."""
        f = self.facts.get(key)
        if f is not None or key[0] != 'cmp':
            return f
        op, k = key[1], key[2]
        lt = self.facts.get(('cmp', '<', k))
        le = self.facts.get(('cmp', '<=', k))
        eq = self.facts.get(('cmp', '==', k))
        if op == '<':
            if le is False or eq is True:
                return False
            if le is True and eq is False:
                return True
        elif op == '<=':
            if lt is True or eq is True:
                return True
            if lt is False and eq is False:
                return False
        else:
            if lt is True or le is False:
                return False
            if lt is False and le is True:
                return True
        return None

    def _record(self, b, v, alt, alt_model):
        node = Node(b.key, v, alt, alt_model, self.cpos)
        self.trail.append(node)
        self.pos += 1
        self._assume_fact(b.key, b.data, v)

    def _assume_fact(self, key, data, v):
        self.facts[key] = v
        z = self.zbool(SymBool(key, data))
        # key for stack includes outcome
        self._push(('dec', key, v), z if v else z3.Not(z))

    def assume(self, b):
        """Add a constraint without forking."""
        if not isinstance(b, SymBool):
            if not b:
                raise PathInfeasible()
            return
        f = self.known(b.key)
        if f is not None:
            if f == b.neg:
                raise PathInfeasible()
            return
        self.activate(b.atoms())
        fresh = self.idx >= len(self.stack)
        self._push(('assume', b.key, b.neg), self.zbool(b))
        if b.key[0] == 'cmp':
            self.facts[b.key] = not b.neg
        if not fresh:
            return     # replaying a prefix known to be satisfiable
        if self.model is not None and self.model.cond(b) is True:
            return
        ok, m = self._check()
        if not ok:
            raise PathInfeasible()
        self.model = m

    def concretize_int(self, s):
        """Fork on the value of an integer-valued Sym."""
        if s.is_const:
            return int(p_constval(s.p))
        for _ in range(512):
            if self.cpos < len(self.conc):
                cand = self.conc[self.cpos]
            else:
                cand = self._candidate(s)
                self.conc.append(cand)
            self.cpos += 1
            cond = mk_cmp('==', p_sub(s.p, p_const(Fraction(cand))))
            if bool(cond):
                return cand
        raise Inconclusive('concretisation bound exceeded')

    def _candidate(self, s):
        self.activate(p_atoms(s.p))
        if self.model is None:
            ok, m = self._check()
            if not ok:
                raise PathInfeasible()
            self.model = m
        v = self.model.poly(s.p)
        if v is None or v.denominator != 1:
            ok, m = self._check()
            self.model = m
            v = self.model.poly(s.p)
            if v is None or v.denominator != 1:
                raise Inconclusive('no integral candidate')
        return int(v)

    # ---- exploration
    def explore(self, run):
        """
        run(engine) executes the harness once.  Returns nothing; `run` must call
        self.asserts.append(cond) for assertions.  Yields after each path a tuple
        (status, payload): status in 'ok', 'cex', 'error'.
        """
        global _E
        prev = _E
        _E = self
        try:
            while True:
                if self.stats.paths + self.stats.aborted >= self.max_paths:
                    raise Inconclusive('path bound exceeded')
                if self.deadline is not None and time.time() > self.deadline:
                    raise Inconclusive('instance time limit')
                self.pos = 0
                self.idx = 0
                self.cpos = 0
                self.facts = {}
                self.used_defs = set()
                self.active = set()
                self.asserts = []
                self.model = None
                yield run(self)
                # backtrack to the deepest decision with an unexplored feasible outcome
                while self.trail and not self.trail[-1].alt:
                    self.trail.pop()
                if not self.trail:
                    return
                node = self.trail[-1]
                key = ('dec', node.key, node.taken)
                n = len(self.stack) - 1
                while n >= 0 and self.stack[n] != key:
                    n -= 1
                assert n >= 0
                self._pop_to(n)
                del self.conc[node.conc_len:]
                node.taken = not node.taken
                node.alt = False
                node.model = node.alt_model
                node.alt_model = None
        finally:
            _E = prev
