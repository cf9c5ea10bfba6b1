"""Symbolic values (CPython + z3 only).

Values are thin wrappers around z3 terms.  A truth test asks the current path
(`engine.CUR`) to branch.  Numbers are exact: SymInt over Int, SymFloat over Real.
In "rounded" mode every inexact float operation yields a fresh Real within one
rounding error of the exact result (sound over-approximation of binary64).
"""
from fractions import Fraction
import math

import z3


class Unsupported(BaseException):
    """The encoding does not cover this operation (never a verdict)."""

    def __init__(self, *a):
        BaseException.__init__(self, *a)
        p = CUR.path
        if p is not None and p.aborted is None:
            p.aborted = self


class _Cur(object):
    path = None


CUR = _Cur()


def cur():
    p = CUR.path
    if p is None:
        raise Unsupported('no active path')
    return p


_true, _false = z3.BoolVal(True), z3.BoolVal(False)


def q(x):
    """Exact z3 Real literal of a concrete number."""
    f = Fraction(x)
    return z3.Q(f.numerator, f.denominator)


_NUM = (int, float, Fraction, bool)


def is_sym(x):
    return type(x) in SYMS


class SymBool(object):
    __slots__ = ('e',)
    __class__ = property(lambda self: bool)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return cur().branch(self.e)

    def __and__(self, o):
        if type(o) is bool:
            return self if o else False
        if type(o) is SymBool:
            return SymBool(z3.And(self.e, o.e))
        return NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        if type(o) is bool:
            return True if o else self
        if type(o) is SymBool:
            return SymBool(z3.Or(self.e, o.e))
        return NotImplemented
    __ror__ = __or__

    def __eq__(self, o):
        if type(o) is SymBool:
            return SymBool(self.e == o.e)
        if type(o) is bool:
            return self if o else SymBool(z3.Not(self.e))
        return self._int() == o

    def __ne__(self, o):
        return s_not(self == o)

    def __hash__(self):
        return hash(bool(self))

    def _int(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __index__(self):
        return int(bool(self))
    __int__ = __index__

    def __repr__(self):
        return 'SymBool(%s)' % self.e

    def __format__(self, spec):
        return format(bool(self), spec)


for _n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'lt', 'le', 'gt', 'ge',
           'truediv', 'rtruediv', 'neg'):
    def _f(self, *a, _n='__%s__' % _n):
        return getattr(self._int(), _n)(*a)
    setattr(SymBool, '__%s__' % _n, _f)


def s_not(x):
    if type(x) is SymBool:
        return SymBool(z3.Not(x.e))
    return not x


def zbool(x):
    """z3 term of a (symbolic or concrete) truth value, without forking."""
    t = type(x)
    if t is SymBool:
        return x.e
    if t is SymInt or t is SymFloat:
        return x.e != 0
    return _true if x else _false


def _mk(e):
    """Wraps a bool term, folding constants."""
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def lift(x):
    """(kind, z3 term) of a number; None if it is not one."""
    t = type(x)
    if t is SymInt:
        return 'i', x.e
    if t is SymFloat:
        return 'f', x.e
    if t is SymBool:
        return 'i', x._int().e
    if t is int or t is bool:
        return 'i', z3.IntVal(int(x))
    if t is float:
        if math.isinf(x) or math.isnan(x):
            return 'inf', x
        return 'f', q(x)
    if t is Fraction:
        return 'f', q(x)
    if isinstance(x, int):           # IntEnum and friends
        return 'i', z3.IntVal(int(x))
    if isinstance(x, float):
        return 'f', q(float(x))
    return None


def real(k, e):
    return z3.ToReal(e) if k == 'i' else e


def as_real(x):
    k, e = lift(x)
    return real(k, e)


def _cmp(op):
    fold = {'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b,
            'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b,
            'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b}[op]

    def f(self, o):
        b = lift(o)
        if b is None:
            if op == 'eq':
                return False
            if op == 'ne':
                return True
            return NotImplemented
        if b[0] == 'inf':
            return fold(0.0, b[1])
        if type(self) is SymFloat and self.dec is not None and type(o) is float:
            return self._cmp_dec(fold, op, o)
        if type(self) is SymInt and b[0] == 'i':
            return _mk(fold(self.e, b[1]))
        k = 'i' if type(self) is SymInt else 'f'
        return _mk(fold(real(k, self.e), real(*b)))
    f.__name__ = '__%s__' % op
    return f


class _Num(object):
    __slots__ = ()

    for _op in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
        locals()['__%s__' % _op] = _cmp(_op)
    del _op

    def __hash__(self):
        return 0x5eed

    def __bool__(self):
        return cur().branch(self.e != 0)

    # arithmetic
    def _arith(self, o, op, swap):
        b = lift(o)
        if b is None:
            return NotImplemented
        if b[0] == 'inf':
            raise Unsupported('arithmetic with inf/nan')
        a = ('i' if type(self) is SymInt else 'f', self.e)
        if swap:
            a, b = b, a
        return arith(op, a, b)

    def __add__(self, o): return self._arith(o, 'add', False)
    def __radd__(self, o): return self._arith(o, 'add', True)
    def __sub__(self, o): return self._arith(o, 'sub', False)
    def __rsub__(self, o): return self._arith(o, 'sub', True)
    def __mul__(self, o): return self._arith(o, 'mul', False)
    def __rmul__(self, o): return self._arith(o, 'mul', True)
    def __truediv__(self, o): return self._arith(o, 'truediv', False)
    def __rtruediv__(self, o): return self._arith(o, 'truediv', True)
    def __floordiv__(self, o): return self._arith(o, 'floordiv', False)
    def __rfloordiv__(self, o): return self._arith(o, 'floordiv', True)
    def __mod__(self, o): return self._arith(o, 'mod', False)
    def __rmod__(self, o): return self._arith(o, 'mod', True)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __pow__(self, o):
        if type(o) is int and 0 <= o <= 8:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        if type(o) is int and -8 <= o < 0:
            return 1.0 / self ** -o
        raise Unsupported('pow')

    def __neg__(self):
        return type(self)(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return type(self)(z3.If(self.e >= 0, self.e, -self.e))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __format__(self, spec):
        return cur().token(self, spec)

    def __str__(self):
        return cur().token(self, 'str')

    def __repr__(self):
        return cur().token(self, 'repr')

    def __reduce_ex__(self, proto):
        raise Unsupported('pickling a symbolic value')


def rounded(e):
    """One binary64 rounding of the exact Real term `e` (rounded mode only)."""
    p = cur()
    if not p.rounding:
        return e
    # the same operation on the same operands has the same result, and a result (or an
    # input) that is taken over as it is has none to round
    e = z3.simplify(e)
    known = p.roundings.get(e.get_id())
    if known is not None:
        return known[1]
    if z3.is_rational_value(e):
        return q(float(Fraction(e.numerator_as_long(), e.denominator_as_long())))
    if z3.is_const(e):
        return e
    r = p.fresh_real('rnd')
    p.roundings[e.get_id()] = (e, r)
    u = z3.Q(1, 2 ** 53)
    mag = z3.If(e >= 0, e, -e)
    p.add_def(z3.And(r - e <= u * mag, e - r <= u * mag,
                     z3.Implies(e == 0, r == 0)))
    return r


def arith(op, a, b):
    (ka, ea), (kb, eb) = a, b
    if op in ('add', 'sub', 'mul'):
        if ka == kb == 'i':
            return SymInt({'add': lambda: ea + eb, 'sub': lambda: ea - eb,
                           'mul': lambda: ea * eb}[op]())
        x, y = real(ka, ea), real(kb, eb)
        e = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y}[op]()
        return SymFloat(rounded(e))
    if op == 'truediv':
        x, y = real(ka, ea), real(kb, eb)
        if cur().branch(y == 0):
            raise ZeroDivisionError('division by zero')
        return SymFloat(rounded(x / y))
    if cur().branch(eb == 0):
        raise ZeroDivisionError('integer division or modulo by zero')
    if ka == kb == 'i':
        if z3.is_int_value(eb):
            pos = eb.as_long() > 0
        else:
            pos = cur().branch(eb > 0)
        d = (ea / eb) if pos else ((-ea) / (-eb))   # Euclidean == floor for +divisor
        if op == 'floordiv':
            return SymInt(d)
        return SymInt(ea - eb * d)
    x, y = real(ka, ea), real(kb, eb)
    n = z3.ToInt(x / y)
    if op == 'floordiv':
        return SymFloat(z3.ToReal(n))
    return SymFloat(rounded(x - y * z3.ToReal(n)))


def nearest_int(e, ties_even=True):
    """Int term: e rounded half-to-even, as a defined fresh variable."""
    p = cur()
    n = p.fresh_int('rn')
    d = e - z3.ToReal(n)
    h = z3.Q(1, 2)
    even = (n % 2 == 0)
    p.add_def(z3.And(d <= h, -d <= h, z3.Implies(z3.Or(d == h, d == -h), even)))
    return n


class SymInt(_Num):
    __slots__ = ('e',)
    __class__ = property(lambda self: int)

    def __init__(self, e):
        self.e = e

    def __index__(self):
        return cur().concretize_int(self.e)

    __int__ = __index__

    def __round__(self, nd=None):
        if nd is None or nd >= 0:
            return self
        raise Unsupported('round to tens')

    __trunc__ = __floor__ = __ceil__ = __pos__ = lambda self: self

    def __float__(self):
        raise Unsupported('float() of a symbolic int at a C boundary')

    def bit_length(self):
        raise Unsupported('bit_length')

    @property
    def real(self):
        return self

    def __and__(self, o):
        if type(o) is int and o >= 0 and (o & (o + 1)) == 0:
            return SymInt(self.e % (o + 1))
        return int(self) & o

    def __rshift__(self, o):
        return SymInt(self.e / z3.IntVal(2 ** int(o)))

    def __lshift__(self, o):
        return SymInt(self.e * z3.IntVal(2 ** int(o)))

    def is_integer(self):
        return True


class SymFloat(_Num):
    __slots__ = ('e', 'dec')
    __class__ = property(lambda self: float)

    def __init__(self, e, dec=None):
        self.e = e
        self.dec = dec      # (n, digits): the float nearest to n / 10**digits

    def _cmp_dec(self, fold, op, c):
        """Compares round(x, d) with a float constant, in binary64 semantics."""
        n, d = self.dec
        m = round(c * 10 ** d)
        if m / 10.0 ** d == c or round(c, d) == c:
            return _mk(fold(n, z3.IntVal(m)))
        return _mk(fold(self.e, q(c)))

    def __round__(self, nd=None):
        if nd is None:
            return SymInt(nearest_int(self.e))
        if not 0 <= nd <= 15:
            raise Unsupported('round digits')
        n = nearest_int(self.e * z3.IntVal(10 ** nd))
        return SymFloat(z3.ToReal(n) / z3.IntVal(10 ** nd), (n, nd))

    def __abs__(self):
        if self.dec is not None:
            n, d = self.dec
            n = z3.If(n >= 0, n, -n)
            return SymFloat(z3.ToReal(n) / z3.IntVal(10 ** d), (n, d))
        return SymFloat(z3.If(self.e >= 0, self.e, -self.e))

    def __floor__(self):
        return SymInt(z3.ToInt(self.e))

    def __ceil__(self):
        return SymInt(-z3.ToInt(-self.e))

    def __trunc__(self):
        return SymInt(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))

    def __int__(self):
        return cur().concretize_int(self.__trunc__().e)

    def __float__(self):
        raise Unsupported('float() of a symbolic float at a C boundary')

    def is_integer(self):
        return _mk(z3.IsInt(self.e))


class SymHash(object):
    """Structural (injective) model of a hash value: equal iff contents equal."""
    __slots__ = ('v',)
    __class__ = property(lambda self: int)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        if type(o) is SymHash:
            return struct_eq(self.v, o.v)
        return False

    def __ne__(self, o):
        return s_not(self == o)

    def __hash__(self):
        return 0x4a54

    def _op(self, o, op):
        return SymHash((op, self, o))

    def __xor__(self, o): return self._op(o, '^')
    def __rxor__(self, o): return self._op(o, '^')
    def __add__(self, o): return self._op(o, '+')
    def __radd__(self, o): return self._op(o, '+')
    def __mul__(self, o): return self._op(o, '*')
    def __rmul__(self, o): return self._op(o, '*')
    def __and__(self, o): return self._op(o, '&')
    def __mod__(self, o): return self._op(o, '%')

    def __repr__(self):
        return 'SymHash(%r)' % (self.v,)


def struct_eq(a, b):
    """Structural equality without forking; a bool or SymBool."""
    if type(a) is tuple and type(b) is tuple:
        if len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            c = struct_eq(x, y)
            if c is False:
                return False
            if c is not True:
                r = c if r is True else SymBool(z3.And(r.e, c.e))
        return r
    r = (a == b)
    if type(r) is SymBool or type(r) is bool:
        return r
    return bool(r)


class Ref(object):
    """Symbolic reference to one of finitely many entities of a sort.

    Only equality (identity) is symbolic.  Any other use concretises it by
    forking over all feasible identities.
    """
    __slots__ = ('sort', 'e')

    def __init__(self, sort, e):
        object.__setattr__(self, 'sort', sort)
        object.__setattr__(self, 'e', e)

    def _eq(self, o):
        if type(o) is Ref:
            if self.sort is not o.sort:
                return False
            if self is o:
                return True
            e = z3.simplify(self.e == o.e)
            return _mk(e)
        i = self.sort.index_of(o)
        if i is None:
            return False
        return _mk(z3.simplify(self.e == i))

    def __eq__(self, o):
        return self._eq(o)

    def __ne__(self, o):
        return s_not(self._eq(o))

    def _order(self, o, name):
        import operator
        op = getattr(operator, name)
        if self.sort.ordered:
            if type(o) is Ref and o.sort is self.sort:
                return _mk(z3.simplify(op(self.e, o.e)))
            if type(o) is str:
                ok = [i for i, x in self.sort.items.items() if op(x, o)]
                return _mk(z3.simplify(z3.Or([self.e == i for i in ok])))
        return op(self._conc(), o._conc() if type(o) is Ref else o)

    def __lt__(self, o): return self._order(o, 'lt')
    def __le__(self, o): return self._order(o, 'le')
    def __gt__(self, o): return self._order(o, 'gt')
    def __ge__(self, o): return self._order(o, 'ge')

    def __hash__(self):
        return self.sort.hash

    @property
    def __class__(self):
        return self.sort.cls or Ref

    def _conc(self):
        return self.sort.get(cur().concretize_int(self.e))

    def __getattr__(self, name):
        if name in self.sort.common:
            # the same whatever it refers to
            return getattr(self.sort.get(0), name)
        return getattr(self._conc(), name)

    def __setattr__(self, name, value):
        setattr(self._conc(), name, value)

    def __repr__(self):
        return repr(self._conc())

    def __str__(self):
        return str(self._conc())

    def __format__(self, spec):
        return format(self._conc(), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __bool__(self):
        if self.sort.truthy is not None:
            return self.sort.truthy
        return bool(self._conc())


for _n in ('add', 'radd', 'mod', 'rmod', 'mul', 'len',
           'getitem', 'contains', 'iter', 'int', 'index', 'call', 'neg', 'sub',
           'rsub'):
    def _g(self, *a, _n=_n):
        import operator
        c = self._conc()
        a = [x._conc() if type(x) is Ref else x for x in a]
        if _n == 'len':
            return len(c)
        if _n == 'iter':
            return iter(c)
        if _n == 'int':
            return int(c)
        if _n == 'call':
            return c(*a)
        if _n.startswith('r') and _n[1:] in ('add', 'mod', 'sub'):
            return getattr(operator, _n[1:])(a[0], c)
        return getattr(operator, {'lt': 'lt'}.get(_n, _n))(c, *a)
    setattr(Ref, '__%s__' % _n, _g)


SYMS = frozenset([SymBool, SymInt, SymFloat, SymHash, Ref])


def ite_max(a, b):
    return _ite(a, b, lambda x, y: x >= y)


def ite_min(a, b):
    return _ite(a, b, lambda x, y: x <= y)


def _ite(a, b, keep):
    la, lb = lift(a), lift(b)
    if la is None or lb is None or 'inf' in (la[0], lb[0]):
        return a if keep(a, b) else b
    if la[0] == lb[0]:
        e = z3.If(keep(la[1], lb[1]), la[1], lb[1])
        return (SymInt if la[0] == 'i' else SymFloat)(e)
    x, y = real(*la), real(*lb)
    return SymFloat(z3.If(keep(x, y), x, y))
