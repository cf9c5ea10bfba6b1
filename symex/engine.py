"""Symbolic executor: path exploration with z3 deciding every branch and check."""
from fractions import Fraction
import builtins
import math
import re
import signal
import time
import traceback
import types

import z3

from symex.base import BaseCtx, CheckFailed, PathEnd, TICK
from symex.loader import Loader
from symex import text
from symex import values as V
from symex.values import (CUR, Ref, SymBool, SymFloat, SymHash, SymInt, SYMS,
                          Unsupported)

MAX_BRANCHES = 20000
MAX_CALLS = 300000
QUERY_MS = 3000             # then anew, with other seeds:
AGAIN = [(7, 5000), (1, 15000), (3, 60000)]


class _Steer(BaseException):

    def __init__(self, *a):
        BaseException.__init__(self, *a)
        p = CUR.path
        if p is not None and p.aborted is None:
            p.aborted = self


class Limit(_Steer):
    """The path did not finish within the engine's step limits."""


class Inconclusive(_Steer):
    pass


class Nondeterminism(_Steer):
    pass


# ---------------------------------------------------------------- call shadows

_SAFE_STR = {'format', 'startswith_', }


def _c_len(x):
    n = getattr(type(x), 'vt_len', None)
    if n is not None:
        return n(x)
    return len(x)


def _c_float(x=0.0, *a):
    t = type(x)
    if t is SymFloat:
        return x
    if t is SymInt:
        e = z3.ToReal(x.e)
        p = V.cur()
        if p.rounding:
            e = V.rounded(e)
        return SymFloat(e)
    if t is SymBool:
        return SymFloat(z3.ToReal(x._int().e))
    if t is Ref:
        return float(x._conc())
    return float(x, *a)


def _c_int(x=0, *a, **k):
    t = type(x)
    if t is SymInt:
        return x
    if t is SymFloat:
        return x.__trunc__()
    if t is SymBool:
        return x._int()
    if t is Ref:
        return int(x._conc(), *a, **k)
    f = getattr(t, 'vt_int', None)
    if f is not None:
        return f(x, *a, **k)
    return int(x, *a, **k)


def _c_bool(x=False):
    if type(x) is SymBool:
        return x
    return bool(x)


def _c_str(x='', *a):
    if type(x) is text.SymStr:
        return x
    if type(x) in SYMS:
        return str(x)
    return str(x, *a)


def _c_hash(x):
    return V_hash(x)


def V_hash(x):
    """Injective structural model of hash() where symbolic data is involved."""
    t = type(x)
    if t in (Ref, SymInt, SymFloat, SymBool):
        return SymHash((t.__name__ if t is not Ref else 'ref', x))
    if t is SymHash:
        return x
    if t is tuple:
        return SymHash(tuple(x))
    h = getattr(t, '__hash__', None)
    raw = getattr(h, 'vt_raw', None)
    if raw is not None:
        return raw(x)
    return hash(x)


def vt_hash(f):
    """Decorates an instrumented __hash__: C callers get a plain int."""
    def __hash__(self):
        r = f(self)
        return 0x4a55 if type(r) is SymHash else r
    __hash__.vt_raw = f
    return __hash__


def _c_max(*a, **k):
    return _minmax(V.ite_max, max, a, k)


def _c_min(*a, **k):
    return _minmax(V.ite_min, min, a, k)


def _minmax(fold, real, a, k):
    if k:
        return real(*a, **k)
    xs = list(a[0]) if len(a) == 1 else list(a)
    if xs and any(type(x) in (SymInt, SymFloat) for x in xs) and \
            all(V.lift(x) is not None for x in xs):
        r = xs[0]
        for x in xs[1:]:
            r = fold(r, x)
        return r
    return real(xs) if len(a) == 1 else real(*a)


def _c_id(x):
    if type(x) is Ref:
        return SymHash(('id', x))
    f = getattr(type(x), 'vt_id', None)
    if f is not None:
        return f(x)
    return id(x)


def _c_round(x, *a):
    return round(x, *a)


def _c_type(*a):
    if len(a) == 1:
        t = type(a[0])
        if t is SymInt:
            return int
        if t is SymFloat:
            return float
        if t is SymBool:
            return bool
        if t is Ref and a[0].sort.cls:
            return a[0].sort.cls
        if t is SymHash:
            return int
    return type(*a)


def _c_all(xs):
    for x in xs:
        if not x:
            return False
    return True


def _c_exec(code, *a):
    return exec(code, *a)


def _c_bytes(*a, **k):
    if len(a) == 1 and hasattr(type(a[0]), 'vt_bytes'):
        return a[0].vt_bytes()
    return bytes(*a, **k)


def _c_bytearray(*a, **k):
    make = CUR.path.bytearray
    if make is not None:
        return make(*a)
    return bytearray(*a, **k)


def _join(sep, xs):
    xs = list(xs)
    if not any(hasattr(type(x), 'vt_bytes') for x in xs):
        return sep.join(xs)
    r = xs[0]
    for x in xs[1:]:
        r = r + sep + x if sep else r + x
    return r


_SHADOW = {}
for _k, _f in [('len', _c_len), ('float', _c_float), ('int', _c_int),
               ('str', _c_str), ('hash', _c_hash), ('max', _c_max),
               ('min', _c_min), ('id', _c_id), ('type', _c_type),
               ('bool', _c_bool), ('bytes', _c_bytes), ('bytearray', _c_bytearray),
               ('getattr', text.getattr_), ('hasattr', text.hasattr_)]:
    _SHADOW[id(getattr(builtins, _k))] = _f

_BUILTIN_METHOD = type(''.join)


def _conc_arg(x, depth=0):
    t = type(x)
    if t is Ref:
        return x._conc()
    if depth < 2 and t in (list, tuple):
        return t(_conc_arg(y, depth + 1) for y in x)
    return x


def vt_c(f):
    g = _SHADOW.get(id(f))
    if g is not None:
        return g
    if type(f) is _BUILTIN_METHOD:
        s = getattr(f, '__self__', None)
        if type(s) is str and f.__name__ != 'format':
            return lambda *a, **k: f(*[_conc_arg(x) for x in a], **k)
        if type(s) is bytes and f.__name__ == 'join':
            return lambda xs: _join(s, xs)
        if s is math:
            return _math(f)
    return f


def _math(f):
    n = f.__name__

    def call(*a):
        if not any(type(x) in SYMS for x in a):
            return f(*a)
        if n == 'fsum':
            return sum(a[0], 0.0)
        if n in ('floor', 'ceil', 'trunc'):
            return getattr(a[0], '__%s__' % n)()
        if n == 'fabs':
            return _c_float(abs(a[0]))
        if n in ('isnan', 'isinf'):
            return False
        raise Unsupported('math.%s' % n)
    return call


def vt_is(a, b):
    ta, tb = type(a), type(b)
    if ta is Ref or tb is Ref:
        if ta is Ref:
            return a._eq(b)
        return b._eq(a)
    if ta is SymBool and tb is bool:
        return a == b
    if tb is SymBool and ta is bool:
        return b == a
    return a is b


def vt_isnot(a, b):
    return V.s_not(vt_is(a, b))


_PCT = re.compile(r'%(\((\w+)\))?([-#0 +]*)(\d+|\*)?(\.\d+)?([diouxXeEfFgGcrsa%])')


def vt_mod(a, b):
    if type(a) is str:
        args = b if type(b) is tuple else (b,)
        if any(type(x) is text.SymStr for x in args):
            r = text.percent(a, args)
            if r is not None:
                return r
        if any(type(x) in (SymInt, SymFloat, SymBool, Ref) for x in args):
            args = [_conc_arg(x) for x in args]
            it = iter(args)

            def sub(m):
                c = m.group(6)
                if c == '%':
                    return '%'
                x = next(it)
                if type(x) in (SymInt, SymFloat, SymBool):
                    if c in 'di':
                        if type(x) is SymFloat:
                            x = x.__trunc__()
                        return format(x, 'd')
                    if c in 'eEfFgG':
                        return format(_c_float(x), (m.group(5) or '.6') + c)
                    if c in 'sr':
                        return str(x)
                    raise Unsupported('%' + c)
                return m.group(0) % (x,)
            return _PCT.sub(sub, a)
    return a % b


# ----------------------------------------------------------------------- path


class SymCtx(BaseCtx):

    symbolic = True
    bytearray = None        # stand-in for bytearray() on symbolic byte strings

    def __init__(self, prefix, rounding=False, shared_loader=None):
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.pending = []
        self.solver = z3.SimpleSolver()
        self.solver.set('timeout', QUERY_MS)
        self.model = None
        self.inputs = {}
        self.rounding = rounding
        self.roundings = {}
        self.aborted = None
        self.nchecks = 0
        self.tokens = []
        self.nfresh = 0
        self.stats = dict(queries=0, solver_s=0.0, branches=0, checks=0,
                          checks_solver=0, unsat=0)
        self.functions = set()
        self.calls = 0
        self.hash_depth = 0
        self.sample = []
        hooks = {'__vt_c__': vt_c, '__vt_is__': vt_is, '__vt_isnot__': vt_isnot,
                 '__vt_mod__': vt_mod, '__vt_fn__': self._fn,
                 '__vt_hash__': vt_hash}
        BaseCtx.__init__(self, lambda c: Loader(c, True, hooks))

    # -- instrumentation callbacks
    def _fn(self, name):
        p = CUR.path
        p.calls += 1
        p.functions.add(name)
        if p.calls > MAX_CALLS:
            raise Limit('calls')

    # -- solver
    def _check(self, *assumptions):
        t = time.time()
        s = self.solver
        r = s.check(*assumptions)
        for seed, ms in AGAIN:
            if r != z3.unknown:
                break
            s = z3.SimpleSolver()
            s.set('timeout', ms)
            s.set('random_seed', seed)
            s.add(self.solver.assertions())
            s.add(*assumptions)
            r = s.check()
        dt = time.time() - t
        self.stats['queries'] += 1
        self.stats['solver_s'] += dt
        if r == z3.unknown:
            raise Inconclusive('solver: %s' % s.reason_unknown())
        self.answered = s
        return r == z3.sat

    def add_def(self, e):
        self.solver.add(e)
        self.model = None

    def _assert(self, e):
        self.solver.add(e)

    def branch(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        self.stats['branches'] += 1
        if self.stats['branches'] > MAX_BRANCHES:
            raise Limit('branches')
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            if type(d) is not bool:
                raise Nondeterminism('branch vs choice')
            self.pos += 1
            self.trace.append(d)
            self._assert(e if d else z3.Not(e))
            self.model = None
            return d
        if self.model is None:
            if not self._check():
                raise Nondeterminism('infeasible path')
            self.model = self.answered.model()
        v = z3.is_true(self.model.eval(e, model_completion=True))
        other = z3.Not(e) if v else e
        if self._check(other):
            m2 = self.answered.model()
            self.pending.append(self.trace + [not v])
        self.pos += 1
        self.trace.append(v)
        self._assert(e if v else z3.Not(e))
        return v

    def concretize_int(self, e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        for _ in range(300):
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos]
                if type(d) is not tuple:
                    raise Nondeterminism('choice vs branch')
                self.pos += 1
                self.trace.append(d)
                self._assert((e == d[1]) if d[0] else (e != d[1]))
                self.model = None
                if d[0]:
                    return d[1]
                continue
            if self.model is None:
                if not self._check():
                    raise Nondeterminism('infeasible path')
                self.model = self.answered.model()
            v = self.model.eval(e, model_completion=True).as_long()
            if self._check(e != v):
                self.pending.append(self.trace + [(False, v)])
            self.pos += 1
            self.trace.append((True, v))
            self._assert(e == v)
            return v
        raise Unsupported('too many values at a C boundary')

    def fresh_real(self, name):
        self.nfresh += 1
        return z3.Real('%s!%d' % (name, self.nfresh))

    def fresh_int(self, name):
        self.nfresh += 1
        return z3.Int('%s!%d' % (name, self.nfresh))

    # -- inputs
    def int(self, name, lo=None, hi=None):
        name = self.uniq(name)
        e = z3.Int(name)
        self.inputs[name] = ('int', e)
        if lo is not None:
            self._assert(e >= lo)
        if hi is not None:
            self._assert(e <= hi)
        self.model = None
        return SymInt(e)

    def time(self, name, lo=None, hi=None):
        name = self.uniq(name)
        e = z3.Real(name)
        self.inputs[name] = ('time', e)
        if lo is not None:
            self._assert(e >= V.q(lo))
        if hi is not None:
            self._assert(e <= V.q(hi))
        self.model = None
        return SymFloat(e)

    def real(self, name, lo=None, hi=None):
        x = self.time(name, lo, hi)
        n = [k for k in self.inputs][-1]
        self.inputs[n] = ('real', x.e)
        return x

    def bool(self, name):
        name = self.uniq(name)
        e = z3.Bool(name)
        self.inputs[name] = ('bool', e)
        return SymBool(e)

    def choose(self, name, n):
        """A structural choice: all n values are explored."""
        name = self.uniq(name)
        if n == 1:
            self.inputs[name] = ('choice', 0)
            return 0
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            if type(d) is not int:
                raise Nondeterminism('choice expected')
        else:
            d = 0
            for i in range(n - 1, 0, -1):
                self.pending.append(self.trace + [i])
        self.pos += 1
        self.trace.append(d)
        self.inputs[name] = ('choice', d)
        return d

    def ref(self, sort, name, n):
        name = self.uniq(name)
        e = z3.Int(name)
        self.inputs[name] = ('int', e)
        self._assert(z3.And(e >= 0, e < n))
        self.model = None
        for i in range(n):
            sort.get(i)
        return Ref(sort, e)

    def text(self, name, length):
        """A string of that length over printable ASCII."""
        return text.SymStr([self.int('%s %d' % (name, i), 32, 126) for i in range(length)])

    def conc(self, x):
        if type(x) is Ref:
            return x._conc()
        if type(x) is SymInt:
            return int(x)
        if type(x) is SymBool:
            return bool(x)
        return x

    # -- verdicts
    def end(self, why=''):
        exc = PathEnd(why)
        if self.aborted is None:
            self.aborted = exc
        raise exc

    def assume(self, cond):
        if type(cond) is SymBool:
            self._assert(cond.e)
            self.model = None
            if self.pos >= len(self.prefix):
                if not self._check():
                    self.end('assumption')
                self.model = self.answered.model()
        elif not cond:
            self.end('assumption')

    def check(self, cond, label, detail=''):
        self.nchecks += 1
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            if type(d) is str:
                if d == 'chk%d' % self.nchecks:
                    self.pos += 1
                    self.trace.append(d)
                    if type(cond) is SymBool:
                        self._assert(cond.e)
                        self.model = None
            return          # decided on the path this prefix was taken from
        self.stats['checks'] += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        if type(cond) is SymBool:
            e = z3.simplify(cond.e)
            if z3.is_true(e):
                return
            self.stats['checks_solver'] += 1
            if not z3.is_false(e):
                if not self._check(z3.Not(e)):
                    self.stats['unsat'] += 1
                    if len(self.sample) < 1:
                        self.sample.append((label, self.solver.sexpr(),
                                            z3.Not(e).sexpr()))
                    return
                if self._check(e):
                    self.pending.append(self.trace + ['chk%d' % self.nchecks])
                self._assert(z3.Not(e))
            self.model = None
            self.fail(label, detail)
        if not cond:
            self.fail(label, detail)

    def fail(self, label, detail=''):
        exc = CheckFailed(label, detail)
        if self.aborted is None:
            self.aborted = exc
        raise exc

    def extract(self, variant=0):
        """Input values of a model of the current path (grid times first)."""
        s = self.solver
        s.push()
        try:
            grid = []
            for k, (kind, e) in self.inputs.items():
                if kind == 'time':
                    grid.append(z3.IsInt(e * TICK))
            ok = False
            if variant < 2:
                for g in grid:
                    s.add(g)
                try:
                    ok = self._check()
                except Inconclusive:
                    ok = False
            if not ok:
                s.pop()
                s.push()
                if not self._check():
                    raise Nondeterminism('no model for path')
            m = self.answered.model()
            out = {}
            for k, (kind, e) in self.inputs.items():
                if kind == 'choice':
                    out[k] = e
                    continue
                v = m.eval(e, model_completion=True)
                if kind == 'int':
                    out[k] = v.as_long()
                elif kind == 'bool':
                    out[k] = z3.is_true(v)
                else:
                    if z3.is_algebraic_value(v):
                        v = v.approx(30)
                    out[k] = '%d/%d' % (v.numerator_as_long(),
                                        v.denominator_as_long())
            self.last_model = m
            return out
        finally:
            s.pop()

    def obs_value(self, x):
        """A JSON-able value of an observation under the last model."""
        t = type(x)
        m = self.last_model
        if t is SymInt:
            return m.eval(x.e, model_completion=True).as_long()
        if t is SymBool:
            return z3.is_true(m.eval(x.e, model_completion=True))
        if t is SymFloat:
            v = m.eval(x.e, model_completion=True)
            if z3.is_algebraic_value(v):
                v = v.approx(30)
            return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
        if t is Ref:
            return 'ref:%s:%d' % (x.sort.name,
                                  m.eval(x.e, model_completion=True).as_long())
        if t in (list, tuple):
            return [self.obs_value(y) for y in x]
        if t is text.SymStr:
            return ''.join(c if type(c) is str else
                           chr(m.eval(c.e, model_completion=True).as_long()) for c in x.c)
        if t is str and '\x00' in x:
            return None
        if t in (str, int, float, bool) or x is None:
            return x
        return obs_other(self, x)

    # -- boolean combinators
    def and_(self, *xs):
        return V._mk(z3.And([V.zbool(x) for x in xs])) if xs else True

    def or_(self, *xs):
        return V._mk(z3.Or([V.zbool(x) for x in xs]))

    def not_(self, x):
        return V.s_not(x) if type(x) is SymBool else not x

    def implies(self, a, b):
        return V._mk(z3.simplify(z3.Implies(V.zbool(a), V.zbool(b))))

    def eq(self, a, b):
        return V.struct_eq(a, b)

    def same(self, a, b):
        return vt_is(a, b)

    def ite(self, c, a, b):
        if type(c) is not SymBool:
            return a if c else b
        la, lb = V.lift(a), V.lift(b)
        if la and lb:
            if la[0] == lb[0]:
                return (SymInt if la[0] == 'i' else SymFloat)(
                    z3.If(c.e, la[1], lb[1]))
            return SymFloat(z3.If(c.e, V.real(*la), V.real(*lb)))
        return a if c else b

    def max(self, a, b):
        return V.ite_max(a, b)

    def exact(self, x):
        """The exact real value of x (no rounding in further arithmetic)."""
        return x if type(x) is Exact else Exact(V.as_real(x))

    # -- formatting tokens
    def token(self, x, spec):
        self.tokens.append((x, spec))
        return '\x00%d\x01' % (len(self.tokens) - 1)

    _TOK = re.compile('\x00(\\d+)\x01')

    def number_in(self, text):
        out = []
        pos = 0
        for m in self._TOK.finditer(text):
            if m.start() > pos:
                out.extend(_literals(text[pos:m.start()]))
            x, spec = self.tokens[int(m.group(1))]
            out.append(self._shown(x, spec))
            pos = m.end()
        if pos < len(text):
            out.extend(_literals(text[pos:]))
        return out

    def _shown(self, x, spec):
        m = re.match(r'^\.(\d+)f$', spec)
        if m or spec == 'f':
            d = int(m.group(1)) if m else 6
            n = V.nearest_int(V.as_real(x) * z3.IntVal(10 ** d))
            return Exact(z3.ToReal(n) / z3.IntVal(10 ** d)), d
        if type(x) is SymInt and spec in ('', 'd', 'str', 'repr'):
            return Exact(z3.ToReal(x.e)), 0
        raise Unsupported('format spec %r' % spec)


def _literals(s):
    out = []
    for piece in re.split(r'(-?\d+(?:\.\d+)?)', s):
        if not piece:
            continue
        if re.match(r'-?\d', piece):
            out.append((Exact(V.q(Fraction(piece))), len(piece.partition('.')[2])))
        else:
            out.append(piece)
    return out


class Exact(object):
    """Exact Real arithmetic for specifications (never rounds, never forks)."""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    @staticmethod
    def _l(o):
        return o.e if type(o) is Exact else V.as_real(o)

    def __add__(self, o): return Exact(self.e + self._l(o))
    __radd__ = __add__
    def __sub__(self, o): return Exact(self.e - self._l(o))
    def __rsub__(self, o): return Exact(self._l(o) - self.e)
    def __mul__(self, o): return Exact(self.e * self._l(o))
    __rmul__ = __mul__
    def __truediv__(self, o): return Exact(self.e / self._l(o))
    def __neg__(self): return Exact(-self.e)
    def __abs__(self): return Exact(z3.If(self.e >= 0, self.e, -self.e))
    def __lt__(self, o): return V._mk(self.e < self._l(o))
    def __le__(self, o): return V._mk(self.e <= self._l(o))
    def __gt__(self, o): return V._mk(self.e > self._l(o))
    def __ge__(self, o): return V._mk(self.e >= self._l(o))
    def __eq__(self, o): return V._mk(self.e == self._l(o))
    __hash__ = None


def obs_other(ctx, x):
    f = getattr(type(x), 'vt_obs', None)
    if f is not None:
        return f(x)
    return type(x).__name__


# ---------------------------------------------------------------- exploration


class Alarm(Limit):
    pass


def _on_alarm(*_):
    raise Alarm('time')


def run_path(harness, bounds, prefix, path_s=60):
    """Runs one path; returns (ctx, outcome)."""
    ctx = SymCtx(prefix, rounding=harness.rounding)
    CUR.path = ctx
    old = signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, path_s)
    exc = None
    try:
        try:
            harness.func(ctx, **bounds)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
    except BaseException as e:
        exc = e
    a = ctx.aborted if ctx.aborted is not None else exc
    if a is None:
        out = ('ok', None)
    elif isinstance(a, PathEnd):
        out = ('cut', str(a))
    elif isinstance(a, CheckFailed):
        out = ('fail', (a.label, str(a.detail)))
    elif isinstance(a, (Inconclusive, Nondeterminism)):
        out = ('inconclusive', '%s: %s' % (type(a).__name__, a))
    elif isinstance(a, Limit):
        out = ('fail', ('did-not-finish', str(a)))
    elif isinstance(a, Unsupported):
        out = ('unsupported', '%s\n%s' % (a, tb_of(a)))
    elif isinstance(a, (KeyboardInterrupt, MemoryError, GeneratorExit)):
        raise a
    else:
        out = ('fail', ('exception:' + type(a).__name__, '%s\n%s' % (a, tb_of(a))))
    if ctx.pos < len(ctx.prefix) and out[0] in ('ok', 'cut', 'fail'):
        out = ('inconclusive', 'Nondeterminism: prefix not consumed (%s)' % (out,))
    return ctx, out


def tb_of(exc):
    return ''.join(traceback.format_tb(exc.__traceback__)[-6:])
