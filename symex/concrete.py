"""Concrete executor: runs a harness with given input values on unmodified source."""
from fractions import Fraction
import os
import re

from symex.base import BaseCtx, CheckFailed, PathEnd, TICK
from symex.loader import Loader


class ConcreteCtx(BaseCtx):

    symbolic = False

    def __init__(self, values):
        BaseCtx.__init__(self, lambda c: Loader(c, False))
        self.values = values
        self.aborted = None

    def _get(self, name, default):
        return self.values.get(self.uniq(name), default)

    def int(self, name, lo=None, hi=None):
        v = int(self._get(name, lo if lo is not None else 0))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            self.end('input out of range')
        return v

    def time(self, name, lo=None, hi=None):
        v = self._get(name, '0/1')
        f = Fraction(v)
        x = float(f)
        return x

    real = time

    def bool(self, name):
        return bool(self._get(name, False))

    def choose(self, name, n):
        v = int(self._get(name, 0))
        if not 0 <= v < n:
            self.end('choice out of range')
        return v

    def text(self, name, length):
        return ''.join(chr(self.int('%s %d' % (name, i), 32, 126)) for i in range(length))

    def ref(self, sort, name, n):
        return sort.get(self.choose(name, n))

    def assume(self, cond):
        if not cond:
            self.end('assumption')

    def check(self, cond, label, detail=''):
        self.labels[label] = self.labels.get(label, 0) + 1
        if not cond:
            self.fail(label, detail)

    def fail(self, label, detail=''):
        exc = CheckFailed(label, str(detail))
        if self.aborted is None:
            self.aborted = exc
        raise exc

    def end(self, why=''):
        exc = PathEnd(why)
        if self.aborted is None:
            self.aborted = exc
        raise exc

    def conc(self, x):
        return x

    # boolean combinators (non-forking in symbolic mode)
    def and_(self, *xs):
        return all(bool(x) for x in xs)

    def or_(self, *xs):
        return any(bool(x) for x in xs)

    def not_(self, x):
        return not x

    def implies(self, a, b):
        return (not a) or bool(b)

    def eq(self, a, b):
        return a == b

    def same(self, a, b):
        return a is b

    def ite(self, c, a, b):
        return a if c else b

    def max(self, a, b):
        return a if a >= b else b

    def exact(self, x):
        return Fraction(x)

    def number_in(self, text):
        """Parses a displayed text: list of literal strings and (value, digits)."""
        out = []
        for piece in re.split(r'(-?\d+(?:\.\d+)?)', text):
            if not piece:
                continue
            if re.match(r'-?\d', piece):
                d = len(piece.partition('.')[2])
                out.append((Fraction(piece), d))
            else:
                out.append(piece)
        return out
