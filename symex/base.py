"""Parts shared by the symbolic and the concrete executor (no z3; Python 3.9+)."""
from fractions import Fraction

import os

REPO = os.environ.get('VERIF_REPO') or '/repo'     # (a copy only while developing)
TICK = 2 ** 20          # times are multiples of 2**-20 s when made concrete


class PathEnd(BaseException):
    """Ends the current path (not a verdict)."""


class CheckFailed(BaseException):
    def __init__(self, label, detail=''):
        BaseException.__init__(self, label, detail)
        self.label, self.detail = label, detail


class Sort(object):
    """A finite set of entities that may be referred to symbolically."""

    def __init__(self, name, make, cls=None, truthy=True, ordered=False):
        self.name, self.make, self.cls, self.truthy = name, make, cls, truthy
        self.ordered = ordered      # item i < item j exactly if i < j
        self.items = {}
        self.ids = {}
        # attributes (strings) that all of the items share
        self.common = getattr(cls or make, 'COMMON', ())
        self._hash = None

    @property
    def hash(self):
        """The items of a sort have to share one constant hash value."""
        if self._hash is None:
            x = self.get(0)
            self._hash = 0x77 if x is None or isinstance(x, str) else hash(x)
        return self._hash

    def get(self, i):
        try:
            return self.items[i]
        except KeyError:
            x = self.items[i] = self.make(i)
            self.ids[id(x)] = i
            return x

    def index_of(self, x):
        i = self.ids.get(id(x))
        if i is None and isinstance(x, str):
            for k, v in self.items.items():
                if v == x:
                    return k
        return i


class BaseCtx(object):

    symbolic = None

    def __init__(self, loader_factory):
        self.names = {}
        self.covers = set()
        self.observations = []
        self.sorts = {}
        self.fakes = {}
        self.module_globals = {}
        self.labels = {}
        self.loader = loader_factory(self)

    def uniq(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else '%s#%d' % (name, n)

    def sort(self, name, make=None, cls=None, truthy=True, ordered=False):
        s = self.sorts.get(name)
        if s is None:
            s = self.sorts[name] = Sort(name, make, cls, truthy, ordered)
        return s

    def load(self, module):
        return self.loader.load(module)

    def cover(self, label):
        self.covers.add(label)

    def observe(self, label, value):
        self.observations.append((label, value))

    def choose_from(self, name, options):
        return options[self.choose(name, len(options))]

    def pick(self, name, options):
        """As choose_from, but the solver finds the values and shows that there is
        no further one."""
        if len(options) == 1:
            return options[0]
        return options[int(self.int(name, 0, len(options) - 1))]

    # expectation helpers -----------------------------------------------------

    def raises(self, exc, f, *args, **kwargs):
        """Calls f; returns the exception of type exc it raised, or None."""
        try:
            f(*args, **kwargs)
        except exc as e:
            return e
        return None


class Harness(object):
    """One symbolic scenario.  `bounds[tier]` are keyword arguments of `func`."""

    def __init__(self, name, func, bounds, covers=(), rounding=False, fresh=True,
                 bound_text='', budget=None, assumptions=()):
        self.name, self.func, self.bounds = name, func, bounds
        self.covers = tuple(covers)
        self.rounding, self.fresh = rounding, fresh
        self.bound_text = bound_text
        self.assumptions = tuple(assumptions)


def frac_str(v):
    f = Fraction(v)
    return '%d/%d' % (f.numerator, f.denominator)
