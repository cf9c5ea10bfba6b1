"""Stand-ins for the environment of the profiler, shared by the harnesses."""
from symex.base import Harness                                    # noqa: F401
from symex.loader import FakeModule

import time as real_time


class Code(object):
    """A code object: compared by identity."""
    __slots__ = ('i', 'co_name', 'co_filename', 'co_firstlineno', '__weakref__')
    COMMON = ('co_filename',)

    def __init__(self, i, name=None):
        self.i = i
        self.co_name = name or 'f%d' % i
        self.co_filename = 'file.py'
        self.co_firstlineno = 10 + i

    def __hash__(self):
        return 77

    def __repr__(self):
        return '<code %d>' % self.i


class AlikeCode(Code):
    """Codes, some of which have the same name, file and line (as lambdas may have)."""
    __slots__ = ()

    def __init__(self, i):
        Code.__init__(self, i % 2)
        self.i = i


class TwinCode(Code):
    """Codes that are equal although they are of different files (as real ones are)."""
    __slots__ = ()

    def __init__(self, i):
        Code.__init__(self, i // 2)
        self.i = i
        self.co_filename = 'file%d.py' % (i % 2)

    def __eq__(self, other):
        return isinstance(other, TwinCode) and other.i // 2 == self.i // 2

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return 77


ALIVE = []          # the frames of a path: their addresses are reused on purpose only


class Frame(object):
    """A frame: compared by identity, mutable so that its memory can be reused."""
    __slots__ = ('f_code', 'f_back', 'f_lineno', 'n', 'f_globals', 'f_locals',
                 'address', 'f_lasti', '__weakref__')

    def __init__(self, code, back, n=0):
        self.f_code, self.f_back, self.n = code, back, n
        self.f_lineno = 1
        self.f_lasti = 0
        self.f_globals = self.f_locals = {}
        ALIVE.append(self)
        self.address = 64 * len(ALIVE)

    def vt_id(self):
        return self.address         # the same on every run of a path

    def __hash__(self):
        return 78

    def __repr__(self):
        return '<frame %s>' % self.n


class Clock(object):
    """A clock function: a callable object, so that it never binds to a class."""

    def __init__(self, read):
        self.read = read

    def __call__(self, *a):
        return self.read(*a)


class Hooks(object):
    """Stand-in for the interpreter's profile hooks (sys and threading)."""

    def __init__(self, sys_hook=None, thread_hook=None):
        self.sys, self.threading = sys_hook, thread_hook
        self.log = []

    def setprofile(self, f):
        self.log.append(('sys', f))
        self.sys = f

    def getprofile(self):
        return self.sys

    def thread_setprofile(self, f):
        self.log.append(('threading', f))
        self.threading = f


def code_sort(ctx, n=None):
    return ctx.sort('code', Code, cls=None)


def fake_inspect(**attrs):
    """`inspect` whose getmodule() works on stand-in code objects."""
    class Mod(object):
        def __init__(self, name):
            self.__name__ = name

    def getmodule(code, *a):
        f = getattr(code, 'co_filename', None)
        if f is None or f == 'nomodule.py':
            return None
        return Mod(f.rpartition('.')[0])
    import inspect
    return FakeModule('inspect', inspect, getmodule=getmodule, **attrs)


def base_env(ctx, clock=None, wall=None, hooks=None, **more):
    """Installs the stand-ins every module needs; returns the Hooks."""
    import sys
    import threading
    del ALIVE[:]
    hooks = hooks or Hooks()
    clock = clock or (lambda *a: 0.0)
    wall = wall or (lambda *a: 0.0)
    ctx.fakes['time'] = FakeModule(
        'time', real_time, clock=Clock(clock), time=Clock(wall),
        clock_gettime=Clock(more.pop('thread_clock', lambda *a: 0.0)),
        CLOCK_THREAD_CPUTIME_ID=3, sleep=lambda *a: None,
        process_time=Clock(clock), perf_counter=Clock(clock),
        monotonic=Clock(wall), thread_time=Clock(clock))
    ctx.fakes['sys'] = FakeModule('sys', sys, setprofile=hooks.setprofile,
                                  getprofile=hooks.getprofile,
                                  **more.pop('sys', {}))
    ctx.fakes['threading'] = FakeModule('threading', threading,
                                        setprofile=hooks.thread_setprofile,
                                        **more.pop('threading', {}))
    ctx.fakes['inspect'] = fake_inspect()
    for k, v in more.items():
        ctx.fakes[k] = v
    return hooks


class NullFormat(object):
    """Formatting with empty bodies, for harnesses that are not about text."""

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        import urwid
        if name.startswith('make_'):
            return lambda *a, **k: urwid.Text('')
        if name.startswith('markup_'):
            return lambda *a, **k: ('name', 'x')
        if name.startswith('attr_'):
            return lambda *a, **k: 'name'
        return lambda *a, **k: 'x'


def null_format(ctx):
    viewer = ctx.load('profiling.viewer')
    viewer.fmt = NullFormat()
    return viewer
