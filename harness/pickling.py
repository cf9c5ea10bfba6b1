"""Serialisation: real pickle on concrete runs, its protocol followed on symbolic ones.

The symbolic stand-in keeps what pickle does with objects (reduce protocol, classes
and functions by reference, memo) and leaves out the byte encoding.
"""
from collections import deque
import io
import pickle as real_pickle
import sys

from symex.loader import FakeModule

ATOMS = (type(None), bool, int, float, str, bytes, complex)


def is_proxy(x):
    return type(x).__module__ == 'symex.values'


class Wire(object):
    """What one dump() call has produced."""

    def __init__(self, obj, depth):
        self.obj, self.depth = obj, depth


class Transport(object):

    def __init__(self, ctx):
        self.ctx = ctx
        self.memo = {}
        self.keep = []
        self.depth = self.maxdepth = 0

    def find(self, module, qualname):
        m = self.ctx.loader.modules.get(module) or sys.modules.get(module)
        for part in qualname.split('.'):
            m = getattr(m, part)
        return m

    def copy(self, x):
        if is_proxy(x) or type(x) in ATOMS:
            return x
        if id(x) in self.memo:
            return self.memo[id(x)]
        self.depth += 1
        self.maxdepth = max(self.maxdepth, self.depth)
        try:
            y = self._copy(x)
        finally:
            self.depth -= 1
        self.memo[id(x)] = y
        self.keep.append(x)
        return y

    def _copy(self, x):
        t = type(x)
        if t is tuple:
            return tuple(self.copy(y) for y in x)
        if t in (list, deque):
            out = self.memo[id(x)] = t()
            for y in x:
                out.append(self.copy(y))
            return out
        if t in (set, frozenset):
            return t([self.copy(y) for y in x])
        if t is dict:
            out = self.memo[id(x)] = {}
            for k, v in x.items():
                out[self.copy(k)] = self.copy(v)
            return out
        if isinstance(x, type) or hasattr(x, '__code__') and hasattr(x, '__qualname__') \
                or t.__name__ == 'builtin_function_or_method':
            try:
                same = self.find(x.__module__, x.__qualname__) is x
            except AttributeError:
                same = False
            if not same:
                raise real_pickle.PicklingError("Can't pickle %r" % (x,))
            return x
        red = x.__reduce_ex__(4)
        if isinstance(red, str):
            return self.find(t.__module__, red)
        func, args = self.copy(red[0]), self.copy(red[1])
        y = self.memo[id(x)] = func(*args)
        state = red[2] if len(red) > 2 else None
        if state is not None:
            state = self.copy(state)
            if hasattr(y, '__setstate__'):
                y.__setstate__(state)
            else:
                slots = None
                if type(state) is tuple and len(state) == 2:
                    state, slots = state
                if state:
                    y.__dict__.update(state)
                for k, v in (slots or {}).items():
                    setattr(y, k, v)
        if len(red) > 3 and red[3] is not None:
            for z in red[3]:
                y.append(self.copy(z))
        if len(red) > 4 and red[4] is not None:
            for k, v in red[4]:
                y[self.copy(k)] = self.copy(v)
        return y


def dumps(ctx, obj, protocol=None):
    if not ctx.symbolic:
        return real_pickle.dumps(obj, -1 if protocol is None else protocol)
    t = Transport(ctx)
    out = t.copy(obj)
    return Wire(out, t.maxdepth)


def loads(ctx, wire):
    if not ctx.symbolic:
        return real_pickle.loads(wire)
    return Transport(ctx).copy(wire.obj)


class Files(object):
    """An in-memory file system for open(name, mode)."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.files = {}
        self.modes = []

    def open(self, name, mode='r', *a, **k):
        self.modes.append((name, mode))
        if 'w' in mode:
            self.files[name] = []
            return File(self, name)
        if name not in self.files:
            raise IOError(2, 'No such file', name)
        return File(self, name)


    def stat(self, name, *a, **k):
        """What os.stat() tells; the figures of a regular file."""
        import os
        if name not in self.files:
            raise IOError(2, 'No such file', name)
        return os.stat_result((0o100644, 7, 1, 1, 0, 0, 1000) + (1000000000,) * 3)

    def fake_os(self):
        import os
        found = lambda name: name in self.files
        return FakeModule('os', os, stat=self.stat, lstat=self.stat, path=FakeModule(
            'path', os.path, exists=found, isfile=found, lexists=found,
            getsize=lambda name: self.stat(name).st_size,
            getmtime=lambda name: float(self.stat(name).st_mtime),
            getctime=lambda name: float(self.stat(name).st_ctime)))


class File(object):

    def __init__(self, fs, name):
        self.fs, self.name = fs, name
        self.closed = False
        self.at = self.part = 0

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def close(self):
        self.closed = True

    def write(self, data):
        self.fs.files[self.name].append(data)
        return 1

    def flush(self):
        pass

    def _all(self):
        parts = self.fs.files[self.name]
        return parts

    def take(self):
        """The next thing that was written, as it was written."""
        self.part += 1
        return self._all()[self.part - 1]

    def read(self, n=-1):
        parts = self._all()
        if not all(isinstance(x, bytes) for x in parts):
            # symbolic contents come in one piece
            if len(parts) == 1 and self.part == 0 and n in (-1, None):
                return self.take()
            raise NotImplementedError('parts of a symbolic file')
        data = b''.join(self._all())[self.at:]
        if n is not None and n >= 0:
            data = data[:n]
        self.at += len(data)
        return data

    def readline(self):
        data = b''.join(self._all())[self.at:]
        i = data.find(b'\n')
        data = data if i < 0 else data[:i + 1]
        self.at += len(data)
        return data


def fake_pickle(ctx):
    """The pickle module: records the protocols; symbolic runs use Transport."""
    mod = FakeModule('pickle', real_pickle)
    mod.protocols = []

    def dump(obj, f, protocol=None, **k):
        mod.protocols.append(protocol)
        if ctx.symbolic:
            f.write(dumps(ctx, obj))
        else:
            f.write(real_pickle.dumps(obj, protocol))

    def load(f, **k):
        if ctx.symbolic:
            return loads(ctx, f.take() if isinstance(f, File) else f.read())
        if isinstance(f, File):
            return real_pickle.loads(b''.join(f._all()))
        return real_pickle.load(f)

    mod.dump, mod.load = dump, load
    mod.dumps = lambda obj, protocol=None, **k: (mod.protocols.append(protocol),
                                                 dumps(ctx, obj, protocol))[1]
    mod.loads = lambda data, **k: loads(ctx, data)
    return mod
