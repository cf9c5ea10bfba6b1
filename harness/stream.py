"""Byte streams of symbolic content and length, and sockets that carry them.

A symbolic run uses Rope for bytes: bytes of packed integers and slices of opaque
blobs (pickled messages) with symbolic bounds.  A concrete run uses real bytes.
"""
import errno
import io as real_io
import pickle as real_pickle
import re
import socket as real_socket
import struct as real_struct

from symex.loader import FakeModule


class Byte(object):
    """Byte number k (most significant first) of a packed unsigned integer."""
    __slots__ = ('value', 'size', 'k')

    def __init__(self, value, size, k):
        self.value, self.size, self.k = value, size, k

    def number(self):
        if self.size == 1:
            return self.value
        return (self.value // 256 ** (self.size - 1 - self.k)) % 256


class Rope(object):
    """A byte string: ints, Byte objects and (blob, start, end) slices."""

    def __init__(self, parts=()):
        if isinstance(parts, bytes):
            parts = list(parts)
        elif isinstance(parts, Rope):
            parts = list(parts.parts)
        self.parts = list(parts)

    def vt_bytes(self):
        return Rope(self)

    def vt_len(self):
        n = 0
        for p in self.parts:
            n = n + (p[2] - p[1] if type(p) is tuple else 1)
        return n

    def __bool__(self):
        return bool(self.vt_len() > 0)

    def _lift(self, o):
        if isinstance(o, (bytes, bytearray)):
            return list(o)
        return o.parts if isinstance(o, Rope) else None

    def __add__(self, o):
        o = self._lift(o)
        return NotImplemented if o is None else Rope(merge(self.parts + o))

    def __radd__(self, o):
        o = self._lift(o)
        return NotImplemented if o is None else Rope(merge(o + self.parts))

    def __iadd__(self, o):
        return self + o

    def extend(self, o):
        self.parts = (self + o).parts

    write = extend

    def split(self, at):
        """(first `at` bytes, rest); `at` may be symbolic but is within bounds."""
        left, right = [], list(self.parts)
        while right:
            if at == 0:
                break
            p = right.pop(0)
            n = p[2] - p[1] if type(p) is tuple else 1
            if n <= at:
                left.append(p)
                at = at - n
            else:
                left.append((p[0], p[1], p[1] + at))
                right.insert(0, (p[0], p[1] + at, p[2]))
                break
        return Rope(left), Rope(right)

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise TypeError('step')
            n = self.vt_len()
            a = 0 if i.start is None else i.start
            b = n if i.stop is None else i.stop
            a, b = self._clip(a, n), self._clip(b, n)
            if b <= a:
                return Rope()
            return self.split(b)[0].split(a)[1]
        x = self[i:i + 1]
        if not x.parts:
            raise IndexError(i)
        p = x.parts[0]
        if type(p) is Byte:
            return p.number()
        if type(p) is tuple:
            raise TypeError('the content of a blob is opaque')
        return p

    @staticmethod
    def _clip(i, n):
        if i < 0:
            i = i + n
            return 0 if i < 0 else i
        return n if i > n else i

    def whole_blob(self):
        """The blob this is exactly the content of, or None."""
        parts = [p for p in merge(self.parts)
                 if not (type(p) is tuple and not p[2] > p[1])]
        if len(parts) == 1 and type(parts[0]) is tuple:
            b, a, e = parts[0]
            if a == 0 and e == b.length:
                return b
        return None

    def same(self, o):
        """Equality of content, by structure."""
        a, b = Rope(merge(self.parts)).flat(), Rope(merge(o.parts)).flat()
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if type(x) is tuple and type(y) is tuple:
                if x[0] is not y[0] or not (x[1] == y[1]) or not (x[2] == y[2]):
                    return False
            elif type(x) is tuple or type(y) is tuple:
                return False
            else:
                x = x.number() if type(x) is Byte else x
                y = y.number() if type(y) is Byte else y
                if not x == y:
                    return False
        return True

    def flat(self):
        return [p for p in self.parts if type(p) is not tuple or p[2] > p[1]]

    def __eq__(self, o):
        o = self._lift(o)
        return NotImplemented if o is None else self.same(Rope(o))

    __hash__ = None


def merge(parts):
    """Joins neighbouring slices of one blob."""
    out = []
    for p in parts:
        if (out and type(p) is tuple and type(out[-1]) is tuple and
                out[-1][0] is p[0] and out[-1][2] == p[1]):
            out[-1] = (p[0], out[-1][1], p[2])
        else:
            out.append(p)
    return out


class RopeIO(object):
    """io.BytesIO over ropes (sequential writing)."""

    def __init__(self, data=b''):
        self.data = Rope() + data
        self.at = 0

    def write(self, data):
        self.data = self.data + data
        return Rope._lift(self.data, data) and None

    def tell(self):
        return self.data.vt_len()

    def getvalue(self):
        return self.data

    def seek(self, at, whence=0):
        self.at = at

    def read(self, n=-1):
        return self.data[self.at:] if n is None or n < 0 else self.data[self.at:self.at + n]

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        pass


_SIZES = dict(b=1, B=1, h=2, H=2, i=4, I=4, l=4, L=4, q=8, Q=8)


def _fields(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    order = '@'
    if fmt[:1] in '@=<>!':
        order, fmt = fmt[0], fmt[1:]
    out = []
    for n, c in re.findall(r'(\d*)([a-zA-Z?])', fmt):
        out.extend([c] * int(n or 1))
    return order, out


def pack(fmt, *values):
    order, fields = _fields(fmt)
    if len(fields) != len(values):
        raise real_struct.error('arguments')
    if order not in '!<>' and len(fields) > 1 or any(c not in _SIZES for c in fields):
        return real_struct.pack(fmt, *values)
    parts = []
    for c, v in zip(fields, values):
        n = _SIZES[c]
        lo, hi = (0, 256 ** n) if c.isupper() else (-256 ** n // 2, 256 ** n // 2)
        if not (v >= lo and v < hi):
            raise real_struct.error('out of range')
        if c.islower():
            v = v % 256 ** n
        bs = [Byte(v, n, k) for k in range(n)]
        parts.extend(bs if order in '!>' else bs[::-1])
    return Rope(parts)


def unpack(fmt, data):
    if isinstance(data, (bytes, bytearray)):
        return real_struct.unpack(fmt, data)
    order, fields = _fields(fmt)
    if not data.vt_len() == sum(_SIZES[c] for c in fields):
        raise real_struct.error('size')
    parts, out = data.flat(), []
    for c in fields:
        n = _SIZES[c]
        bs, parts = parts[:n], parts[n:]
        if order == '<':
            bs = bs[::-1]
        first = bs[0]
        if type(first) is Byte and first.size == n and \
                all(type(b) is Byte and b.value is first.value and b.k == k
                    for k, b in enumerate(bs)):
            v = first.value
        else:
            v = 0
            for b in bs:
                if type(b) is tuple:
                    # opaque content read as a number: not a frame of ours
                    raise real_struct.error('content of a message read as a header')
                v = v * 256 + (b.number() if type(b) is Byte else b)
        if c.islower() and v >= 256 ** n // 2:
            v = v - 256 ** n
        out.append(v)
    return tuple(out)


class Struct(object):
    def __init__(self, fmt):
        self.format = fmt
        self.size = real_struct.calcsize(fmt)

    def pack(self, *values):
        return pack(self.format, *values)

    def unpack(self, data):
        return unpack(self.format, data)


class Blob(object):
    """The pickled form of a message: opaque bytes, symbolic length."""

    def __init__(self, message, length, number):
        self.message, self.length, self.number = message, length, number


class Message(object):
    def __init__(self, number, length):
        self.number, self.length = number, length


class Wire(object):
    """Fakes of struct, io and pickle for the wire format."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.blobs = []
        self.protocols = []
        ctx.fakes['pickle'] = FakeModule(
            'pickle', real_pickle, dump=self.dump, dumps=self.dumps, loads=self.loads)
        if ctx.symbolic:
            ctx.bytearray = Rope
            ctx.fakes['io'] = FakeModule('io', real_io, BytesIO=RopeIO)
            ctx.fakes['struct'] = FakeModule('struct', real_struct, pack=pack,
                                             unpack=unpack, Struct=Struct)

    def empty(self):
        return Rope() if self.ctx.symbolic else b''

    def content(self, b):
        if self.ctx.symbolic:
            return Rope([(b, 0, b.length)])
        # told apart by first and last byte, and by length
        n = int(b.length)
        edge = bytes([0x41 + b.number])
        return edge * n if n < 3 else edge + b'\x10' * (n - 2) + bytes([0x61 + b.number])

    def dumps(self, msg, protocol=None, **k):
        self.protocols.append(protocol)
        b = Blob(msg, msg.length, len(self.blobs))
        self.blobs.append(b)
        return self.content(b)

    def dump(self, msg, f, protocol=None, **k):
        f.write(self.dumps(msg, protocol))

    def loads(self, data, **k):
        if self.ctx.symbolic:
            b = data.whole_blob() if isinstance(data, Rope) else None
            if b is not None:
                return b.message
        else:
            for b in self.blobs:
                if self.content(b) == bytes(data):
                    return b.message
        raise real_pickle.UnpicklingError('not what was pickled')

    def length(self, data):
        return data.vt_len() if isinstance(data, Rope) else len(data)


class Sock(object):
    """The receiving end of a stream that splits, delays, fails and ends at will."""

    def __init__(self, ctx, wire, stream, fragments, delays, error_at, error):
        self.ctx, self.wire = ctx, wire
        self.left = stream
        self.fragments, self.delays = fragments, delays
        self.error_at, self.error = error_at, error
        self.taken = 0
        self.calls = 0
        self.over = False

    def fileno(self):
        return 5

    def setblocking(self, flag):
        pass

    settimeout = setblocking

    def gettimeout(self):
        return None

    def recv(self, n, flags=0):
        ctx = self.ctx
        self.calls += 1
        if self.error is not None and self.error_at == self.calls:
            self.over = True
            raise real_socket.error(self.error, 'failure of the transport')
        if not n > 0:
            ctx.check(n == 0, 'a size to receive is not negative')
            return self.wire.empty()
        rest = self.wire.length(self.left)
        if rest == 0:
            self.over = True
            return self.wire.empty()
        if self.delays and ctx.choose('delayed', 2):
            self.delays -= 1
            ctx.cover('delayed')
            raise real_socket.error(errno.EAGAIN, 'Resource temporarily unavailable')
        most = n if n <= rest else rest
        if self.fragments and ctx.choose('fragmented', 2):
            self.fragments -= 1
            m = ctx.int('received', 1, 2 ** 32)
            ctx.assume(m <= most)
            ctx.cover('fragmented')
        else:
            m = most
        if flags & real_socket.MSG_PEEK:
            return self.left.split(m)[0] if ctx.symbolic else self.left[:m]
        if ctx.symbolic:
            data, self.left = self.left.split(m)
        else:
            data, self.left = self.left[:m], self.left[m:]
        self.taken = self.taken + m
        return data


def fake_select(ctx):
    import select
    ready = lambda r, w, x, timeout=None: (list(r), list(w), [])      # noqa: E731
    return FakeModule('select', select, select=ready)
