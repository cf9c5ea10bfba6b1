"""P15: messages survive any fragmentation of the stream."""
import errno
import socket

from harness.common import Harness, base_env
from harness.stream import Message, Sock, Wire, fake_select

BIG = 2 ** 24
ERRORS = [errno.ECONNRESET, errno.ECONNREFUSED, errno.ETIMEDOUT, errno.EPIPE, errno.EBADF]


def send(ctx, remote, wire, n):
    """n messages on the wire; returns (stream, [(method, message, end)])."""
    stream, sent = wire.empty(), []
    for i in range(n):
        method = ctx.int('method', 0, 255)
        msg = Message(i, ctx.int('size', 1, BIG))
        data = remote.pack_msg(method, msg)
        stream = stream + data
        sent.append((method, msg, wire.length(stream)))
    return stream, sent


def receive(ctx, messages, fragments, delays, trouble):
    base_env(ctx)
    wire = Wire(ctx)
    ctx.fakes['select'] = fake_select(ctx)
    remote = ctx.load('profiling.remote')
    n = ctx.choose('messages', messages) + 1
    stream, sent = send(ctx, remote, wire, n)
    total = wire.length(stream)
    cut, error, error_at = None, None, 0
    if trouble:
        if ctx.choose('trouble', 2):
            error = ERRORS[ctx.conc(ctx.int('errno', 0, len(ERRORS) - 1))]
            error_at = ctx.int('fails at call', 1, 3 * n + fragments + delays)
        else:
            cut = ctx.int('stream ends after', 0, 2 ** 32)
            ctx.assume(cut <= total)
            stream = stream.split(cut)[0] if ctx.symbolic else stream[:cut]
    sock = Sock(ctx, wire, stream, fragments, delays, error_at, error)
    got = 0
    for i in range(n + 1):
        exc = None
        try:
            method, msg = remote.recv_msg(sock)
        except socket.error as e:
            exc = e
        if exc is None:
            ctx.check(i < n, 'no message out of nothing')
            want_method, want, end = sent[i]
            ctx.check(ctx.eq(method, want_method), 'the method that was sent')
            ctx.check(msg is want, 'the message that was sent, in order')
            ctx.check(ctx.eq(sock.taken, end), 'no byte of the next message is consumed')
            got += 1
            continue
        if sock.error is not None and sock.over and sock.error_at == sock.calls:
            ctx.check(exc.errno == error, 'a transport error is passed on unchanged')
            ctx.cover('error')
        else:
            ctx.check(sock.over and sock.wire.length(sock.left) == 0,
                      'lost only when the stream has ended')
            ctx.check(exc.errno == errno.ECONNRESET, 'reported as a lost connection')
            ctx.check(i == n or sent[i][2] > (cut if cut is not None else total),
                      'every complete message is received')
            ctx.cover('lost')
        break
    if got:
        ctx.cover('received')
    if got > 1:
        ctx.cover('several received')
    ctx.observe('received', got)


def packing(ctx):
    """What goes on the wire: protocol, method, size, content."""
    base_env(ctx)
    wire = Wire(ctx)
    remote = ctx.load('profiling.remote')
    method = ctx.int('method', -5, 300)
    msg = Message(0, ctx.int('size', 1, BIG))
    protocol = ctx.choose_from('protocol', [None, 0, 1, 2])
    args = () if protocol is None else (protocol,)
    try:
        data = remote.pack_msg(method, msg, *args)
    except Exception:
        ctx.check(ctx.or_(method < 0, method > 255), 'every method number can be sent')
        ctx.cover('refused')
        return
    ctx.check(ctx.and_(method >= 0, method <= 255), 'an impossible method is not sent')
    want = remote.PICKLE_PROTOCOL if protocol is None else protocol
    ctx.check(wire.protocols == [want], 'pickled once with the protocol asked for')
    ctx.check(wire.length(data) == msg.length + 5, 'a header of five bytes and the content')
    sock = Sock(ctx, wire, data, 0, 0, 0, None)
    m, got = remote.recv_msg(sock)
    ctx.check(got is msg and ctx.eq(m, method), 'received as sent')
    ctx.cover('sent')


_T = '1..messages messages, method 0..255 and pickled size 1..2**24 symbolic'
HARNESSES = [
    Harness('fragments', receive,
            {'quick': dict(messages=2, fragments=3, delays=1, trouble=False),
             'thorough': dict(messages=3, fragments=4, delays=2, trouble=False)},
            covers=('received', 'several received', 'fragmented', 'delayed', 'lost'),
            bound_text=_T + '; up to `fragments` short reads of symbolic size and '
                       '`delays` reads without data, anywhere; then the end'),
    Harness('trouble', receive,
            {'quick': dict(messages=2, fragments=2, delays=1, trouble=True),
             'thorough': dict(messages=2, fragments=3, delays=2, trouble=True)},
            covers=('received', 'fragmented', 'error', 'lost'),
            bound_text=_T + '; the stream ends after any byte, or any read fails'),
    Harness('packing', packing, {'quick': {}}, covers=('refused', 'sent'),
            bound_text='any method number -5..300, size and pickle protocol'),
]
ASSUMPTIONS = [
    'pickle.dumps/loads are inverse functions (opaque content of symbolic length)',
    'a read gives between one byte and what was asked for and is there, nothing only at '
    'the end of the stream, or EAGAIN when there is nothing yet (non-blocking socket)',
]
