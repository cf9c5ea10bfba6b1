"""P18: the viewer's live state follows the connection."""
import datetime as real_datetime
import errno
import socket as real_socket

from harness.common import Harness, base_env
from harness.servers import Bytes
from symex.loader import FakeModule

ADDR = ('10.0.0.1', 8912)
FAMILY = real_socket.AF_INET


class Error(OSError):
    """socket.error with a symbolic errno."""
    errno = None

    def __init__(self, no=None, *a):
        OSError.__init__(self, 'transport error')
        if no is None:
            return
        self.errno = no
        self.args = (no, 'transport error')


class Unexpected(Exception):
    pass


class View(object):
    """What the viewer was told."""

    def __init__(self):
        self.active = False
        self.table = None
        self.results = []

    def activate(self):
        self.active = True

    def inactivate(self):
        self.active = False

    def set_profiler_class(self, profiler_class):
        self.table = profiler_class

    def set_result(self, stats, cpu_time=0.0, wall_time=0.0, title=None, at=None):
        self.results.append((stats, cpu_time, wall_time, title, at))


class Plain(Bytes):
    """fake pickle that gives back what it was given."""

    def loads(self, data, **k):
        return self.made[bytes(data)][0]


class Sock(object):

    def __init__(self, world, family=None):
        self.world, self.family = world, family
        self.data = b''             # what has arrived
        self.error = None           # what comes after that
        self.blocking = True
        self.closed = 0
        self.connects = 0
        used = [s.fd for s in world.socks if world.fresh or not s.closed]
        self.fd = min(x for x in range(7, 99) if x not in used)
        world.socks.append(self)

    def fileno(self):
        return -1 if self.closed else self.fd

    def setblocking(self, flag):
        self.blocking = bool(flag)

    def settimeout(self, t):
        self.blocking = t is None

    def setsockopt(self, *a):
        pass

    def connect_ex(self, addr):
        w = self.world
        w.ctx.check(not self.closed, 'connects an open socket')
        w.ctx.check(tuple(addr) == ADDR, 'connects to the server')
        w.ctx.check(not self.blocking, 'connecting does not block the viewer')
        self.connects += 1
        return w.outcome

    def recv(self, n, flags=0):
        if self.closed:
            raise Error(errno.EBADF)
        if self.data:
            data, self.data = self.data[:n], self.data[n:]
            return data
        if self.error is None:
            raise AssertionError('the viewer waits for data for ever')
        if self.error == 'closed':
            return b''
        if self.error == 'no number':
            raise Error()
        raise Error(self.error)

    def close(self):
        self.closed += 1

    def shutdown(self, how):
        pass


class World(object):

    def __init__(self, ctx, failover):
        self.ctx, self.failover = ctx, failover
        self.socks = []
        # another part of the process may take the descriptors that got free
        self.fresh = failover and ctx.bool('descriptors taken')
        self.watches = {}
        self.alarms = []
        self.now = real_datetime.datetime(2017, 1, 1)
        self.outcome = 0
        base_env(ctx)
        self.bytes = Plain(ctx)
        world = self

        class Now(real_datetime.datetime):
            @classmethod
            def now(cls, tz=None):
                return world.now

        ctx.fakes['datetime'] = FakeModule('datetime', real_datetime, datetime=Now)
        ctx.fakes['socket'] = FakeModule('socket', real_socket, socket=self.socket)
        self.remote = ctx.load('profiling.remote')
        mod = ctx.load('profiling.remote.client')
        self.view = View()
        self.title = ctx.pick('title', [None, 'title']) if not failover else 'title'
        if failover:
            self.client = mod.FailoverProfilingClient(
                self.view, self, ADDR, FAMILY, title=self.title)
            self.interval = self.client.failover_interval
            ctx.check(self.interval > 0, 'reconnections are delayed')
            if ctx.choose('other interval', 2):
                self.interval = self.client.failover_interval = ctx.time('interval', 0.125, 60)
        else:
            self.client = mod.ProfilingClient(self.view, self, Sock(self), title=self.title)
        self.active = False
        self.type = None
        self.results = []
        self.failed = []
        self.lost = False

    def socket(self, family=real_socket.AF_INET, type=real_socket.SOCK_STREAM, *a, **k):
        self.ctx.check(family == FAMILY, 'a socket of the family of the address')
        return Sock(self, family)

    # the event loop (of urwid)
    def watch_file(self, fd, callback):
        self.ctx.check(fd >= 0, 'an open socket is watched')
        self.ctx.check(fd not in self.watches, 'a socket is watched once')
        self.watches[fd] = callback
        return fd

    def remove_watch_file(self, handle):
        return self.watches.pop(handle, None) is not None

    def alarm(self, seconds, callback):
        a = [seconds, callback]
        self.alarms.append(a)
        return a

    def remove_alarm(self, handle):
        self.alarms[:] = [a for a in self.alarms if a is not handle]

    # verdicts
    def connected(self):
        ctx, sock = self.ctx, self.socks[-1]
        ctx.check(sorted(self.watches) == [sock.fd] and not sock.closed,
                  'exactly one watch, on the current socket')
        ctx.check(not self.alarms, 'no reconnection is scheduled while connected')
        ctx.check(self.client.sock is sock, 'the current socket')

    def waiting(self, delayed):
        """After a failure."""
        ctx = self.ctx
        ctx.check(not self.watches, 'nothing is watched after a failure')
        for s in self.failed:
            ctx.check(s.closed == 1, 'a failed socket is closed once')
        ctx.check(len(self.alarms) == 1, 'exactly one reconnection is scheduled')
        want = self.interval if delayed else 0
        ctx.check(ctx.eq(self.alarms[0][0], want),
                  'delayed exactly if the server refused or its socket file is missing')
        ctx.cover('delayed' if delayed else 'at once')

    def state(self):
        ctx, view = self.ctx, self.view
        ctx.check(view.active == self.active, 'active while connected')
        ctx.check(view.table is self.type, 'shows the profiler type')
        ctx.check(len(view.results) == len(self.results), 'shows each result once')
        for got, want in zip(view.results, self.results):
            ctx.check(got[0] is want[0] and got[3:] == want[3:],
                      'results in order with title and time')
            ctx.check(ctx.and_(ctx.eq(got[1], want[1]), ctx.eq(got[2], want[2])),
                      'results with their times')

    # events
    def reconnect(self):
        """The scheduled reconnection is due."""
        ctx = self.ctx
        seconds, callback = self.alarms.pop(0)
        self.now += real_datetime.timedelta(1)
        before = len(self.socks)
        self.outcome = ctx.int('outcome', 0, 133)
        known = ctx.or_(*[self.outcome == e for e in
                          (0, errno.EINPROGRESS, errno.ENOENT, errno.ECONNREFUSED)])
        try:
            callback()
        except ValueError:
            ctx.check(ctx.not_(known), 'known outcomes are handled')
            ctx.cover('unexpected outcome')
            raise Unexpected()
        sock = self.socks[before - 1]
        if self.outcome == 0 or self.outcome == errno.EINPROGRESS:
            self.connected()
            ctx.cover('connected')
            return True
        # (another outcome, if it is not an error, counts as a failure to connect)
        self.failed.append(sock)
        self.waiting(self.outcome == errno.ECONNREFUSED or self.outcome == errno.ENOENT)
        return False

    def handle(self):
        sock = self.socks[-1]
        self.watches[sock.fd]()

    def receive(self, what):
        ctx, remote, sock = self.ctx, self.remote, self.socks[-1]
        self.now += real_datetime.timedelta(0, 1)
        if what == 'welcome':
            sock.data += remote.pack_msg(remote.WELCOME, (2, '1.0'))
            self.active = True
        elif what == 'type':
            self.type = ctx.pick('type', [View, Sock])
            sock.data += remote.pack_msg(remote.PROFILER, self.type)
        elif what == 'result':
            r = (object(), ctx.time('cpu', 0, 100), ctx.time('wall', 0, 100))
            sock.data += remote.pack_msg(remote.RESULT, r)
            self.results.append(r + (self.title, self.now))
            if not self.active:
                ctx.cover('result before a welcome')
        elif what == 'unknown':
            sock.data += remote.pack_msg(ctx.pick('method', self.unknown()), None)
            ctx.cover('unknown message')
        self.handle()
        self.connected()

    def unknown(self):
        r = self.remote
        return [x for x in (0, 0x0f, 0x13, 0x20, 0xff) if x not in
                (r.WELCOME, r.PROFILER, r.RESULT)]

    def fail(self):
        ctx, sock = self.ctx, self.socks[-1]
        if not self.failover and ctx.bool('in a message'):
            data = self.remote.pack_msg(self.remote.WELCOME, (2, '1.0'))
            sock.data = data[:ctx.pick('arrived', [1, 3, 5, len(data) - 1])]
        if not self.failover and ctx.bool('closed by the server'):
            sock.error = 'closed'
        else:
            sock.error = ctx.int('errno', 1, 133)
            if not self.failover and ctx.bool('without a number'):
                # as a timeout is
                sock.error = 'no number'
                return self.failed_now(sock)
            # (the first two mean that nothing is there yet, the third one belongs to
            # connecting)
            for e in (errno.EAGAIN, errno.EINTR, errno.ENOENT):
                ctx.assume(sock.error != e)
        return self.failed_now(sock)

    def failed_now(self, sock):
        ctx = self.ctx
        self.handle()
        self.active = False
        self.lost = True
        self.failed.append(sock)
        ctx.cover('failed')
        return sock.error


def plain(ctx, events):
    w = World(ctx, False)
    w.client.start()
    w.connected()
    for _ in range(ctx.choose('events', events) + 1):
        what = ctx.pick('event', ['welcome', 'type', 'result', 'unknown', 'fail'])
        if what == 'fail':
            w.fail()
            w.state()
            ctx.check(not w.watches, 'nothing is watched after a failure')
            ctx.check(not w.alarms and len(w.socks) == 1, 'no reconnection')
            break
        w.receive(what)
        w.state()
    ctx.observe('results', len(w.view.results))


def failover(ctx, events):
    w = World(ctx, True)
    w.client.start()
    w.waiting(False)
    connected = False
    for _ in range(ctx.choose('events', events) + 1):
        if not connected:
            try:
                connected = w.reconnect()
            except Unexpected:
                return
        else:
            what = ctx.pick('event', ['welcome', 'type', 'result', 'unknown', 'fail'])
            if what == 'fail':
                error = w.fail()
                w.waiting(error == errno.ECONNREFUSED)
                connected = False
            else:
                if w.lost:
                    ctx.cover('message after a reconnection')
                w.receive(what)
        w.state()
        ctx.check(len([s for s in w.socks if not s.closed]) == 1, 'one socket is open')
    ctx.observe('results', len(w.view.results))
    ctx.observe('sockets', len(w.socks))


def unknown(ctx):
    """Every method number that is not one of the three."""
    w = World(ctx, False)
    w.client.start()
    m = ctx.int('method', 0, 255)
    r = w.remote
    ctx.assume(ctx.and_(m != r.WELCOME, m != r.PROFILER, m != r.RESULT))
    w.client.sock.data = r.pack_msg(int(m), ctx.pick('content', [None, (1, 2, 3), View]))
    w.handle()
    w.connected()
    w.state()
    ctx.check(w.socks[0].data == b'', 'an unknown message is consumed')
    w.receive('welcome')
    w.state()
    ctx.cover('goes on')


HARNESSES = [
    Harness('plain', plain, {'quick': dict(events=4), 'thorough': dict(events=5)},
            covers=('failed', 'unknown message', 'result before a welcome'),
            bound_text='ProfilingClient: every sequence of up to `events` messages and one '
                       'failure with any error number, at a message or inside one'),
    Harness('failover', failover, {'quick': dict(events=5), 'thorough': dict(events=6)},
            covers=('failed', 'delayed', 'at once', 'connected', 'unknown message',
                    'unexpected outcome', 'message after a reconnection'),
            bound_text='FailoverProfilingClient: every sequence of up to `events` messages, '
                       'failures with any error number and connection attempts with any '
                       'outcome 0..132'),
    Harness('unknown', unknown, {'quick': {}, 'thorough': {}}, covers=('goes on',),
            bound_text='every unknown method number 0..255'),
]
ASSUMPTIONS = ['the event loop watches by file descriptor (as urwid.SelectEventLoop) and '
               'descriptors are reused as the system does '
               'unless something else takes them',
               'an error the client does not expect when it connects (neither refused nor '
               'missing) is raised, as documented by the message it gives',
               'framing and short reads are decided in P15']
