"""A world of clients around the profiling servers.

The environment is driven by the harness: clients connect and leave, intervals pass.
Every send may fail with any error number, and while a send blocks (as it does under
gevent) clients may come and go.
"""
import errno
import io
import pickle as real_pickle
import socket as real_socket
import types

from harness.common import base_env
from symex.loader import FakeModule


class TransportError(real_socket.error):
    """errno may be symbolic."""
    errno = None

    def __init__(self, no):
        real_socket.error.__init__(self, 'transport error')
        self.errno = no
        self.args = (no, 'transport error')


class Exit(BaseException):
    """Leaves a loop that never ends."""


class WouldBlock(BaseException):
    """A blocking call of a greenlet that has to wait."""


class Set(set):
    """A set whose items come in the order of their insertion, or in reverse."""
    backwards = False

    def __init__(self, items=()):
        self._order = []
        set.__init__(self)
        for x in items:
            self.add(x)

    def __iter__(self):
        order = list(self._order)
        if Set.backwards:
            order.reverse()
        n = len(self._order)
        for x in order:
            yield x
            if len(self._order) != n:
                raise RuntimeError('Set changed size during iteration')

    def add(self, x):
        if x not in self:
            self._order.append(x)
            set.add(self, x)

    def discard(self, x):
        if x in self:
            self._order.remove(x)
            set.discard(self, x)

    def remove(self, x):
        if x not in self:
            raise KeyError(x)
        self.discard(x)

    def pop(self):
        for x in self:
            self.discard(x)
            return x
        raise KeyError('pop from an empty set')

    def clear(self):
        del self._order[:]
        set.clear(self)

    def update(self, *others):
        for o in others:
            for x in list(o):
                self.add(x)

    def difference_update(self, *others):
        for o in others:
            for x in list(o):
                self.discard(x)

    def intersection_update(self, *others):
        for x in list(self):
            if not all(x in o for o in others):
                self.discard(x)

    def copy(self):
        s = Set()
        for x in self._order:
            s.add(x)
        return s

    __copy__ = copy

    def union(self, *others):
        s = self.copy()
        s.update(*others)
        return s

    def difference(self, *others):
        s = self.copy()
        s.difference_update(*others)
        return s

    def intersection(self, *others):
        s = self.copy()
        s.intersection_update(*others)
        return s

    __or__, __sub__, __and__ = union, difference, intersection

    def __ror__(self, other):
        return Set(other).union(self)

    def __rsub__(self, other):
        return Set(other).difference(self)

    __rand__ = __and__

    def __ior__(self, other):
        self.update(other)
        return self

    def __isub__(self, other):
        self.difference_update(other)
        return self

    def __iand__(self, other):
        self.intersection_update(other)
        return self

    __hash__ = None


class Result(object):
    """The result of one profiling round."""

    def __init__(self, n):
        self.n = n


class Bytes(object):
    """fake pickle: every message gets bytes of its own."""

    def __init__(self, ctx):
        self.made = {}
        ctx.fakes['pickle'] = FakeModule('pickle', real_pickle, dump=self.dump,
                                         dumps=self.dumps, loads=self.loads)

    def dumps(self, msg, protocol=None, **k):
        data = b'<message %d>' % len(self.made)
        self.made[data] = (msg, protocol)
        return data

    def dump(self, msg, f, protocol=None, **k):
        f.write(self.dumps(msg, protocol))

    def loads(self, data, **k):
        return self.made[bytes(data)]


class Profiler(object):
    """Records what the server does with it."""

    def __init__(self):
        self.running = False
        self.log = []
        self.rounds = 0
        self.fail_start = False

    def is_running(self):
        return self.running

    def start(self):
        if self.running:
            raise RuntimeError('Already started')
        if self.fail_start:
            raise RuntimeError('Another profiler already registered')
        self.running = True
        self.log.append('start')

    def stop(self):
        if not self.running:
            raise RuntimeError('Not started')
        self.running = False
        self.log.append('stop')

    def result(self):
        self.rounds += 1
        return Result(self.rounds)


class Wrapper(object):
    def __init__(self, profiler):
        self.profiler = profiler
        self.start, self.stop, self.result = profiler.start, profiler.stop, profiler.result

    def is_running(self):
        return self.profiler.is_running()


class Reader(object):
    """A socket that gives what was sent to it."""

    def __init__(self, data):
        self.f = io.BytesIO(data)

    def recv(self, n, flags=0):
        return self.f.read(n)

    def left(self):
        return self.f.tell() < len(self.f.getvalue())


class Client(object):
    """The server's end of a connection."""

    def __init__(self, world, n):
        self.world, self.n = world, n
        self.sent = []              # bytes
        self.failed = False
        self.closed = 0
        self.spurious = None        # errno: readable, but there is nothing to be read
        self.left = None            # how it has left: 'eof', 'reset'
        self.noticed = False        # the server has had the chance to see that
        self.greeted_at = None      # rounds that were over when it had been greeted
        self.before = None          # the latest round when it connected

    def gone(self):
        return self.failed or bool(self.left)

    def deliver(self, data):
        w = self.world
        if self.closed:
            raise TransportError(errno.EBADF)
        w.ctx.check(not self.failed, 'nothing is sent after a failed send')
        w.sending(self)
        if self.closed:
            raise TransportError(errno.EBADF)
        w.faults(self)
        self.sent.append(bytes(data))

    def __hash__(self):
        return self.n

    # as a socket
    def sendall(self, data, flags=0):
        self.deliver(data)

    def send(self, data, flags=0):
        # only a part may be taken
        if self.world.parts and len(data) > 1:
            how = self.world.ctx.choose('taken', 3)
            if how:
                self.world.parts -= 1
                n = 1 if how == 1 else len(data) - 1
                self.deliver(data[:n])
                return n
        self.deliver(data)
        return len(data)

    def recv(self, n, flags=0):
        if self.closed:
            raise TransportError(errno.EBADF)
        if self.spurious is not None:
            no, self.spurious = self.spurious, None
            raise TransportError(no)
        if self.left is None and not self.failed:
            raise WouldBlock()
        self.noticed = True
        if self.left == 'eof':
            return b''
        if self.left == 'data':
            return b'x' * min(n, 3)
        raise TransportError(self.world.reset_errno())

    def close(self):
        self.closed += 1

    def shutdown(self, how):
        pass

    def setblocking(self, flag):
        pass

    settimeout = setsockopt = shutdown

    def fileno(self):
        return -1 if self.closed else 10 + self.n

    def getpeername(self):
        if self.left == 'reset':
            raise TransportError(errno.ENOTCONN)
        return ('10.0.0.%d' % self.n, 1000 + self.n) if self.n % 2 else 'unix'

    def getsockname(self):
        return ('10.0.0.%d' % self.n, 1000 + self.n) if self.n % 2 else 'unix'

    # as an asyncio stream writer
    def write(self, data):
        self.deliver(data)

    def get_extra_info(self, name, default=None):
        return self.getsockname()


def ordered_sets(module):
    module.set = module.frozenset = Set


class World(object):
    """Clients, a profiler and a server; backends below connect them."""

    parts = 2                   # socket sends that may take a part only

    def __init__(self, ctx, wrapped=True):
        self.ctx = ctx
        self.clients = []
        self.logs = []
        self.bytes = Bytes(ctx)
        self.prepare()
        self.inner = Profiler()
        n = ctx.choose('wrapped', 3) if wrapped else 1
        self.profiler = self.inner
        for _ in range(n):
            self.profiler = Wrapper(self.profiler)
        self.remote = ctx.load('profiling.remote')
        Set.backwards = bool(ctx.choose('sets are walked', 2))
        ordered_sets(self.remote)
        self.protocol = ctx.choose_from('protocol', [None, 1]) if wrapped else 1
        self.kw = dict(interval=ctx.time('interval', 0.125, 100), log=self.logs.append)
        if self.protocol is None:
            self.protocol = self.remote.PICKLE_PROTOCOL
        else:
            self.kw['pickle_protocol'] = self.protocol
        self.nfaults = 0            # sends that may still fail
        self.nested = 0             # events that may still happen during sends
        self.inside = 0
        self.server = self.make()

    # what backends define ------------------------------------------------
    def prepare(self):
        base_env(self.ctx)

    def make(self):
        raise NotImplementedError

    # events ---------------------------------------------------------------
    def client(self):
        c = Client(self, len(self.clients))
        c.before = self.inner.rounds
        self.clients.append(c)
        return c

    def alive(self):
        return [c for c in self.clients if not c.gone()]

    def sending(self, client):
        """A send is about to be done; it may block, and others run meanwhile."""
        if self.inside or not self.nested:
            return
        what = self.ctx.pick('while sending', ['nothing'] + self.while_sending())
        if what == 'nothing':
            return
        self.nested -= 1
        self.inside += 1
        self.ctx.cover('during a send: ' + (what if type(what) is str else what[0]))
        self.happen(what)
        self.inside -= 1

    def while_sending(self):
        return []

    def faults(self, client):
        if client.left:
            # the peer is not there any more: sending fails sooner or later
            if self.ctx.bool('send to a client that has left fails'):
                client.failed = True
                raise TransportError(errno.EPIPE)
            return
        if self.nfaults and self.ctx.bool('send fails'):
            self.nfaults -= 1
            client.failed = True
            self.ctx.cover('a send failed')
            raise TransportError(self.ctx.int('errno', 1, 133))

    def reset_errno(self):
        if not self.nfaults:
            return errno.ECONNRESET
        no = self.ctx.int('errno of recv', 1, 133)
        # (these two do not mean that the connection is broken; see P22)
        self.ctx.assume(self.ctx.and_(no != errno.EAGAIN, no != errno.EINTR))
        return no

    # verdicts ---------------------------------------------------------------
    def messages(self, c):
        out, r = [], Reader(b''.join(c.sent))
        while r.left():
            try:
                method, (msg, protocol) = self.remote.recv_msg(r)
            except real_socket.error:
                self.ctx.check(c.failed or c.left or self.inside,
                               'messages are sent as a whole')
                break
            out.append((method, msg, protocol))
        return out

    def verdict(self, c, quiet):
        """What a client received is its session so far; `quiet`: nothing is under
        way for it."""
        ctx, remote = self.ctx, self.remote
        got = self.messages(c)
        connected = quiet and not c.gone() and not c.closed
        if connected:
            ctx.check(len(got) >= 2, 'welcome and profiler type are sent')
        if got:
            method, msg, protocol = got[0]
            ctx.check(method == remote.WELCOME, 'first the welcome')
            ctx.check(tuple(msg) == (self.protocol, remote.__version__),
                      'the welcome names protocol and version')
            ctx.check(protocol == 0, 'the welcome can be read by any version')
        if len(got) > 1:
            method, msg, protocol = got[1]
            ctx.check(method == remote.PROFILER, 'then the profiler type')
            ctx.check(msg is Profiler, 'the type of the innermost profiler')
            ctx.check(protocol == self.protocol, 'in the protocol it was told')
        rounds = []
        for method, msg, protocol in got[2:]:
            ctx.check(method == remote.RESULT, 'then results')
            ctx.check(protocol == self.protocol, 'in the protocol it was told')
            rounds.append(msg.n)
        for a, b in zip(rounds, rounds[1:]):
            ctx.check(a < b, "each round's result once and in order")
            if c.greeted_at is not None and a >= c.greeted_at:
                ctx.check(b == a + 1, 'no round is left out')
        if rounds:
            ctx.check(rounds[0] >= c.before, 'the latest result comes first')
            if c.before:
                ctx.cover('latest result first')
        if connected:
            if self.inner.rounds:
                ctx.check(bool(rounds) and rounds[-1] == self.inner.rounds,
                          'the latest result is received')
                if c.greeted_at:
                    ctx.check(rounds[0] <= c.greeted_at, 'the latest result is sent at once')
            else:
                ctx.check(not rounds, 'no result before a round')
        ctx.check(c.closed <= 1, 'closed at most once')
        return rounds

    def final(self):
        """Nothing is under way any more, and the server knows who has left."""
        ctx = self.ctx
        con = [x for x in self.logs if x.startswith(('Connected', 'A client connected'))]
        dis = [x for x in self.logs if x.startswith(('Disconnected', 'A client disconnected'))]
        gone = [c for c in self.clients if c.failed or (c.left and c.noticed)]
        ctx.check(len(con) == len(self.clients), 'each connection is logged once')
        ctx.check(len(dis) == len(gone), 'each disconnection is logged once',
                  '%s' % (dis,))
        for c in self.clients:
            rounds = self.verdict(c, True)
            here = c in self.server_clients()
            if c in gone:
                ctx.check(not here, 'a client that is gone is removed')
                ctx.check(c.closed == 1, 'and closed exactly once')
            elif not c.left:
                ctx.check(here, 'a client that is connected is kept')
                ctx.check(c.closed == 0, 'and not closed')
            ctx.observe('rounds', rounds)
        ctx.observe('profiler', self.inner.log)

    def server_clients(self):
        return list(self.server.clients)

    def total_logged(self):
        """The totals in the log follow the number of clients."""
        n = 0
        for x in self.logs:
            if x.startswith(('Connected', 'A client connected')):
                n += 1
            elif x.startswith(('Disconnected', 'A client disconnected')):
                n -= 1
            else:
                continue
            self.ctx.check(x.endswith('(total: %d)' % n), 'the log counts the clients')


# ------------------------------------------------------------------- backends


class Plain(World):
    """The base class alone: its loop is resumed by the environment."""

    def make(self):
        remote, w = self.remote, self
        self.loops = []
        self.pending = []
        self.immediate = self.ctx.choose('loop starts at once', 2)

        class Server(remote.ProfilingServer):
            def _send(self, client, data):
                client.deliver(data)

            def _close(self, client):
                client.close()

            def _addr(self, client):
                return client.getsockname()

            def _start_profiling(self):
                if w.immediate:
                    w.begin(self.profiling())
                else:
                    w.pending.append(self.profiling())

            def _start_watching(self, client):
                pass
        return Server(self.profiler, **self.kw)

    def begin(self, gen):
        self.loops.append(gen)
        self.ctx.check(len(self.loops) == 1, 'one profiling loop at a time')
        self.step(gen)

    def step(self, gen):
        try:
            next(gen)
        except StopIteration:
            self.loops.remove(gen)

    def options(self):
        opts = ['connect', 'tick']
        opts += [('leave', c) for c in self.alive() if c.greeted_at is not None]
        return opts

    def while_sending(self):
        opts = ['connect']
        if not any(g.gi_running for g in self.loops) and (self.loops or self.pending):
            opts.append('tick')
        opts += [('leave', c) for c in self.alive()]
        return opts

    def happen(self, what):
        if what == 'connect':
            c = self.client()
            self.server.connected(c)
            c.greeted_at = self.inner.rounds
        elif what == 'tick':
            while self.pending:
                self.begin(self.pending.pop(0))
            for g in list(self.loops):
                before = self.inner.rounds
                self.step(g)
                self.ctx.check(self.inner.rounds <= before + 1, 'one round per interval')
        else:
            c = what[1]
            c.left = 'eof'
            c.noticed = True
            self.server.disconnected(c)

    def settled(self):
        """Between events, when the loop had the chance to begin."""
        if self.pending:
            return
        if self.alive():
            self.ctx.check(len(self.loops) == 1, 'profiling goes on while a client is there')
            self.ctx.check(self.inner.running or self.inner.fail_start,
                           'the profiler runs while a client is there')

    def idle(self):
        """After an interval."""
        if not self.alive():
            self.ctx.check(not self.inner.running,
                           'the profiler is stopped when the last one has left')
            self.ctx.check(not self.loops and not self.pending, 'no loop without a client')


class Events(World):
    """Backends whose loops call back into the environment."""

    def drive(self, events):
        """What the environment does while the server waits; ends with Exit."""
        raise NotImplementedError


class Listener(object):

    def __init__(self, world):
        self.world = world
        self.backlog = []

    def accept(self):
        c = self.backlog.pop(0)
        self.world.accepted(c)
        return c, ('10.0.0.%d' % c.n, 1)

    def fileno(self):
        return 3


class Select(World):
    """SelectProfilingServer over a fake select()."""

    def __init__(self, ctx, events, faults=0, live=False, wrapped=False):
        self.live, self.events = live, events
        World.__init__(self, ctx, wrapped)
        self.nfaults = faults
        self.rounds_seen = 0

    def prepare(self):
        import select
        self.now = 0.0

        class Error(real_socket.error):
            pass
        base_env(self.ctx, wall=lambda: self.now,
                 select=FakeModule('select', select, select=self.select, error=OSError))

    def make(self):
        mod = self.ctx.load('profiling.remote.select')
        self.listener = None if self.live else Listener(self)
        ordered_sets(mod)
        return mod.SelectProfilingServer(self.listener, self.profiler, **self.kw)

    def accepted(self, c):
        c.accepted = True

    def select(self, r, w, x, timeout=None):
        ctx = self.ctx
        r = list(r)
        ctx.check(list(w) == [] and list(x) == [], 'only incoming data is awaited')
        here = [c for c in self.clients if c.accepted and not c.closed]
        for c in here:
            if c.greeted_at is None:
                c.greeted_at = self.inner.rounds
            self.verdict(c, True)
        want = list(here) + ([self.listener] if self.listener is not None else [])
        ctx.check(len(r) == len(want) and all(any(a is b for b in r) for a in want),
                  'the listener and every client are watched')
        for c in here:
            ctx.check(not c.failed, 'a client that failed is removed')
        ctx.check(self.inner.rounds <= self.rounds_seen + 1, 'one round per interval')
        self.rounds_seen = self.inner.rounds
        if here:
            ctx.check(self.inner.running, 'the profiler runs while a client is there')
            ctx.check(timeout is not None and ctx.eq(timeout, self.kw['interval']),
                      'results come every interval')
        else:
            # (the last one may have left just now: the round is finished first)
            ctx.check(timeout is None or self.leaving or self.live is None,
                      'nothing is timed without a client')
        if timeout is None:
            ctx.check(not self.inner.running,
                      'the profiler is stopped when the last one has left')
        self.leaving = False
        if not self.events:
            raise Exit()
        self.events -= 1
        opts = []
        if self.listener is not None:
            opts.append('connect')
        if timeout is not None:
            opts.append('timeout')
        opts += [('leave', c) for c in here]
        if self.spurious:
            opts += [('spurious', c) for c in here]
        if self.listener is not None and here:
            opts += [('both', c) for c in here]
        if len(here) > 1:
            opts.append('all leave')
        if not opts:
            raise Exit()
        what = ctx.pick('event', opts)
        if what == 'timeout':
            ctx.cover('timeout')
            return [], [], []
        if what == 'connect':
            return self.connect(), [], []
        if what == 'all leave':
            for c in here:
                self.leave(c)
            return here, [], []
        if what[0] == 'spurious':
            what[1].spurious = ctx.pick('errno', [errno.EAGAIN, errno.EINTR])
            ctx.cover('nothing to be read')
            return [what[1]], [], []
        ready = [self.leave(what[1])]
        if what[0] == 'both':
            ready = ready + self.connect() if ctx.choose('order', 2) else \
                self.connect() + ready
        return ready, [], []

    leaving = spurious = False
    hows = ('eof', 'reset')

    def leave(self, c):
        c.left = self.ctx.pick('how', list(self.hows))
        self.leaving = True
        return c

    def connect(self):
        c = self.client()
        c.accepted = False
        self.listener.backlog.append(c)
        return [self.listener]

    def run(self):
        try:
            if self.live:
                c = self.client()
                c.accepted = True
                if self.ctx.choose('added before', 2):
                    self.server.clients.add(c)
                self.leaving = True
                self.server.connected(c)
                self.ctx.check(c.gone(), 'serving ends when the client has left')
                self.ctx.check(not self.inner.running,
                               'the profiler is stopped when the last one has left')
                self.ctx.cover('served')
            else:
                self.server.serve_forever()
                self.ctx.check(False, 'the server keeps running')
        except Exit:
            self.ctx.cover('events over')
        for c in self.clients:
            if c.left and not c.noticed:
                c.noticed = c.closed > 0


class Task(object):
    """A spawned greenlet or task."""

    def __init__(self, world, f=None, gen=None):
        self.world, self.f, self.gen = world, f, gen
        self.callbacks = []
        self.done = False
        self.waits = None

    # gevent
    def link(self, callback):
        self.callbacks.append(callback)

    def join(self, timeout=None):
        pass

    def start(self):
        pass

    # asyncio
    add_done_callback = link

    def finish(self):
        self.done = True
        for cb in self.callbacks:
            cb(self)

    def exception(self):
        return None

    def result(self):
        return b''


class Scheduler(World):
    """gevent and asyncio: spawned tasks, run by the environment."""

    def __init__(self, ctx, events, faults=0, nested=0, wrapped=False):
        self.tasks = []
        self.events = events
        self.timing = []            # sleeps under way
        World.__init__(self, ctx, wrapped)
        self.nfaults, self.nested = faults, nested
        self.ticks = 0

    def run(self):
        while self.events:
            self.events -= 1
            what = self.ctx.pick('event', self.options())
            self.happen(what)
            self.settle()
            self.check()
        for c in self.clients:
            if c.left:
                c.noticed = True

    def options(self):
        opts = ['connect']
        if self.sleeping():
            opts.append('tick')
        opts += [('leave', c) for c in self.alive() if c.greeted_at is not None]
        return opts

    def check(self):
        ctx = self.ctx
        ctx.check(len(self.sleeping()) <= 1, 'one profiling loop at a time')
        for c in self.clients:
            self.verdict(c, True)
        if self.alive():
            ctx.check(self.inner.running, 'the profiler runs while a client is there')
            ctx.check(len(self.sleeping()) == 1, 'profiling goes on while a client is there')
        elif not self.sleeping():
            ctx.check(not self.inner.running,
                      'the profiler is stopped when the last one has left')

    def happen(self, what):
        if what == 'connect':
            c = self.client()
            self.connect(c)
            c.greeted_at = self.inner.rounds
        elif what == 'tick':
            before = self.inner.rounds
            self.wake()
            self.ctx.check(self.inner.rounds <= before + 1, 'one round per interval')
            self.ctx.cover('tick')
            if not self.alive():
                self.ctx.check(not self.inner.running,
                               'the profiler is stopped when the last one has left')
        else:
            c = what[1]
            c.left = self.ctx.pick('how', ['eof', 'reset'])


class Semaphore(object):

    def __init__(self, value=1):
        self.value = value

    def acquire(self, *a, **k):
        if not self.value:
            raise WouldBlock()
        self.value -= 1
        return True

    def release(self):
        self.value += 1

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()


class Gevent(Scheduler):
    """Greenlets are run nested: a sleeping greenlet lets the environment go on."""

    def prepare(self):
        world = self

        class StreamServer(object):
            def __init__(self, listener, handle=None, **kwargs):
                world.listener = listener

            def serve_forever(self):
                raise NotImplementedError

        class wrap_errors(object):
            def __init__(self, errors, f):
                self.errors, self.f = errors, f

            def __call__(self, *a, **k):
                try:
                    return self.f(*a, **k)
                except self.errors as exc:
                    return exc

        gevent = FakeModule('gevent', None, spawn=self.spawn, sleep=self.sleep,
                            Greenlet=Task, GreenletExit=Exit)
        lock = FakeModule('gevent.lock', None, Semaphore=Semaphore, BoundedSemaphore=Semaphore)
        server = FakeModule('gevent.server', None, StreamServer=StreamServer)
        util = FakeModule('gevent.util', None, wrap_errors=wrap_errors)
        gevent.lock, gevent.server, gevent.util = lock, server, util
        base_env(self.ctx, gevent=gevent)
        self.ctx.fakes.update({'gevent.lock': lock, 'gevent.server': server,
                               'gevent.util': util})

    def make(self):
        mod = self.ctx.load('profiling.remote.gevent')
        ordered_sets(mod)
        s = mod.GeventProfilingServer(self, self.profiler, **self.kw)
        self.ctx.check(self.listener is self, 'listens where it was told')
        return s

    def spawn(self, f, *a, **k):
        t = Task(self, lambda: f(*a, **k))
        self.tasks.append(t)
        return t

    def connect(self, c):
        self.server.handle(c, ('10.0.0.1', 1))

    def sleeping(self):
        return self.timing

    def settle(self):
        """Every greenlet that can run does, until it waits."""
        again = True
        while again:
            again = False
            for t in list(self.tasks):
                if t.done or t.waits:
                    continue
                t.waits = True
                try:
                    t.f()
                except WouldBlock:
                    pass
                else:
                    self.tasks.remove(t)
                    t.finish()
                    again = True
                t.waits = None

    def sleep(self, seconds=0):
        self.ctx.check(self.ctx.eq(seconds, self.kw['interval']), 'results come every interval')
        me = object()
        self.timing.append(me)
        self.ctx.check(len(self.timing) <= 1, 'one profiling loop at a time')
        self.check()
        while True:
            if not self.events:
                raise Exit()
            self.events -= 1
            what = self.ctx.pick('event', self.options())
            if what == 'tick':
                self.timing.remove(me)
                self.ctx.cover('tick')
                return
            self.happen(what)
            self.settle()
            self.check()

    def run(self):
        try:
            Scheduler.run(self)
        except Exit:
            pass
        for c in self.clients:
            if c.left:
                c.noticed = True


class Asyncio(Scheduler):
    """Tasks are generators (or coroutines) of what they wait for."""

    def prepare(self):
        @types.coroutine
        def sleep(t, *a):
            yield ('sleep', t)

        attrs = dict(ensure_future=self.ensure_future, create_task=self.ensure_future,
                     sleep=sleep, get_event_loop=lambda: self, new_event_loop=lambda: self,
                     start_server=self.start_server, Task=Task)
        if self.ctx.choose('asyncio of', 2):
            attrs['coroutine'] = types.coroutine        # before Python 3.11
        base_env(self.ctx, asyncio=FakeModule('asyncio', None, **attrs))

    def make(self):
        mod = self.ctx.load('profiling.remote.asyncio')
        ordered_sets(mod)
        return mod.AsyncIOProfilingServer(self.profiler, **self.kw)

    # the event loop
    def start_server(self, cb, host=None, port=None, **k):
        self.callback = cb
        return ('server', host, port)

    def run_until_complete(self, x):
        self.ctx.check(x == ('server', 'localhost', 1234), 'serves where it was told')

    def run_forever(self):
        Scheduler.run(self)

    def create_task(self, coro):
        return self.ensure_future(coro)

    def ensure_future(self, coro, **k):
        t = Task(self, gen=coro)
        self.tasks.append(t)
        return t

    def step(self, t):
        try:
            t.waits = t.gen.send(None)
        except StopIteration:
            self.tasks.remove(t)
            t.finish()

    def sleeping(self):
        return [t for t in self.tasks if t.waits and t.waits[0] == 'sleep']

    def wake(self):
        for t in self.sleeping():
            self.ctx.check(self.ctx.eq(t.waits[1], self.kw['interval']),
                           'results come every interval')
            t.waits = None
            self.step(t)

    def settle(self):
        again = True
        while again:
            again = False
            for t in list(self.tasks):
                if t.waits is None or t.waits[0] == 'read' and \
                        (t.waits[1].left or t.waits[1].closed):
                    self.step(t)
                    again = True

    def connect(self, c):
        world = self

        class StreamReader(object):
            @types.coroutine
            def read(self, n=-1):
                world.ctx.check(n != 0, 'data is awaited')
                while not (c.left or c.closed):
                    yield ('read', c)
                return b''

        c.reader = StreamReader()
        r = self.callback(c.reader, c)
        if r is not None:
            self.ensure_future(r)
        self.settle()

    def server_clients(self):
        return [w for r, w in self.server.clients]

    def run(self):
        self.server.serve_forever(('localhost', 1234))
