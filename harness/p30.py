"""P30: live and remote profiling report the running program, round by round."""
import os
import select
import signal
import socket
import struct
import sys
import threading

from harness.cli import Cli, directory
from harness.common import Frame, Harness, code_sort
from harness.p23 import end_with
from harness.world import Node, compare
from symex.loader import FakeModule

PID, CHILD = 4242, 4343
WELCOME, PROFILER, RESULT = 0x10, 0x11, 0x12


class End(BaseException):
    """The history of the server is over (it never ends by itself)."""


class File(object):
    def __init__(self, fd):
        self.fd, self.text = fd, ''

    def fileno(self):
        return self.fd

    def write(self, text):
        self.text += text

    def flush(self):
        pass

    def read(self, *a):
        return ''

    def isatty(self):
        return False


class Sock(object):
    """One end of a connection."""
    fds = 50

    def __init__(self, world, addr=('10.0.0.1', 4000)):
        Sock.fds += 1
        self.fd = Sock.fds
        self.world, self.addr = world, addr
        self.data, self.eof, self.closed, self.shut = b'', False, False, False
        self.inbox = b''

    def fileno(self):
        return -1 if self.closed else self.fd

    def getpeername(self):
        return self.addr

    def setsockopt(self, *a):
        pass

    def setblocking(self, flag):
        pass

    settimeout = setblocking

    def sendall(self, data, flags=0):
        if self.closed:
            raise socket.error(9, 'Bad file descriptor')
        self.data += data

    def send(self, data, flags=0):
        self.sendall(data)
        return len(data)

    def recv(self, size, flags=0):
        if self.eof:
            return b''
        if not self.inbox:
            raise socket.error(11, 'try again')
        data, self.inbox = self.inbox[:size], self.inbox[size:]
        return data

    def shutdown(self, how):
        self.shut = True

    def close(self):
        self.closed = True

    def messages(self):
        out, data = [], self.data
        while data:
            method, = struct.unpack('!B', data[:1])
            size, = struct.unpack('!I', data[1:5])
            out.append((method, data[5:5 + size]))
            data = data[5 + size:]
        return out


class Listener(Sock):
    def __init__(self, world):
        Sock.__init__(self, world)
        self.bound, self.listening = None, False
        self.coming = []

    def bind(self, addr):
        self.bound = addr

    def listen(self, *a):
        self.listening = True

    def getsockname(self):
        return self.bound

    def accept(self):
        s = self.coming.pop(0)
        return s, s.addr


class Live(object):
    """The process which profiles: the program and its server thread."""

    def __init__(self, ctx, steps, events, ncodes, clients, live, ends):
        self.ctx, self.live = ctx, live
        self.steps, self.events, self.ncodes, self.max_clients = steps, events, ncodes, clients
        self.ends = ends
        self.listener = None
        self.clients = []           # (sock, results before it) of those connected
        self.connects = 0
        self.threads = []
        self.want = Node()
        self.results = []           # the pickled results
        self.due = 0
        self.runs = 0
        self.how = None
        self.stack = []
        # files
        self.fds = {0: 'stdin', 1: 'stdout', 2: 'stderr'}
        self.next_fd = 10
        self.files = [File(i) for i in range(3)]
        self.pair = (Sock(self, ''), Sock(self, ''))
        live_self = self

        class Thread(threading.Thread):
            def start(thread):
                # it may run at once
                ctx.check(set(live_self.cli.handlers) - {27},
                          'the signal has a handler when the server starts')
                live_self.threads.append(thread)

        self.cli = Cli(
            ctx,
            sys=dict(stdin=self.files[0], stdout=self.files[1], stderr=self.files[2]),
            threading=dict(Thread=Thread),
            os=FakeModule('os', os, fork=lambda: 0, pipe=self.pipe, close=self.close_fd,
                          open=self.open_fd, dup2=self.dup2, kill=self.kill,
                          getpid=lambda: PID),
            socket=FakeModule('socket', socket, socket=self.socket,
                              socketpair=lambda *a: self.pair),
            select=FakeModule('select', select, select=self.select))
        self.cli.dumps, self.dumps = self.dumped, self.cli.dumps

    # the system
    def pipe(self):
        r, w = self.next_fd, self.next_fd + 1
        self.next_fd += 2
        self.fds[r], self.fds[w] = 'read end', 'write end'
        return r, w

    def open_fd(self, path, *a):
        self.fds[self.next_fd] = path
        self.next_fd += 1
        return self.next_fd - 1

    def dup2(self, a, b, inheritable=True):
        self.fds[b] = self.fds[a]
        return b

    def close_fd(self, fd):
        del self.fds[fd]

    def socket(self, family=socket.AF_INET, type=socket.SOCK_STREAM, *a, **k):
        self.ctx.check((family, type) == (socket.AF_INET, socket.SOCK_STREAM), 'TCP')
        self.listener = Listener(self)
        return self.listener

    def kill(self, pid, signum):
        self.ctx.check(pid == PID, 'only the own process gets the signal')
        self.ctx.check(int(signum) in self.cli.handlers, 'the signal has a handler')
        self.cli.handlers[int(signum)](int(signum), self.stack[-1])

    def dumped(self, obj, protocol=None, **k):
        ctx, cli = self.ctx, self.cli
        if isinstance(obj, tuple) and len(obj) == 3:
            ctx.check(protocol == self.protocol, 'the protocol is the requested one')
            ctx.check(not cli.profilers[0].is_running(), 'not running while it is reported')
            compare(ctx, self.want, obj[0], False)
            self.want = Node()
            self.results.append(b'<pickle %d>' % len(cli.pickled))
            self.due = 0
            ctx.cover('result')
        return self.dumps(obj, protocol)

    def select(self, r, w=(), x=(), timeout=None):
        """The server waits: the program goes on, and something happens."""
        ctx, cli = self.ctx, self.cli
        p = cli.profilers[0]
        r = list(r)
        ctx.check(self.due == 0, 'a result after every interval')
        self.received()
        for s, _ in self.clients:
            ctx.check(any(s is y for y in r), 'every client is watched')
        if not self.live:
            ctx.check(any(self.listener is y for y in r), 'new clients are welcome')
        if self.clients:
            ctx.check(p.is_running(), 'profiling while there is a client')
            ctx.check(timeout is not None and ctx.eq(timeout, self.interval),
                      'the requested interval')
            self.program_goes_on()
        else:
            ctx.check(not p.is_running(), 'not profiling without a client')
            ctx.check(timeout is None, 'it waits for a client')
            ctx.check((cli.handler if self.sampling else cli.hooks.sys) is None
                      or self.sampling, 'not profiling without a client')
            self.program_goes_on()
            ctx.cover('idle')
        if self.steps == 0:
            raise End()
        self.steps -= 1
        things = ['timeout'] if self.clients else []
        if not self.live and self.connects < self.max_clients:
            things.append('connect')
        if self.clients:
            things.append('leave')
        if not things:
            raise End()
        what = ctx.pick('happens', things)
        ctx.cover(what)
        if what == 'timeout':
            self.due = 1
            return [], [], []
        if what == 'connect':
            self.connects += 1
            s = Sock(self)
            self.listener.coming.append(s)
            self.clients.append((s, len(self.results)))
            return [self.listener], [], []
        i = ctx.pick('who', list(range(len(self.clients)))) if len(self.clients) > 1 else 0
        s, _ = self.clients.pop(i)
        s.eof = True
        self.gone = s
        return [s], [], []

    def received(self):
        """Everybody has got what he should have."""
        ctx, cli = self.ctx, self.cli
        for s, before in self.clients:
            got = s.messages()
            ctx.check([m for m, _ in got[:2]] == [WELCOME, PROFILER], 'a client is greeted')
            kinds = [cli.pickled[int(d[8:-1])] for _, d in got[:2]]
            ctx.check(kinds[1][0] is type(cli.profilers[0]), 'the type of the profiler is told')
            ctx.check(all(m == RESULT for m, _ in got[2:]), 'then the results')
            mine = [d for _, d in got[2:]]
            new = self.results[before:]
            ctx.check(mine == new or (before and mine == self.results[before - 1:]),
                      'every client gets every result', repr((mine, self.results)))
            if len(self.clients) > 1 and new:
                ctx.cover('two clients')

    # the program
    def event(self, frame, kind, path, recorded):
        cli = self.cli
        if self.sampling:
            h = cli.handler
            if callable(h):
                h(27, frame)
        elif cli.hooks.sys is not None:
            cli.hooks.sys(frame, kind, None)
        if recorded:
            if self.sampling or kind == 'call':
                self.want.path(self.ctx, path).calls += 1
            else:
                self.want.path(self.ctx, path, False)

    def program_goes_on(self):
        ctx, stack = self.ctx, self.stack
        profiled = bool(self.clients)
        for _ in range(self.events):
            what = ctx.pick('event', [0, 1, 2] if len(stack) > 1 else [0, 1])
            if what == 0:
                break
            path = [f.f_code for f in stack[1:]]
            if what == 2:
                self.event(stack[-1], 'return', path, profiled)
                stack.pop()
                continue
            code = ctx.ref(code_sort(ctx), 'code', self.ncodes)
            stack.append(Frame(code, stack[-1]))
            self.event(stack[-1], 'call', path + [code], profiled)
            ctx.cover('recorded' if profiled else 'not recorded')

    def __call__(self):
        ctx, cli = self.ctx, self.cli
        self.runs += 1
        frame = sys._getframe(1)
        self.stack = [frame]
        ctx.check(len(self.threads) == 1, 'one server')
        ctx.check(self.threads[0].daemon, 'the server does not outlive the program')
        if self.live:
            ctx.check([self.fds.get(i) for i in range(3)] == [os.devnull, os.devnull, 'write end'],
                      'the program does not disturb the viewer', repr(self.fds))
            self.clients.append((self.pair[1], 0))
        else:
            ctx.check([self.fds.get(i) for i in range(3)] == ['stdin', 'stdout', 'stderr'],
                      'the program keeps its terminal')
            ctx.check(self.listener.bound == self.endpoint, 'it listens at the endpoint')
            ctx.check(self.listener.listening, 'it listens')
        try:
            self.threads[0].run()
        except End:
            pass
        else:
            ctx.check(self.live and not self.clients, 'the server goes on')
            ctx.check(not cli.profilers[0].is_running(), 'not profiling without a client')
        self.how = ctx.pick('end', self.ends)
        end_with(self.how)


ENDS = ['returns', 'error', 'exit', 'interrupt']


def process(ctx, steps, events, ncodes, clients, live, ends):
    with directory():
        w = Live(ctx, steps, events, ncodes, clients, live, ends)
        cli = w.cli
        w.sampling = ctx.pick('sampling', [False, True])
        args = ['live-profile' if live else 'remote-profile']
        args += ['--sampling'] if w.sampling else []
        w.protocol, w.interval = cli.main.remote.PICKLE_PROTOCOL, cli.main.remote.INTERVAL
        w.endpoint = ('127.0.0.1', 8912)
        signum = int(signal.SIGUSR2)
        if ctx.pick('options are given', [False, True]):
            w.protocol = ctx.conc(ctx.int('protocol', 0, 4))
            w.interval = 2.5
            signum = int(signal.SIGUSR1)
            args += ['--pickle-protocol', str(w.protocol), '-i', '2.5', '--signum', 'usr1']
            if not live:
                w.endpoint = ('10.1.2.3', 99)
                args += ['-b', '10.1.2.3:99']
            script = True
        else:
            script = ctx.pick('script file', [False, True]) if len(ends) > 1 else False
        if script:
            with open('script.py', 'w') as f:
                f.write('vt_program()\n')
            args += ['--', 'script.py', '-x', 'y']
        else:
            args += ['-c', 'vt_program()']
        with cli.program(w):
            exc = cli.run(args)
        ctx.check(w.runs == 1, 'the program runs once', repr(exc))
        ctx.check(cli.argv == (['script.py', '-x', 'y'] if script else ['<string>']),
                  'the program gets its arguments')
        ctx.check(set(cli.handlers) <= {signum, 27} and signum in cli.handlers,
                  'the requested signal is used', repr(cli.handlers))
        if w.how == 'returns':
            ctx.check(exc is None, 'the command ends as the program', repr(exc))
        elif w.how == 'error':
            ctx.check(isinstance(exc, ValueError), 'the command ends as the program', repr(exc))
        elif w.how == 'exit':
            ctx.check(isinstance(exc, SystemExit) and exc.code == 3,
                      'the command ends as the program', repr(exc))
        elif not live:
            ctx.check(exc is None, 'an interrupt just ends the command', repr(exc))
        ctx.cover(w.how)
        if live:
            ctx.check(w.pair[1].shut or w.pair[1].closed, 'the viewer learns that it has ended')
            ctx.check('write end' not in [v for k, v in w.fds.items() if k > 2],
                      'the viewer learns that it has ended')
        ctx.observe('results', len(w.results))
        ctx.observe('how', w.how)


def remote(ctx, steps, events, ncodes, clients, ends):
    """profiling remote-profile"""
    process(ctx, steps, events, ncodes, clients, False, ends)


def live(ctx, steps, events, ncodes, ends):
    """profiling live-profile: the process of the program"""
    process(ctx, steps, events, ncodes, 1, True, ends)


def ending(ctx, steps):
    """how either ends"""
    process(ctx, ctx.pick('steps', list(range(steps + 1))), 0, 1, 1,
            ctx.pick('live', [False, True]), ENDS)


class EventLoop(object):
    def __init__(self):
        self.watched = {}

    def watch_file(self, fd, f):
        self.watched[fd] = f
        return fd

    def remove_watch_file(self, fd):
        return self.watched.pop(fd, None) is not None

    def alarm(self, *a):
        raise AssertionError('nothing to wait for')


class Boom(Exception):
    pass


def parent(ctx, rounds):
    """profiling live-profile: the process of the viewer"""
    fds, closed, signals = {10: 'read end', 11: 'write end'}, [], []
    pair = (Sock(None, ''), Sock(None, ''))
    stderr = ctx.pick('the program writes to stderr', ['', 'oops\n', 'x' * 200000 + '\nlast'])
    unread = [stderr]
    end = ctx.pick('viewer', ['quits', 'interrupted', 'fails'])
    child = ctx.pick('the program', ['runs', 'has ended', 'was killed'])
    code = ctx.int('exit code', 0, 255)
    objects = []
    reaped = []

    def waitpid(pid, options):
        ctx.check(pid == CHILD, 'the program is waited for')
        if child == 'runs' and not signals[-1:] == [signal.SIGTERM]:
            ctx.check(options & os.WNOHANG, 'it does not wait for a program which goes on')
            return 0, 0
        if child == 'has ended':
            reaped.append(1)
            return CHILD, code * 256
        return CHILD, 15

    def kill(pid, signum):
        ctx.check(pid == CHILD, 'signals are for the program')
        ctx.check(not reaped, 'signals are for the program')
        signals.append(signum)

    class Reader(object):
        def __enter__(self):
            return self

        def __exit__(self, *exc):
            pass

        def close(self):
            pass

        def read(self, size=-1):
            ctx.check(11 not in fds, 'the output of the program ends')
            ctx.check(child != 'runs' or signals, 'the output of the program ends')
            n = len(unread[0]) if size is None or size < 0 else size
            text, unread[0] = unread[0][:n], unread[0][n:]
            return text

        def readline(self, *a):
            text = self.read()
            line, end, rest = text.partition('\n')
            unread[0] = rest
            return line + end

        def readlines(self, *a):
            return self.read().splitlines(True)

        def __iter__(self):
            return iter(self.readline, '')

    def fdopen(fd, *a, **k):
        ctx.check(fd == 10, 'the output of the program is read')
        return Reader()

    files = [File(i) for i in range(3)]
    loop_events = EventLoop()
    cli = Cli(ctx, sys=dict(stdin=files[0], stdout=files[1], stderr=files[2]),
              event_loop=lambda: loop_events,
              loads=lambda data, **k: objects[int(data[8:-1])],
              os=FakeModule('os', os, fork=lambda: CHILD, pipe=lambda: (10, 11),
                            close=lambda fd: fds.pop(fd), kill=kill, getpid=lambda: PID,
                            waitpid=waitpid, fdopen=fdopen,
                            WEXITSTATUS=lambda s: (s // 256) if child != 'was killed' else 0,
                            WIFEXITED=lambda s: child != 'was killed',
                            WIFSIGNALED=lambda s: child == 'was killed',
                            WTERMSIG=lambda s: 15 if child == 'was killed' else 0),
              socket=FakeModule('socket', socket, socketpair=lambda *a: pair))
    stats = ctx.load('profiling.stats')
    sampling = ctx.pick('sampling', [False, True])
    kind = 'sampling' if sampling else 'tracing'
    cls = getattr(ctx.load('profiling.' + kind), kind.title() + 'Profiler')
    runs = []

    def send(method, obj):
        objects.append(obj)
        data = b'<pickle %d>' % (len(objects) - 1)
        pair[0].inbox += struct.pack('!BI', method, len(data)) + data
        while pair[0].inbox:
            ctx.check(list(loop_events.watched) == [pair[0].fd], 'the viewer listens')
            loop_events.watched[pair[0].fd]()

    def on_loop(loop):
        table = lambda: loop.viewer.table
        send(WELCOME, (2, '0'))
        send(PROFILER, cls)
        ctx.check(type(table()) is cls.table_class, 'the table of the profiler')
        for i in range(ctx.pick('rounds', list(range(rounds + 1)))):
            root = stats.RecordingStatistics()
            send(RESULT, (root, 1.0, 2.0))
            ctx.check(table().get_focus()[1].get_root().get_value() is root,
                      'the result is shown')
            ctx.check(table().title == 'script.py', 'the viewer names the program')
            ctx.cover('shown')
        if child != 'runs':
            pair[0].eof = True
            loop_events.watched[pair[0].fd]()
        if end == 'interrupted':
            raise KeyboardInterrupt
        if end == 'fails':
            raise Boom()
    cli.on_loop = on_loop
    with directory():
        with open('script.py', 'w') as f:
            f.write('vt_program()\n')
        mono = ctx.pick('mono', [False, True])
        with cli.program(lambda: runs.append(1)):
            exc = cli.run(['live-profile'] + (['--mono'] if mono else []) +
                          (['--sampling'] if sampling else []) + ['script.py'])
    ctx.check(not runs, 'the program does not run in the viewer')
    ctx.check(len(cli.loops) == 1 and cli.loops[0].ran == 1, 'the viewer is opened once')
    ctx.check(cli.loops[0].mono == mono, 'colours as requested')
    ctx.check(pair[0].closed, 'the connection ends')
    if end == 'fails':
        ctx.check(isinstance(exc, Boom), 'the error is raised', repr(exc))
        ctx.check(signal.SIGTERM in signals, 'no program stays behind')
        ctx.cover('error')
        return
    ctx.check(isinstance(exc, SystemExit), 'it ends', repr(exc))
    if end == 'interrupted':
        ctx.check(signals[:1] == [signal.SIGINT], 'the interrupt is passed on')
        ctx.cover('interrupt')
    if child == 'runs':
        ctx.check(signals[-1:] == [signal.SIGTERM], 'no program stays behind')
    elif end == 'quits':
        ctx.check(signals == [], 'no signal to a program which has ended')
    if child == 'has ended':
        ctx.check(ctx.eq(exc.code, code), 'it ends with the exit code of the program')
        ctx.cover('exit code')
    ctx.check(files[2].text == stderr, 'the errors of the program are printed',
              '%d of %d' % (len(files[2].text), len(stderr)))
    ctx.observe('signals', len(signals))


HARNESSES = [
    Harness('remote', remote,
            {'quick': dict(steps=4, events=1, ncodes=2, clients=2, ends=ENDS[:1]),
             'thorough': dict(steps=5, events=1, ncodes=2, clients=2, ends=ENDS[:1])},
            covers=('result', 'idle', 'timeout', 'connect', 'leave',
                    'two clients', 'recorded', 'not recorded'),
            bound_text='`profiling remote-profile`: every history of `steps` intervals, clients '
                       'coming and leaving, 0..events calls, returns or samples in each'),
    Harness('live', live,
            {'quick': dict(steps=3, events=2, ncodes=2, ends=ENDS[:1]),
             'thorough': dict(steps=3, events=2, ncodes=6, ends=ENDS[:1])},
            covers=('result', 'timeout', 'leave', 'recorded'),
            bound_text='the process of the program of `profiling live-profile`: every history '
                       'of `steps` intervals and the viewer leaving'),
    Harness('ending', ending, {'quick': dict(steps=3), 'thorough': dict(steps=4)},
            covers=tuple(ENDS),
            bound_text='either command, script or -c, every history of up to `steps` intervals, '
                       'then each way to end'),
    Harness('parent', parent,
            {'quick': dict(rounds=2), 'thorough': dict(rounds=3)},
            covers=('shown', 'error', 'interrupt', 'exit code'),
            bound_text='the process of the viewer of `profiling live-profile`: 0..rounds '
                       'results, each end of the viewer, each state of the program, any '
                       'exit code'),
]
ASSUMPTIONS = ['the server runs in the thread it was given whenever the program is in between '
               'two events; its signal is handled at once',
               'spawning by gevent or eventlet is not modelled']
