"""P32: the viewer shows what its source names."""
import datetime as real_datetime
import errno
import os
import socket
import struct

from harness.cli import Cli, directory
from harness.common import Harness
from harness.p30 import EventLoop, PROFILER, RESULT, Sock, WELCOME
from symex.loader import FakeModule

NAMES = ['saved.prof', 'host:80', '127.0.0.1:8912', os.path.join('sub', 'x:1'), 'nothing',
         'a:b', 'a:1:2', ':8', './saved']
#: the addresses named
ADDRS = {'host:80': ('host', 80), '127.0.0.1:8912': ('127.0.0.1', 8912),
         os.path.join('sub', 'x:1'): (os.path.join('sub', 'x'), 1)}
#: either way
OPEN = [':8']
KINDS = ['nothing', 'file', 'socket', 'directory', 'pipe', 'link to a file', 'broken link']


class Loop(EventLoop):

    def __init__(self):
        EventLoop.__init__(self)
        self.alarms = []

    def alarm(self, seconds, callback):
        self.alarms.append((seconds, callback))
        return self.alarms[-1]

    def remove_alarm(self, handle):
        self.alarms.remove(handle)


class Client(Sock):
    """A socket of the viewer."""

    def __init__(self, world, family=socket.AF_INET, type=socket.SOCK_STREAM, *a):
        Sock.__init__(self, world)
        self.family = family
        self.connects = []
        world.socks.append(self)

    def connect_ex(self, addr):
        self.connects.append(addr)
        return self.world.outcome

    def connect(self, addr):
        no = self.connect_ex(addr)
        if no:
            raise socket.error(no, 'not yet')


def make(kind, name):
    """The file of that name."""
    if os.path.dirname(name) and not os.path.isdir(os.path.dirname(name)):
        os.mkdir(os.path.dirname(name))
    if kind in ('file', 'link to a file'):
        with open(name if kind == 'file' else 'target', 'wb') as f:
            f.write(b'<pickle 0>')
    if kind in ('link to a file', 'broken link'):
        os.symlink(os.path.abspath('target'), name)
    elif kind == 'socket':
        s = socket.socket(socket.AF_UNIX)
        s.bind(name)
        s.close()
    elif kind == 'directory':
        os.mkdir(name)
    elif kind == 'pipe':
        os.mkfifo(name)


class World(object):

    def __init__(self, ctx):
        self.ctx = ctx
        self.socks = []
        self.outcome = 0
        self.objects = []
        self.loop = Loop()
        self.now = real_datetime.datetime(2017, 1, 1, 1, 2, 3)
        self.cli = Cli(
            ctx, event_loop=lambda: self.loop, loads=lambda data, **k: self.objects[
                int(data[8:-1])],
            socket=FakeModule('socket', socket,
                              socket=lambda *a, **k: Client(self, *a, **k)))
        world = self

        class Now(real_datetime.datetime):
            @classmethod
            def now(cls, tz=None):
                return world.now
        for name in ('profiling.__main__', 'profiling.remote.client'):
            mod = ctx.load(name)
            if getattr(mod, 'datetime', None) is real_datetime.datetime:
                mod.datetime = Now
        self.stats = ctx.load('profiling.stats')
        kinds = [getattr(ctx.load('profiling.' + k), k.title() + 'Profiler')
                 for k in ('tracing', 'sampling')]
        self.kind = ctx.pick('profiler', kinds)
        ctx.fakes['pickle'].__dict__['load'] = lambda f, **k: self.objects[int(f.read()[8:-1])]
        self.cli.main.pickle = ctx.fakes['pickle']

    def result(self):
        ctx = self.ctx
        root = self.stats.RecordingStatistics()
        return root, ctx.time('cpu', 0, 100), ctx.time('wall', 0, 100)

    def shows(self, viewer, result, title, at):
        """The table shows that result."""
        ctx, table = self.ctx, viewer.table
        ctx.check(type(table) is self.kind.table_class, 'the table of the profiler')
        ctx.check(table.get_focus()[1].get_root().get_value() is result[0],
                  'the result is shown')
        ctx.check(ctx.and_(ctx.eq(table.cpu_time, result[1]),
                           ctx.eq(table.wall_time, result[2])), 'with its times')
        ctx.check(table.title == title, 'with its title', repr(table.title))
        ctx.check(table.at == at, 'with its time of day', repr(table.at))


def view(ctx, steps, names, kinds):
    """profiling view SOURCE"""
    with directory():
        w = World(ctx)
        cli = w.cli
        name = ctx.pick('name', names)
        kind = ctx.pick('kind', kinds)
        if kind != 'nothing':
            make(kind, name)
        mtime = 0
        if kind in ('file', 'link to a file'):
            mtime = ctx.pick('time of the file', [86400.0, 1500000000.5])
            os.utime(name, (5.0, mtime))
        mono = ctx.pick('mono', [False, True])
        saved = w.result()
        w.objects.append((w.kind, saved))
        quits = ctx.pick('it is left by', ['q', 'an interrupt'])
        title = os.path.basename(name)
        found = {'file': 'file', 'link to a file': 'file', 'socket': 'socket'}.get(kind)
        addr = name
        if kind in ('nothing', 'broken link') and name in ADDRS:
            found, addr, title = 'tcp', ADDRS[name], name

        def on_loop(loop):
            viewer = loop.viewer
            if found == 'file':
                ctx.check(viewer.active, 'a saved result is shown at once')
                ctx.check(not w.socks and not w.loop.watched and not w.loop.alarms,
                          'nobody is asked')
                w.shows(viewer, saved, title, real_datetime.datetime.fromtimestamp(mtime))
                ctx.cover('file')
            elif found:
                session(w, viewer, found, addr, title, steps)
                ctx.cover(found)
            else:
                ctx.check(name in OPEN, 'anything else is refused')
            if quits != 'q':
                raise KeyboardInterrupt
        cli.on_loop = on_loop
        exc = cli.run(['view'] + (['--mono'] if mono else []) + [name])
        if found:
            ctx.check(exc is None, 'it ends quietly', repr(exc))
            ctx.check(len(cli.loops) == 1 and cli.loops[0].ran == 1, 'the viewer is opened once')
            ctx.check(cli.loops[0].mono == mono, 'colours as requested')
        elif name not in OPEN:
            ctx.check(isinstance(exc, Exception), 'anything else is refused', repr(exc))
            ctx.check(not cli.loops or not cli.loops[0].ran, 'anything else is refused')
            ctx.cover('refused')
        ctx.observe('found', str(found))


def session(w, viewer, found, addr, title, steps):
    """What happens while the viewer is connected to a server."""
    ctx, loop = w.ctx, w.loop
    family = socket.AF_INET if found == 'tcp' else socket.AF_UNIX
    connected = False
    shown = None
    for _ in range(steps + 1):
        # a connection is about to be made
        if not connected:
            ctx.check(not viewer.active, 'not live')
            ctx.check(len(loop.alarms) == 1 and not loop.watched, 'it will (re)connect')
            _, f = loop.alarms.pop()
            w.outcome = ctx.pick('connection', [0, errno.EINPROGRESS, errno.ECONNREFUSED])
            f()
            s = [x for x in w.socks if x.connects][-1]
            ctx.check(s.family == family, 'a socket of the right family')
            ctx.check(s.connects[-1] == addr, 'to the address named', repr(s.connects))
            connected = w.outcome != errno.ECONNREFUSED
            if not connected:
                ctx.cover('refused by the server')
                continue
        ctx.check(list(loop.watched) == [s.fd], 'it listens')

        def send(method, obj):
            w.objects.append(obj)
            data = b'<pickle %d>' % (len(w.objects) - 1)
            s.inbox += struct.pack('!BI', method, len(data)) + data
            while s.inbox:
                loop.watched[s.fd]()
        what = ctx.pick('the server', ['sends a result', 'leaves'])
        if what == 'leaves':
            s.eof = True
            loop.watched[s.fd]()
            connected = False
            ctx.check(s.closed, 'closed')
            if shown:
                w.shows(viewer, *shown)
                ctx.cover('still shown')
            continue
        if not viewer.active:
            send(WELCOME, (2, '0'))
            ctx.check(viewer.active, 'live')
            send(PROFILER, w.kind)
        result = w.result()
        w.now = w.now + real_datetime.timedelta(seconds=61)
        send(RESULT, result)
        shown = (result, title, w.now)
        w.shows(viewer, *shown)
        ctx.cover('result')


HARNESSES = [
    Harness('names', view,
            {'quick': dict(steps=0, names=NAMES, kinds=KINDS)},
            covers=('file', 'tcp', 'socket', 'refused'),
            bound_text='sources of every form and every kind of file (but devices)'),
    Harness('sessions', view,
            {'quick': dict(steps=3, names=NAMES[:2], kinds=['nothing', 'socket']),
             'thorough': dict(steps=6, names=NAMES[:2], kinds=['nothing', 'socket'])},
            covers=('tcp', 'socket', 'result', 'still shown', 'refused by the server'),
            bound_text='every history of `steps` connections, refusals, results and losses'),
]
ASSUMPTIONS = ['the file system and click are real; connections, the terminal loop and the byte '
               'encoding of pickle are stand-ins']
