import os as _os
import runpy as _runpy
_c = _runpy.run_path(_os.path.join(_os.path.dirname(_os.path.abspath(__file__)), 'e.py'))
for _n in ('FRAMES VIEW SERVER TIMER R RS RB RC RA RG V M P T TT S SS ST K U C_FILES').split():
    globals()[_n] = _c[_n]
SEEDS = []


def seed(id, property, edits, demo, needs, breaks, **k):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs,
                      breaks=breaks, **k))


seed('F02-some', 'P02', [(T, """        elif event == 'return':
""", """        elif event == 'return' and not isinstance(arg, types.GeneratorType):
"""), (T, """import sys
import threading
""", """import sys
import threading
import types
""")], FRAMES + TIMER + '''
p = TracingProfiler(timer=T())
f = Frame(Code('f'))
p._profile(f, 'call', None)
T.now = 3.
p._profile(f, 'return', (x for x in ()))
got = p.stats.get_child(f.f_code).deep_time
print(got)
assert got == 3.
''', 'a call that returns a generator', 'its time is not recorded')

seed('F04-equal', 'P04', [(U, """            if frame is base_frame or frame.f_code is base_code:
""", """            if frame is base_frame or frame.f_code == base_code:
""")], '''
sys.modules['profiling.speedup'] = None
from profiling.utils import frame_stack
class Code(object):
    def __eq__(self, other): return isinstance(other, Code)
    __hash__ = object.__hash__
class Frame(object):
    def __init__(self, code, back=None): self.f_code = code; self.f_back = back
base = Frame(Code())
outer = Frame(Code(), base)
inner = Frame(object(), outer)
got = list(frame_stack(inner, None, base.f_code))
print(len(got))
assert got == [outer, inner]
''', 'code that equals the base code without being it', 'its callers are left out')

seed('F06-toggle', 'P06', [(ST, """    def __call__(self):
        self.flag = True
""", """    def __call__(self):
        self.flag = not self.flag
""")], '''
from profiling.stats import spread_stats, FrozenStatistics as F
root = F(children=[F(name='a', children=[F(name='b')])])
got = []
for s, spread in spread_stats(root, spreader=True):
    got.append(s.name)
    spread()
    spread()
print(got)
assert got == ['a', 'b']
''', 'a walk that asks twice to descend', 'it does not descend')

seed('F10-exit-quiet', 'P10', [(U, """    def __exit__(self, *exc_info):
        self.stop()
""", """    def __exit__(self, *exc_info):
        if self.is_running():
            self.stop()
""")], '''
from profiling.utils import Runnable
class X(Runnable):
    def run(self): yield
x = X()
try:
    with x:
        x.stop()
except RuntimeError:
    refused = True
else:
    refused = False
print(refused)
assert refused
''', 'a with block in which it was stopped already', 'stopping a stopped one is not refused')

seed('F10-enter-quiet', 'P10', [(U, """    def __enter__(self):
        self.start()
        return self
""", """    def __enter__(self):
        if self.is_running():
            return self
        self.start()
        return self
""")], '''
from profiling.utils import Runnable
class X(Runnable):
    def run(self): yield
x = X()
x.start()
try:
    x.__enter__()
except RuntimeError:
    refused = True
else:
    refused = False
print(refused)
assert refused
''', 'a with block of one which runs already', 'it is not refused')

seed('F12-late-times', 'P12', [(P, """        except AttributeError:
            cpu_time = wall_time = 0.0
        return self.stats, cpu_time, wall_time
""", """            if not self.is_running():
                self._cpu_time_started += cpu_time - self._cpu_time
        except AttributeError:
            cpu_time = wall_time = 0.0
        self._cpu_time = cpu_time
        return self.stats, cpu_time, wall_time
""")], '''
from profiling import profiler as m
class T(object):
    now = 0.
    @staticmethod
    def clock(): return T.now
    time = clock
m.time = T
class X(m.Profiler):
    def run(self): yield
x = X()
x.start()
T.now = 5.
x.result()
x.stop()
T.now = 9.
first = x.result()[1]
T.now = 20.
x.start()
T.now = 23.
second = x.result()[1]
T.now = 30.
x.stop()
x.result()
third = x.result()[1]
print(first, second, third)
assert (first, second, third) == (9., 3., 10.)
''', 'a result that is asked for twice after the profiler was stopped',
     'the second one has another CPU time')

seed('F13-resume-again', 'P13', [(TT, """        if resumed_at is not None:  # already running
            return
        self._contextual_times[context] = (paused_at, self.clock())
""", """        self._contextual_times[context] = (paused_at, self.clock())
""")], '''
from profiling.tracing.timers import ContextualTimer
class X(ContextualTimer):
    now = 0.
    def clock(self): return X.now
x = X()
x.resume('c')
X.now = 3.
x.resume('c')
X.now = 5.
print(x('c'))
assert x('c') == 5.
''', 'a context is resumed while it runs', 'time it was running is lost')

seed('F14-shared', 'P14', [(SS, """        self.sampled_times = {}
        self.counter = 0
""", """        self.counter = 0
"""), (SS, """    def _profile(self, profiler, frame, event, arg):
        t = thread_clock()
""", """    #: The last sampled time by each thread.
    sampled_times = {}

    def _profile(self, profiler, frame, event, arg):
        t = thread_clock()
""")], '''
from profiling.sampling import samplers as m
now = [5.]
m.thread_clock = lambda: now[0]
class P(object):
    n = 0
    def sample(self, f): self.n += 1
a, b = P(), P()
m.TracingSampler(1.)._profile(a, None, 'call', None)
now[0] = 5.5
m.TracingSampler(1.)._profile(b, None, 'call', None)
print(a.n, b.n)
assert (a.n, b.n) == (1, 1)
''', 'two samplers in one process', 'the second one misses a sample')

seed('F16-shared', 'P16', [(R, """        self.clients = set()
        #: The""", """        #: The"""), (R, """    _latest_result_data = None

    #: Whether""", """    _latest_result_data = None

    #: The connected clients.
    clients = set()

    #: Whether""")], SERVER + '''
a, b = Server(P()), Server(P())
a.connected('x')
print(b.clients)
b.connected('y')
try:
    next(b.loop)
except StopIteration:
    pass
got = [(c, m) for c, m, __ in b.sent]
print(got)
assert not any(c == 'x' for c, m in got)
''', 'two servers in one process', 'clients of one get the results of the other')

seed('F16-innermost', 'P16', [(R, """        while True:
            try:
                profiler = profiler.profiler
            except AttributeError:
                break
""", """        profiler = getattr(profiler, 'profiler', profiler)
""")], SERVER + '''
class W(object):
    def __init__(self, p): self.profiler = p
    def start(self): pass
    def stop(self): pass
s = Server(W(W(P())))
s.connected('x')
got = s.sent[1][2]
print(got)
assert got is P
''', 'a wrapper around a wrapper', 'a client gets the type of the inner wrapper')

seed('F17-loop', 'P17', [(R, """                for client in self.clients.difference(self._greeting):
                    self._try_send(client, data)
""", """                for client in self.clients.difference(self._greeting):
                    self._try_send(client, data)
                    if client not in self.clients:
                        break
""")], SERVER + '''
s = Server(P())
for c in 'abcdef':
    s.clients.add(c)
s.fails = ('c',)
loop = s.profiling()
next(loop)
next(loop)
got = sorted(c for c, m, __ in s.sent)
print(got)
assert got == ['a', 'b', 'd', 'e', 'f']
''', 'sending to a client fails', 'those after it do not get the result')

seed('F20-flat-focus', 'P20', [(V, """        path = self.get_path()
        node = self.find_node(node, path)
        self.set_focus(node)
""", """        path = self.get_path()
        if len(path) > 1 and self.layout == FLAT:
            path = ()
        node = self.find_node(node, path)
        self.set_focus(node)
""")], VIEW + '''
b = lambda: stat(None, [stat('a', [stat('b')])])
v = viewer(b())
for k in ['down', 'right', 'right']:
    v.widget.keypress(SIZE, k)
print(path(v))
v.widget.keypress(SIZE, '\\\\')
print(path(v))
assert path(v) == ['a']
''', 'the layout becomes flat while a callee has the focus', 'no row has the focus')

seed('F23-print-first', 'P23', [(M, """        profiler.stop()
        traceback.print_exc()
    else:
        profiler.stop()
""", """        traceback.print_exc()
    finally:
        profiler.stop()
"""), (M, """        # don't profile print_exc().
""", """""")], '''
from profiling import __main__ as m
from profiling.profiler import Profiler
seen = []
p = []
class Prof(Profiler):
    def run(self): yield
    def run_viewer(self, *a, **k): pass
def factory(**k):
    p.append(Prof(**k))
    return p[0]
class fake(object):
    @staticmethod
    def print_exc(): seen.append(p[0].is_running())
m.traceback = fake
m.__profile__('x', compile('1 / 0', 'x', 'exec'), {}, factory)
print(seen)
assert seen == [False]
''', 'the program ends with an exception', 'the printing of the error is in its result')

seed('F24-class-signum', 'P24', [(RB, """            self.signum = signum
""", """            type(self).signum = signum
""")], '''
import signal
from profiling.remote.background import BackgroundProfiler
a = BackgroundProfiler(None)
b = BackgroundProfiler(None, signal.SIGUSR1)
print(a.signum, b.signum)
assert a.signum == signal.SIGUSR2
''', 'two background profilers with different signals', 'the first one sends that of the second')

seed('F30-close', 'P30', [(M, """        try:
            loop.run()
        except KeyboardInterrupt:
            os.kill(pid, signal.SIGINT)
        except BaseException:
            # unexpected profiler error.
            os.kill(pid, signal.SIGTERM)
            raise
        finally:
            parent_sock.close()
""", """        try:
            loop.run()
        except KeyboardInterrupt:
            os.kill(pid, signal.SIGINT)
        except BaseException:
            # unexpected profiler error.
            os.kill(pid, signal.SIGTERM)
            raise
        else:
            parent_sock.close()
""")], '''
import inspect
from profiling import __main__ as m
closed = []
class Sock(object):
    def close(self): closed.append(1)
class fake(object):
    path = os.path
    WNOHANG = 1
    fork = staticmethod(lambda: 7)
    pipe = staticmethod(os.pipe)
    close = staticmethod(os.close)
    fdopen = staticmethod(os.fdopen)
    kill = staticmethod(lambda *a: None)
    waitpid = staticmethod(lambda *a: (7, 0))
    WEXITSTATUS = staticmethod(os.WEXITSTATUS)
m.os = fake
class fake_socket(object):
    socketpair = staticmethod(lambda: (Sock(), None))
m.socket = fake_socket
class L(object):
    event_loop = None
    def run(self): raise KeyboardInterrupt
m.make_viewer = lambda mono: (None, L())
class C(object):
    def __init__(self, *a): pass
    def start(self): pass
m.ProfilingClient = C
try:
    inspect.unwrap(m.live_profile.callback)(('x.py', None, {}), (), None, 1, None, 12, 2, False)
except SystemExit:
    pass
print(closed)
assert closed
''', 'the viewer is interrupted', 'the connection is not closed')

seed('F30-order', 'P30', [(M, """        profiler_trigger = BackgroundProfiler(profiler, signum)
        profiler_trigger.prepare()
        server_args = (interval, noop, pickle_protocol)
        server = SelectProfilingServer(None, profiler_trigger, *server_args)
        server.clients.add(child_sock)
        spawn(server.connected, child_sock)
        try:
            exec_(code, globals_)
""", """        profiler_trigger = BackgroundProfiler(profiler, signum)
        server_args = (interval, noop, pickle_protocol)
        server = SelectProfilingServer(None, profiler_trigger, *server_args)
        server.clients.add(child_sock)
        spawn(server.connected, child_sock)
        profiler_trigger.prepare()
        try:
            exec_(code, globals_)
""")], '''
import inspect
from profiling import __main__ as m
log = []
class Sock(object):
    def shutdown(self, how): pass
    def fileno(self): return 9
class fake(object):
    O_RDWR = os.O_RDWR
    devnull = os.devnull
    path = os.path
    fork = staticmethod(lambda: 0)
    pipe = staticmethod(lambda: (10, 11))
    close = open = dup2 = staticmethod(lambda *a: None)
m.os = fake
class fake_socket(object):
    SHUT_WR = 1
    socketpair = staticmethod(lambda: (Sock(), Sock()))
m.socket = fake_socket
class B(object):
    def __init__(self, *a): pass
    def prepare(self): log.append('prepare')
m.BackgroundProfiler = B
class S(object):
    def __init__(self, *a): self.clients = set()
    def connected(self, c): pass
m.SelectProfilingServer = S
class F(object):
    def fileno(self): return 0
real = sys.stdin, sys.stdout, sys.stderr
sys.stdin, sys.stdout, sys.stderr = F(), F(), F()
try:
    inspect.unwrap(m.live_profile.callback)(
        ('x.py', compile('1', 'x', 'exec'), {}), (), lambda **k: None,
        1, lambda *a: log.append('spawn'), 12, 2, False)
finally:
    sys.stdin, sys.stdout, sys.stderr = real
print(log)
assert log == ['prepare', 'spawn']
''', 'the server sends the signal before it has a handler', 'the program is killed')

seed('F31-loop-variable', 'P31', [(M, """            for y in range(number):
                exec_(stmt, globals_)
""", """            for globals_['_'] in range(number):
                exec_(stmt, globals_)
""")], '''
from profiling import __main__ as m
class T(object):
    now = 0.
    @classmethod
    def time(cls):
        cls.now += 1
        return cls.now
m.time = T
class D(object):
    def __init__(self, **k): pass
    def start(self): pass
    def stop(self): pass
got = []
def prof(stmt, code, globals_, *a, **k):
    got.append(globals_.get('_'))
m.__profile__ = prof
m.timeit_profile.callback(
    stmt='pass', number=None, repeat=3, setup='_ = "mine"', timer_class=None, sampler_class=None,
    sampling_interval=.1, import_profiler_class=lambda: m.TracingProfiler, pickle_protocol=2,
    dump_filename=None, mono=False)
print(got)
assert got == ['mine']
''', 'a set-up that defines _ and no given number', 'the statement sees another value')

seed('F31-argv-late', 'P31', [(M, """    filename, code, globals_ = script
    sys.argv[:] = [filename] + list(argv)
    # create listener.
""", """    filename, code, globals_ = script
    sys.argv[1:] = list(argv)
    # create listener.
""")], '''
import inspect
from profiling import __main__ as m
class Sock(object):
    def __init__(self, *a): pass
    setsockopt = bind = listen = lambda self, *a: None
class fake(object):
    AF_INET = SOCK_STREAM = SOL_SOCKET = SO_REUSEADDR = 1
    socket = Sock
m.socket = fake
class B(object):
    def __init__(self, *a): pass
    def prepare(self): pass
    serve_forever = None
m.BackgroundProfiler = m.SelectProfilingServer = B
g = {}
inspect.unwrap(m.remote_profile.callback)(
    ('x.py', compile('import sys; a = list(sys.argv)', 'x', 'exec'), g), ('-v',), lambda **k: None,
    1, lambda *a: None, 12, 2, ('h', 1), False)
print(g['a'])
assert g['a'] == ['x.py', '-v']
''', 'a remotely profiled program that looks at its own name', 'it is that of the profiler')

seed('F32-lstat', 'P32', [(M, """            mode = os.stat(value).st_mode
""", """            mode = os.lstat(value).st_mode
""")], '''
import tempfile, shutil
from profiling import __main__ as m
d = tempfile.mkdtemp()
try:
    a, b = os.path.join(d, 'a'), os.path.join(d, 'b')
    open(a, 'w').close()
    os.symlink(a, b)
    try:
        got = m.ViewerSource().convert(b, None, None)
    except ValueError as e:
        sys.exit(repr(e))
finally:
    shutil.rmtree(d)
print(got)
assert got[0] == 'dump'
''', 'a symbolic link to a saved result', 'it is refused')

seed('F32-ctime', 'P32', [(M, """        time = datetime.fromtimestamp(os.path.getmtime(src_name))
""", """        time = datetime.fromtimestamp(os.stat(src_name).st_ctime)
""")], '''
import tempfile, shutil, pickle
from profiling import __main__ as m
from profiling.tracing import TracingProfiler
d = tempfile.mkdtemp()
seen = []
class L(object):
    event_loop = None
    def run(self): pass
class V(object):
    def set_profiler_class(self, c): pass
    def set_result(self, *a, **k): seen.append(k['at'])
    def activate(self): pass
m.make_viewer = lambda mono: (V(), L())
try:
    a = os.path.join(d, 'a')
    with open(a, 'wb') as f:
        pickle.dump((TracingProfiler, (None, 1, 1)), f)
    os.utime(a, (10 ** 9, 10 ** 9))
    m.view.callback(('dump', a), False)
finally:
    shutil.rmtree(d)
print(seen)
assert seen == [m.datetime.fromtimestamp(10 ** 9)]
''', 'a saved result that was copied or moved later', 'another time is shown')

seed('F32-reuse', 'P32', [(RC, """    def create_connection(self, delay=0):
        self.sock = socket.socket(self.family)
""", """    def create_connection(self, delay=0):
        self.sock = socket.socket(self.family if delay else socket.AF_INET)
""")], '''
import socket
from profiling.remote import client as m
made = []
class fake(object):
    AF_INET, AF_UNIX = socket.AF_INET, socket.AF_UNIX
    @staticmethod
    def socket(family):
        made.append(family)
        class S(object):
            def setblocking(self, x): pass
        return S()
m.socket = fake
class L(object):
    def alarm(self, *a): pass
m.FailoverProfilingClient(None, L(), '/tmp/x', socket.AF_UNIX).start()
print(made)
assert made == [socket.AF_UNIX]
''', 'a socket file as the source', 'the connection has the wrong family')

seed('F29-vim', 'P29', [(V, """    urwid.command_map['j'] = urwid.command_map['down']
    urwid.command_map['k'] = urwid.command_map['up']
""", """    urwid.command_map['j'] = urwid.command_map['page down']
    urwid.command_map['k'] = urwid.command_map['up']
""")], '''
import urwid
from profiling.viewer import bind_vim_keys
bind_vim_keys()
got = urwid.command_map['j']
print(got)
assert got == urwid.command_map['down']
''', 'the vim key for down', 'it moves by a page')

seed('F28-root-share', 'P28', [(S, """        yield fmt.make_percent_text(stats.own_hits, root_stats.deep_hits)
""", """        yield fmt.make_percent_text(stats.own_hits,
                                    sum(s.deep_hits for s in root_stats))
""")], '''
from profiling.viewer import StatisticsViewer
from profiling.sampling import SamplingProfiler
from profiling.stats import FrozenStatistics as F
v = StatisticsViewer()
v.set_profiler_class(SamplingProfiler)
b = F('b', 'f.py', 2, 'm', 1)
v.set_result(F(children=[F('a', 'f.py', 1, 'm', 1, 0., [b])]), 1., 1.)
v.widget.keypress((80, 25), '\\\\')
line = [l.decode() for l in v.widget.render((80, 25)).text if b' a (' in l][0]
print(line)
assert ' 50.0' in line
''', 'the flat layout of samples of nested functions', 'shares of too large a whole')

seed('F09-tie', 'P09', [(K, """by_own_time = SortKey(lambda stat: (-stat.own_time, -stat.deep_time))
""", """by_own_time = SortKey(lambda stat: (-stat.own_time, stat.deep_time))
""")], '''
from profiling import sortkeys
from profiling.stats import FrozenStatistics as F
a = F(name='a', deep_time=1.)
b = F(name='b', deep_time=3., children=[F(name='c', deep_time=2.)])
got = [s.name for s in sorted([a, b], key=sortkeys.by_own_time)]
print(got)
assert got == ['b', 'a']
''', 'functions with the same exclusive time', 'those with less inclusive time come first')

seed('F07-order', 'P07', [(ST, """        stats_tree.extend((x, s) for s in _stats)
""", """        stats_tree.extend((x, s) for s in _stats.sorted())
""")], '''
import pickle
from profiling.stats import FrozenStatistics as F
t = F(children=[F(name='a', deep_time=1.), F(name='b', deep_time=2.)])
got = [s.name for s in pickle.loads(pickle.dumps(t))]
print(got)
assert got == ['a', 'b']
''', 'children that are not in the order of their times', 'the order changes')

seed('F15-loads', 'P15', [(R, """    data = recv(sock, struct.calcsize(SIZE_STRUCT_FORMAT))
    size, = struct.unpack(SIZE_STRUCT_FORMAT, data)
    data = recv(sock, size)
    msg = pickle.loads(data)
""", """    data = recv(sock, struct.calcsize(SIZE_STRUCT_FORMAT))
    size, = struct.unpack(SIZE_STRUCT_FORMAT, data)
    data = recv(sock, min(size, 0xffff))
    if size > 0xffff:
        data += recv(sock, size - 0x10000)
    msg = pickle.loads(data)
""")], '''
from profiling import remote
class S(object):
    def __init__(self, data): self.data = data
    def recv(self, n, *flags):
        got, self.data = self.data[:n], self.data[n:]
        return got
for n in (10, 0xfff0, 0x10000, 200000):
    s = S(remote.pack_msg(remote.RESULT, 'x' * n) + b'next')
    try:
        got = remote.recv_msg(s)
    except Exception as e:
        sys.exit(repr(e))
    assert got == (remote.RESULT, 'x' * n) and s.data == b'next'
print('fine')
''', 'a message of more than 64 KiB', 'its last byte is left in the stream')

seed('F18-fileno', 'P18', [(RC, """    def erred(self, errno):
        self.event_loop.remove_watch_file(self.sock.fileno())
        self.viewer.inactivate()
""", """    def erred(self, errno):
        self.viewer.inactivate()
        if errno:
            self.event_loop.remove_watch_file(self.sock.fileno())
""")], '''
import socket
from profiling.remote import client as m
removed = []
class V(object):
    def inactivate(self): pass
class L(object):
    def remove_watch_file(self, fd): removed.append(fd)
class S(object):
    def fileno(self): return 3
    def recv(self, *a): raise socket.timeout('timed out')
m.ProfilingClient(V(), L(), S()).handle()
print(removed)
assert removed == [3]
''', 'a transport error without a number', 'the failed socket is still watched')

