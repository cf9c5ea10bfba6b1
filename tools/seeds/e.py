import os as _os
import runpy as _runpy
_c = _runpy.run_path(_os.path.join(_os.path.dirname(_os.path.abspath(__file__)), 'c.py'))
FRAMES, VIEW, SERVER = _c['FRAMES'], _c['VIEW'], _c['SERVER']
C_FILES = [s for s in _c['SEEDS'] if s['id'] == 'C05-equal-code'][0]['files']
SEEDS = []


def seed(id, property, edits, demo, needs, breaks, **k):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs,
                      breaks=breaks, **k))


R = 'profiling/remote/__init__.py'
RS = 'profiling/remote/select.py'
RB = 'profiling/remote/background.py'
RC = 'profiling/remote/client.py'
RA = 'profiling/remote/asyncio.py'
RG = 'profiling/remote/gevent.py'
V = 'profiling/viewer.py'
M = 'profiling/__main__.py'
P = 'profiling/profiler.py'
T = 'profiling/tracing/__init__.py'
TT = 'profiling/tracing/timers.py'
S = 'profiling/sampling/__init__.py'
SS = 'profiling/sampling/samplers.py'
ST = 'profiling/stats.py'
K = 'profiling/sortkeys.py'
U = 'profiling/utils.py'

TIMER = '''
from profiling.tracing import TracingProfiler
from profiling.tracing.timers import Timer
class T(Timer):
    now = 0.
    def __call__(self): return T.now
'''

seed('E01-c-exception', 'P01', [(T, """        if event.startswith('c_'):
""", """        if event in ('c_call', 'c_return'):
""")], FRAMES + '''
from profiling.tracing import TracingProfiler
p = TracingProfiler()
f = Frame(Code('g'), Frame(Code('f')))
p._profile(f, 'c_exception', None)
print(len(p.stats))
assert not len(p.stats)
''', 'a C function raises before its caller has been seen', 'the callers get nodes')

seed('E02-keep-entry', 'P02', [(T, """            time_entered = self._times_entered.pop((code, frame_key))
""", """            time_entered = self._times_entered[(code, frame_key)]
""")], FRAMES + TIMER + '''
p = TracingProfiler(timer=T())
f = Frame(Code('f'))
p._profile(f, 'call', None)
T.now = 1.
p._profile(f, 'return', None)
T.now = 5.
p._profile(f, 'return', None)       # its entry was not seen
got = p.stats.get_child(f.f_code).deep_time
print(got)
assert got == 1.
''', 'a return without an entry in the memory of an earlier frame', 'it counts time')

seed('E03-one-ignored', 'P03', [(S, """        frames = self.frame_stack(frame)
""", """        if frame.f_back is not None and frame.f_code is frame.f_back.f_code:
            # the same function again.
            frame = frame.f_back
        frames = self.frame_stack(frame)
""")], FRAMES + '''
from profiling.sampling import SamplingProfiler
p = SamplingProfiler()
c = Code('f')
p.sample(Frame(c, Frame(c)))
got = p.stats.get_child(c).get_child(c).own_hits if len(p.stats.get_child(c)) else 0
print(got)
assert got == 1
''', 'a recursive function is sampled', 'the sample counts for its caller')

seed('E04-either-base', 'P04', [(U, """            if frame is base_frame or frame.f_code is base_code:
                break
            if frame in""", """            if (frame is base_frame if base_frame is not None else
                    frame.f_code is base_code):
                break
            if frame in""")], FRAMES + '''
from profiling import utils
c = Code('b')
a = Frame(Code('a')); b = Frame(c, a); d = Frame(Code('d'), b)
got = list(utils.frame_stack(d, base_frame=a, base_code=c))
print(len(got))
assert got == [d]
''', 'a base frame and a base code are given', 'the base code is not left out')

seed('E05-ignored-base', 'P05', [('profiling/speedup.c', """        if (frame == base_frame || frame->f_code == base_code)
        {
            break;
        }
""", """        if (frame == base_frame ||
            (frame->f_code == base_code && frame->f_back != NULL))
        {
            break;
        }
""")], [s for s in _c['SEEDS'] if s['id'] == 'C05-equal-code'][0]['demo'],
     'the base code runs in the outermost frame', 'it is not left out', files=C_FILES)

seed('E06-placeholder-time', 'P06', [(ST, """        sub_time = sum(stats.deep_time for stats in self)
""", """        sub_time = sum(stats.deep_time for stats in self if stats.own_hits)
""")], '''
from profiling.stats import FrozenStatistics as F
s = F(name='a', own_hits=1, deep_time=5., children=[F(name='b', own_hits=0, deep_time=2.)])
print(s.own_time)
assert s.own_time == 3.
''', 'a callee that has time but no calls of its own', 'its time counts for the caller as well')

seed('E07-child-order', 'P07', [(ST, """        stats_tree.extend((x, s) for s in _stats)
""", """        stats_tree.extend((x, s) for s in _stats.sorted())
""")], '''
import pickle
from profiling.stats import FrozenStatistics as F
s = F(name='r', children=[F(name='a', deep_time=1.), F(name='b', deep_time=2.)])
got = [x.name for x in pickle.loads(pickle.dumps(s))]
print(got)
assert got == ['a', 'b']
''', 'callees that are not in the order of their times', 'they are in another order')

seed('E09-lower', 'P09', [(K, """by_name = SortKey(lambda stat: stat.name or '')
""", """by_name = SortKey(lambda stat: (stat.name or '').lstrip('_'))
""")], '''
from profiling.stats import FrozenStatistics as F
from profiling.sortkeys import by_name
got = [s.name for s in sorted([F(name='a'), F(name='_b')], key=by_name)]
print(got)
assert got == ['_b', 'a']
''', 'names that begin with an underscore', 'they are in another order')

seed('E10-exception', 'P10', [(U, """        running, self._running = self._running, None
        try:
            next(running)
""", """        running = self._running
        try:
            next(running)
            self._running = None
"""), (U, """        except StopIteration:
            # expected.
            pass
""", """        except StopIteration:
            # expected.
            self._running = None
""")], '''
from profiling.utils import Runnable
class X(Runnable):
    def run(self):
        yield
        raise ValueError
x = X()
x.start()
try:
    x.stop()
except ValueError:
    pass
print(x.is_running())
assert not x.is_running()
''', 'the clean-up fails', 'it counts as running')

seed('E11-nested', 'P11', [(T, """        if sys.getprofile() is not None:
            # NOTE""", """        other = getattr(sys.getprofile(), '__self__', None)
        if sys.getprofile() is not None and not isinstance(other, Profiler):
            # NOTE""")], '''
from profiling.tracing import TracingProfiler
a, b = TracingProfiler(), TracingProfiler()
a.start()
try:
    b.start()
except RuntimeError:
    refused = True
else:
    refused = False
    b.stop()
print(refused)
sys.setprofile(None)
assert refused
''', 'a second tracing profiler is started while one is running', 'it replaces its hook')

seed('E13-self-switch', 'P13', [(TT, """        self.pause(id(origin))
        self.resume(id(target))
""", """        self.resume(id(target))
        self.pause(id(origin))
""")], '''
from profiling.tracing.timers import GreenletTimer
t = GreenletTimer()
now = [1.]
t.clock = lambda: now[0]
g = object()
t._trace('switch', (g, g))
before = t(id(g))
now[0] = 3.
print(t(id(g)) - before)
assert t(id(g)) - before == 2.
''', 'a greenlet switches to itself', 'it counts as paused')

seed('E14-once', 'P14', [(SS, """        if self.counter % 10000 == 0:
""", """        if self.counter == 10000:
""")], '''
import types
from profiling.sampling import samplers as m
s = m.TracingSampler(0.)
cleared = []
s._clear_for_dead_threads = lambda: cleared.append(s.counter)
class P(object):
    def sample(self, f): pass
for _ in range(30000):
    s._profile(P(), None, 'call', None)
print(cleared)
assert len(cleared) == 3
''', 'more than 20000 samples', 'threads that have ended are not forgotten any more')

seed('E15-signed', 'P15', [(R, """METHOD_STRUCT_FORMAT = '!B'
""", """METHOD_STRUCT_FORMAT = '!b'
""")], '''
import struct
from profiling import remote
try:
    data = remote.pack_msg(0xf0, 1)
except struct.error as e:
    sys.exit(str(e))
class S(object):
    def __init__(self): self.d = data
    def recv(self, n, *a):
        x, self.d = self.d[:n], self.d[n:]
        return x
got = remote.recv_msg(S())
print(got)
assert got == (0xf0, 1)
''', 'a method number of 128 or more', 'the message cannot be sent')

GEVENT = '''
import types
sleeps = []
spawned = []
class Greenlet(object):
    def __init__(self, f, a): self.f, self.a = f, a; self.links, self.values = [], []
    def link(self, f): self.links.append(f)
    def link_value(self, f): self.values.append(f)
    def go(self):
        try:
            self.f(*self.a)
        except Exception:
            pass
        else:
            [f(self) for f in self.values]
        [f(self) for f in self.links]
def spawn(f, *a):
    spawned.append(Greenlet(f, a))
    return spawned[-1]
def mod(name, **k):
    m = sys.modules[name] = types.ModuleType(name)
    m.__dict__.update(k)
    return m
class Lock(object):
    def __enter__(self): pass
    def __exit__(self, *a): pass
def wrap_errors(errors, f):
    def g(*a):
        try:
            return f(*a)
        except errors as e:
            return e
    return g
class StreamServer(object):
    def __init__(self, listener, **k): pass
mod('gevent', spawn=spawn, sleep=sleeps.append)
mod('gevent.lock', Semaphore=Lock)
mod('gevent.server', StreamServer=StreamServer)
mod('gevent.util', wrap_errors=wrap_errors)
from profiling.remote.gevent import GeventProfilingServer
'''

seed('E16-gevent-interval', 'P16', [(RG, """                gevent.sleep(self.interval)
""", """                gevent.sleep(INTERVAL)
""")], SERVER + GEVENT + '''
s = GeventProfilingServer(None, P(), interval=7)
class Sock(object):
    def sendall(self, d): pass
    def close(self): pass
    def recv(self, n): return b''
    def getsockname(self): return 'x'
c = Sock()
s.clients.add(c)
gsleep = sys.modules['gevent'].sleep
sys.modules['gevent'].sleep = lambda t: (sleeps.append(t), s.disconnected(c))
s.profile_periodically()
print(sleeps)
assert sleeps == [7]
''', 'an interval other than the default', 'the default is used')

seed('E17-link-value', 'P17', [(RG, """        recv = wrap_errors(socket.error, sock.recv)
        gevent.spawn(recv, 1).link(disconnected)
""", """        gevent.spawn(sock.recv, 1).link_value(disconnected)
""")], SERVER + GEVENT + '''
s = GeventProfilingServer(None, P())
class Sock(object):
    def sendall(self, d): pass
    def close(self): pass
    def recv(self, n): raise sys.modules['socket'].error(104, 'reset')
    def getsockname(self): return 'x'
c = Sock()
s.connected(c)
spawned[0].go()
print(s.clients)
assert not s.clients
''', 'a client of the gevent server whose connection breaks', 'it is never removed')

seed('E18-kinds-of-errors', 'P18', [(RC, """        except socket.error as exc:
            self.erred(exc.errno)
            return
""", """        except (ConnectionError, BlockingIOError) as exc:
            self.erred(exc.errno)
            return
""")], '''
import errno
from profiling.remote import client as m
class V(object):
    active = True
    def inactivate(self): self.active = False
class L(object):
    def remove_watch_file(self, x): pass
class S(object):
    def fileno(self): return 3
    def recv(self, *a): raise OSError(errno.ETIMEDOUT, 'timed out')
v = V()
try:
    m.ProfilingClient(v, L(), S()).handle()
except OSError as e:
    sys.exit(repr(e))
print(v.active)
assert not v.active
''', 'the connection times out', 'the viewer fails')

seed('E19-isinstance', 'P19', [(V, """        if type(self.table) is table_class:
""", """        if isinstance(self.table, table_class):
""")], VIEW + '''
class Sub(TracingProfiler):
    class table_class(TracingProfiler.table_class):
        pass
v = StatisticsViewer()
v.set_profiler_class(Sub)
v.set_result(stat(None, [stat('a')]), 1., 2.)
v.set_profiler_class(TracingProfiler)
print(type(v.table))
assert type(v.table) is TracingProfiler.table_class
''', 'a profiler whose table is derived from that of the next one', 'the old table stays')

seed('E20-layout-clear', 'P20', [(V, """        self.layout = layout
        self.refresh()
""", """        self.layout = layout
        self._expanded_stat_hashes.clear()
        self.refresh()
""")], VIEW + '''
v = viewer(stat(None, [stat('a', [stat('b')])]))
for k in ['down', 'right', '\\\\', '\\\\']:
    v.widget.keypress(SIZE, k)
got = [l for l in text(v) if ' b' in l]
print(got)
assert got
''', 'the layout is switched and switched back', 'unfolded rows are folded')

seed('E21-attr-zero', 'P21', [(V, """        elif ratio <= 0:
            return 'zero'
""", """        elif round(ratio, 4) <= 0:
            return 'zero'
""")], '''
from profiling.viewer import fmt
got = fmt.attr_ratio(0.00004)
print(got)
assert got != 'zero'
''', 'a ratio that is small but not zero', 'it is marked as zero')

seed('E22-valueerror', 'P22', [(RS, """            except ValueError:
                # there's fd=0 socket.
                pass
""", """            except ValueError:
                # there's fd=0 socket.
                return []
""")], '''
from profiling.remote import select as m
class fake(object):
    error = OSError
    n = 0
    def select(self, *a):
        self.n += 1
        if self.n == 1:
            raise ValueError
        return ['ready'], [], []
m.select = fake()
s = m.SelectProfilingServer(None, None)
got = s.select_sockets(5)
print(got)
assert got == ['ready']
''', 'a socket is closed while it is being waited for', 'the wait ends too early')

seed('E23-discard-program', 'P23', [(M, """    profiler.stats.discard_child(frame.f_code)
""", """    profiler.stats.discard_child(frame.f_code)
    for stats in list(profiler.stats):
        if stats.filename == __file__ or not stats.own_hits:
            profiler.stats.discard_child(stats.code)
""")], '''
from profiling import __main__ as m
from profiling.tracing import TracingProfiler
shown = []
class C(object):
    co_name = 'f'; co_filename = 'f.py'; co_firstlineno = 1
class F(object):
    def __init__(self, c, back): self.f_code = c; self.f_back = back
g = C()
class Prof(TracingProfiler):
    def run(self):
        yield
    def run_viewer(self, *a, **k): shown.extend(s.name for s in self.stats)
p = []
def factory(**k):
    p.append(Prof(**k))
    return p[0]
def program():
    top = F(C(), None)
    p[0]._profile(F(g, top), 'call', None)
m.__profile__('x', compile('program()', 'x', 'exec'), {'program': program}, factory)
print(shown)
assert shown == ['f']
''', 'a thread of the program whose entry was not seen', 'it is missing in the result')

seed('E24-own-state', 'P24', [(P, """    for attr in ['table_class', 'stats', 'top_frame', 'top_code', 'result',
                 'is_running']:
""", """    for attr in ['table_class', 'stats', 'top_frame', 'top_code', 'result']:
""")], '''
from profiling.profiler import Profiler, ProfilerWrapper
class X(Profiler):
    def run(self): yield
x = X()
w = ProfilerWrapper(x)
x.start()
print(w.is_running())
assert w.is_running()
''', 'the wrapped profiler is started by someone else', 'the wrapper does not know')

seed('E28-nameless', 'P28', [(V, """            return ('loc', stats.module or stats.filename)
""", """            return ('loc', stats.filename or stats.module)
""")], '''
from profiling.viewer import fmt
from profiling.stats import FrozenStatistics as F
got = fmt.markup_stats(F(filename='/lib/m.py', module='m', lineno=1))
print(got)
assert got == ('loc', 'm')
''', 'a row of a module', 'it shows the file instead of the module')

seed('E29-first-column', 'P29', [(V, """        order = orders[(x + delta) % len(orders)]
""", """        order = orders[max(0, x + delta) % len(orders)]
""")], VIEW + '''
v = viewer(stat(None, [stat('a', [stat('b')])]))
v.table.sort_stats(sortkeys.by_function)
v.widget.keypress(SIZE, '[')
print(v.table.order is sortkeys.by_deep_time_per_call)
assert v.table.order is sortkeys.by_deep_time_per_call
''', 'the previous column of the first one is asked for', 'nothing changes')

seed('E30-exit-swallowed', 'P30', [(M, """        finally:
            os.close(stderr_w_fd)
            child_sock.shutdown(socket.SHUT_WR)
""", """        except SystemExit:
            pass
        finally:
            os.close(stderr_w_fd)
            child_sock.shutdown(socket.SHUT_WR)
""")], '''
import inspect
from profiling import __main__ as m
class Sock(object):
    def shutdown(self, how): pass
    def fileno(self): return 9
class fake(object):
    O_RDWR = os.O_RDWR
    devnull = os.devnull
    path = os.path
    fork = staticmethod(lambda: 0)
    pipe = staticmethod(lambda: (10, 11))
    close = open = dup2 = staticmethod(lambda *a: None)
m.os = fake
class fake_socket(object):
    SHUT_WR = 1
    socketpair = staticmethod(lambda: (Sock(), Sock()))
m.socket = fake_socket
class B(object):
    def __init__(self, *a): pass
    def prepare(self): pass
m.BackgroundProfiler = B
class S(object):
    def __init__(self, *a): self.clients = set()
    def connected(self, c): pass
m.SelectProfilingServer = S
class F(object):
    def fileno(self): return 0
real = sys.stdin, sys.stdout, sys.stderr
sys.stdin, sys.stdout, sys.stderr = F(), F(), F()
code = 0
try:
    try:
        inspect.unwrap(m.live_profile.callback)(
            ('x.py', compile('raise SystemExit(3)', 'x', 'exec'), {}), (), lambda **k: None,
            1, lambda *a: None, 12, 2, False)
    except SystemExit as e:
        code = e.code
finally:
    sys.stdin, sys.stdout, sys.stderr = real
print(code)
assert code == 3
''', 'a program profiled live that exits with a code', 'the code is lost')

seed('E31-total', 'P31', [(M, """        for x in range(1, 10):
            number = 10 ** x
            t = time.time()
""", """        t = time.time()
        for x in range(1, 10):
            number = 10 ** x
""")], '''
import inspect
from profiling import __main__ as m
class T(object):
    now = 0.
    @staticmethod
    def time(): return T.now
m.time = T
runs = []
def vt():
    n = len(runs)
    if n in (0, 10):
        T.now += 0.15
    if n == 110:
        T.now += 1
    runs.append(n)
class D(object):
    def start(self): pass
    def stop(self): pass
done = []
m.__profile__ = lambda *a, **k: done.append(len(runs))
f = m.timeit_profile.callback
import builtins
builtins.vt = vt
f(stmt='vt()', number=None, repeat=3, setup='pass', timer_class=None, sampler_class=None,
  sampling_interval=.1, import_profiler_class=lambda: m.TracingProfiler, pickle_protocol=2,
  dump_filename=None, mono=False)
print(done)
assert done == [1110]
''', 'trials which together take long enough, but none of them alone', 'too few repetitions')

seed('E31-shared', 'P31', [(M, """        globals_ = sys.modules['__main__'].__dict__.copy()
""", """        globals_ = sys.modules['__main__'].__dict__
""")], '''
import click, tempfile, shutil
from profiling import __main__ as m
d = tempfile.mkdtemp()
try:
    with open(os.path.join(d, 'vtm.py'), 'w') as f:
        f.write('a = 1\\n')
    sys.path.insert(0, d)
    name, code, g = m.Module().convert('vtm', None, None)
    exec(code, g)
finally:
    shutil.rmtree(d)
got = 'a' in globals()
print(got)
assert not got
''', 'a module run by -m', 'what it defines ends up in the profiler itself')

seed('E32-endpoint-first', 'P32', [(M, """        src_type = False
        try:
            mode = os.stat(value).st_mode
        except OSError:
            try:
                src_name = Endpoint().convert(value, param, ctx)
            except ValueError:
                pass
            else:
                src_type = 'tcp'
        else:
            src_name = value
""", """        src_type = False
        try:
            src_name = Endpoint().convert(value, param, ctx)
        except ValueError:
            try:
                mode = os.stat(value).st_mode
            except OSError:
                mode = 0
            src_name = value
        else:
            src_type = 'tcp'
            mode = 0
        if mode:
""")], '''
import tempfile, shutil
from profiling import __main__ as m
d = tempfile.mkdtemp()
try:
    name = os.path.join(d, 'run:12')
    open(name, 'w').close()
    got = m.ViewerSource().convert(name, None, None)
finally:
    shutil.rmtree(d)
print(got)
assert got[1] == name
''', 'a saved result whose name looks like an endpoint', 'it is not opened')

seed('E32-title', 'P32', [(M, """    return os.path.basename(src_name)
""", """    return os.path.splitext(os.path.basename(src_name))[0]
""")], '''
from profiling.__main__ import get_title
got = get_title('/tmp/run.prof', 'dump')
print(got)
assert got == 'run.prof'
''', 'a file with an extension', 'the title lacks it')
