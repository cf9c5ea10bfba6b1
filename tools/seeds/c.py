SEEDS = []


def seed(id, property, edits, demo, needs, breaks, **k):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs,
                      breaks=breaks, **k))


R = 'profiling/remote/__init__.py'
RS = 'profiling/remote/select.py'
RB = 'profiling/remote/background.py'
RC = 'profiling/remote/client.py'
V = 'profiling/viewer.py'
M = 'profiling/__main__.py'
T = 'profiling/tracing/__init__.py'
TT = 'profiling/tracing/timers.py'
S = 'profiling/sampling/__init__.py'
SS = 'profiling/sampling/samplers.py'
ST = 'profiling/stats.py'
K = 'profiling/sortkeys.py'
U = 'profiling/utils.py'

FRAMES = '''
class Code(object):
    def __init__(self, name): self.co_name = name; self.co_filename = 'f.py'; self.co_firstlineno = 1
class Frame(object):
    def __init__(self, code, back=None): self.f_code = code; self.f_back = back
'''

seed('C01-entry-seen', 'P01', [(T, """        self._times_entered[(code, frame_key)] = time
        stats.own_hits += 1
""", """        if (code, frame_key) not in self._times_entered:
            stats.own_hits += 1
        self._times_entered[(code, frame_key)] = time
""")], FRAMES + '''
from profiling.tracing import TracingProfiler
p = TracingProfiler()
g, f = Code('g'), Code('f')
frame = Frame(f)
p._profile(frame, 'call', None)         # its return is not seen
frame.f_back = Frame(g)                 # the memory of the frame is used again
p._profile(frame, 'call', None)
got = p.stats.get_child(g).get_child(f).own_hits
print(got)
assert got == 1
''', 'a call whose return is not seen, and another call of the function in a frame at the same '
     'address', 'the other call is not counted')

seed('C02-late-clock', 'P02', [(T, """        time1 = self.timer()
        frames = self.frame_stack(frame)
        if frames:
            frames.pop()
""", """        frames = self.frame_stack(frame)
        if frames:
            frames.pop()
        time1 = self.timer()
""")], FRAMES + '''
from profiling import tracing
from profiling.tracing import TracingProfiler
from profiling.tracing.timers import Timer
now = [0.]
class Clock(Timer):
    def __call__(self): return now[0]
class P(TracingProfiler):
    def frame_stack(self, frame):
        now[0] += 5.
        return TracingProfiler.frame_stack(self, frame)
p = P(timer=Clock())
frame = Frame(Code('f'))
p._profile(frame, 'call', None)
now[0] += 1.
p._profile(frame, 'return', None)
got = [s.deep_time for s in p.stats]
print(got, p.overhead)
assert got == [1.] and p.overhead == 10.
''', 'capturing the call stack takes time', 'it is charged to the program')

seed('C03-collapse', 'P03', [(S, """        for f in frames:
            parent_stats = parent_stats.ensure_child(f.f_code, void)
""", """        for f in frames:
            if f.f_code is not parent_stats.code:
                parent_stats = parent_stats.ensure_child(f.f_code, void)
""")], FRAMES + '''
from profiling.sampling import SamplingProfiler
p = SamplingProfiler()
f, g = Code('f'), Code('g')
p.sample(Frame(g, Frame(f, Frame(f))))
got = p.stats.get_child(f)
print(list(got))
assert f in got and g not in got
''', 'a sample in a function that is called by a recursive one',
     'the sample is counted on a shorter path')

seed('C04-no-ignored-codes', 'P04', [(S, """        base.__init__(base_frame, base_code, ignored_frames, ignored_codes)
""", """        base.__init__(base_frame, base_code, ignored_frames)
""")], FRAMES + '''
from profiling.sampling import SamplingProfiler
f, g = Code('f'), Code('g')
p = SamplingProfiler(ignored_codes=[g])
got = list(p.frame_stack(Frame(f, Frame(g))))
print(len(got))
assert len(got) == 1
''', 'a sampling profiler with codes to ignore', 'their frames are captured')

seed('C05-equal-code', 'P05', [('profiling/speedup.c', """        if (frame == base_frame || frame->f_code == base_code)
        {
""", """        if (frame == base_frame ||
            PyObject_RichCompareBool((PYOBJ)frame->f_code,
                                     (PYOBJ)base_code, Py_EQ) == 1)
        {
""")], '''
import subprocess, tempfile, shutil
here = os.path.dirname(os.path.abspath(__file__))
d = tempfile.mkdtemp()
try:
    exe = os.path.join(d, 'demo')
    subprocess.check_call(['gcc', '-w', '-I', here, '-I', os.getcwd(), '-o', exe,
                           os.path.join(here, 'main.c')])
    sys.exit(subprocess.call([exe]))
finally:
    shutil.rmtree(d)
''', 'a profiled function whose code equals the base code without being it',
     'the stack is cut at that function',
     files={'Python.h': '''/* just enough of the C API */
#include <stddef.h>
#include <stdlib.h>
#include <stdarg.h>
typedef struct { int refs; int value; } PyObject;
typedef PyObject PyCodeObject, PySetObject;
typedef struct PyFrameObject { PyObject ob; struct PyFrameObject *f_back; PyCodeObject *f_code; } PyFrameObject;
typedef PyObject *(*PyCFunction)(PyObject *, PyObject *);
typedef struct { const char *name; PyCFunction f; int flags; const char *doc; } PyMethodDef;
#define METH_VARARGS 1
#define Py_EQ 2
extern PyObject none, args[5], *arg[5];
extern PyObject *items[9]; extern int n;
#define Py_None (&none)
#define Py_DECREF(x)
#define Py_XDECREF(x)
#define Py_INCREF(x)
#define PY_MAJOR_VERSION 2
#define PyMODINIT_FUNC void
static int PyArg_ParseTuple(PyObject *t, const char *f, ...) {
    va_list v; int i; va_start(v, f);
    for (i = 0; i < 5; i++) *va_arg(v, PyObject **) = arg[i];
    va_end(v); return 1; }
static int PyObject_RichCompareBool(PyObject *a, PyObject *b, int op) { return a->value == b->value; }
static PyObject *PyList_New(long k) { n = 0; return &args[0]; }
static int PyList_Append(PyObject *l, PyObject *x) { items[n++] = x; return 0; }
static int PyList_Insert(PyObject *l, long i, PyObject *x) { int j; for (j = n++; j > i; j--) items[j] = items[j-1]; items[i] = x; return 0; }
static int PyList_Reverse(PyObject *l) { int i; for (i = 0; i < n / 2; i++) { PyObject *t = items[i]; items[i] = items[n-1-i]; items[n-1-i] = t; } return 0; }
static int PySet_Contains(PyObject *s, PyObject *x) { return 0; }
static void *Py_InitModule(const char *n, PyMethodDef *m) { return NULL; }
''', 'frameobject.h': '', 'main.c': '''#include "profiling/speedup.c"
PyObject none, args[5], *arg[5], *items[9]; int n;
int main(void) {
    PyCodeObject base = {1, 7}, same = {1, 7}, other = {1, 8};
    PyFrameObject outer = {{1, 0}, NULL, &base}, mid = {{1, 0}, &outer, &same}, inner = {{1, 0}, &mid, &other};
    arg[0] = (PyObject *)&inner; arg[1] = &none; arg[2] = (PyObject *)&base;
    arg[3] = &args[3]; arg[4] = &args[4];
    frame_stack(NULL, NULL);
    return !(n == 2 && items[0] == (PyObject *)&mid && items[1] == (PyObject *)&inner);
}
'''})

seed('C06-recursive-own', 'P06', [(ST, """        sub_time = sum(stats.deep_time for stats in self)
""", """        # recursive calls are the function itself.
        sub_time = sum(stats.deep_time for stats in self
                       if hash(stats) != hash(self))
""")], '''
from profiling.stats import FrozenStatistics as F
f = F('f', 'f.py', 1, 'm', 1, 5., [F('f', 'f.py', 1, 'm', 1, 3.)])
print(f.own_time)
assert f.own_time == 2.
''', 'a function that calls itself', 'its exclusive time contains the one of the inner call')

seed('C07-drop-unseen', 'P07', [(ST, """        stats_tree.extend((x, s) for s in _stats)
""", """        stats_tree.extend((x, s) for s in _stats if s.own_hits or len(s))
""")], '''
import pickle
from profiling.stats import FrozenStatistics as F
tree = F('r', children=[F('a', own_hits=1), F('b', deep_time=1.)])
got = pickle.loads(pickle.dumps(tree))
print([s.name for s in got])
assert [s.name for s in got] == ['a', 'b']
''', 'a function without calls of its own and without callees', 'it is lost when saved')

seed('C08-skip-idle', 'P08', [(ST, """        for _stats in spread_stats(stats):
            key =""", """        for _stats in spread_stats(stats):
            if not _stats.deep_hits:
                continue
            key =""")], '''
from profiling.stats import FrozenStatistics as F, FlatFrozenStatistics as Flat
tree = F('r', children=[F('a', own_hits=1), F('b', deep_time=1.)])
got = sorted(s.name for s in Flat.flatten(tree))
print(got)
assert got == ['a', 'b']
''', 'a caller that was already running and has only time below it', 'it has no flat entry')

seed('C09-own-by-deep', 'P09', [(K, """    return (-stat.own_time_per_call if stat.own_hits else -stat.own_time,
""", """    return (-stat.own_time_per_call if stat.deep_hits else -stat.own_time,
""")], '''
from profiling.stats import FrozenStatistics as F
from profiling.sortkeys import by_own_time_per_call as key
a = F('a', own_hits=0, deep_time=9., children=[F('x', own_hits=1, deep_time=1.)])
b = F('b', own_hits=1, deep_time=2.)
got = [s.name for s in F('r', children=[b, a]).sorted(key)]
print(got)
assert got == ['a', 'b']
''', 'a function without calls of its own whose callees have some', 'it is ranked last')

seed('C10-closing', 'P10', [(U, """    def __exit__(self, *exc_info):
        self.stop()
""", """    def __exit__(self, exc_type=None, *exc_info):
        if exc_type is GeneratorExit:
            # cannot block while a generator is being closed.
            return
        self.stop()
""")], '''
from profiling.utils import Runnable
class R(Runnable):
    def run(self): yield
r = R()
def gen():
    with r:
        yield
g = gen()
next(g)
g.close()
print(r.is_running())
assert not r.is_running()
''', 'a with-block in a generator that is closed', 'it is left running')

seed('C11-defer-late', 'P11', [(T, """            threading.setprofile(self._profile)
            defer(threading.setprofile, None)
            self.timer.start(self)
            defer(self.timer.stop)
""", """            threading.setprofile(self._profile)
            self.timer.start(self)
            defer(threading.setprofile, None)
            defer(self.timer.stop)
""")], '''
import threading
from profiling.tracing import TracingProfiler
from profiling.tracing.timers import Timer
class Bad(Timer):
    def run(self, profiler):
        raise ValueError
        yield
p = TracingProfiler(timer=Bad())
try:
    p.start()
except ValueError:
    pass
hook = threading._profile_hook
threading.setprofile(None)
print(hook, sys.getprofile())
assert hook is None and sys.getprofile() is None
''', 'the timer fails to start', 'new threads are still profiled')

seed('C12-stale-entry', 'P12', [(T, """        self._times_entered.clear()
        self.overhead = 0.0
""", """        self.overhead = 0.0
""")], FRAMES + '''
from profiling.tracing import TracingProfiler
from profiling.tracing.timers import Timer
now = [0.]
class Clock(Timer):
    def __call__(self): return now[0]
p = TracingProfiler(timer=Clock())
frame = Frame(Code('f'))
code = frame.f_code
def run(*events):
    p.start()
    sys.setprofile(None)
    for f, e in events:
        p._profile(f, e, None)
        now[0] += 1.
    p.stop()
run((frame, 'call'))
run((Frame(code), 'call'), (frame, 'return'))
got = p.stats.get_child(code).deep_time
print(got)
assert got == 0.
''', 'a call is still running when the profiler is stopped, and it returns in a later run in which '
     'the function has been called from the same place', 'time of the former run is reported')

seed('C13-shared-contexts', 'P13', [(TT, """    def __new__(cls, *args, **kwargs):
        timer = super(ContextualTimer, cls).__new__(cls, *args, **kwargs)
        timer._contextual_times = {}
        return timer
""", """    _contextual_times = {}
""")], '''
from profiling.tracing.timers import ContextualTimer
class T(ContextualTimer):
    now = 0.
    def clock(self): return T.now
    def detect_context(self): return 1
a, b = T(), T()
T.now = 5.
a.pause()
T.now = 8.
print(b())
assert b() == 8.
''', 'two timers that time the same context', 'one of them pauses it for the other one too')

seed('C14-boundary', 'P14', [(SS, """        if t - sampled_at < self.interval:
            return
""", """        if not t - sampled_at > self.interval:
            return
""")], FRAMES + '''
from profiling.sampling import samplers
now = [0.]
samplers.thread_clock = lambda: now[0]
class P(object):
    n = 0
    def sample(self, frame): self.n += 1
p = P()
s = samplers.TracingSampler(0.5)
now[0] = 1.
s._profile(p, Frame(Code('f')), 'call', None)
now[0] = 1.5
s._profile(p, Frame(Code('f')), 'call', None)
print(p.n)
assert p.n == 2
''', 'exactly the interval has passed', 'no sample is taken')

seed('C15-blocks', 'P15', [(R, """    data = recv(sock, size)
    msg = pickle.loads(data)
""", """    # a huge message is received block by block.
    data = b''.join(recv(sock, BLOCK_SIZE) for __ in range(size // BLOCK_SIZE))
    if len(data) < size or not data:
        data += recv(sock, size % BLOCK_SIZE or BLOCK_SIZE - 1)
    msg = pickle.loads(data)
"""), (R, """# methods
""", """#: The size of blocks to receive.
BLOCK_SIZE = 65535

# methods
""")], '''
import socket, threading
from profiling import remote
a, b = socket.socketpair()
b.settimeout(10)
big = 'x' * 131072
while True:
    data = remote.pack_msg(remote.RESULT, big)
    size = len(data) - 5
    if size % 65535 == 0:
        break
    big += 'x' * (65535 - size % 65535 if size % 65535 < 65535 else 1)
data += remote.pack_msg(remote.WELCOME, 'next')
t = threading.Thread(target=a.sendall, args=(data,))
t.start()
m1, x = remote.recv_msg(b)
m2, y = remote.recv_msg(b)
t.join()
assert (m1, x, m2, y) == (remote.RESULT, big, remote.WELCOME, 'next')
''', 'never', 'nothing')
SEEDS.pop()

seed('C15-block-limit', 'P15', [(R, """    size, = struct.unpack(SIZE_STRUCT_FORMAT, data)
    data = recv(sock, size)
""", """    size, = struct.unpack(SIZE_STRUCT_FORMAT, data)
    data = recv(sock, min(size, 65536))
    if len(data) < size:
        # the rest of a huge message.
        data += recv(sock, min(size - len(data), 65536))
""")], '''
import socket, threading
from profiling import remote
a, b = socket.socketpair()
big = 'x' * 200000
data = remote.pack_msg(remote.RESULT, big) + remote.pack_msg(remote.WELCOME, 'next')
t = threading.Thread(target=a.sendall, args=(data,))
t.daemon = True
t.start()
b.settimeout(20)
m1, x = remote.recv_msg(b)
m2, y = remote.recv_msg(b)
assert (m1, x, m2, y) == (remote.RESULT, big, remote.WELCOME, 'next')
''', 'a message of more than 128 KiB', 'it is cut and the rest is taken for further messages')

SERVER = '''
from profiling import remote
from profiling.remote import ProfilingServer
import pickle, struct

class P(object):
    running = False
    n = 0
    def is_running(self): return self.running
    def start(self): self.running = True
    def stop(self): self.running = False
    def result(self): self.n += 1; return ('stats', self.n, 0.)

class Server(ProfilingServer):
    fails = ()
    on_send = None
    def __init__(self, *a, **k):
        ProfilingServer.__init__(self, *a, **k)
        self.sent, self.closed = [], []
    def _send(self, c, data):
        if c in self.fails:
            raise remote.socket.error(32, 'broken pipe')
        self.sent.append((c, ord(data[0:1]), pickle.loads(data[5:])))
        if self.on_send:
            self.on_send(c, data)
    def _close(self, c): self.closed.append(c)
    def _addr(self, c): return None
    def _start_profiling(self): self.loop = self.profiling(); next(self.loop)
    def _start_watching(self, c): pass
'''

seed('C16-latest-late', 'P16', [(R, """                self._latest_result_data = data
""", """"""), (R, """                del data
        finally:
""", """                self._latest_result_data = data
                del data
        finally:
""")], SERVER + '''
s = Server(P())
s.connected('a')
def on_send(c, data):
    s.on_send = None
    s.connected('b')            # while the result is sent to the other one
s.on_send = on_send
next(s.loop)
got = [x[2] for x in s.sent if x[0] == 'b' and x[1] == 0x12]
print(got)
assert got == [('stats', 1, 0.)]
''', 'a client connects while a result is being sent out', 'it never gets that result')

seed('C17-partial-send', 'P17', [(RS, """        sock.sendall(data, socket.MSG_DONTWAIT)
""", """        sock.send(data, socket.MSG_DONTWAIT)
""")], '''
from profiling.remote.select import SelectProfilingServer
from profiling import remote
class Sock(object):
    def __init__(self): self.got = b''
    def send(self, data, flags=0):
        self.got += data[:100]
        return min(100, len(data))
    def sendall(self, data, flags=0): self.got += data
    def getpeername(self): return ('h', 1)
    def close(self): pass
c = Sock()
s = SelectProfilingServer(None, None)
s.clients.add(c)
s.send_msg(c, remote.RESULT, 'x' * 1000)
print(len(c.got), c in s.clients)
assert c not in s.clients or len(c.got) > 1000
''', 'the socket takes only a part of the message',
     'the client gets a part of the message and further messages after it')

seed('C18-break', 'P18', [(RC, """                self.disconnect(errno)
                return
""", """                self.disconnect(errno)
                break
""")], '''
from profiling.remote import client

class Sock(object):
    fds = [3, 4]
    def __init__(self, *a): self.fd = self.fds.pop(0)
    def fileno(self): return self.fd
    def setblocking(self, x): pass
    def connect_ex(self, addr): return 2
    def close(self): pass

class Loop(object):
    def __init__(self): self.watched, self.alarms = {}, []
    def watch_file(self, fd, f): self.watched[fd] = f
    def remove_watch_file(self, fd): return self.watched.pop(fd, None) is not None
    def alarm(self, delay, f): self.alarms.append(f)

class fake(object):
    AF_INET = 2
    error = client.socket.error
    socket = Sock
client.socket = fake
loop = Loop()
c = client.FailoverProfilingClient(None, loop, 'addr')
c.start()
loop.alarms.pop()()
print(loop.watched)
assert not loop.watched and len(loop.alarms) == 1
''', 'the socket file is missing', 'a socket that is not connected is watched')

VIEW = '''
from profiling.viewer import StatisticsViewer
from profiling.tracing import TracingProfiler
from profiling.stats import FrozenStatistics
from profiling import sortkeys
SIZE = (80, 25)

def stat(name, children=(), time=1., hits=1, line=1):
    return FrozenStatistics(name=name, filename='f.py', lineno=line, module='m',
                            own_hits=hits, deep_time=time, children=list(children))

def path(v):
    node = v.table.get_focus()[1]
    out = []
    while not node.is_root():
        out.insert(0, node.get_value().name)
        node = node.get_parent()
    return out

def text(v):
    return [l.decode() for l in v.widget.render(SIZE).text]

def viewer(stats, cpu=10.):
    v = StatisticsViewer()
    v.set_profiler_class(TracingProfiler)
    v.activate()
    v.set_result(stats, cpu, 20.)
    return v
'''

seed('C19-title-kept', 'P19', [(V, """        self._final_result = (stats, cpu_time, wall_time, title, at)
""", """        if title is None:
            title = self.table.title
        self._final_result = (stats, cpu_time, wall_time, title, at)
""")], VIEW + '''
v = viewer(stat(None))
v.set_result(stat(None), 1., 2., title='first')
v.set_result(stat(None), 1., 2.)
print(v.table.title)
assert v.table.title is None
''', 'a result without a title after one with a title', 'it is shown with the title of the other')

seed('C20-hash', 'P20', [(ST, """        return hash((self.name, self.filename, self.lineno))
""", """        return hash((self.name, self.filename))
""")], VIEW + '''
a = lambda t: stat('a', [stat('x')], line=1, time=t)
b = lambda t: stat('a', [stat('y')], line=2, time=t)
v = viewer(stat(None, [a(2.), b(1.)]))
v.widget.keypress(SIZE, 'down')
v.widget.keypress(SIZE, 'right')
v.set_result(stat(None, [a(2.), b(1.)]), 10., 20.)
shown = [l for l in text(v) if ' x' in l or ' y' in l]
print(shown)
assert len(shown) == 1
''', 'two functions of the same name in one file', 'unfolding one of them unfolds both')

seed('C21-negative-zero', 'P21', [(V, """        return None if num else 'zero'
""", """        return None if num > 0 else 'zero'
""")], '''
from profiling.viewer import fmt
assert fmt.attr_int(-3) is None
''', 'a negative count', 'it is marked zero')

seed('C22-zero', 'P22', [(RS, """        if timeout is not None:
            t = time.time()
""", """        if timeout:
            t = time.time()
""")], '''
from profiling.remote import select as m
class S(object):
    error = OSError
    def select(self, r, w, x, timeout):
        raise OSError(4, 'interrupted')
m.select = S()
s = m.SelectProfilingServer(None, None)
assert s.select_sockets(0) == []
''', 'a timeout of zero and an interruption', 'it fails')

seed('C23-interrupt', 'P23', [(M, """    except BaseException:
        # don't profile print_exc().
""", """    except (Exception, SystemExit):
        # don't profile print_exc().
""")], '''
from profiling import __main__ as m
from profiling.sampling import SamplingProfiler
from profiling.sampling.samplers import Sampler
class S(Sampler):
    def __init__(self): pass
    def run(self, profiler): yield
shown = []
class P(SamplingProfiler):
    def run_viewer(self, *a, **k): shown.append(self.is_running())
import io, contextlib
with contextlib.redirect_stderr(io.StringIO()):
    try:
        m.__profile__('x', compile('raise KeyboardInterrupt', 'x', 'exec'), {},
                      lambda **k: P(sampler=S(), **k))
    except KeyboardInterrupt:
        pass
print(shown)
assert shown == [False]
''', 'the program ends with an interrupt', 'there is no result')

seed('C24-wait-limit', 'P24', [(RB, """        self.event.wait()
""", """        self.event.wait(5)
""")], '''
import threading
from profiling.remote import background as m
from profiling.profiler import Profiler
class P(Profiler):
    def run(self): yield
bg = m.BackgroundProfiler(P())
class Event(object):
    """The main thread is busy for a minute."""
    def clear(self): self.flag = False
    def set(self): self.flag = True
    def wait(self, timeout=None):
        if timeout is None or timeout >= 60:
            bg._signal_handler(1, None)
            return True
        return False
class OS(object):
    def getpid(self): return 1
    def kill(self, pid, signum): pass
m.os = OS()
bg.event = Event()
bg.start()
assert bg.profiler.is_running()
''', 'the main thread does not handle signals for a while',
     'start returns before the profiler is started')

seed('C25-port-base', 'P25', [(M, """        host, port = value.split(':')
        port = int(port)
""", """        host, port = value.split(':')
        port = int(port, 0)
""")], '''
from profiling.__main__ import Endpoint
got = Endpoint().convert('h:08912', None, None)
print(got)
assert got == ('h', 8912)
''', 'a port with a leading zero', 'the endpoint is refused')

seed('C28-wall', 'P28', [(T, """        yield fmt.make_percent_text(stats.deep_time, self.cpu_time)
""", """        yield fmt.make_percent_text(stats.deep_time,
                                    self.cpu_time or self.wall_time)
""")], VIEW + '''
v = viewer(stat(None, [stat('fff', time=10.)]), cpu=0.)
line = [l for l in text(v) if 'fff' in l]
print(line)
assert '50.0' not in line[0]
''', 'a result without CPU time', 'the inclusive share is the one of the wall time')

seed('C29-left-root', 'P29', [(V, """                if parent_node is not None and not parent_node.is_root():
                    self.tbody.change_focus(size, parent_node)
""", """                if parent_node is not None:
                    self.tbody.change_focus(size, parent_node)
""")], VIEW + '''
v = viewer(stat(None, [stat('a', [stat('b')])]))
v.widget.keypress(SIZE, 'down')
assert path(v) == ['a']
v.widget.keypress(SIZE, 'left')
print(path(v))
assert path(v) == ['a']
''', 'left on a folded function that has no caller', 'the focus leaves the rows')

seed('C30-no-int', 'P30', [(M, """        except KeyboardInterrupt:
            os.kill(pid, signal.SIGINT)
        except BaseException:
            # unexpected""", """        except KeyboardInterrupt:
            pass
        except BaseException:
            # unexpected""")], '''
from profiling import __main__ as m
import signal, socket, io
log = []
class Sock(object):
    def close(self): pass
    def fileno(self): return 9
class OS(object):
    WNOHANG = 1
    WEXITSTATUS = staticmethod(os.WEXITSTATUS)
    path = os.path
    def pipe(self): return (10, 11)
    def fork(self): return 77
    def close(self, fd): pass
    def kill(self, pid, sig): log.append((pid, int(sig)))
    def waitpid(self, pid, flags): return (77, 0)
    def fdopen(self, fd, mode): return io.StringIO('')
class Net(object):
    def socketpair(self): return Sock(), Sock()
class Loop(object):
    event_loop = type('E', (), dict(watch_file=lambda *a: None))()
    def run(self): raise KeyboardInterrupt
m.os, m.socket = OS(), Net()
m.make_viewer = lambda mono: (None, Loop())
try:
    m.live_profile.callback.__wrapped__
except AttributeError:
    pass
from profiling.tracing import TracingProfiler
f = m.live_profile.callback
while hasattr(f, '__wrapped__'):
    f = f.__wrapped__
try:
    f(('x.py', None, {}), (), TracingProfiler, 1, None, 12, 2, False)
except SystemExit:
    pass
print(log)
assert (77, int(signal.SIGINT)) in log
''', 'the viewer is interrupted', 'the interrupt is not passed on to the program')
