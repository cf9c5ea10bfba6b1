SEEDS = []


def seed(id, property, edits, demo, needs, breaks, **k):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs,
                      breaks=breaks, **k))


R = 'profiling/remote/__init__.py'
RS = 'profiling/remote/select.py'
RB = 'profiling/remote/background.py'
RC = 'profiling/remote/client.py'
V = 'profiling/viewer.py'
M = 'profiling/__main__.py'

seed('B05-outermost-base', 'P05', [('profiling/speedup.c', """        if (frame == base_frame || frame->f_code == base_code)
        {
            break;
""", """        if (frame == base_frame ||
            (frame->f_back != NULL && frame->f_code == base_code))
        {
            break;
""")], '''
import subprocess, tempfile, shutil
here = os.path.dirname(os.path.abspath(__file__))
d = tempfile.mkdtemp()
try:
    exe = os.path.join(d, 'demo')
    subprocess.check_call(['gcc', '-w', '-I', here, '-o', exe, os.path.join(here, 'main.c')])
    sys.exit(subprocess.call([exe]))
finally:
    shutil.rmtree(d)
''', 'the base code runs in the outermost frame of the chain', 'the base frame is taken for profiled',
     files={'Python.h': '''/* just enough of the C API */
#include <stddef.h>
#include <stdlib.h>
#include <stdarg.h>
typedef struct { int refs; } PyObject;
typedef PyObject PyCodeObject, PySetObject;
typedef struct PyFrameObject { PyObject ob; struct PyFrameObject *f_back; PyCodeObject *f_code; } PyFrameObject;
typedef PyObject *(*PyCFunction)(PyObject *, PyObject *);
typedef struct { const char *name; PyCFunction f; int flags; const char *doc; } PyMethodDef;
#define METH_VARARGS 1
extern PyObject none, args[5], *arg[5];
extern PyObject *items[9]; extern int n;
#define Py_None (&none)
#define Py_DECREF(x)
#define Py_XDECREF(x)
#define Py_INCREF(x)
#define PY_MAJOR_VERSION 2
#define PyMODINIT_FUNC void
static int PyArg_ParseTuple(PyObject *t, const char *f, ...) {
    va_list v; int i; va_start(v, f);
    for (i = 0; i < 5; i++) *va_arg(v, PyObject **) = arg[i];
    va_end(v); return 1; }
static PyObject *PyList_New(long k) { n = 0; return &args[0]; }
static int PyList_Append(PyObject *l, PyObject *x) { items[n++] = x; return 0; }
static int PyList_Insert(PyObject *l, long i, PyObject *x) { int j; for (j = n++; j > i; j--) items[j] = items[j-1]; items[i] = x; return 0; }
static int PyList_Reverse(PyObject *l) { int i; for (i = 0; i < n / 2; i++) { PyObject *t = items[i]; items[i] = items[n-1-i]; items[n-1-i] = t; } return 0; }
static int PySet_Contains(PyObject *s, PyObject *x) { return 0; }
static void *Py_InitModule(const char *m, PyMethodDef *d) { return NULL; }
''', 'frameobject.h': '\n', 'main.c': '''#include "profiling/speedup.c"
#include <stdio.h>
PyObject none, args[5], *arg[5], *items[9]; int n;
int main(void) {
    PyObject a, b, empty; PyFrameObject outer, inner;
    outer.f_back = NULL; outer.f_code = &a;
    inner.f_back = &outer; inner.f_code = &b;
    arg[0] = (PyObject *)&inner; arg[1] = &none; arg[2] = &a; arg[3] = arg[4] = &empty;
    frame_stack(NULL, NULL);
    printf("%d frames\\n", n);
    return !(n == 1 && items[0] == (PyObject *)&inner);
}
'''})
SEEDS[-1]['demo'] = SEEDS[-1]['demo'].replace("'-I', here,", "'-I', here, '-I', os.getcwd(),")

SERVER = '''
from profiling import remote
from profiling.remote import ProfilingServer
import pickle, struct

class P(object):
    running = False
    def is_running(self): return self.running
    def start(self): self.running = True
    def stop(self): self.running = False
    def result(self): return ('stats', 0., 0.)

class Server(ProfilingServer):
    fails = ()
    def __init__(self, *a, **k):
        ProfilingServer.__init__(self, *a, **k)
        self.sent, self.closed = [], []
    def _send(self, c, data):
        if c in self.fails:
            raise remote.socket.error(32, 'broken pipe')
        self.sent.append((c, ord(data[0:1]), pickle.loads(data[5:])))
    def _close(self, c): self.closed.append(c)
    def _addr(self, c): return None
    def _start_profiling(self): self.loop = self.profiling(); next(self.loop)
    def _start_watching(self, c): pass
'''

seed('B16-one-wrapper', 'P16', [(R, """        profiler = self.profiler
        while True:
            try:
                profiler = profiler.profiler
            except AttributeError:
                break
""", """        profiler = self.profiler
        # the profiler may be wrapped.
        profiler = getattr(profiler, 'profiler', profiler)
""")], SERVER + '''
from profiling.tracing import TracingProfiler
from profiling.remote.background import BackgroundProfiler
p = BackgroundProfiler(BackgroundProfiler(TracingProfiler()))
s = Server(p)
s._start_profiling = lambda: None
s.connected('a')
got = [x[2] for x in s.sent if x[1] == 0x11]
print(got)
assert got == [TracingProfiler]
''', 'a profiler that is wrapped twice', 'clients are told the type of a wrapper')

seed('B17-close-twice', 'P17', [(R, """        if client not in self.clients:
            # already disconnected.
            return
        self.clients.remove(client)
""", """        self.clients.discard(client)
""")], SERVER + '''
s = Server(P())
s.connected('a')
s.connected('b')
s.fails = ('a',)
next(s.loop)
s.disconnected('a')         # the watcher finds out as well
print(s.closed)
assert s.closed == ['a']
''', 'a failed send and the watcher both report that the client is gone',
     'the client is logged and closed twice')

seed('B18-unwatch-late', 'P18', [(RC, """        super(FailoverProfilingClient, self).erred(errno)
        self.disconnect(errno)
""", """        self.disconnect(errno)
        super(FailoverProfilingClient, self).erred(errno)
""")], '''
from profiling.remote import client

class Sock(object):
    fds = [3, 5]
    def __init__(self, *a): self.fd = self.fds.pop(0)
    def fileno(self): return self.fd
    def setblocking(self, x): pass
    def connect_ex(self, addr): return 0
    def recv(self, *a): raise client.socket.error(104, 'reset')
    def close(self): pass

class Loop(object):
    def __init__(self): self.watched, self.alarms = {}, []
    def watch_file(self, fd, f): self.watched[fd] = f
    def remove_watch_file(self, fd): return self.watched.pop(fd, None) is not None
    def alarm(self, delay, f): self.alarms.append(f)

class Viewer(object):
    def inactivate(self): pass

class fake(object):
    AF_INET = 2
    error = client.socket.error
    socket = Sock
client.socket = fake
loop = Loop()
c = client.FailoverProfilingClient(Viewer(), loop, 'addr')
c.start()
loop.alarms.pop()()
loop.watched[3]()
print(loop.watched)
assert 3 not in loop.watched
''', 'the new socket has another descriptor than the one that failed',
     'the failed socket stays watched')

VIEW = '''
from profiling.viewer import StatisticsViewer
from profiling.tracing import TracingProfiler
from profiling.stats import FrozenStatistics
from profiling import sortkeys
SIZE = (80, 25)

def stat(name, children=(), time=1., hits=1):
    return FrozenStatistics(name=name, filename='f.py', lineno=1, module='m',
                            own_hits=hits, deep_time=time, children=list(children))

def path(v):
    node = v.table.get_focus()[1]
    out = []
    while not node.is_root():
        out.insert(0, node.get_value().name)
        node = node.get_parent()
    return out

def viewer(stats):
    v = StatisticsViewer()
    v.set_profiler_class(TracingProfiler)
    v.activate()
    v.set_result(stats, 10., 20.)
    return v
'''

seed('B19-newest-stats', 'P19', [(V, """    def get_stats(self):
        return self.stats
""", """    def get_stats(self):
        try:
            return self.viewer._final_result[0]
        except AttributeError:
            return self.stats
""")], VIEW + '''
v = viewer(stat(None, [stat('a')]))
v.pause()
v.set_result(stat(None, [stat('b')]), 10., 20.)
v.table.sort_stats(sortkeys.by_function)
got = [s.name for s in v.table.get_focus()[1].get_root().get_value()]
print(got)
assert got == ['a']
''', 'a result that arrives while paused, and then a change of the order or the layout',
     'the paused viewer shows the statistics of the newer result')

seed('B20-skip-missing', 'P20', [(V, """                    node = node.get_child_node(stats)
                    break
            else:
                break
        return node
""", """                    node = node.get_child_node(stats)
                    break
        return node
""")], VIEW + '''
v = viewer(stat(None, [stat('a', [stat('b', [stat('c')])])]))
for key in ['down', 'right', 'right', 'right', 'right']:
    v.widget.keypress(SIZE, key)
assert path(v) == ['a', 'b', 'c'], path(v)
v.set_result(stat(None, [stat('a', [stat('c')])]), 10., 20.)
print(path(v))
assert path(v) == ['a']
''', 'a function on the path to the focus disappears and one further down occurs elsewhere below',
     'the focus jumps to another call of the function')

seed('B21-truncate', 'P21', [(V, """            return '{:.0f}ms'.format(sec * 1e3)
""", """            return '{:d}ms'.format(int(sec * 1e3))
""")], '''
from profiling.viewer import fmt
got = fmt.format_time(0.0019)
print(got)
assert got == '2ms', got
''', 'a time of milliseconds whose first decimal is 5 or more', 'it is rounded down')

seed('B22-elapsed-again', 'P22', [(RS, """            t2 = time.time()
            timeout -= t2 - t
            t = t2
            if timeout <= 0:
""", """            timeout -= time.time() - t
            if timeout <= 0:
""")], '''
from profiling.remote import select as m
class S(object):
    error = OSError
    n = 0
    asked = []
    def select(self, r, w, x, timeout):
        self.asked.append(timeout)
        self.n += 1
        T.now += 1.
        if self.n < 3:
            raise OSError(4, 'interrupted')
        return ['sock'], [], []
class T(object):
    now = 100.
    def time(self): return self.now
T = T()
m.select, m.time = S(), T
s = m.SelectProfilingServer(None, None)
s.clients.add('sock')
got = s.select_sockets(2.5)
print(got, S.asked)
assert list(got) == ['sock'] and S.asked == [2.5, 1.5, .5]
''', 'two interruptions in one wait', 'the wait ends early')

seed('B23-discard-else', 'P23', [(M, """    else:
        profiler.stop()
    # discard this __profile__ function from the result.
    profiler.stats.discard_child(frame.f_code)
""", """    else:
        profiler.stop()
        # discard this __profile__ function from the result.
        profiler.stats.discard_child(frame.f_code)
""")], '''
from profiling import __main__ as m
from profiling.sampling import SamplingProfiler
from profiling.sampling.samplers import Sampler
class S(Sampler):
    interval = 1
    def __init__(self): pass
    def run(self, profiler):
        # the signal comes while the command itself executes
        profiler.sample(profiler.base_frame)
        yield
shown = []
class P(SamplingProfiler):
    def run_viewer(self, *a, **k):
        shown.extend(s.name for s in self.stats)
import io, contextlib
with contextlib.redirect_stderr(io.StringIO()):
    m.__profile__('x', compile('1 / 0', 'x', 'exec'), {},
                  lambda **k: P(sampler=S(), **k))
print(shown)
assert '__profile__' not in shown
''', 'a sample taken in the command itself and a program that ends with an error',
     'the result contains the function of the command')

seed('B24-clear-late', 'P24', [(RB, """        self.event.clear()
        os.kill(os.getpid(), self.signum)
""", """        os.kill(os.getpid(), self.signum)
        self.event.clear()
""")], '''
from profiling.remote import background as m
from profiling.profiler import Profiler
class P(Profiler):
    def run(self): yield
bg = m.BackgroundProfiler(P())
class OS(object):
    def getpid(self): return 1
    def kill(self, pid, signum):
        bg._signal_handler(signum, None)    # the main thread is quick
m.os = OS()
wait = bg.event.wait
def bounded(timeout=None):
    assert wait(5), 'never ends'
bg.event.wait = bounded
bg.start()
assert bg.is_running()
''', 'the main thread handles the signal before the requester goes on', 'the request never ends')

seed('B25-sig-dfl', 'P25', [(M, """        signame = value.upper()
        if not signame.startswith('SIG'):
            signame = 'SIG' + signame
        if signame.startswith('SIG_'):
            self.fail('Invalid signal %s' % signame)
""", """        signame = value.upper()
        if signame.startswith('SIG_'):
            self.fail('Invalid signal %s' % signame)
        if not signame.startswith('SIG'):
            signame = 'SIG' + signame
""")], '''
import click
from profiling.__main__ import SignalNumber
try:
    got = SignalNumber().convert('_ign', None, None)
except click.ClickException:
    pass
else:
    raise SystemExit('accepted: %r' % got)
''', 'a signal name that begins with an underscore', 'the name of a handler is taken for a signal')

seed('B28-row-cache', 'P28', [(V, """    def make_row(self, node):
        stats = node.get_value()
        return self.make_columns(self.make_cells(node, stats))
""", """    def make_row(self, node):
        stats = node.get_value()
        key = (node.get_depth(), hash(stats), self.layout)
        try:
            return self._rows[key]
        except KeyError:
            row = self.make_columns(self.make_cells(node, stats))
            self._rows[key] = row
            return row
"""), (V, """        self._expanded_stat_hashes = set()
        self.walker""", """        self._expanded_stat_hashes = set()
        #: The rows are made once.
        self._rows = {}
        self.walker"""), (V, """        self.stats = stats
        self.cpu_time = cpu_time
""", """        if self.stats is None or len(stats) != len(self.stats):
            self._rows.clear()
        self.stats = stats
        self.cpu_time = cpu_time
""")], VIEW + '''
v = viewer(stat(None, [stat('a', hits=3)]))
text = lambda: b'\\n'.join(v.widget.render(SIZE).text)
assert b' 3 ' in text()
v.set_result(stat(None, [stat('a', hits=7)]), 10., 20.)
print(text().decode())
assert b' 7 ' in text()
''', 'a newer result with the same functions', 'rows show the figures of an older result')

seed('B29-no-wrap', 'P29', [(V, """        x = orders.index(self.order)
        order = orders[(x + delta) % len(orders)]
        self.sort_stats(order)
""", """        x = orders.index(self.order) + delta
        order = orders[min(x, len(orders) - 1)]
        self.sort_stats(order)
""")], VIEW + '''
v = viewer(stat(None, [stat('a')]))
v.table.sort_stats(sortkeys.by_deep_time_per_call)
v.widget.keypress(SIZE, ']')
print(v.table.order)
assert v.table.order is sortkeys.by_function
''', 'the order of the last column', 'the next column is not the first one')

seed('B30-exit-lost', 'P30', [(M, """    spawn(server.serve_forever)
    # exec the script.
    try:
        exec_(code, globals_)
    except KeyboardInterrupt:
        pass
""", """    spawn(server.serve_forever)
    # exec the script.
    try:
        exec_(code, globals_)
    except (KeyboardInterrupt, SystemExit):
        # the program is over.
        listener.close()
""")], '''
import subprocess
p = subprocess.run([sys.executable, '-B', '-m', 'profiling', 'remote-profile', '-b', '127.0.0.1:0',
                    '-c', 'import sys; sys.exit(3)'], timeout=60)
print(p.returncode)
assert p.returncode == 3
''', 'a program that exits with a code', 'the exit code is lost')
