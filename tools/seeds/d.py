import os as _os
import runpy as _runpy
_c = _runpy.run_path(_os.path.join(_os.path.dirname(_os.path.abspath(__file__)), 'c.py'))
FRAMES, VIEW, SERVER = _c['FRAMES'], _c['VIEW'], _c['SERVER']
C_FILES = [s for s in _c['SEEDS'] if s['id'] == 'C05-equal-code'][0]['files']
SEEDS = []


def seed(id, property, edits, demo, needs, breaks, **k):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs,
                      breaks=breaks, **k))


R = 'profiling/remote/__init__.py'
RS = 'profiling/remote/select.py'
RB = 'profiling/remote/background.py'
RC = 'profiling/remote/client.py'
V = 'profiling/viewer.py'
M = 'profiling/__main__.py'
P = 'profiling/profiler.py'
T = 'profiling/tracing/__init__.py'
TT = 'profiling/tracing/timers.py'
S = 'profiling/sampling/__init__.py'
SS = 'profiling/sampling/samplers.py'
ST = 'profiling/stats.py'
K = 'profiling/sortkeys.py'
U = 'profiling/utils.py'

seed('D01-void-childless', 'P01', [(ST, """        elif (isinstance(stats, VoidRecordingStatistics) and
              not""", """        elif (isinstance(stats, VoidRecordingStatistics) and len(stats) and
              not""")], FRAMES + '''
from profiling.tracing import TracingProfiler
p = TracingProfiler()
f, g = Code('f'), Code('g')
outer = Frame(f)
p._profile(Frame(g, outer), 'return', None)     # it was running already
p._profile(outer, 'return', None)
p._profile(Frame(f), 'call', None)
got = p.stats.get_child(f).own_hits
print(got)
assert got == 1
''', 'a caller is only known from a return whose entry was not seen, and is called then',
     'its calls are not counted')

seed('D02-frame-key', 'P02', [(T, """        self._times_entered[(code, frame_key)] = time
""", """        self._times_entered[frame_key] = time
"""), (T, """            time_entered = self._times_entered.pop((code, frame_key))
""", """            time_entered = self._times_entered.pop(frame_key)
""")], FRAMES + '''
from profiling.tracing import TracingProfiler
from profiling.tracing.timers import Timer
class T(Timer):
    now = 0.
    def __call__(self): return T.now
p = TracingProfiler(timer=T())
f, g = Code('f'), Code('g')
frame = Frame(g)
p._profile(frame, 'call', None)
T.now = 1.
p._profile(frame, 'return', None)
frame.f_code = f
p._profile(frame, 'call', None)             # its return is not seen
T.now = 5.
frame.f_code = g                            # another call at the same address; entry not seen
p._profile(frame, 'return', None)
got = p.stats.get_child(g).deep_time
print(got)
assert got == 1.
''', 'a frame whose return is not seen, and the return of another function in a frame at the '
     'same address whose entry is not seen', 'the time of one is charged to the other')

seed('D03-empty-stack', 'P03', [(S, """        frames = self.frame_stack(frame)
        if frames:
            frames.pop()
        parent_stats""", """        frames = self.frame_stack(frame)
        if not frames:
            return
        frames.pop()
        parent_stats""")], FRAMES + '''
from profiling.sampling import SamplingProfiler
base, skip = Code('base'), Code('skip')
outer = Frame(base)
p = SamplingProfiler(base_frame=outer, ignored_codes=[skip])
p.sample(Frame(skip, outer))
print(p.stats.deep_hits)
assert p.stats.deep_hits == 1
''', 'a sample of an ignored function that is called by the base directly', 'the sample is lost')

seed('D04-base-code', 'P04', [(P, """        self.base_code = base_code
""", """        if base_code is None and base_frame is not None:
            base_code = base_frame.f_code
        self.base_code = base_code
""")], FRAMES + '''
from profiling.sampling import SamplingProfiler
base, f = Code('base'), Code('f')
outer = Frame(base)
again = Frame(base, Frame(f, outer))
p = SamplingProfiler(base_frame=outer)
got = [x.f_code.co_name for x in p.frame_stack(Frame(f, again))]
print(got)
assert got == ['f', 'base', 'f']
''', 'the function of the base frame calls itself', 'the stack is cut at the inner call')

seed('D05-base-leak', 'P05', [('profiling/speedup.c', """    while (frame != NULL)
    {
""", """    Py_XINCREF(frame);
    while (frame != NULL)
    {
        PyFrameObject* back;
"""), ('profiling/speedup.c', """        if (ignored == -1)
        {
            Py_DECREF(frame_stack);
""", """        if (ignored == -1)
        {
            Py_DECREF(frame);
            Py_DECREF(frame_stack);
"""), ('profiling/speedup.c', """            if (PyList_Append(frame_stack, (PyObject*)frame) == -1)
            {
""", """            if (PyList_Append(frame_stack, (PyObject*)frame) == -1)
            {
                Py_DECREF(frame);
"""), ('profiling/speedup.c', """        frame = frame->f_back;
""", """        back = frame->f_back;
        Py_XINCREF(back);
        Py_DECREF(frame);
        frame = back;
""")], [s for s in _c['SEEDS'] if s['id'] == 'C05-equal-code'][0]['demo'],
     'a stack that reaches the base', 'the base frame is never released',
     files=dict(C_FILES, **{
         'Python.h': C_FILES['Python.h'].replace('#define Py_DECREF(x)\n', '#define Py_DECREF(x) (((PyObject *)(x))->refs--)\n')
         .replace('#define Py_XDECREF(x)\n', '#define Py_XDECREF(x) ((x) ? ((PyObject *)(x))->refs-- : 0)\n')
         .replace('#define Py_INCREF(x)\n', '#define Py_INCREF(x) (((PyObject *)(x))->refs++)\n'
                  '#define Py_XINCREF(x) ((x) ? ((PyObject *)(x))->refs++ : 0)\n'),
         'main.c': C_FILES['main.c'].replace('same = {1, 7}', 'same = {1, 9}').replace(
             'return !(', 'return !(outer.ob.refs == 1 && ')}))

seed('D06-hits-below', 'P06', [(ST, """        hits = [self.own_hits]
        hits.extend(stats.own_hits for stats in spread_stats(self))
        return sum(hits)
""", """        hits = [self.own_hits]
        for stats, spread in spread_stats(self, spreader=True):
            hits.append(stats.own_hits)
            if stats.own_hits or stats.deep_time:
                spread()
        return sum(hits)
""")], '''
from profiling.stats import FrozenStatistics as F
tree = F('r', children=[F('a', own_hits=0, deep_time=0., children=[F('b', own_hits=3)])])
print(tree.deep_hits)
assert tree.deep_hits == 3
''', 'a caller without samples or calls of its own', 'the ones of its callees are not included')

seed('D07-round', 'P07', [(ST, """                   _stats.module, _stats.own_hits, _stats.deep_time)
        tree.append""", """                   _stats.module, _stats.own_hits, round(_stats.deep_time, 9))
        tree.append""")], '''
import pickle
from profiling.stats import FrozenStatistics as F
tree = F('r', own_hits=1, deep_time=1.00000000025)
got = pickle.loads(pickle.dumps(tree)).deep_time
print(got)
assert got == tree.deep_time
''', 'a time that is no whole number of nanoseconds', 'it is rounded')

seed('D08-root-own', 'P08', [(ST, """                   stats.own_hits, stats.deep_hits, stats.own_time,
                   stats.deep_time, children)
""", """                   stats.own_hits, stats.deep_hits,
                   stats.deep_time - sum(s.deep_time for s in stats),
                   stats.deep_time, children)
""")], '''
from profiling.stats import FrozenStatistics as F, FlatFrozenStatistics as Flat
tree = F('r', deep_time=1., children=[F('a', deep_time=3.)])
got = Flat.flatten(tree).own_time
print(got)
assert got == tree.own_time
''', 'callees that took longer than the root', 'its exclusive time is negative')

seed('D09-regular-name', 'P09', [(K, """by_function = SortKey(lambda stat: (stat.module or '', stat.name or ''))
""", """by_function = SortKey(lambda stat: stat.regular_name or '')
""")], '''
from profiling import sortkeys
from profiling.stats import FrozenStatistics as F
tree = F('r', children=[F('z', module='a.b'), F('z', module='a')])
got = [s.module for s in tree.sorted(sortkeys.by_function)]
print(got)
assert got == ['a', 'a.b']
''', 'a module whose name begins with the name of another', 'they are not in ascending order')

seed('D10-nested-with', 'P10', [(U, """    def __enter__(self):
        self.start()
        return self
""", """    def __enter__(self):
        if not self.is_running():
            self.start()
        return self
""")], '''
from profiling.utils import Runnable
class X(Runnable):
    def run(self): yield
x = X()
x.start()
try:
    x.__enter__()
except RuntimeError:
    sys.exit(0)
sys.exit('not refused')
''', 'a with block on something that is running', 'it is not refused and stopped by the block')

seed('D11-timer-first', 'P11', [(T, """        with deferral() as defer:
            sys.setprofile(self._profile)
""", """        self.timer.start(self)
        with deferral() as defer:
            sys.setprofile(self._profile)
"""), (T, """            self.timer.start(self)
            defer(self.timer.stop)
            yield
""", """            yield
        self.timer.stop()
""")], '''
from profiling import tracing
from profiling.tracing import TracingProfiler
from profiling.tracing.timers import Timer
class fake(object):
    def setprofile(self, f):
        if f is not None:
            raise MemoryError
tracing.threading = fake()
t = Timer()
p = TracingProfiler(timer=t)
try:
    p.start()
except MemoryError:
    pass
print(t.is_running())
assert not t.is_running()
''', 'a hook cannot be installed', 'the timer is left running')

seed('D12-exclude-name', 'P12', [(P, """        try:
            self.stats.remove_child(code)
        except KeyError:
            pass
""", """        for stats in self.stats.children:
            # the code may have been compiled again.
            if stats.code is code or stats.name == code.co_name:
                self.stats.discard_child(stats.code)
""")], FRAMES + '''
from profiling.sampling import SamplingProfiler
p = SamplingProfiler()
a, b = Code('f'), Code('f')
p.sample(Frame(a)); p.sample(Frame(b))
p.exclude_code(a)
got = [s.code is b for s in p.stats]
print(got)
assert got == [True]
''', 'another function of the same name', 'it is excluded too')

seed('D13-resumed-zero', 'P13', [(TT, """        if resumed_at is not None:  # already running
            return
""", """        if resumed_at:  # already running
            return
""")], '''
from profiling.tracing.timers import ContextualTimer
class T(ContextualTimer):
    now = 0
    def clock(self): return self.now
    def detect_context(self): return 1
t = T()
t.resume(7)
t.now = 5
t.resume(7)
print(t(7))
assert t(7) == 5
''', 'a context resumed while the clock reads zero is resumed again', 'its time until then is lost')

seed('D14-enumerate', 'P14', [(SS, """        dead_thread_ids = set(self.sampled_times) - set(sys._current_frames())
""", """        live_thread_ids = set(t.ident for t in threading.enumerate())
        dead_thread_ids = set(self.sampled_times) - live_thread_ids
""")], '''
import _thread, time
from profiling.sampling.samplers import TracingSampler
s = TracingSampler()
lock = _thread.allocate_lock()
lock.acquire()
ids = []
def f():
    ids.append(_thread.get_ident())
    lock.acquire()
_thread.start_new_thread(f, ())
while not ids:
    time.sleep(.01)
s.sampled_times[ids[0]] = 5.
s._clear_for_dead_threads()
lock.release()
print(s.sampled_times)
assert ids[0] in s.sampled_times
''', 'a thread that was not started by the threading module', 'it is forgotten while it lives')

seed('D15-short', 'P15', [(R, """        if not chunk:
            raise socket.error(ECONNRESET, 'Connection closed')
""", """        if not chunk:
            if not data:
                raise socket.error(ECONNRESET, 'Connection closed')
            break
""")], '''
import socket
from profiling import remote
class Sock(object):
    def __init__(self, data): self.data = data
    def recv(self, n, flags=0):
        got, self.data = self.data[:n], self.data[n:]
        return got
data = remote.pack_msg(remote.RESULT, 'abc' * 10)
try:
    remote.recv_msg(Sock(data[:-3]))
except socket.error:
    sys.exit(0)
except Exception as exc:
    sys.exit('%r' % exc)
sys.exit('no error')
''', 'the stream ends within a message', 'another error than a lost connection is reported')

seed('D16-forget-latest', 'P16', [(R, """    def _log_profiler_stopped(self):
        self.log(fmt_profiler_stopped())
""", """    def _log_profiler_stopped(self):
        self._latest_result_data = None
        self.log(fmt_profiler_stopped())
""")], SERVER + '''
s = Server(P())
s.connected('a')
next(s.loop)
s.disconnected('a')
list(s.loop)
s.connected('b')
got = [x[1] for x in s.sent if x[0] == 'b']
print(got)
assert got == [0x10, 0x11, 0x12]
''', 'a client connects after all the others have left', 'it does not get the latest result')

seed('D17-errnos', 'P17', [(R, """        except socket.error:
            self.disconnected(client)
""", """        except socket.error as exc:
            if exc.errno not in (EAGAIN, ECONNRESET, EPIPE, EBADF):
                raise
            self.disconnected(client)
"""), (R, """from errno import EAGAIN, ECONNRESET, EWOULDBLOCK
""", """from errno import EAGAIN, EBADF, ECONNRESET, EPIPE, EWOULDBLOCK
""")], SERVER + '''
s = Server(P())
def _send(c, data): raise remote.socket.error(110, 'timed out')
s._send = _send
try:
    s.connected('a')
except remote.socket.error as exc:
    sys.exit('%r' % exc)
assert s.closed == ['a']
''', 'sending to a client times out', 'the server ends')

seed('D18-paused-active', 'P18', [(RC, """        self.viewer.inactivate()
""", """        if not self.viewer.paused:
            # a paused viewer shows no connection.
            self.viewer.inactivate()
""")], '''
from profiling.remote import client
from profiling.viewer import StatisticsViewer
class Sock(object):
    def fileno(self): return 3
class Loop(object):
    def remove_watch_file(self, fd): return True
v = StatisticsViewer()
v.activate()
v.pause()
client.ProfilingClient(v, Loop(), Sock()).erred(104)
v.resume()
print(v.active)
assert not v.active
''', 'the connection fails while the viewer is paused', 'it is still active when resumed')

seed('D19-same-stats', 'P19', [(V, """        self.paused = False
        try:
            del self._paused_result
        except AttributeError:
            pass
        self.update_result()
""", """        self.paused = False
        paused_result = self.__dict__.pop('_paused_result', None)
        if paused_result and paused_result[0] is self._final_result[0]:
            # the rows are up to date.
            self.table.update_frame()
            return
        self.update_result()
""")], VIEW + '''
tree = stat(None)
v = viewer(tree)
v.set_result(tree, 1., 2.)
v.pause()
v.set_result(tree, 3., 4.)
v.resume()
print(v.table.cpu_time)
assert v.table.cpu_time == 3.
''', 'the statistics of both results are the same object', 'the older CPU time is shown')

seed('D20-fold-below', 'P20', [(V, """    def _widget_collapsed(self, widget):
        stats = widget.get_node().get_value()
        self._expanded_stat_hashes.discard(hash(stats))
""", """    def _widget_collapsed(self, widget):
        stats = widget.get_node().get_value()
        self._expanded_stat_hashes.discard(hash(stats))
        # what is below it is not shown any more.
        self._expanded_stat_hashes.difference_update(map(hash, stats))
""")], VIEW + '''
tree = lambda: stat(None, [stat('a', [stat('b', [stat('c')])])])
v = viewer(tree())
for k in ['down', 'right', 'right', 'right', 'left', 'left', 'left']:
    v.widget.keypress(SIZE, k)
for k in ['down', 'right', 'down', 'right', 'up', 'left', 'right']:
    v.widget.keypress(SIZE, k)
shown = lambda: [l for l in text(v) if ' c' in l]
v = viewer(tree())
v.widget.keypress(SIZE, 'down')     # a
v.widget.keypress(SIZE, 'right')    # unfold a
v.widget.keypress(SIZE, 'right')    # b
v.widget.keypress(SIZE, 'right')    # unfold b
v.widget.keypress(SIZE, 'up')       # a
v.widget.keypress(SIZE, '-')        # fold a
v.widget.keypress(SIZE, '+')        # unfold a
v.set_result(tree(), 10., 20.)
print(shown())
assert shown()
''', 'a function is folded while a callee of it is unfolded', 'the callee is folded too')

seed('D21-minutes', 'P21', [(V, """            return '{:.0f}m'.format(round(sec) // 60)
""", """            return '{:.0f}m'.format(sec / 60)
""")], '''
from profiling.viewer import fmt
print(fmt.format_time(659))
assert fmt.format_time(659) == '10m'
''', 'a time of more than ten minutes', 'it is rounded up')

seed('D22-readable', 'P22', [(RS, """                try:
                    sock.recv(1)
                except""", """                try:
                    if sock.recv(1):
                        # still connected.
                        continue
                except""")], '''
from profiling.remote.select import SelectProfilingServer
class Sock(object):
    def recv(self, n): return b'x'
    def getpeername(self): return ('h', 1)
    def close(self): pass
c = Sock()
s = SelectProfilingServer(None, None)
s.clients.add(c)
s.select_sockets = lambda timeout=None: [c]
s.dispatch_sockets()
print(s.clients)
assert not s.clients
''', 'a client that sends something', 'it is not taken as having left')

seed('D23-exit-code', 'P23', [(M, """    try:
        exec_(code, globals_)
    except BaseException:
        # don't profile print_exc().
""", """    try:
        exec_(code, globals_)
    except SystemExit as exc:
        profiler.stop()
        if exc.code not in (None, 0):
            raise
    except BaseException:
        # don't profile print_exc().
""")], '''
from profiling import __main__ as m
from profiling.sampling import SamplingProfiler
from profiling.sampling.samplers import Sampler
class S(Sampler):
    def __init__(self): pass
    def run(self, profiler): yield
shown = []
class P(SamplingProfiler):
    def run_viewer(self, *a, **k): shown.append(self.is_running())
import io, contextlib
with contextlib.redirect_stderr(io.StringIO()):
    try:
        m.__profile__('x', compile('raise SystemExit(3)', 'x', 'exec'), {},
                      lambda **k: P(sampler=S(), **k))
    except SystemExit:
        pass
print(shown)
assert shown == [False]
''', 'the program exits with a failure', 'there is no result')

seed('D24-own-flag', 'P24', [(RB, """    def _signal_handler(self, signum, frame):
        try:
            if self.profiler.is_running():
                self.profiler.stop()
            else:
                self.profiler.start()
""", """    #: Whether the next signal stops the profiler.
    _started = False

    def _signal_handler(self, signum, frame):
        try:
            self._started = not self._started
            if self._started:
                self.profiler.start()
            else:
                self.profiler.stop()
""")], '''
import os
from profiling.remote import background as m
from profiling.profiler import Profiler
class Inner(Profiler):
    fails = 1
    def run(self):
        if self.fails:
            self.fails -= 1
            raise MemoryError
        yield
p = m.BackgroundProfiler(Inner())
class fake(object):
    getpid = staticmethod(os.getpid)
    @staticmethod
    def kill(pid, sig): p._signal_handler(sig, None)
m.os = fake
try:
    p.start()
except MemoryError:
    pass
p.start()
print(p.profiler.is_running())
assert p.profiler.is_running()
''', 'a start fails and is tried again', 'the profiler is stopped instead of started')

seed('D25-no-port', 'P25', [(M, """        host, port = value.split(':')
        port = int(port)
""", """        host, port = value.split(':')
        port = int(port or DEFAULT_ENDPOINT.split(':')[1])
""")], '''
from profiling.__main__ import Endpoint
try:
    got = Endpoint().convert('h:', None, None)
except ValueError:
    sys.exit(0)
sys.exit('%r' % (got,))
''', 'an endpoint without a port', 'it is accepted')

seed('D28-same-heading', 'P28', [(V, """        for x, (__, __, __, order) in enumerate(self.columns):
            attr = thead_attr + '.sorted' if order is self.order else None
            widget""", """        sorted_names = [name for name, __, __, order in self.columns
                        if order is self.order]
        for x, (name, __, __, __) in enumerate(self.columns):
            attr = thead_attr + '.sorted' if name in sorted_names else None
            widget""")], VIEW + '''
v = viewer(stat(None, [stat('a')]))
v.table.sort_stats(sortkeys.by_own_time_per_call)
v.table.update_frame()
attrs = [w.get_text()[1] for w, __ in v.table.thead.base_widget.contents]
got = [x for x, a in enumerate(attrs) if a and a[0][0]]
print(got)
assert got == [3]
''', 'the table is ordered by a time per call', 'both columns of that name are marked')

seed('D29-hotspot-idle', 'P29', [(V, """            widget.expand()
            widget = widget.first_child()
""", """            widget.expand()
            widget = widget.first_child()
            if widget and not widget.get_node().get_value().deep_hits:
                break
""")], VIEW + '''
v = viewer(stat(None, [stat('a', [stat('b', hits=0)])]))
v.widget.keypress(SIZE, '>')
print(path(v))
assert path(v) == ['a', 'b']
''', 'a callee that was already running and has not been called', 'the focus stays above it')

seed('D30-stderr-cut', 'P30', [(M, """            child_stderr = f.read()
""", """            child_stderr = f.read(65536)
""")], [s for s in _c['SEEDS'] if s['id'] == 'C30-no-int'][0]['demo'].split('try:\n    f((')[0].replace(
    "io.StringIO('')", "io.StringIO('x' * 100000)").replace('raise KeyboardInterrupt', 'pass') + '''
err = io.StringIO()
real, sys.stderr = sys.stderr, err
try:
    f(('x.py', None, {}), (), TracingProfiler, 1, None, 12, 2, False)
except SystemExit:
    pass
finally:
    sys.stderr = real
print(len(err.getvalue()))
assert len(err.getvalue()) == 100000
''', 'a program that writes much to the standard error', 'the end of it is not printed')
