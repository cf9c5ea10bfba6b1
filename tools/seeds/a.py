SEEDS = []


def seed(id, property, edits, demo, needs, breaks, **k):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs,
                      breaks=breaks, **k))


TR = 'profiling/tracing/__init__.py'
SA = 'profiling/sampling/__init__.py'
SS = 'profiling/sampling/samplers.py'
ST = 'profiling/stats.py'
UT = 'profiling/utils.py'
TT = 'profiling/tracing/timers.py'
PR = 'profiling/profiler.py'
R = 'profiling/remote/__init__.py'

FRAMES = '''
class Code(object):
    def __init__(self, name):
        self.co_name, self.co_filename, self.co_firstlineno = name, name + '.py', 1

class Frame(object):
    f_lineno = 1
    def __init__(self, code, back=None):
        self.f_code, self.f_back = code, back
        self.f_globals = self.f_locals = {}

def tree(stats):
    return dict(((s.code.co_name, s.own_hits), tree(s)) for s in stats)
'''

seed('B01-parent-cache', 'P01', [(TR, """        parent_stats = self.stats
        for f in frames:
            parent_stats = parent_stats.ensure_child(f.f_code, void)
""", """        parent_key = frames[-1].f_code if frames else None
        try:
            parent_stats = self._parents[parent_key]
        except KeyError:
            parent_stats = self.stats
            for f in frames:
                parent_stats = parent_stats.ensure_child(f.f_code, void)
            self._parents[parent_key] = parent_stats
"""), (TR, """        self._times_entered = {}
""", """        self._times_entered = {}
        #: Looking a parent up once per call site is enough.
        self._parents = {}
"""), (TR, """    def run(self):
        self._times_entered.clear()
""", """    def run(self):
        self._times_entered.clear()
        self._parents.clear()
""")], FRAMES + '''
from profiling.tracing import TracingProfiler
p = TracingProfiler()
a, b, c, d = map(Code, 'abcd')
def call(*codes):
    f = None
    for x in codes:
        f = Frame(x, f)
    p._profile(f, 'call', None)
call(a, c, d)
call(b, c, d)
t = tree(p.stats)
print(t)
assert t == {('a', 0): {('c', 0): {('d', 1): {}}}, ('b', 0): {('c', 0): {('d', 1): {}}}}
''', 'a function that is called from the same caller on two different call paths',
     'calls are recorded under the first path their direct caller was seen on')

seed('B02-entry-by-code', 'P02', [(TR, """        self._times_entered[(code, frame_key)] = time
        stats.own_hits += 1
""", """        self._times_entered.setdefault(code, time)
        stats.own_hits += 1
"""), (TR, """            time_entered = self._times_entered.pop((code, frame_key))
""", """            time_entered = self._times_entered.pop(code)
""")], FRAMES + '''
from profiling.tracing import TracingProfiler
from profiling.tracing.timers import Timer
class T(Timer):
    now = 0.
    def __call__(self):
        return self.now
t = T()
p = TracingProfiler(timer=t)
code = Code('a')
outer = Frame(code); inner = Frame(code, outer)
for at, f, e in [(1, outer, 'call'), (2, inner, 'call'), (5, inner, 'return'), (9, outer, 'return')]:
    t.now = float(at)
    p._profile(f, e, None)
o, = p.stats
i, = o
print(o.deep_time, i.deep_time)
assert (o.deep_time, i.deep_time) == (8, 3)
''', 'recursion', 'the inner call of a recursive function is charged from the entry of the outer one and the outer one not at all')

seed('B03-cached-back', 'P03', [(SA, """        frames = self.frame_stack(frame)
        if frames:
            frames.pop()
        parent_stats = self.stats
        for f in frames:
            parent_stats = parent_stats.ensure_child(f.f_code, void)
        stats =""", """        back_key = id(frame.f_back)
        parent_stats = self._parent_stats.get(back_key)
        if parent_stats is None:
            frames = self.frame_stack(frame)
            if frames:
                frames.pop()
            parent_stats = self.stats
            for f in frames:
                parent_stats = parent_stats.ensure_child(f.f_code, void)
            self._parent_stats = {back_key: parent_stats}
        stats ="""), (SA, """        self.sampler = sampler

    def sample""", """        self.sampler = sampler
        #: The last parent statistics by the id of the calling frame.
        self._parent_stats = {}

    def sample"""), (SA, """    def run(self):
        self.sampler.start(self)
""", """    def run(self):
        self._parent_stats = {}
        self.sampler.start(self)
""")], FRAMES + '''
from profiling.sampling import SamplingProfiler
p = SamplingProfiler()
a, b, c = map(Code, 'abc')
back = Frame(a)
p.sample(Frame(c, back))
# the frame of `a` is gone; a frame of `b` is at the same address.
back.f_code = b
p.sample(Frame(c, back))
t = tree(p.stats)
print(t)
assert t == {('a', 0): {('c', 1): {}}, ('b', 0): {('c', 1): {}}}
''', 'two consecutive samples below callers whose frames were at the same address',
     'a sample is counted on the call path of an earlier sample')

seed('B04-ignored-base', 'P04', [(UT, """            if frame is base_frame or frame.f_code is base_code:
                break
            if frame in ignored_frames or frame.f_code in ignored_codes:
                pass
            else:
                frames.appendleft(frame)
            frame = frame.f_back
""", """            if frame in ignored_frames or frame.f_code in ignored_codes:
                pass
            elif frame is base_frame or frame.f_code is base_code:
                break
            else:
                frames.appendleft(frame)
            frame = frame.f_back
""")], FRAMES + '''
from profiling.utils import frame_stack
a, b, c = map(Code, 'abc')
fa = Frame(a); fb = Frame(b, fa); fc = Frame(c, fb)
assert list(frame_stack(fc, base_frame=fb)) == [fc]
got = [f.f_code.co_name for f in frame_stack(fc, fb, None, (), set([b]))]
print(got)
assert got == ['c']
''', 'a base frame that is ignored, too', 'frames outside of the base are captured')

seed('B06-void-spread', 'P06', [(ST, """        for stats, spread in spread_stats(self, spreader=True):
            if isinstance(stats, VoidRecordingStatistics):
                spread()
            else:
                times.append(stats.deep_time)
""", """        for stats, spread in spread_stats(self, spreader=True):
            if stats.own_hits:
                times.append(stats.deep_time)
            else:
                # nothing was recorded here.
                spread()
""")], FRAMES + '''
from profiling.stats import RecordingStatistics as Rec, VoidRecordingStatistics as Void
a, b = map(Code, 'ab')
root = Rec()
v = root.ensure_child(a, Void)
r = v.ensure_child(b, Rec)
r.deep_time = 3.0
print(v.deep_time)
assert v.deep_time == 3.0
''', 'a recorded function with time but without a count of its own below an absent caller',
     "the absent caller's inclusive time leaves out the recorded function")

seed('B07-freeze-recursive', 'P07', [(ST, """    tree, stats_tree = [], [(None, stats)]
    for x in itertools.count():
        try:
            parent_offset, _stats = stats_tree[x]
        except IndexError:
            break
        stats_tree.extend((x, s) for s in _stats)
        members = (_stats.name, _stats.filename, _stats.lineno,
                   _stats.module, _stats.own_hits, _stats.deep_time)
        tree.append((parent_offset, members))
    return tree
""", """    tree, index = [], {}
    stats_tree = [(None, stats)]
    for x in itertools.count():
        try:
            parent_offset, _stats = stats_tree[x]
        except IndexError:
            break
        members = (_stats.name, _stats.filename, _stats.lineno,
                   _stats.module, _stats.own_hits, _stats.deep_time)
        # share the entries which are the same.
        offset = index.setdefault((parent_offset, members), len(tree))
        if offset == len(tree):
            tree.append((parent_offset, members))
        stats_tree.extend((offset, s) for s in _stats)
    return tree
""")], '''
import pickle
from profiling.stats import FrozenStatistics as F
r = F('r', None, None, None, 0, 0.0, [F('lambda', 'f.py', 3, 'm', 1, 0.5), F('lambda', 'f.py', 3, 'm', 1, 0.5)])
s = pickle.loads(pickle.dumps(r))
print(len(s), s.deep_hits)
assert len(s) == 2 and s.deep_hits == 2
''', 'two siblings with the same identity and the same figures (two functions defined on one line)',
     'one of them is lost when the profile is saved')

seed('B08-flat-key', 'P08', [(ST, """            key = (_stats.name, _stats.filename, _stats.lineno, _stats.module)
""", """            key = (_stats.regular_name, _stats.filename, _stats.lineno)
"""), (ST, """                flat_stats = flat_children[key] = cls(*key)
""", """                flat_stats = flat_children[key] = cls(
                    _stats.name, _stats.filename, _stats.lineno, _stats.module)
""")], '''
from profiling.stats import FrozenStatistics as F, FlatFrozenStatistics as Flat
r = F('r', None, None, None, 0, 0.0, [F('x', 'f.py', 3, None, 1, 0.5), F(None, 'f.py', 3, 'x', 2, 0.25)])
s = Flat.flatten(r)
print(list(s))
assert sorted(c.own_hits for c in s) == [1, 2]
''', 'a function without a module named like a module without a function name, in the same line',
     'two different functions are merged into one flat entry')

seed('B09-own-time-key', 'P09', [('profiling/sortkeys.py', """by_own_time = SortKey(lambda stat: (-stat.own_time, -stat.deep_time))
""", """by_own_time = SortKey(lambda stat: -(stat.own_time or stat.deep_time))
""")], '''
from profiling import sortkeys
from profiling.stats import FrozenStatistics as F
a = F('a', 'f.py', 1, 'm', 1, 9.0, [F('x', 'f.py', 3, 'm', 1, 9.0)])
b = F('b', 'f.py', 2, 'm', 1, 1.0)
r = F('r', None, None, None, 0, 0.0, [a, b])
got = [s.name for s in r.sorted(sortkeys.by_own_time)]
print(got)
assert got == ['b', 'a']
''', 'an entry without time of its own', 'it is ranked by its inclusive time')

seed('B10-stop-failed', 'P10', [(UT, """        running, self._running = self._running, None
        try:
            next(running)
        except StopIteration:
            # expected.
            pass
        else:
            raise TypeError('run() must yield just one time')
""", """        try:
            next(self._running)
        except StopIteration:
            # expected.
            self._running = None
        else:
            self._running = None
            raise TypeError('run() must yield just one time')
""")], '''
from profiling.utils import Runnable
class R(Runnable):
    def run(self):
        yield
        raise ValueError
r = R()
r.start()
try:
    r.stop()
except ValueError:
    pass
print(r.is_running())
assert not r.is_running()
r.start()
''', 'clean-up that fails', 'it is still taken as running and cannot be started again')

seed('B11-itimer-off', 'P11', [(SS, """            prev_itimer = signal.setitimer(signal.ITIMER_PROF, t, t)
            defer(signal.setitimer, signal.ITIMER_PROF, *prev_itimer)
""", """            signal.setitimer(signal.ITIMER_PROF, t, t)
            defer(signal.setitimer, signal.ITIMER_PROF, 0)
""")], '''
import signal
from profiling.sampling.samplers import ItimerSampler
class P(object):
    def sample(self, frame): pass
signal.signal(signal.SIGPROF, lambda *a: None)
signal.setitimer(signal.ITIMER_PROF, 1000.0, 500.0)
s = ItimerSampler()
p = P()
s.start(p); s.stop()
left, interval = signal.setitimer(signal.ITIMER_PROF, 0)
print(left, interval)
assert left > 900 and interval == 500.0
''', 'an interval timer that was set before', 'it is not put back')

seed('B12-wall-back', 'P12', [(PR, """            wall_time = max(0, time.time() - self._wall_time_started)
""", """            wall_time = time.time() - self._wall_time_started
""")], '''
import time
from profiling.tracing import TracingProfiler
real = time.time
now = [1000.]
time.time = lambda: now[0]
p = TracingProfiler()
p.start()
now[0] = 990.
stats, cpu, wall = p.result()
p.stop()
time.time = real
assert wall == 0, wall
''', 'a wall clock that is set back while the profiler runs', 'the wall time is negative')

seed('B13-throw', 'P13', [(TT, """        origin, target = args
        self.pause(id(origin))
        self.resume(id(target))
""", """        if event != 'switch':
            return
        origin, target = args
        self.pause(id(origin))
        self.resume(id(target))
""")], '''
from profiling.tracing.timers import GreenletTimer
class G(GreenletTimer):
    now = 0.
    greenlet = None
    def clock(self):
        return self.now
g = G()
a, b = object(), object()
g.resume(id(a))
g.now = 3.
g._trace('throw', (a, b))
g.now = 10.
got = g(id(a)), g(id(b))
print(got)
assert got == (3., 7.)
''', 'a greenlet switched to by throwing an exception into it', 'its time is charged to the other greenlet')

seed('B14-grid', 'P14', [(SS, """        self.sampled_times[thread_id] = t
        profiler.sample(frame)
""", """        # keep to the grid of intervals.
        self.sampled_times[thread_id] = t - t % self.interval
        profiler.sample(frame)
""")], '''
from profiling.sampling import samplers
class P(object):
    n = 0
    def sample(self, frame): self.n += 1
p = P()
s = samplers.TracingSampler(2.)
now = [0.]
samplers.thread_clock = lambda: now[0]
got = []
for now[0] in [3., 4., 4.5, 5.]:
    s._profile(p, None, 'call', None)
    got.append(p.n)
print(got)
assert got == [1, 1, 1, 2]
''', 'events that are not aligned to the interval', 'samples of a thread come closer than the interval')

seed('B15-size-16', 'P15', [(R, """SIZE_STRUCT_FORMAT = '!I'
""", """SIZE_STRUCT_FORMAT = '!H'
"""), (R, """    size = dump.tell()
""", """    size = dump.tell() & 0xffff
""")], '''
from profiling.remote import pack_msg, recv_msg, RESULT
import io
class S(object):
    def __init__(self, data): self.f = io.BytesIO(data)
    def recv(self, n, flags=0): return self.f.read(n)
got = recv_msg(S(pack_msg(RESULT, 'x' * 70000)))
assert got == (RESULT, 'x' * 70000)
''', 'a message of more than 65535 bytes', 'it is cut and the rest is taken for further messages')
