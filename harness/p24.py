"""P24: background start and stop have taken effect when they return."""
from harness.common import Frame, Harness, base_env, code_sort
from harness.p03 import make_sampler
from harness.world import Node, compare
from symex.loader import FakeModule


class Boom(Exception):
    pass


class Hang(Exception):
    pass


class Machine(object):
    """Two threads: the main one handles signals, the other one makes the requests.

    The requesting thread executes; where it blocks, and where it calls into the
    system, the main thread may handle a pending signal.  What the main thread makes
    visible to a waiting requester is looked at in that very moment.
    """

    def __init__(self, ctx):
        self.ctx = ctx
        self.handlers = {}
        self.pending = []
        self.main = False           # whether the main thread executes
        self.waiting = None         # what the requester waits for
        self.wake = lambda: None
        self.handled = 0

    # signals
    def signal(self, signum, handler):
        self.ctx.check(self.main, 'signal handlers are set by the main thread')
        old = self.handlers.get(int(signum))
        self.handlers[int(signum)] = handler
        return old

    def kill(self, pid, signum):
        self.ctx.check(pid == 4242, 'only the own process gets the signal')
        self.send(signum)

    def send(self, signum):
        self.ctx.check(int(signum) in self.handlers, 'the signal has a handler')
        if int(signum) not in self.pending:         # signals do not queue
            self.pending.append(int(signum))
        self.point('signal is sent')

    def point(self, where):
        """The main thread may handle its signal here."""
        if not self.main and self.pending and self.ctx.pick('handled when ' + where,
                                                            [False, True]):
            self.handle()

    def handle(self):
        signum = self.pending.pop(0)
        self.main = True
        self.handled += 1
        try:
            self.handlers[signum](signum, None)
        except (Exception, Boom) as exc:
            self.ctx.check(False, 'the profiled program is not disturbed', repr(exc))
        finally:
            self.main = False

    # waiting
    def block(self, ready, timeout=None):
        """Waits until ready(); returns whether it is."""
        if self.main:
            self.ctx.check(ready(), 'the main thread never waits')
            return True
        while not ready():
            if timeout is not None and self.ctx.pick('times out', [False, True]):
                return False
            if not self.pending:
                raise Hang()
            self.waiting = ready
            try:
                self.handle()
            finally:
                self.waiting = None
        return True

    def changed(self):
        """Something was released: a waiting requester may go on now."""
        if self.main and self.waiting is not None and self.waiting():
            self.wake()
        self.point('something is released')


def primitives(m):
    """threading's synchronisation on the machine."""

    class Event(object):
        def __init__(self):
            self.flag = False

        def is_set(self):
            return self.flag

        isSet = is_set

        def set(self):
            self.flag = True
            m.changed()

        def clear(self):
            m.point('the event is cleared')
            self.flag = False

        def wait(self, timeout=None):
            m.point('it begins to wait')
            return m.block(lambda: self.flag, timeout)

    class Semaphore(object):
        def __init__(self, value=1):
            self.value = value

        def acquire(self, blocking=True, timeout=None):
            m.point('it acquires')
            if not blocking and self.value == 0:
                return False
            if timeout is not None and timeout < 0:
                timeout = None
            if not m.block(lambda: self.value > 0, timeout):
                return False
            self.value -= 1
            return True

        def release(self, n=1):
            self.value += n
            m.changed()

        def locked(self):
            return self.value == 0

        __enter__ = acquire

        def __exit__(self, *exc):
            self.release()

    class RLock(object):
        def __init__(self):
            self.count, self.owner = 0, None

        def acquire(self, blocking=True, timeout=None):
            me = m.main
            if not m.block(lambda: self.count == 0 or self.owner == me, timeout):
                return False
            self.count, self.owner = self.count + 1, me
            return True

        def release(self):
            self.count -= 1
            m.changed()

        __enter__ = acquire

        def __exit__(self, *exc):
            self.release()

    class Condition(object):
        def __init__(self, lock=None):
            self.lock = lock or RLock()
            self.acquire, self.release = self.lock.acquire, self.lock.release
            self.notified = 0
            self.waiters = 0

        def __enter__(self):
            return self.acquire()

        def __exit__(self, *exc):
            self.release()

        def wait(self, timeout=None):
            turn = self.notified
            self.release()
            r = m.block(lambda: self.notified > turn, timeout)
            self.acquire()
            return r

        def wait_for(self, predicate, timeout=None):
            while not predicate():
                if not self.wait(timeout):
                    return predicate()
            return True

        def notify(self, n=1):
            self.notified += n

        notify_all = notify

    return dict(Event=Event, Semaphore=Semaphore, BoundedSemaphore=Semaphore,
                Lock=Semaphore, RLock=RLock, Condition=Condition)


OPS = ['start', 'stop', 'start fails', 'with']


def history(ctx, rounds, events, ncodes, kinds, ops=OPS):
    m = Machine(ctx)
    t = dict(cpu=ctx.time('cpu clock', 0, 1000), wall=ctx.time('wall clock', 0, 1000))
    import os
    import signal
    hooks = base_env(
        ctx, clock=lambda: t['cpu'], wall=lambda: t['wall'], threading=primitives(m),
        os=FakeModule('os', os, kill=m.kill, getpid=lambda: 4242),
        signal=FakeModule('signal', signal, signal=m.signal, raise_signal=m.send,
                          pthread_kill=lambda ident, signum: m.send(signum)))
    background = ctx.load('profiling.remote.background')
    tracing = ctx.load('profiling.tracing')
    sampling = ctx.load('profiling.sampling')
    samplers = ctx.load('profiling.sampling.samplers')
    kind = ctx.pick('profiler', kinds)
    if kind == 'tracing':
        p = tracing.TracingProfiler()
    else:
        p = sampling.SamplingProfiler(sampler=make_sampler(samplers))
    # every toggle of the profiler
    toggles = []
    start, stop = p.start, p.stop

    def toggled(what, f):
        def call():
            ctx.check(m.main, 'the main thread toggles the profiler')
            toggles.append(what)
            return f()
        return call
    p.start, p.stop = toggled('start', start), toggled('stop', stop)
    m.main = True
    number = ctx.pick('signal number', [None, int(signal.SIGUSR1)])
    bg = background.BackgroundProfiler(p, number) if number else \
        background.BackgroundProfiler(p)
    bg.prepare()
    m.main = False
    ctx.check(list(m.handlers) == [number or int(signal.SIGUSR2)], 'one handler, for its signal')
    want = None
    running = False

    def reports(label):
        ctx.check(bg.is_running() == p.is_running(), 'the wrapper reports the state', label)
        ctx.check(bg.stats is p.stats, 'the wrapper reports the statistics', label)
        a, b = bg.result(), p.result()
        ctx.check(a[0] is b[0] and ctx.and_(ctx.eq(a[1], b[1]), ctx.eq(a[2], b[2])),
                  'the wrapper reports the result', label)
        ctx.check(bg.table_class is p.table_class, 'the wrapper reports the table', label)

    for _ in range(rounds):
        op = ctx.pick('request', ops)
        if op == 'start fails':
            if running:
                continue
            if kind == 'tracing':
                hooks.sys = len
            else:
                p.sampler.run = broken
        del toggles[:]
        wanted = op != 'stop'
        expected = 1 if running != wanted else 0
        fails = op == 'start fails'

        def taken(wanted=wanted, fails=fails):
            ctx.check(p.is_running() == (wanted and not fails),
                      'it has taken effect when the requester goes on')
            ctx.check(len(toggles) == 1, 'it has taken effect when the requester goes on')
        m.wake = taken
        exc = None
        try:
            if op == 'stop':
                bg.stop()
            elif op == 'with':
                with bg:
                    ctx.check(p.is_running(), 'running inside the block')
                    m.wake = lambda: ctx.check(not p.is_running(),
                                               'it has taken effect when the requester goes on')
                    del toggles[:]
            else:
                bg.start()
        except Hang:
            ctx.check(False, 'the request ends')
        except (RuntimeError, TypeError, Boom) as e:
            exc = e
        m.wake = lambda: None
        ctx.check(not m.pending, 'it has taken effect when it returns')
        if op == 'with' and not running:
            ctx.check(exc is None and toggles == ['stop'], 'toggled exactly once per request')
            ctx.check(not p.is_running(), 'stopped after the block')
            ctx.cover('with')
            want = None
        elif expected == 0:
            ctx.check(isinstance(exc, RuntimeError), 'a request without sense is refused')
            ctx.check(toggles == [], 'refused without effect')
            ctx.cover('refused')
        elif fails:
            ctx.check(exc is not None, 'a failed start is reported to the requester')
            ctx.check(not p.is_running(), 'a failed start leaves it stopped')
            ctx.cover('failed start')
            want = None
            if kind == 'tracing':
                hooks.sys = None
            else:
                del p.sampler.run
        else:
            ctx.check(exc is None, 'a request succeeds', repr(exc))
            ctx.check(toggles == [op], 'toggled exactly once per request', repr(toggles))
            running = wanted
            ctx.cover(op)
            if running:
                want = Node()
                began = dict(t)
        ctx.check(p.is_running() == running, 'it has taken effect when it returns')
        reports(op)
        # the program goes on
        for _ in range(events):
            if not ctx.pick('the program calls', [False, True]):
                break
            code = ctx.ref(code_sort(ctx), 'code', ncodes)
            frame = Frame(code, None)
            if kind == 'tracing':
                if hooks.sys is not None:
                    hooks.sys(frame, 'call', None)
            elif p.is_running():
                p.sample(frame)
            if running:
                want.path(ctx, [code]).calls += 1
                ctx.cover('recorded')
        for k in t:
            t[k] = t[k] + ctx.time(k + ' goes on', 0, 10)
        if want is not None:
            stats, cpu_time, wall_time = bg.result()
            compare(ctx, want, stats, False)
            if running:
                ctx.check(wall_time == t['wall'] - began['wall'], 'the time of this round')
        ctx.observe('running', bool(bg.is_running()))


def broken(profiler):
    raise Boom()
    yield


def recording(ctx, rounds, events, ncodes):
    history(ctx, rounds, events, ncodes, ['tracing', 'sampling'], ['start', 'stop'])


def direct(ctx, events):
    """Whoever operates the wrapped profiler: the wrapper reports its state."""
    t = [ctx.time('cpu clock', 0, 1000), ctx.time('wall clock', 0, 1000)]
    hooks = base_env(ctx, clock=lambda: t[0], wall=lambda: t[1])
    profiler = ctx.load('profiling.profiler')
    tracing = ctx.load('profiling.tracing')
    sampling = ctx.load('profiling.sampling')
    samplers = ctx.load('profiling.sampling.samplers')
    background = ctx.load('profiling.remote.background')
    kind = ctx.pick('profiler', ['tracing', 'sampling'])
    p = tracing.TracingProfiler() if kind == 'tracing' else \
        sampling.SamplingProfiler(sampler=make_sampler(samplers))
    wrapper = ctx.pick('wrapper', ['background', 'other', 'both'])
    w = p
    if wrapper != 'other':
        w = background.BackgroundProfiler(w)
    if wrapper != 'background':
        class Other(profiler.ProfilerWrapper):
            def run(self):
                self.profiler.start()
                yield
                self.profiler.stop()
        w = Other(w)
    running = False
    for _ in range(ctx.choose('events', events) + 1):
        what = ctx.pick('event', ['stop' if running else 'start', 'call', 'time'])
        if what in ('start', 'stop'):
            getattr(p, what)()
            running = not running
            ctx.cover(what)
        elif what == 'call':
            f = Frame(ctx.ref(code_sort(ctx), 'code', 2), None)
            if kind == 'sampling':
                p.sample(f)
            elif hooks.sys is not None:
                hooks.sys(f, 'call', None)
        else:
            t[0], t[1] = t[0] + ctx.time('cpu', 0, 10), t[1] + ctx.time('wall', 0, 10)
        ctx.check(bool(w.is_running()) == running, 'the wrapper reports the state')
        ctx.check(w.stats is p.stats, 'the wrapper reports the statistics')
        a, b = w.result(), p.result()
        ctx.check(a[0] is b[0] and ctx.and_(ctx.eq(a[1], b[1]), ctx.eq(a[2], b[2])),
                  'the wrapper reports the result')
        ctx.check(w.table_class is p.table_class, 'the wrapper reports the table')
        ctx.observe('running', running)


def numbers(ctx):
    """Several background profilers: each one has a signal of its own."""
    import os
    import signal
    m = Machine(ctx)
    base_env(ctx, threading=primitives(m),
             os=FakeModule('os', os, kill=m.kill, getpid=lambda: 4242),
             signal=FakeModule('signal', signal, signal=m.signal, raise_signal=m.send,
                               pthread_kill=lambda ident, signum: m.send(signum)))
    background = ctx.load('profiling.remote.background')
    tracing = ctx.load('profiling.tracing')
    given = [ctx.pick('signal number', [None, int(signal.SIGUSR1), int(signal.SIGALRM)])
             for _ in range(2)]
    want = [int(n or signal.SIGUSR2) for n in given]
    ctx.assume(want[0] != want[1])
    made = [background.BackgroundProfiler(tracing.TracingProfiler(), *([n] if n else []))
            for n in given]
    which = ctx.pick('the one used', [0, 1])
    m.main = True
    made[which].prepare()
    m.main = False
    ctx.check(list(m.handlers) == [want[which]], 'one handler, for its signal')
    try:
        made[which].start()
    except Hang:
        ctx.check(False, 'the request ends')
    ctx.check([p.profiler.is_running() for p in made] == [which == 0, which == 1],
              'the request is about the wrapped profiler')
    made[which].stop()
    ctx.check(not any(p.profiler.is_running() for p in made), 'stopped')
    ctx.cover('done')


BOTH = ['tracing', 'sampling']
HARNESSES = [
    Harness('history', history,
            {'quick': dict(rounds=3, events=0, ncodes=1, kinds=BOTH),
             'thorough': dict(rounds=4, events=0, ncodes=1, kinds=BOTH)},
            covers=('start', 'stop', 'refused', 'failed start', 'with'),
            bound_text='every history of `rounds` requests (start, stop, failing start, with) '
                       'and every moment of the delivery between the system calls of the '
                       'requester'),
    Harness('recording', recording,
            {'quick': dict(rounds=3, events=1, ncodes=3),
             'thorough': dict(rounds=4, events=1, ncodes=3)},
            covers=('start', 'stop', 'refused', 'recorded'),
            bound_text='every history of `rounds` starts and stops with a program that makes '
                       '0..events calls in between'),
    Harness('numbers', numbers, {'quick': {}}, covers=('done',),
            bound_text='two background profilers with different signals'),
    Harness('direct', direct, {'quick': dict(events=4), 'thorough': dict(events=5)},
            covers=('start', 'stop'),
            bound_text='the background profiler, another wrapper, or one around the other; '
                       'every history of 1..events starts and stops of the wrapped profiler, '
                       'calls and passing time'),
]
ASSUMPTIONS = ['nobody else uses the signal number; requests and direct use of the wrapped profiler are not mixed',
               'one thread makes the requests; the main thread handles signals sooner or later']
