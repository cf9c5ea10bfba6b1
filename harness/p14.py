"""P14: the tracing sampler respects the interval in every thread."""
from harness.common import Code, Frame, Harness, base_env
from symex.loader import FakeModule

HOUSEKEEPING = 10000


class Threads(object):
    """Threads with an identifier (that may be used again) and a CPU clock."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.now = None             # the running thread: [ident, clock]
        self.live = []

    def spawn(self, ident, clock, known=True):
        """A thread; `known`: it was started by the threading module."""
        t = [ident, clock, known]
        self.live.append(t)
        return t

    def environment(self):
        import six
        import sys
        import threading
        ident = lambda: self.now[0]         # noqa: E731
        hooks = base_env(
            self.ctx, thread_clock=lambda *a: self.now[1],
            sys=dict(_current_frames=lambda: dict((t[0], None) for t in self.live)),
            threading=dict(get_ident=ident,
                           enumerate=lambda: [FakeModule('t', None, ident=t[0])
                                              for t in self.live if t[2]]))
        fake = FakeModule('_thread', None, get_ident=ident)
        self.ctx.fakes['_thread'] = fake
        self.ctx.fakes['six.moves._thread'] = fake
        self.ctx.fakes['six'] = FakeModule(
            'six', six, moves=FakeModule('six.moves', six.moves, _thread=fake))
        return hooks


class Recorder(object):
    def __init__(self):
        self.frames = []

    def sample(self, frame):
        self.frames.append(frame)


def start(ctx, threads, interval):
    hooks = threads.environment()
    samplers = ctx.load('profiling.sampling.samplers')
    sampler = samplers.TracingSampler(interval)
    recorder = Recorder()
    sampler.start(recorder)
    ctx.check(hooks.sys is not None and hooks.threading is not None,
              'events of every thread are seen')
    return hooks, sampler, recorder


def event(ctx, threads, hooks, recorder, t, first, kind):
    """Delivers one event of thread t; returns whether it was sampled."""
    threads.now = t
    f = Frame(Code(0), None)
    before = len(recorder.frames)
    (hooks.sys if t is first else hooks.threading)(f, kind, None)
    taken = len(recorder.frames) - before
    ctx.check(taken in (0, 1), 'at most one sample per event')
    if taken:
        ctx.check(recorder.frames[-1] is f, 'the frame of the event is sampled')
    return bool(taken)


def interleaved(ctx, events, nthreads):
    threads = Threads(ctx)
    interval = ctx.time('interval', 0, 10)
    ctx.assume(interval > 0)
    hooks, sampler, recorder = start(ctx, threads, interval)
    last = {}
    ts = [threads.spawn(100 + i, ctx.time('clock of thread', 0, 100))
          for i in range(nthreads)]
    for _ in range(ctx.choose('events', events) + 1):
        i = ctx.choose('thread', nthreads)
        t = ts[i]
        t[1] = t[1] + ctx.time('runs', 0, 100)
        kind = ctx.choose_from('event', ['call', 'return'])
        taken = event(ctx, threads, hooks, recorder, t, ts[0], kind)
        due = t[1] - last.get(i, 0) >= interval
        ctx.check(due if taken else ctx.not_(due),
                  'sampled exactly when the interval has passed')
        if taken:
            if i in last:
                ctx.cover('sampled again')
            last[i] = t[1]
        else:
            ctx.cover('too early')
    ctx.observe('samples', len(recorder.frames))


def recycled(ctx, events):
    """A thread ends and a new one gets its identifier."""
    threads = Threads(ctx)
    interval = ctx.time('interval', 0, 10)
    ctx.assume(interval > 0)
    hooks, sampler, recorder = start(ctx, threads, interval)
    main = threads.spawn(1, 0.0)
    old = threads.spawn(2, ctx.time('clock of the old thread', 0, 100))
    seen = event(ctx, threads, hooks, recorder, old, main, 'call')
    threads.live.remove(old)
    new = threads.spawn(2, ctx.time('clock of the new thread', 0, 100))
    # the first event of a thread is that of its start: it has hardly run
    ctx.assume(new[1] < old[1])
    last = 0
    for _ in range(events):
        taken = event(ctx, threads, hooks, recorder, new, main, 'call')
        due = new[1] - last >= interval
        ctx.check(due if taken else ctx.not_(due),
                  'a new thread is sampled by its own clock')
        if taken:
            last = new[1]
            ctx.cover('new thread sampled')
        new[1] = new[1] + ctx.time('runs', 0, 100)
    if seen:
        ctx.cover('old thread sampled')
    ctx.observe('samples', len(recorder.frames))


def housekeeping(ctx, after, times=2):
    """Goes on past the periodic housekeeping, the first one or a later one."""
    before = ctx.choose('housekeepings before', times)
    threads = Threads(ctx)
    hooks, sampler, recorder = start(ctx, threads, 1.0)
    main = threads.spawn(1, 0.0)
    alive = threads.spawn(2, 0.0, bool(ctx.choose('started by threading', 2)))
    dead = threads.spawn(3, 0.0)
    last = {}
    alive[1], dead[1] = 5.0, 5.0
    for i, t in ((2, alive), (3, dead)):
        ctx.check(event(ctx, threads, hooks, recorder, t, main, 'call'), 'first sample')
        last[i] = 5.0
    threads.live.remove(dead)
    limit = HOUSEKEEPING * (before + 1)

    def until(samples):
        while len(recorder.frames) < samples:
            main[1] += 1.0
            n = len(recorder.frames)
            event(ctx, threads, hooks, recorder, main, main, 'call')
            ctx.check(len(recorder.frames) == n + 1, 'every interval sampled')
    if before:
        until(limit - 50)
        # the one before has forgotten that thread
        dead = threads.spawn(3, 5.0)
        ctx.check(event(ctx, threads, hooks, recorder, dead, main, 'call'),
                  'threads that have ended are forgotten')
        threads.live.remove(dead)
        ctx.cover('a later housekeeping')
    until(limit - 1 + ctx.choose('one more', 2))
    last[1] = main[1]
    kept = len(recorder.frames) >= limit
    reborn = threads.spawn(3, 5.0 if kept else 0.0)
    last[3] = 0
    # what happens after it, with symbolic clocks
    for _ in range(after):
        i = ctx.choose('thread', 3) + 1
        t = {1: main, 2: alive, 3: reborn}[i]
        t[1] = t[1] + ctx.time('runs', 0, 3)
        taken = event(ctx, threads, hooks, recorder, t, main, 'call')
        due = t[1] - last[i] >= 1.0
        ctx.check(due if taken else ctx.not_(due),
                  'threads that are alive are remembered' if i < 3 else
                  'threads that have ended are forgotten')
        if taken:
            last[i] = t[1]
        ctx.cover('thread %d' % i)
    ctx.observe('samples', len(recorder.frames))


def with_profiler(ctx, events):
    """The sampler inside a sampling profiler."""
    threads = Threads(ctx)
    hooks = threads.environment()
    sampling = ctx.load('profiling.sampling')
    samplers = ctx.load('profiling.sampling.samplers')
    interval = ctx.time('interval', 0, 10)
    ctx.assume(interval > 0)
    p = sampling.SamplingProfiler(sampler=samplers.TracingSampler(interval))
    ctx.check(samplers.TracingSampler().interval == samplers.INTERVAL, 'default interval')
    t = threads.spawn(1, 0.0)
    threads.now = t
    p.start()
    last, n = 0, 0
    for _ in range(events):
        t[1] = t[1] + ctx.time('runs', 0, 100)
        hooks.sys(Frame(Code(0), None), 'call', None)
        if t[1] - last >= interval:
            last, n = t[1], n + 1
        ctx.check(p.stats.deep_hits == n, 'sampled exactly when the interval has passed')
    p.stop()
    ctx.cover('sampled')


def another(ctx, events):
    """A second sampler, after the first one has stopped."""
    threads = Threads(ctx)
    interval = ctx.time('interval', 0, 10)
    ctx.assume(interval > 0)
    hooks, sampler, recorder = start(ctx, threads, interval)
    t = threads.spawn(1, ctx.time('clock', 0, 100))
    if event(ctx, threads, hooks, recorder, t, t, 'call'):
        ctx.cover('sampled by the first')
    sampler.stop()
    samplers = ctx.load('profiling.sampling.samplers')
    longer = ctx.time('interval of the second', 0, 10)
    ctx.assume(longer > 0)
    second, recorder = samplers.TracingSampler(longer), Recorder()
    second.start(recorder)
    last = 0
    for _ in range(events):
        t[1] = t[1] + ctx.time('runs', 0, 100)
        taken = event(ctx, threads, hooks, recorder, t, t, 'call')
        due = t[1] - last >= longer
        ctx.check(due if taken else ctx.not_(due),
                  'another sampler goes by its own samples and interval')
        if taken:
            last = t[1]
            ctx.cover('sampled by the second')
    ctx.observe('samples', len(recorder.frames))


HARNESSES = [
    Harness('interleaved', interleaved,
            {'quick': dict(events=4, nthreads=2), 'thorough': dict(events=5, nthreads=3)},
            covers=('sampled again', 'too early'),
            bound_text='1..events profile events interleaved over nthreads threads, '
                       'symbolic interval and per-thread clocks'),
    Harness('recycled', recycled, {'quick': dict(events=3), 'thorough': dict(events=5)},
            covers=('new thread sampled', 'old thread sampled'),
            bound_text='a new thread with the identifier of an ended one, `events` events'),
    Harness('housekeeping', housekeeping,
            {'quick': dict(after=2), 'thorough': dict(after=3)},
            covers=('thread 1', 'thread 2', 'thread 3', 'a later housekeeping'),
            bound_text='10000 or 20000 samples, then `after` events with symbolic clocks of a '
                       'remembered, a living (started by the threading module or not) and a '
                       'recycled thread'),
    Harness('another', another,
            {'quick': dict(events=3), 'thorough': dict(events=5)},
            covers=('sampled by the first', 'sampled by the second'),
            bound_text='a second sampler after the first one has stopped, `events` events'),
    Harness('with_profiler', with_profiler,
            {'quick': dict(events=3), 'thorough': dict(events=5)}, covers=('sampled',),
            bound_text='the sampler inside a sampling profiler, `events` events'),
]
ASSUMPTIONS = [
    "a thread's CPU clock never decreases and starts at zero; readings are exact reals",
    'events are handled one at a time; a new thread that got the identifier of an ended '
    'one shows its first event before it has run as long as that one had at its last '
    'sample, unless housekeeping came in between',
]
