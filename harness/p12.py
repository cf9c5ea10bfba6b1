"""P12: each run's result contains that run only."""
from harness.common import AlikeCode, Code, Frame, Harness, base_env
from harness.p03 import make_sampler
from harness.world import World


class Boom(Exception):
    pass


class Clocks(object):
    """CPU and wall clock; the readings of a run can be played again."""

    def __init__(self, ctx, monotonic):
        self.ctx, self.monotonic = ctx, monotonic
        self.t = dict(cpu=ctx.time('cpu clock', 0, 1000), wall=ctx.time('wall clock', 0, 1000))
        self.log = []
        self.replay = None

    def step(self, which):
        d = self.ctx.time(which + ' step', 0 if self.monotonic else -1000, 1000)
        self.t[which] = self.t[which] + d

    def read(self, which):
        if self.replay is not None:
            self.ctx.check(bool(self.replay) and self.replay[0][0] == which,
                           'the same clock readings')
            return self.replay.pop(0)[1]
        self.log.append((which, self.t[which]))
        return self.t[which]


def same_tree(ctx, a, b):
    ctx.check(ctx.eq(a.own_hits, b.own_hits), 'counts of this run only')
    ctx.check(ctx.eq(a.deep_time, b.deep_time), 'time of this run only')
    xs, ys = list(a), list(b)
    ctx.check(len(xs) == len(ys), 'nodes of this run only')
    for x, y in zip(xs, ys):
        ctx.check(x.code is y.code or ctx.eq(x.code, y.code), 'nodes of this run only')
        same_tree(ctx, x, y)


def count(node):
    return sum(1 + count(k) for k in node)


def rounds(ctx, tracing, first, second, ncodes, threads=1):
    clocks = Clocks(ctx, True)
    hooks = base_env(ctx, clock=lambda: clocks.read('cpu'), wall=lambda: clocks.read('wall'))
    trace = ctx.load('profiling.tracing')
    sampling = ctx.load('profiling.sampling')
    samplers = ctx.load('profiling.sampling.samplers')
    utils = ctx.load('profiling.utils')

    def make():
        if tracing:
            return trace.TracingProfiler()
        return sampling.SamplingProfiler(sampler=make_sampler(samplers))

    def deliver(p, event):
        kind, frame, t, code, back = event
        if kind is None:
            return
        # (memory of frames is reused: what the frame was at that moment)
        now = frame.f_code, frame.f_back
        frame.f_code, frame.f_back = code, back
        if tracing:
            (hooks.threading if t else hooks.sys)(frame, kind, None)
        else:
            p.sampler.profiler.sample(frame)
        frame.f_code, frame.f_back = now

    w = World(ctx, ncodes, reuse=threads > 1)
    for t in range(threads):
        w.thread(ctx.choose('already running', 2) if threads == 1 else 0)

    def event(kind, frame, t):
        return kind, frame, t, frame.f_code, frame.f_back

    def happen(n):
        """Symbolic events; yields (kind, frame, thread, code, back)."""
        for _ in range(n):
            t = ctx.choose('thread', threads)
            if w.threads[t] and ctx.choose('returns', 2):
                clocks.step('cpu')
                yield event('return', w.threads[t][-1], t)
                w.ret(t)
            else:
                clocks.step('cpu')
                yield event('call', w.call(t), t)

    p = make()
    p.start()
    for e in happen(ctx.choose('events of the first run', first) + 1):
        deliver(p, e)
        clocks.step('cpu')
    stop_kind = ctx.choose_from('first run ends', ['stop', 'with', 'stop, result'])
    if stop_kind == 'with':
        p.__exit__(Boom, Boom(), None)
    else:
        p.stop()
        if stop_kind == 'stop, result':
            p.result()
    if count(p.stats):
        ctx.cover('something recorded before')
    if ctx.choose('a start in between fails', 2):
        if tracing:
            hooks.sys = len
        else:
            run, p.sampler.run = p.sampler.run, None
        try:
            p.start()
        except (RuntimeError, TypeError):
            pass
        if tracing:
            hooks.sys = None
        else:
            p.sampler.run = run
        ctx.cover('failed start')
    if threads > 1:
        # a function returns or is called while no profiler looks
        for t in range(threads):
            what = ctx.choose('unseen', 3)
            if what == 1 and w.threads[t]:
                w.ret(t)
                ctx.cover('unseen return')
            elif what == 2:
                w.call(t)
    # the second run
    clocks.step('cpu')
    clocks.step('wall')
    del clocks.log[:]
    p.start()
    ctx.check(count(p.stats) == 0, 'starting again discards what was recorded')
    started = dict(clocks.t)
    events = []
    for e in happen(ctx.choose('events of the second run', second + 1)):
        deliver(p, e)
        events.append(e)
        clocks.step('cpu')
    running = ctx.choose('still running', 2)
    if not running:
        p.stop()
    clocks.step('cpu')
    clocks.step('wall')
    stats, cpu, wall = p.result()
    log = list(clocks.log)
    ctx.check(ctx.eq(wall, clocks.t['wall'] - started['wall']), 'wall time since the start')
    ctx.check(cpu >= 0, 'CPU time is never negative')
    if not tracing:
        ctx.check(ctx.eq(cpu, clocks.t['cpu'] - started['cpu']), 'CPU time since the start')
    if running:
        p.stop()
    # a new profiler that sees the second run only
    q = make()
    clocks.replay = log
    q.start()
    for e in events:
        deliver(q, e)
    stats2, cpu2, wall2 = q.result()
    q.stop()
    clocks.replay = None
    same_tree(ctx, stats, stats2)
    ctx.check(ctx.eq(cpu, cpu2), 'CPU time of this run only')
    ctx.check(ctx.eq(wall, wall2), 'wall time of this run only')
    ctx.observe('times', [cpu, wall])
    ctx.cover('done')


def traced(ctx, first, second, ncodes):
    rounds(ctx, True, first, second, ncodes)


def threaded(ctx, first, second, ncodes):
    rounds(ctx, True, first, second, ncodes, threads=2)


def sampled(ctx, first, second, ncodes):
    rounds(ctx, False, first, second, ncodes)


def times(ctx, ops):
    """CPU and wall time over any history of starts and stops, any clocks."""
    clocks = Clocks(ctx, False)
    hooks = base_env(ctx, clock=lambda: clocks.read('cpu'), wall=lambda: clocks.read('wall'))
    trace = ctx.load('profiling.tracing')
    sampling = ctx.load('profiling.sampling')
    samplers = ctx.load('profiling.sampling.samplers')
    which = ctx.choose('profiler', 2)
    p = trace.TracingProfiler() if which else \
        sampling.SamplingProfiler(sampler=make_sampler(samplers))
    started = None
    for _ in range(ctx.choose('operations', ops) + 1):
        op = ctx.choose_from('operation', ['start', 'stop', 'result'])
        clocks.step('cpu')
        clocks.step('wall')
        if op == 'start' and not p.is_running():
            p.start()
            started = dict(clocks.t)
        elif op == 'stop' and p.is_running():
            p.stop()
        elif op == 'result':
            stats, cpu, wall = p.result()
            if started is None:
                ctx.check(cpu == 0 and wall == 0, 'zero for a profiler that never ran')
                ctx.cover('never ran')
            else:
                for what, got in (('cpu', cpu), ('wall', wall)):
                    d = clocks.t[what] - started[what]
                    ctx.check(ctx.eq(got, ctx.max(d, 0)), what + ' time since the start')
                ctx.cover('ran')
    ctx.observe('running', bool(p.is_running()))


def late_result(ctx, ncodes):
    """A failed start after a run that spent time in bookkeeping."""
    clocks = Clocks(ctx, True)
    hooks = base_env(ctx, clock=lambda: clocks.read('cpu'), wall=lambda: clocks.read('wall'))
    trace = ctx.load('profiling.tracing')
    p = trace.TracingProfiler()
    p.start()
    for _ in range(ctx.choose('events', 2)):
        read = clocks.read
        hooks_sys = hooks.sys
        clocks_step = clocks.step

        class Slow(object):
            n = 0
        base_clock = p.timer.clock

        def slow():
            clocks_step('cpu')
            return base_clock()
        p.timer.clock = slow
        hooks_sys(Frame(Code(0), None), 'call', None)
        p.timer.clock = base_clock
    p.stop()
    hooks.sys = len
    ctx.check(ctx.raises(RuntimeError, p.start) is not None, 'refused')
    hooks.sys = None
    clocks.step('cpu')
    stats, cpu, wall = p.result()
    ctx.check(cpu >= 0, 'CPU time is never negative')
    ctx.check(wall >= 0, 'wall time is never negative')
    ctx.cover('done')


def exclude(ctx, nodes, ncodes):
    base_env(ctx)
    profiler = ctx.load('profiling.profiler')
    stats = ctx.load('profiling.stats')
    codes = ctx.sort('code', AlikeCode)
    p = profiler.Profiler()
    tops = []
    for _ in range(ctx.choose('top-level entries', nodes + 1)):
        c = ctx.ref(codes, 'code', ncodes)
        k = p.stats.ensure_child(c, stats.RecordingStatistics)
        k.own_hits = 1
        if ctx.choose('has a child', 2):
            d = ctx.ref(codes, 'nested code', ncodes)
            k.ensure_child(d, stats.RecordingStatistics).own_hits = 2
        if not any(k is t for t in tops):
            tops.append(k)
    gone = ctx.ref(codes, 'excluded', ncodes)
    before = [(t, [(x, x.code, x.own_hits) for x in t]) for t in tops]
    exc = ctx.raises(Exception, p.exclude_code, gone)
    ctx.check(exc is None, 'excluding is harmless')
    left = list(p.stats)
    for t, kids in before:
        here = any(t is x for x in left)
        ctx.check(ctx.same(t.code, gone) != here, 'exactly the entry of that code is removed')
        ctx.check(t.own_hits == 1 and len(list(t)) == len(kids), 'other entries unchanged')
        for x, (y, c, h) in zip(t, kids):
            ctx.check(x is y and x.code is c and x.own_hits == h, 'other entries unchanged')
    ctx.check(len(left) in (len(tops), len(tops) - 1), 'at most one entry removed')
    ctx.cover('removed' if len(left) < len(tops) else 'none')
    ctx.observe('left', len(left))


HARNESSES = [
    Harness('traced', traced,
            {'quick': dict(first=2, second=2, ncodes=4),
             'thorough': dict(first=3, second=3, ncodes=6)},
            covers=('done', 'something recorded before', 'failed start'),
            bound_text='a tracing profiler that ran before (1..first events, any way of '
                       'ending, possibly a failed start) gives the same result for a run '
                       'of 0..second events as a new one; symbolic codes and clocks'),
    Harness('threaded', threaded,
            {'quick': dict(first=1, second=2, ncodes=2),
             'thorough': dict(first=2, second=3, ncodes=3)},
            covers=('done', 'unseen return'),
            bound_text='the same with two threads, calls that span the runs, and returns '
                       'and calls nobody sees between them; memory of frames is reused'),
    Harness('sampled', sampled,
            {'quick': dict(first=2, second=2, ncodes=4),
             'thorough': dict(first=3, second=3, ncodes=6)},
            covers=('done', 'something recorded before', 'failed start'),
            bound_text='the same for the sampling profiler'),
    Harness('times', times, {'quick': dict(ops=4), 'thorough': dict(ops=6)},
            covers=('never ran', 'ran'),
            bound_text='1..ops starts, stops and results; clocks may go backwards'),
    Harness('failed_start', late_result, {'quick': dict(ncodes=2)}, covers=('done',),
            bound_text='a refused start after a run with bookkeeping, then the result'),
    Harness('exclude', exclude, {'quick': dict(nodes=3, ncodes=5),
                                 'thorough': dict(nodes=4, ncodes=7)},
            covers=('removed', 'none'),
            bound_text='0..nodes top-level entries with or without a nested one, any '
                       'equality pattern of codes'),
]
ASSUMPTIONS = ['clock readings are exact reals', 'the tracing timer reads the CPU clock']
