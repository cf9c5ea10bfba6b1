"""P02: traced time is the program's time, never the profiler's."""
from harness.common import Frame, Harness, base_env
from harness.world import Node, World, compare


class CostlyFrame(Frame):
    """A frame; looking at its caller takes the profiler time."""
    __slots__ = ('back',)
    clock = None

    @property
    def f_back(self):
        if CostlyFrame.clock is not None:
            CostlyFrame.clock.capture()
        return self.back

    @f_back.setter
    def f_back(self, back):
        self.back = back


class SimClock(object):
    """A timer that advances by symbolic steps, told apart by who spends them."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.t = ctx.time('clock starts at', lo=0, hi=1000)
        self.program = 0.0
        self.in_hook = False
        self.reads = 0
        self.captured = True

    def work(self, what='program runs'):
        d = self.ctx.time(what, lo=0, hi=1000)
        self.t = self.t + d
        self.program = self.program + d

    def __call__(self):
        if self.in_hook:
            if self.reads:
                self.t = self.t + self.ctx.time('bookkeeping', lo=0, hi=1000)
            self.reads += 1
        return self.t

    def capture(self):
        """The call stack is walked, which takes time once per event."""
        if self.in_hook and not self.captured:
            self.captured = True
            self.t = self.t + self.ctx.time('walking the stack', lo=0, hi=1000)

    def event(self, hook, *args):
        self.in_hook, self.reads, self.captured = True, 0, False
        hook(*args)
        self.in_hook = False


#: What functions return.
VALUES = [lambda: None, lambda: 0, lambda: (x for x in ()), lambda: [1], lambda: ValueError,
          lambda: 'return']


def shape(node):
    return [[k.own_hits, k.deep_time, shape(k)] for k in node]


def history(ctx, threads, events, depth, ncodes, ignore=False, unseen=False,
            values=False):
    """With `unseen` one entry and one return are not delivered."""
    CostlyFrame.clock = clock = SimClock(ctx)
    hooks = base_env(ctx, clock=clock)
    tracing = ctx.load('profiling.tracing')
    w = World(ctx, ncodes, reuse=bool(unseen or ctx.choose('frame memory reused', 2)),
              frame=Frame if unseen else CostlyFrame)
    lost = ['leave', 'enter'] if unseen else []
    stale = []                  # (code, frame) whose return was not seen
    kw, ignored = {}, []
    if ignore:
        ignored = [ctx.ref(w.codes, 'ignored', ncodes)]
        kw['ignored_codes'] = ignored
    base_frame = Frame(w.codes.get(1001), None, -1)
    for t in range(threads):
        d = ctx.choose('depth of thread', depth + 1)
        w.thread(d, base_frame if t == 0 else None)
    p = tracing.TracingProfiler(base_frame=base_frame, **kw)
    p.start()
    want = Node()
    entered = [[None] * len(s) for s in w.threads]     # (node, program time) per frame
    n = ctx.choose('events', events) + 1
    for _ in range(n):
        opts = []
        for t in range(threads):
            opts.append((t, 'call'))
            if w.threads[t]:
                opts.append((t, 'return'))
            if 'enter' in lost:
                opts.append((t, 'enter'))
            if 'leave' in lost and w.threads[t] and entered[t][-1]:
                opts.append((t, 'leave'))
        t, kind = ctx.choose_from('event', opts)
        hook = hooks.sys if t == 0 else hooks.threading
        clock.work()
        if kind == 'enter':
            w.call(t)
            entered[t].append(None)
            lost.remove('enter')
            ctx.cover('entry not seen')
            continue
        if kind == 'leave':
            f = w.ret(t)
            stale.append((f.f_code, f))
            entered[t].pop()
            lost.remove('leave')
            ctx.cover('return not seen')
            continue
        f = w.call(t) if kind == 'call' else w.threads[t][-1]
        chain = [g.f_code for g in w.threads[t]
                 if not any(ctx.same(g.f_code, c) for c in ignored)]
        skipped = any(ctx.same(f.f_code, c) for c in ignored)
        if kind == 'call':
            entry = None
            if not skipped:
                node = want.path(ctx, chain)
                if node.placeholder:
                    # what ran below it while it was not seen yet stays its own
                    node.time = node.derived()
                    node.placeholder = False
                    if node.kids:
                        ctx.cover('placeholder becomes recorded')
                node.calls += 1
                entry = (node, clock.program)
            entered[t].append(entry)
            clock.event(hook, f, 'call', None)
        else:
            want.path(ctx, chain, needed=False)
            entry = entered[t].pop()
            if entry is not None:
                node, since = entry
                node.time = node.time + (clock.program - since)
                ctx.cover('completed call')
                if node.calls > 1:
                    ctx.cover('second call')
            else:
                ctx.cover('return without entry')
                # nothing tells it from the return that was not seen
                ctx.assume(ctx.not_(ctx.or_(*[
                    ctx.eq(f.f_code, c) for c, g in stale if g is f] or [False])))
            value = None
            if values:
                value = ctx.choose_from('returns', VALUES)()
                ctx.cover('returns nothing' if value is None else 'returns something')
            clock.event(hook, f, 'return', value)
            w.ret(t)
    clock.work()
    p.stop()
    stats, cpu, wall = p.result()
    compare(ctx, want, stats, True)
    ctx.check(cpu == clock.program, 'CPU time is the elapsed time without bookkeeping')
    ctx.observe('cpu', cpu)
    ctx.observe('tree', shape(stats))


def nested(ctx, events, depth, ncodes):
    history(ctx, 1, events, depth, ncodes)


def threaded(ctx, events, depth, ncodes):
    history(ctx, 2, events, depth, ncodes)


def ignoring(ctx, events, depth, ncodes):
    history(ctx, 1, events, depth, ncodes, ignore=True)


def values(ctx, events, depth, ncodes):
    history(ctx, 1, events, depth, ncodes, values=True)


def unseen(ctx, events, depth, ncodes):
    history(ctx, 1, events, depth, ncodes, unseen=True)


_T = 'every sequence of 1..events call/return events on stacks already 0..depth calls ' \
     'deep, with symbolic codes; every time step in [0, 1000] s is symbolic'
HARNESSES = [
    Harness('nested', nested, {'quick': dict(events=5, depth=1, ncodes=6),
                               'thorough': dict(events=7, depth=2, ncodes=9)},
            covers=('completed call', 'second call', 'return without entry',
                    'placeholder becomes recorded'),
            bound_text='one thread; ' + _T),
    Harness('threaded', threaded, {'quick': dict(events=4, depth=1, ncodes=6),
                                   'thorough': dict(events=5, depth=1, ncodes=7)},
            covers=('completed call',), bound_text='two interleaved threads; ' + _T),
    Harness('ignoring', ignoring, {'quick': dict(events=3, depth=1, ncodes=6),
                                   'thorough': dict(events=5, depth=1, ncodes=7)},
            covers=('completed call',), bound_text='with one ignored code; ' + _T),
    Harness('values', values, {'quick': dict(events=3, depth=1, ncodes=2),
                               'thorough': dict(events=4, depth=1, ncodes=4)},
            covers=('completed call', 'returns nothing', 'returns something'),
            bound_text='calls that return nothing, a number, a generator, a list, a class '
                       'and a text; ' + _T),
    Harness('unseen', unseen, {'quick': dict(events=6, depth=1, ncodes=3),
                               'thorough': dict(events=7, depth=1, ncodes=4)},
            covers=('completed call', 'entry not seen', 'return not seen'),
            bound_text='one entry and one return are not delivered and the memory of '
                       'frames is used again (a return without entry in the frame whose '
                       'return was not seen is of another function); ' + _T),
]
ASSUMPTIONS = [
    'clock readings are exact reals in the proof (binary64 rounding of sums is left '
    'out); counterexamples are made concrete on the 2**-20 s grid, where binary64 is exact',
    'one timer shared by all threads (the default Timer); bookkeeping is what passes '
    'between the first and the last reading the profiler takes while handling an event',
]
