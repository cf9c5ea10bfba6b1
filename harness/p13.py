"""P13: a context timer counts only the time its context was running."""
from harness.common import Harness, base_env
from symex.loader import FakeModule


class Context(object):
    def __init__(self, i):
        self.i = i

    def __hash__(self):
        return 79


class Clock(object):
    """A clock that never goes backwards."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.t = ctx.time('clock starts at', 0, 1000)

    def step(self):
        self.t = self.t + self.ctx.time('passes', 0, 1000)

    def __call__(self, *a):
        return self.t


def contexts(ctx, ops, ncontexts):
    clock = Clock(ctx)
    base_env(ctx, clock=clock)
    timers = ctx.load('profiling.tracing.timers')
    current = [None]

    class MyTimer(timers.ContextualTimer):
        def detect_context(self):
            return current[0]

    timer, other = MyTimer(), MyTimer()
    sort = ctx.sort('context', Context)
    # contexts are named explicitly, or detected, or only one operation detects
    named = ctx.choose('named', 2)
    mixed = ctx.choose_from('detected by', [None, 'read', 'resume']) if named else None
    ghost = []                  # [context, time so far, running since (or None)]

    def find(c):
        for g in ghost:
            if ctx.same(g[0], c):
                return g
        return None

    def time_of(c):
        g = find(c)
        if g is None:
            return clock.t      # not told apart yet: counts since the clock's zero
        if g[2] is None:
            return g[1]
        return g[1] + (clock.t - g[2])

    for _ in range(ctx.choose('operations', ops) + 1):
        op = ctx.choose_from('operation', ['read', 'pause', 'resume'])
        c = ctx.ref(sort, 'context', ncontexts)
        clock.step()
        before = [(g[0], time_of(g[0])) for g in ghost]
        explicit = named and op != mixed
        args = (c,) if explicit else ()
        if not explicit:
            current[0] = c
        if op == 'read':
            ctx.check(ctx.eq(timer(*args), time_of(c)), 'time while running')
            if find(c) is None:
                ctx.cover('read first')
        elif op == 'pause':
            timer.pause(*args)
            g = find(c)
            if g is None:
                ghost.append([c, clock.t, None])
                ctx.cover('paused first')
            else:
                if g[2] is None:
                    ctx.cover('paused twice')
                g[1], g[2] = time_of(c), None
        else:
            timer.resume(*args)
            g = find(c)
            if g is None:
                ghost.append([c, 0.0, clock.t])
                ctx.cover('resumed first')
            elif g[2] is None:
                g[2] = clock.t
                ctx.cover('paused and resumed')
            else:
                ctx.cover('resumed twice')
        for d, t in before:
            ctx.check(ctx.eq(timer(d), t), 'nothing jumps')
    clock.step()
    reads = []
    for g in ghost:
        t = timer(g[0])
        reads.append(t)
        ctx.check(ctx.eq(t, time_of(g[0])), 'advances exactly while resumed')
        ctx.check(t >= 0, 'never negative')
        ctx.check(ctx.eq(other(g[0]), clock.t), 'another timer is not affected')
    ctx.observe('times', reads)


class Greenlet(object):
    def __init__(self, n):
        self.n = n


def greenlets(ctx, switches, ngreenlets, runs):
    clock = Clock(ctx)
    base_env(ctx, clock=clock)
    state = dict(trace=None, current=None)
    ctx.fakes['greenlet'] = FakeModule(
        'greenlet', None, getcurrent=lambda: state['current'],
        settrace=lambda f: state.update(trace=f), greenlet=Greenlet)
    timers = ctx.load('profiling.tracing.timers')
    timer = timers.GreenletTimer()
    gs = [Greenlet(i) for i in range(ngreenlets)]
    state['current'] = gs[0]
    ran = [0.0] * ngreenlets            # time each greenlet ran while traced
    known = [None] * ngreenlets         # reading minus time ran, constant in a run

    def run():
        d = ctx.time('runs', 0, 1000)
        clock.t = clock.t + d
        if state['trace'] is not None:
            i = state['current'].n
            ran[i] = ran[i] + d

    def read():
        i = state['current'].n
        t = timer()
        if known[i] is None:
            known[i] = t - ran[i]
        else:
            ctx.check(ctx.eq(t, known[i] + ran[i]),
                      'each interval is charged to the greenlet that ran in it')
            ctx.cover('read again')

    def switch():
        origin = state['current']
        target = gs[ctx.choose('target', ngreenlets)]
        state['current'] = target
        if state['trace'] is not None:
            state['trace']('throw' if target.n % 2 else 'switch', (origin, target))

    for r in range(runs):
        timer.start(None)
        read()
        for _ in range(ctx.choose('switches', switches + 1)):
            run()
            read()
            switch()
            read()
        run()
        read()
        timer.stop()
        ctx.check(state['trace'] is None, 'the trace is removed')
        if r + 1 < runs:
            run()
            if ctx.choose('switches without being traced', 2):
                switch()
                run()
                ctx.cover('started again in another greenlet')
    ctx.observe('ran', ran)


def threads(ctx, reads):
    now = [0.0]
    base_env(ctx, thread_clock=lambda *a: now[0])
    timers = ctx.load('profiling.tracing.timers')
    timer = timers.ThreadTimer()
    for _ in range(reads):
        now[0] = ctx.time('CPU time of the running thread', 0, 1000)
        ctx.check(ctx.eq(timer(), now[0]), "the thread's own clock")
    ctx.cover('read')


HARNESSES = [
    Harness('contexts', contexts,
            {'quick': dict(ops=5, ncontexts=3), 'thorough': dict(ops=6, ncontexts=3)},
            covers=('read first', 'paused first', 'resumed first', 'paused twice',
                    'resumed twice', 'paused and resumed'),
            bound_text='every sequence of 1..ops read, pause and resume operations on '
                       'symbolic contexts (named or detected), symbolic clock steps'),
    Harness('greenlets', greenlets,
            {'quick': dict(switches=2, ngreenlets=3, runs=2),
             'thorough': dict(switches=3, ngreenlets=3, runs=2)},
            covers=('read again', 'started again in another greenlet'),
            bound_text='the greenlet timer over `runs` runs of 0..switches switches '
                       'between greenlets'),
    Harness('threads', threads, {'quick': dict(reads=3)}, covers=('read',),
            bound_text='the thread timer reads the clock of the running thread'),
]
ASSUMPTIONS = [
    'clock readings are exact reals that never decrease',
    'a greenlet keeps its identity while its timer runs',
]
