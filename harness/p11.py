"""P11: profiling leaves the process's hooks as it found them."""
from harness.common import Code, Frame, Harness, Hooks, base_env
from symex.loader import FakeModule


class Fault(Exception):
    pass


class Body(Exception):
    pass


class Process(object):
    """The process-wide hooks; the call number `k` fails without an effect."""

    def __init__(self, ctx, most, faults=1):
        self.ctx = ctx
        self.n = 0
        self.ks = [ctx.int('failing environment call', 0, most) for _ in range(faults)]
        self.hooks = dict(sys=None, threading=None, greenlet=None, signal='DFL',
                          itimer=(0.0, 0.0), timer=None)
        self.failed = []
        self.failed_clean_up = set()
        self.cleaning = False
        self.touched = set()
        self.armed = True

    def call(self, what, hook, value, undo):
        self.n += 1
        if self.armed:
            for k in self.ks:
                if k == self.n:
                    self.failed.append(what)
                    if undo:
                        self.failed_clean_up.add(hook)
                    raise Fault(what)
        old = self.hooks[hook]
        self.hooks[hook] = value
        self.touched.add(hook)
        return old


def environment(ctx, proc, before):
    """Installs the stand-ins; `before` are the hooks found by the profiler."""
    import signal
    import threading
    import sys
    h = proc.hooks
    h.update(before)
    base_env(ctx)
    ctx.fakes['sys'] = FakeModule(
        'sys', sys, getprofile=lambda: h['sys'],
        setprofile=lambda f: proc.call('sys.setprofile', 'sys', f, f is before.get('sys'))
        and None)
    ctx.fakes['threading'] = FakeModule(
        'threading', threading,
        setprofile=lambda f: proc.call('threading.setprofile', 'threading', f,
                                       f is before.get('threading') or f is None) and None)

    def set_signal(signum, handler):
        ctx.check(signum == signal.SIGPROF, 'only the profiling signal is touched')
        ctx.check(handler is not None, 'a handler is installed')
        old = before['signal']
        return proc.call('signal.signal', 'signal', handler,
                         handler is old or handler is signal.SIG_IGN)

    def set_itimer(which, delay, interval=0.0):
        ctx.check(which == signal.ITIMER_PROF, 'only the profiling timer is touched')
        proc.n_itimer = getattr(proc, 'n_itimer', 0) + 1
        return proc.call('signal.setitimer', 'itimer', (delay, interval),
                         proc.n_itimer % 2 == 0)

    # real numbers, so that the constants of `signal` keep their meaning
    ctx.fakes['signal'] = FakeModule('signal', signal, signal=set_signal,
                                     setitimer=set_itimer)
    current = [object()]
    ctx.fakes['greenlet'] = FakeModule(
        'greenlet', None, getcurrent=lambda: current[0],
        settrace=lambda f: proc.call('greenlet.settrace', 'greenlet', f, f is None))
    return signal


def same(ctx, a, b):
    return a is b


def hooks(ctx, faults, ops):
    """Start and stop a real profiler, sampler or greenlet timer."""
    proc = Process(ctx, 14, faults)
    foreign = lambda *a: None           # noqa: E731
    which = ctx.choose_from('what', ['tracing', 'tracing, greenlets', 'itimer sampler',
                                     'tracing sampler', 'greenlet timer', 'sampling, itimer',
                                     'sampling, tracing'])
    import signal as real_signal
    sig = ctx.choose_from('signal handler before', ['default', 'ignore', 'handler'])
    handler = {'default': real_signal.SIG_DFL, 'ignore': real_signal.SIG_IGN,
               'handler': foreign}[sig]
    before = dict(signal=handler)
    uses_itimer = 'itimer' in which
    if uses_itimer:
        before['itimer'] = (ctx.time('timer before, delay', 0, 100),
                            ctx.time('timer before, interval', 0, 100))
    else:
        before['itimer'] = (0.0, 0.0)
    environment(ctx, proc, before)
    tracing = ctx.load('profiling.tracing')
    timers = ctx.load('profiling.tracing.timers')
    sampling = ctx.load('profiling.sampling')
    samplers = ctx.load('profiling.sampling.samplers')
    interval = ctx.time('interval', 1, 100)
    args = ()
    sampled = []

    class Consumer(object):
        def sample(self, frame):
            sampled.append(frame)

    consumer = Consumer()
    if which == 'tracing':
        p = tracing.TracingProfiler()
    elif which == 'tracing, greenlets':
        p = tracing.TracingProfiler(timer=timers.GreenletTimer())
    elif which == 'greenlet timer':
        p, args = timers.GreenletTimer(), (consumer,)
    elif which == 'itimer sampler':
        p, args = samplers.ItimerSampler(interval), (consumer,)
    elif which == 'tracing sampler':
        p, args = samplers.TracingSampler(interval), (consumer,)
    elif which == 'sampling, itimer':
        p = sampling.SamplingProfiler(sampler=samplers.ItimerSampler(interval))
    else:
        p = sampling.SamplingProfiler(sampler=samplers.TracingSampler(interval))
    # what else may have been installed: a function, or another profiler
    installed = foreign
    if which in ('tracing', 'tracing, greenlets'):
        if ctx.choose('another profiler is installed', 2):
            other = tracing.TracingProfiler()
            installed = other._profile
    owner = None
    for _ in range(ops):
        exc = None
        proc.cleaning = False
        taken = which.startswith('tracing') and 'sampler' not in which and \
            ctx.choose('a profile function is installed', 2)
        if taken:
            proc.hooks['sys'] = installed
            calls = proc.n
        try:
            p.start(*args)
        except (Fault, RuntimeError) as e:
            exc = e
        if taken:
            ctx.check(isinstance(exc, RuntimeError), 'refuses to replace a profile function')
            ctx.check(proc.hooks['sys'] is installed and proc.n == calls,
                      'the installed profile function is left alone')
            proc.hooks['sys'] = None
            ctx.cover('refused')
        elif exc is None:
            ctx.check(not proc.failed, 'a failing set-up step is reported')
            h = proc.hooks
            if 'itimer' in which:
                ctx.check(ctx.and_(ctx.eq(h['itimer'][0], interval),
                                   ctx.eq(h['itimer'][1], interval)),
                          'the timer ticks at the sampling interval')
                ctx.check(callable(h['signal']) and h['signal'] is not foreign,
                          'the profiling signal is handled')
                if which == 'itimer sampler':
                    f = Frame(Code(0), None)
                    h['signal'](real_signal.SIGPROF, f)
                    ctx.check(sampled[-1:] == [f], 'a signal samples the running frame')
            if which.startswith('tracing') or which == 'sampling, tracing':
                ctx.check(callable(h['sys']), 'the interpreter hook is installed')
                ctx.check(callable(h['threading']), 'new threads are hooked')
            if 'greenlet' in which:
                ctx.check(callable(h['greenlet']), 'the greenlet trace is installed')
            owner = h['signal']
            ctx.cover('started ' + which)
            try:
                if ctx.choose('stopped by with', 2):
                    p.__exit__(Body, Body(), None)
                else:
                    p.stop()
            except Fault as e:
                exc = e
                ctx.cover('failing clean-up')
            if exc is None:
                ctx.check(not proc.failed, 'a failing clean-up step is reported')
        else:
            ctx.check(isinstance(exc, Fault), 'the failure is reported')
            ctx.cover('failed start')
        ctx.check(not p.is_running(), 'not running any more')
        h = proc.hooks
        bad = proc.failed_clean_up
        for name in ('sys', 'threading', 'greenlet'):
            ctx.check(h[name] is None or name in bad, name + ' hook removed')
        if 'signal' not in bad:
            if sig == 'default' and 'signal' in proc.touched:
                ctx.check(h['signal'] is real_signal.SIG_IGN or
                          h['signal'] is real_signal.SIG_DFL,
                          'signal handler put back or ignored')
                if not proc.failed:
                    ctx.check(h['signal'] is real_signal.SIG_IGN, 'a default action is replaced '
                              'by ignoring the signal')
            else:
                ctx.check(h['signal'] is handler, 'signal handler put back')
        if 'itimer' not in bad:
            ctx.check(ctx.and_(ctx.eq(h['itimer'][0], before['itimer'][0]),
                               ctx.eq(h['itimer'][1], before['itimer'][1])),
                      'interval timer put back')
        if bad:
            break
        # from now on everything succeeds
        proc.armed = not proc.failed
        proc.failed = []
        if sig == 'default':
            handler = before['signal'] = h['signal']
            sig = 'ignore' if h['signal'] is real_signal.SIG_IGN else sig
    ctx.observe('calls', proc.n)


class Stop(BaseException):
    pass


def deferral(ctx, actions):
    base_env(ctx)
    utils = ctx.load('profiling.utils')
    n = ctx.choose('actions', actions + 1)
    fails = [ctx.bool('action %d fails' % i) for i in range(n)]
    kind = ctx.choose_from('exception of actions', [Fault, Stop])
    ends = ctx.choose_from('block ends', ['normally', 'exception', 'interrupt', 'closed'])
    log = []

    def act(i, *args, **kwargs):
        log.append((i, args, kwargs))
        if fails[i]:
            raise kind(i)

    def block():
        with utils.deferral() as defer:
            for i in range(n):
                if i % 2:
                    defer(act, i, 'x', key=i)
                else:
                    defer(act, i)
            yield
            if ends == 'exception':
                raise Body()
            if ends == 'interrupt':
                raise Stop('body')

    g = block()
    next(g)
    ctx.check(log == [], 'nothing runs before the end')
    exc = None
    try:
        if ends == 'closed':
            g.close()
        else:
            next(g)
    except StopIteration:
        pass
    except (Fault, Body, Stop) as e:
        exc = e
    ctx.check([i for i, __, __ in log] == list(range(n))[::-1],
              'every deferred action runs exactly once in reverse order')
    for i, args, kwargs in log:
        ctx.check((args, kwargs) == ((('x',), {'key': i}) if i % 2 else ((), {})),
                  'with its own arguments')
    failed = [i for i in range(n) if ctx.conc(fails[i])]
    if failed:
        ctx.check(exc is not None, 'a failing action is reported')
        ctx.cover('failing action')
    elif ends == 'exception':
        ctx.check(isinstance(exc, Body), 'the exception of the block comes out')
    elif ends == 'interrupt':
        ctx.check(isinstance(exc, Stop), 'the exception of the block comes out')
    else:
        ctx.check(exc is None, 'ends without an exception')
    if len(failed) > 1:
        ctx.cover('several failing actions')
    ctx.cover(ends)
    ctx.observe('log', len(log))


HARNESSES = [
    Harness('hooks', hooks,
            {'quick': dict(faults=1, ops=2), 'thorough': dict(faults=2, ops=3)},
            covers=('refused', 'failed start', 'failing clean-up', 'started tracing',
                    'started tracing, greenlets', 'started itimer sampler',
                    'started tracing sampler', 'started greenlet timer',
                    'started sampling, itimer', 'started sampling, tracing'),
            bound_text='each kind of profiler, sampler and the greenlet timer, `ops` '
                       'start/stop rounds; up to `faults` environment calls, at any '
                       'point of set-up or clean-up, fail'),
    Harness('deferral', deferral,
            {'quick': dict(actions=4), 'thorough': dict(actions=6)},
            covers=('normally', 'exception', 'interrupt', 'closed', 'failing action',
                    'several failing actions'),
            bound_text='0..actions deferred actions, any subset failing, every way the '
                       'block may end'),
]
ASSUMPTIONS = [
    'an environment call that fails has no effect; a hook whose own removal fails is '
    'excepted',
    'one interpreter thread; the previous profiling signal handler is one that Python '
    'can put back (not None)',
]
