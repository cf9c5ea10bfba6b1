"""P10: start and stop alternate, and a failed start leaves it stopped."""
from harness.common import Code, Frame, Harness, base_env


class Boom(Exception):
    pass


class Interrupt(BaseException):
    pass


KINDS = ['good', 'set-up fails', 'set-up is interrupted', 'no yield', 'yields a value',
         'yields twice', 'clean-up fails']


def history(ctx, ops, kinds):
    """A runnable of its own; every start may turn out differently."""
    base_env(ctx)
    utils = ctx.load('profiling.utils')
    log = []

    class Thing(utils.Runnable):
        kind = 'good'
        args = None

        def run(self, *args, **kwargs):
            kind = self.kind
            self.args = (args, kwargs)
            log.append('set-up')
            if kind == 'set-up fails':
                raise Boom()
            if kind == 'set-up is interrupted':
                raise Interrupt()
            if kind == 'no yield':
                return
            try:
                if kind == 'yields a value':
                    yield 42
                else:
                    yield
            finally:
                log.append('clean-up')
            if kind == 'yields twice':
                yield
            if kind == 'clean-up fails':
                raise Boom()

    # (what leaves a block in one history is all of one kind)
    raised = ctx.choose_from('raised', [KeyError, GeneratorExit, SystemExit,
                                        KeyboardInterrupt, StopIteration])
    r = Thing()
    running = None              # the kind it was started with
    ctx.check(not r.is_running(), 'not running before the first start')
    for _ in range(ctx.choose('operations', ops) + 1):
        op = ctx.choose_from('operation', ['start', 'stop', 'with', 'with raising',
                                           'with stopping'])
        del log[:]
        if op != 'stop':
            kind = KINDS[ctx.conc(ctx.int('kind of run', 0, kinds - 1))]
            r.kind = kind
        exc = None
        entered = False
        try:
            if op == 'start':
                r.start(1, a=2)
            elif op == 'stop':
                r.stop()
            else:
                with r as x:
                    entered = True
                    ctx.check(x is r, 'with gives the runnable')
                    ctx.check(r.is_running(), 'running inside the block')
                    if op == 'with raising':
                        raise raised('body')
                    if op == 'with stopping':
                        try:
                            r.stop()
                        except (Boom, TypeError):
                            pass
                        ctx.check(not r.is_running(), 'stopped inside the block')
                        ctx.cover('stopped inside the block')
                    ctx.cover('left at the end')
        except (Exception, Interrupt, raised) as e:
            exc = e
        if op == 'stop':
            if running is None:
                ctx.check(isinstance(exc, RuntimeError), 'stopping a stopped one is refused')
                ctx.check(log == [], 'refused without effect')
                ctx.cover('stop refused')
            else:
                want = {'yields twice': TypeError, 'clean-up fails': Boom}.get(running)
                ctx.check(type(exc) is want if want else exc is None, 'stop reports')
                ctx.check(log == ['clean-up'], 'clean-up exactly once')
                ctx.cover('stopped')
            running = None
        elif running is not None:
            ctx.check(isinstance(exc, RuntimeError), 'starting a running one is refused')
            ctx.check(log == [] and not entered, 'refused without effect')
            ctx.check(r.is_running(), 'still running')
            ctx.cover('start refused')
            continue
        elif kind in ('set-up fails', 'set-up is interrupted', 'no yield', 'yields a value'):
            want = {'set-up fails': Boom, 'set-up is interrupted': Interrupt}.get(kind, TypeError)
            ctx.check(type(exc) is want, 'a failed start is reported')
            ctx.check(not entered, 'the block is not entered')
            ctx.check(log.count('set-up') == 1, 'set-up once')
            ctx.cover(kind)
        elif op == 'start':
            ctx.check(exc is None, 'start succeeds')
            ctx.check(log == ['set-up'], 'set-up exactly once')
            ctx.check(r.args == ((1,), {'a': 2}), 'arguments are handed over')
            running = kind
            ctx.cover('started')
        else:
            ctx.check(entered, 'block entered')
            want = {'yields twice': TypeError, 'clean-up fails': Boom}.get(kind)
            if op == 'with stopping':
                want = RuntimeError     # it is stopped once more at the end of the block
            elif want is None and op == 'with raising':
                want = raised
                ctx.cover(raised.__name__)
            ctx.check(type(exc) is want if want else exc is None, 'with reports')
            ctx.check(log == ['set-up', 'clean-up'], 'set-up and clean-up exactly once')
        ctx.check(r.is_running() == (running is not None),
                  'running exactly after a successful start')
    ctx.observe('running', bool(r.is_running()))


class Faults(object):
    """The environment call number k fails (symbolic k, 0 for none)."""

    def __init__(self, ctx, most):
        self.ctx, self.n = ctx, 0
        self.k = ctx.int('failing environment call', 0, most)
        self.hit = None
        self.armed = True

    def __call__(self, what):
        if not self.armed:
            return
        self.n += 1
        if self.k == self.n:
            self.hit = what
            raise Boom(what)


def profilers(ctx, ops):
    """The real profilers and their samplers and timers, with failing set-ups."""
    hooks = base_env(ctx)
    tracing = ctx.load('profiling.tracing')
    sampling = ctx.load('profiling.sampling')
    samplers = ctx.load('profiling.sampling.samplers')
    timers = ctx.load('profiling.tracing.timers')
    faults = {'on': False}

    class MySampler(samplers.Sampler):
        def run(self, profiler):
            if faults['on']:
                raise Boom()
            yield

    class MyTimer(timers.Timer):
        def run(self, profiler):
            if faults['on']:
                raise Boom()
            yield

    which = ctx.choose('class', 3)
    part = None
    if which == 0:
        part = MyTimer()
        p = tracing.TracingProfiler(timer=part)
    elif which == 1:
        part = MySampler()
        p = sampling.SamplingProfiler(sampler=part)
    else:
        p = tracing.TracingProfiler()
    code, other = Code(0), Code(1)
    running = False
    recorded = 0
    for _ in range(ctx.choose('operations', ops) + 1):
        op = ctx.choose_from('operation', ['start', 'failing start', 'stop', 'record'])
        exc = None
        if op == 'record':
            if which == 1:
                p.sample(Frame(code, None))
                recorded += 1
            elif hooks.sys is not None:
                hooks.sys(Frame(code, None), 'call', None)
                recorded += 1
            continue
        faults['on'] = op == 'failing start' and which < 2
        if op == 'failing start' and which == 2 and hooks.sys is None:
            hooks.sys = foreign
        try:
            if op == 'stop':
                p.stop()
            else:
                p.start()
        except Exception as e:
            exc = e
        if hooks.sys is foreign:
            hooks.sys = None
        faults['on'] = False
        if op == 'stop':
            ctx.check(running == (exc is None), 'stop refused exactly when not running')
            running = False
        elif running:
            ctx.check(isinstance(exc, RuntimeError), 'starting a running one is refused')
            ctx.check(p.stats.deep_hits == recorded, 'refused without any effect')
            ctx.cover('refused while recording')
        elif op == 'start':
            ctx.check(exc is None, 'start succeeds (also after a failed one)', exc)
            running = True
            recorded = 0
        else:
            ctx.check(exc is not None, 'a failed start is reported')
            recorded = 0
            ctx.cover('failed')
        ctx.check(p.is_running() == running, 'running exactly after a successful start')
        if part is not None:
            ctx.check(part.is_running() == running, 'its sampler or timer runs with it')
        ctx.check((hooks.sys is not None) == (running and which != 1),
                  'hooked exactly while running')
    ctx.observe('running', bool(p.is_running()))


def foreign(*a):
    pass


HARNESSES = [
    Harness('history', history,
            {'quick': dict(ops=3, kinds=7), 'thorough': dict(ops=4, kinds=7)},
            covers=('started', 'stopped', 'start refused', 'stop refused',
                    'set-up fails', 'no yield', 'yields a value', 'left at the end',
                    'KeyError', 'GeneratorExit', 'SystemExit', 'KeyboardInterrupt',
                    'StopIteration'),
            bound_text='every history of 1..ops start/stop/with operations; every start '
                       'may meet any of the 7 kinds of run(); a block may be left by any of '
                       'the 5 kinds of exceptions'),
    Harness('profilers', profilers,
            {'quick': dict(ops=4), 'thorough': dict(ops=6)},
            covers=('failed', 'refused while recording'),
            bound_text='tracing and sampling profilers: 1..ops start, failing start, stop '
                       'and recording operations'),
]
ASSUMPTIONS = ['operations do not overlap in time (one thread)']
