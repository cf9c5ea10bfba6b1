"""P03: every sample is counted exactly once, on the sampled call path."""
from harness.common import AlikeCode, Code, Frame, Harness, TwinCode, base_env
from harness.world import Node, compare
from symex.loader import FakeModule


def shape(node):
    return [[k.own_hits, shape(k)] for k in node]


def make_sampler(samplers):
    class ManualSampler(samplers.Sampler):
        profiler = None

        def run(self, profiler):
            self.profiler = profiler
            yield
            self.profiler = None
    return ManualSampler()


def samples(ctx, samples, depth, ncodes, ignore, base, recycle=False, twins=False):
    base_env(ctx)
    samplers = ctx.load('profiling.sampling.samplers')
    sampling = ctx.load('profiling.sampling')
    codes = ctx.sort('code', AlikeCode)
    kw, ignored = {}, []
    base_frame = base_code = None
    if base:
        outer = Frame(codes.get(1000), None, -2)
        base_code = codes.get(1001)
        base_frame = Frame(base_code, outer, -1)
        if ctx.choose('base by code', 2):
            kw['base_code'] = base_code
        else:
            kw['base_frame'] = base_frame
    if ignore:
        ignored = [ctx.ref(codes, 'ignored', ncodes)]
        kw['ignored_codes'] = ignored
    sampler = make_sampler(samplers)
    p = sampling.SamplingProfiler(sampler=sampler, **kw)
    p.start()
    want = Node()
    n = ctx.choose('samples', samples) + 1
    counted = 0
    stack, free = [], []
    pool = [TwinCode(i) for i in range(ncodes)]
    for _ in range(n):
        # the sampled stack shares its outer frames with the previous one
        keep = min(len(stack), ctx.choose('frames kept', depth + 1)) if stack else 0
        if recycle:
            free = stack[keep:]         # memory that new frames may get
        stack = stack[:keep]
        more = ctx.choose('frames pushed', depth + 1 - keep)
        for _ in range(more):
            back = stack[-1] if stack else base_frame
            code = ctx.choose_from('code', pool) if twins else \
                ctx.ref(codes, 'code', ncodes)
            if free:
                f = free.pop(ctx.choose('memory', len(free)))
                f.f_code, f.f_back = code, back
                ctx.cover('memory of a frame reused')
            else:
                f = Frame(code, back, 0)
            stack.append(f)
        if not stack and base_frame is None:
            ctx.end('no frame to sample')
        top = stack[-1] if stack else base_frame
        sampler.profiler.sample(top)
        chain = [f.f_code for f in stack
                 if not any(ctx.same(f.f_code, c) for c in ignored)]
        if len(chain) < len(stack):
            ctx.cover('ignored frame on the stack')
            if ctx.same(top.f_code, ignored[0]):
                ctx.cover('ignored frame sampled')
        if not chain:
            if base_frame is None:
                continue            # nothing but ignored frames
            chain = [base_code]     # the base frame itself
            ctx.cover('base frame sampled')
        node = want.path(ctx, chain)
        if node.placeholder and node.kids:
            ctx.cover('placeholder sampled')
        node.calls += 1
        node.placeholder = False
        counted += 1
    p.stop()
    stats, _, _ = p.result()
    compare(ctx, want, stats, False)
    ctx.check(stats.deep_hits == counted, 'the root includes every sample')
    ctx.check(stats.own_hits == 0, 'no sample on the root itself')
    ctx.observe('tree', shape(stats))
    ctx.cover('done')


def signals(ctx, samples, depth):
    """Samples taken by the interval timer, in frames that may not have moved on."""
    import signal
    base_env(ctx)
    handlers = {}

    def set_signal(signum, handler):
        handlers[int(signum)], old = handler, handlers.get(int(signum), signal.SIG_IGN)
        return old
    ctx.fakes['signal'] = FakeModule('signal', signal, signal=set_signal,
                                     getsignal=lambda n: handlers.get(int(n), signal.SIG_IGN),
                                     setitimer=lambda *a: (0.0, 0.0))
    samplers = ctx.load('profiling.sampling.samplers')
    sampling = ctx.load('profiling.sampling')
    p = sampling.SamplingProfiler(sampler=samplers.ItimerSampler(1.0))
    p.start()
    codes = ctx.sort('code', AlikeCode)
    stack = []
    for i in range(ctx.choose('depth', depth) + 1):
        stack.append(Frame(ctx.ref(codes, 'code', i + 1), stack[-1] if stack else None))
    want = Node()
    n = ctx.choose('samples', samples) + 1
    for _ in range(n):
        top = stack[ctx.choose('frame', len(stack))]
        top.f_lasti = ctx.int('instruction', 0, 1)
        top.f_lineno = ctx.int('line', 1, 2)
        handlers[int(signal.SIGPROF)](signal.SIGPROF, top)
        chain = [f.f_code for f in stack[:stack.index(top) + 1]]
        node = want.path(ctx, chain)
        node.calls += 1
        node.placeholder = False
    p.stop()
    stats, _, _ = p.result()
    compare(ctx, want, stats, False)
    ctx.check(stats.deep_hits == n, 'every signal is a sample')
    ctx.observe('tree', shape(stats))
    ctx.cover('sampled again' if n > 1 else 'sampled')


_T = 'every sequence of 1..samples sampled stacks of 0..depth frames with symbolic codes'
HARNESSES = [
    Harness('stacks', samples,
            {'quick': dict(samples=3, depth=3, ncodes=10, ignore=False, base=False),
             'thorough': dict(samples=4, depth=3, ncodes=13, ignore=False, base=False)},
            covers=('done', 'placeholder sampled'), bound_text=_T),
    Harness('recycled', samples,
            {'quick': dict(samples=2, depth=3, ncodes=6, ignore=False, base=False,
                           recycle=True),
             'thorough': dict(samples=3, depth=3, ncodes=9, ignore=False, base=False,
                              recycle=True)},
            covers=('done', 'memory of a frame reused'),
            bound_text=_T + '; new frames get the memory of those that are gone'),
    Harness('twins', samples,
            {'quick': dict(samples=2, depth=2, ncodes=3, ignore=False, base=False,
                           twins=True),
             'thorough': dict(samples=3, depth=2, ncodes=4, ignore=False, base=False,
                              twins=True)},
            covers=('done',),
            bound_text=_T + '; codes of different files that compare equal'),
    Harness('inside_base', samples,
            {'quick': dict(samples=3, depth=2, ncodes=7, ignore=False, base=True),
             'thorough': dict(samples=4, depth=2, ncodes=9, ignore=False, base=True)},
            covers=('done', 'base frame sampled'), bound_text=_T + ', above a base frame'),
    Harness('ignoring', samples,
            {'quick': dict(samples=2, depth=3, ncodes=7, ignore=True, base=True),
             'thorough': dict(samples=3, depth=3, ncodes=10, ignore=True, base=True)},
            covers=('done', 'ignored frame on the stack', 'ignored frame sampled'),
            bound_text=_T + ', with one ignored code'),
    Harness('signals', signals,
            {'quick': dict(samples=3, depth=2), 'thorough': dict(samples=4, depth=3)},
            covers=('sampled', 'sampled again'),
            bound_text='1..samples signals of the interval timer in frames of one call stack '
                       'of 1..depth calls, at the same or another instruction'),
]
ASSUMPTIONS = ['samples are handled one at a time']
