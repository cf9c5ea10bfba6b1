"""P04: a captured stack is exactly the profiled part of the call stack."""
from harness.common import AlikeCode, Code, Frame, Harness, TwinCode, base_env


def chain(ctx, depth):
    """A call stack of `depth` frames (innermost last) with symbolic codes."""
    codes = ctx.sort('code', AlikeCode)
    back, frames = None, []
    for i in range(depth):
        f = Frame(ctx.ref(codes, 'code%d' % i, depth + 1), back, i)
        frames.append(f)
        back = f
    return codes, frames


def settings(ctx, codes, frames, nframes, ncodes):
    """Symbolic base frame, base code, ignored frames and ignored codes."""
    depth = len(frames)
    fs = ctx.sort('frame', lambda i: frames[i] if i < depth else Frame(None, None, 'other'))
    for i in range(depth + 1):
        fs.get(i)
    base_frame = ctx.ref(fs, 'base_frame', depth + 1) if ctx.choose('has_base_frame', 2) else None
    base_code = ctx.ref(codes, 'base_code', depth + 1) if ctx.choose('has_base_code', 2) else None
    kind = ctx.choose_from('container', [tuple, list, frozenset, set])
    nf = ctx.choose('n_ignored_frames', nframes + 1)
    nc = ctx.choose('n_ignored_codes', ncodes + 1)
    ig_f = [ctx.ref(fs, 'ignored_frame%d' % i, depth + 1) for i in range(nf)]
    ig_c = [ctx.ref(codes, 'ignored_code%d' % i, depth + 1) for i in range(nc)]
    return base_frame, base_code, ig_f, ig_c, kind


def verdict(ctx, frames, got, base_frame, base_code, ig_f, ig_c):
    inside = True
    want = []
    for f in reversed(frames):
        at_base = False
        if base_frame is not None:
            at_base = ctx.or_(at_base, ctx.same(base_frame, f))
        if base_code is not None:
            at_base = ctx.or_(at_base, ctx.same(f.f_code, base_code))
        inside = ctx.and_(inside, ctx.not_(at_base))
        ignored = ctx.or_(False, *[ctx.same(x, f) for x in ig_f])
        ignored = ctx.or_(ignored, *[ctx.same(x, f.f_code) for x in ig_c])
        want.append((f, ctx.and_(inside, ctx.not_(ignored))))
    want.reverse()
    got = list(got)
    pos = -1
    for f in got:
        ctx.check(any(f is g for g in frames), 'only frames of the stack are captured')
        ctx.check(f.n > pos, 'outermost first, innermost last, each once')
        pos = f.n
    for f, cond in want:
        present = any(f is g for g in got)
        ctx.check(cond if present else ctx.not_(cond),
                  'exactly the frames inside the base and not ignored')
    ctx.observe('stack', [f.n for f in got])


def plain(ctx, depth, nframes, ncodes):
    base_env(ctx)
    utils = ctx.load('profiling.utils')
    depth = ctx.choose('depth', depth + 1)
    codes, frames = chain(ctx, depth)
    base_frame, base_code, ig_f, ig_c, kind = settings(ctx, codes, frames, nframes, ncodes)
    top = frames[-1] if frames else None
    got = utils.frame_stack(top, base_frame, base_code, kind(ig_f), kind(ig_c))
    verdict(ctx, frames, got, base_frame, base_code, ig_f, ig_c)
    ctx.cover('captured')
    if depth and len(got) == 0:
        ctx.cover('nothing left')
    if depth > 1 and 0 < len(got) < depth:
        ctx.cover('partly left out')


def profilers(ctx, depth):
    """Every profiler class hands its own settings to the capture."""
    base_env(ctx)
    which = ctx.choose('class', 3)
    name = ['profiling.profiler', 'profiling.tracing', 'profiling.sampling'][which]
    cls = getattr(ctx.load(name), ['Profiler', 'TracingProfiler', 'SamplingProfiler'][which])
    codes, frames = chain(ctx, ctx.choose('depth', depth) + 1)
    base_frame, base_code, ig_f, ig_c, kind = settings(ctx, codes, frames, 1, 1)
    if ctx.choose('keywords', 2):
        p = cls(base_frame=base_frame, base_code=base_code,
                ignored_frames=kind(ig_f), ignored_codes=kind(ig_c))
    else:
        p = cls(base_frame, base_code, kind(ig_f), kind(ig_c))
    got = p.frame_stack(frames[-1])
    verdict(ctx, frames, got, base_frame, base_code, ig_f, ig_c)
    ctx.cover('class %d' % which)


def twins(ctx, depth):
    """A base code that equals other code (of other files)."""
    base_env(ctx)
    utils = ctx.load('profiling.utils')
    pool = [TwinCode(i) for i in range(4)]
    back, frames = None, []
    for i in range(ctx.choose('depth', depth) + 1):
        back = Frame(ctx.pick('code', pool), back, i)
        frames.append(back)
    base = ctx.pick('base code', pool)
    got = utils.frame_stack(frames[-1], None, base, (), ())
    verdict(ctx, frames, got, None, base, [], [])
    if any(f.f_code == base and f.f_code is not base for f in frames):
        ctx.cover('equal code')


HARNESSES = [
    Harness('frame_stack', plain,
            {'quick': dict(depth=3, nframes=1, ncodes=1),
             'thorough': dict(depth=4, nframes=2, ncodes=2)},
            covers=('captured', 'nothing left', 'partly left out'),
            bound_text='call stacks of 0..depth frames; every equality pattern between '
                       'their codes, base frame, base code, up to nframes/ncodes ignored'),
    Harness('twins', twins,
            {'quick': dict(depth=3), 'thorough': dict(depth=4)}, covers=('equal code',),
            bound_text='call stacks of 1..depth frames whose codes may equal the base code'),
    Harness('profilers', profilers,
            {'quick': dict(depth=2), 'thorough': dict(depth=3)},
            covers=('class 0', 'class 1', 'class 2'),
            bound_text='each profiler class, settings positional or by keyword'),
]
ASSUMPTIONS = [
    'frames, base and ignored code are compared by identity (real code objects are ignored '
    'if they are structurally equal to an ignored one, which is left out)',
    'the pure Python implementation is the one selected; the C one is P05',
]
