"""P01: traced call counts follow the real call tree."""
from harness.common import Frame, Harness, TwinCode, base_env
from harness.world import Node, World, compare, shape


def history(ctx, threads, events, depth, cevents, ncodes, ignore=False, base=True,
            unseen=False, twins=0):
    hooks = base_env(ctx)
    tracing = ctx.load('profiling.tracing')
    w = World(ctx, ncodes, reuse=bool(ctx.choose('frame memory reused', 2)))
    if twins:
        w.pool = [TwinCode(i) for i in range(twins)]
        ctx.cover('equal codes')
    kw = {}
    ignored = []
    base_frame = None
    if base and ctx.choose('base', 2):
        outer = Frame(w.codes.get(1000), None, -2)
        base_frame = Frame(w.codes.get(1001), outer, -1)
        kw['base_frame'] = base_frame
    if ignore:
        ignored = [ctx.ref(w.codes, 'ignored', ncodes)]
        kw['ignored_codes'] = ignored
    for t in range(threads):
        d = ctx.choose('depth of thread', depth + 1)
        w.thread(d, base_frame if t == 0 else None)
    p = tracing.TracingProfiler(**kw)
    p.start()
    want = Node()
    n = ctx.choose('events', events) + 1
    for _ in range(n):
        opts = []
        for t in range(threads):
            opts.append((t, 'call'))
            if w.threads[t]:
                opts.append((t, 'return'))
                if cevents:
                    opts.append((t, 'c'))
                if unseen:
                    opts.append((t, 'leave'))
        t, kind = ctx.choose_from('event', opts)
        hook = hooks.sys if t == 0 else hooks.threading
        if kind == 'call':
            f = w.call(t)
        elif kind == 'return':
            f = w.threads[t][-1]
        elif kind == 'leave':
            # the program took the hook away for a moment
            w.ret(t)
            ctx.cover('return not seen')
            continue
        else:
            f = w.threads[t][-1]
            ev = ctx.choose_from('c event', ['c_call', 'c_return', 'c_exception'])
            hook(f, ev, len)
            ctx.cover('c event')
            continue
        chain = [g.f_code for g in w.threads[t]
                 if not any(ctx.same(g.f_code, c) for c in ignored)]
        skipped = any(ctx.same(f.f_code, c) for c in ignored)
        if kind == 'call':
            if not skipped:
                node = want.path(ctx, chain)
                node.calls += 1
                if len(chain) > 1 and ctx.eq(chain[-1], chain[-2]):
                    ctx.cover('recursion')
            else:
                ctx.cover('ignored call')
                want.path(ctx, chain, needed=False)
            hook(f, 'call', None)
        else:
            want.path(ctx, chain, needed=False)
            hook(f, 'return', None)
            w.ret(t)
    p.stop()
    stats, _, _ = p.result()
    compare(ctx, want, stats, False)
    ctx.check(stats.own_hits == 0, 'the root counts no call itself')
    if any(k.calls and any(x.placeholder for x in k.kids) for k in want.kids):
        ctx.cover('nested')
    ctx.observe('tree', shape(stats))


def nested(ctx, events, depth, ncodes):
    history(ctx, 1, events, depth, False, ncodes)


def threaded(ctx, events, depth, ncodes):
    history(ctx, 2, events, depth, False, ncodes, base=False)


def c_calls(ctx, events, depth, ncodes):
    history(ctx, 1, events, depth, True, ncodes)


def unseen(ctx, events, depth, ncodes):
    history(ctx, 1, events, depth, False, ncodes, base=False, unseen=True)


def twins(ctx, events, depth, ncodes):
    history(ctx, 1, events, depth, False, ncodes, base=False, twins=ncodes)


def ignoring(ctx, events, depth, ncodes):
    history(ctx, 1, events, depth, False, ncodes, ignore=True)


_T = 'every sequence of 1..events call/return events on stacks that are already ' \
     '0..depth calls deep; codes symbolic (every equality pattern)'
HARNESSES = [
    Harness('nested', nested, {'quick': dict(events=4, depth=2, ncodes=6),
                               'thorough': dict(events=6, depth=2, ncodes=9)},
            covers=('recursion', 'nested'), bound_text='one thread; ' + _T),
    Harness('threaded', threaded, {'quick': dict(events=3, depth=1, ncodes=6),
                                   'thorough': dict(events=4, depth=1, ncodes=7)},
            covers=('nested',), bound_text='two interleaved threads; ' + _T),
    Harness('c_calls', c_calls, {'quick': [dict(events=3, depth=1, ncodes=5),
                                           dict(events=2, depth=2, ncodes=5)],
                                 'thorough': [dict(events=4, depth=1, ncodes=6),
                                              dict(events=3, depth=3, ncodes=6)]},
            covers=('c event',), bound_text='with C-function events; ' + _T),
    Harness('unseen', unseen, {'quick': dict(events=4, depth=1, ncodes=6),
                               'thorough': dict(events=5, depth=1, ncodes=7)},
            covers=('return not seen',),
            bound_text='with returns that are not reported, so that the memory of a '
                       'frame is used again before its return was seen; ' + _T),
    Harness('twins', twins, {'quick': dict(events=4, depth=1, ncodes=3),
                             'thorough': dict(events=5, depth=2, ncodes=4)},
            covers=('equal codes', 'recursion'),
            bound_text='codes of different files that compare equal; ' + _T),
    Harness('ignoring', ignoring, {'quick': dict(events=3, depth=1, ncodes=6),
                                   'thorough': dict(events=4, depth=2, ncodes=8)},
            covers=('ignored call',), bound_text='with one ignored code; ' + _T),
]
ASSUMPTIONS = [
    'events are handled one at a time (interleaved at event granularity)',
    'every event comes from inside the base frame',
]
