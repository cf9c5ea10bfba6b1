"""P16: clients get a welcome, the profiler type, then every result in order."""
from harness.common import Harness
from harness import servers


def during(ctx, events, nested):
    history(ctx, events, nested)


def history(ctx, events, nested=0):
    w = servers.Plain(ctx, wrapped=not nested)
    w.nested = nested
    w.inner.fail_start = bool(ctx.choose('another profiler is registered', 2))
    for _ in range(ctx.choose('events', events) + 1):
        what = ctx.pick('event', w.options())
        w.happen(what)
        for c in w.clients:
            w.verdict(c, True)
        w.settled()
        if what == 'tick':
            w.idle()
            ctx.cover('tick')
            if not w.clients:
                ctx.check(w.inner.rounds == 0, 'no round without a client')
    w.final()
    w.total_logged()
    if len(w.clients) > 1:
        ctx.cover('several clients')
    if w.clients and w.clients[0].left and w.alive():
        ctx.cover('started again')


def two(ctx, events):
    """Two servers in one process: nothing of one is seen by the other."""
    worlds = [servers.Plain(ctx, wrapped=False) for _ in range(2)]
    for _ in range(events):
        w = worlds[ctx.choose('server', 2)]
        w.happen(ctx.pick('event', w.options()))
        for x in worlds:
            for c in x.clients:
                x.verdict(c, True)
            x.settled()
    for w in worlds:
        w.final()
        w.total_logged()
    if all(w.clients for w in worlds):
        ctx.cover('both have clients')
    ctx.cover('tick')


def select(ctx, events, live=False):
    w = servers.Select(ctx, events, live=live)
    w.run()
    w.final()
    w.total_logged()


def live(ctx, events):
    select(ctx, events, True)


def gevent(ctx, events):
    w = servers.Gevent(ctx, events)
    w.run()
    w.final()
    w.total_logged()


def asyncio(ctx, events):
    w = servers.Asyncio(ctx, events)
    w.run()
    w.final()
    w.total_logged()


_T = 'every history of up to `events` connections, disconnections and intervals'
HARNESSES = [
    Harness('history', history, {'quick': dict(events=4), 'thorough': dict(events=6)},
            covers=('tick', 'several clients', 'started again', 'latest result first'),
            bound_text='the base class; ' + _T + '; profiler wrapped 0..2 times'),
    Harness('during', during, {'quick': dict(events=3, nested=1),
                               'thorough': dict(events=4, nested=2)},
            covers=('during a send: connect', 'latest result first'),
            bound_text='the base class; ' + _T + '; up to `nested` of them while a send is '
                       'under way'),
    Harness('two', two, {'quick': dict(events=3), 'thorough': dict(events=4)},
            covers=('both have clients', 'tick'),
            bound_text='two servers of the base class; every interleaving of `events` '
                       'connections, disconnections and intervals'),
    Harness('select', select, {'quick': dict(events=5), 'thorough': dict(events=7)},
            covers=('events over', 'timeout', 'latest result first'),
            bound_text='SelectProfilingServer.serve_forever over a stand-in for select(); ' + _T),
    Harness('live', live, {'quick': dict(events=5), 'thorough': dict(events=8)},
            covers=('served', 'timeout'),
            bound_text='SelectProfilingServer without a listener (live profiling)'),
    Harness('gevent', gevent, {'quick': dict(events=5), 'thorough': dict(events=7)},
            covers=('tick', 'latest result first'),
            bound_text='GeventProfilingServer over a stand-in for gevent; ' + _T),
    Harness('asyncio', asyncio, {'quick': dict(events=5), 'thorough': dict(events=7)},
            covers=('tick', 'latest result first'),
            bound_text='AsyncIOProfilingServer over a stand-in for asyncio; ' + _T),
]
ASSUMPTIONS = ['messages are told apart by their content only (pickling is decided in P07, '
               'framing in P15)',
               'greenlets switch only where they sleep, wait or spawn (sends do not block '
               'in P16; see P17)']
