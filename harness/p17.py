"""P17: a failing client never harms the server or other clients."""
from harness.common import Harness
from harness import servers


def failures(ctx, events, faults, nested):
    w = servers.Plain(ctx, wrapped=False)
    w.nfaults, w.nested = faults, nested
    for _ in range(ctx.choose('events', events) + 1):
        w.happen(ctx.pick('event', w.options()))
        for c in w.clients:
            w.verdict(c, True)
        w.settled()
    w.final()
    w.total_logged()
    if [c for c in w.clients if c.failed] and [c for c in w.alive() if w.verdict(c, True)]:
        ctx.cover('others go on')


def during(ctx, events, faults, nested):
    failures(ctx, events, faults, nested)


def select(ctx, events, faults):
    w = servers.Select(ctx, events, faults=faults)
    w.run()
    w.final()
    w.total_logged()


def gevent(ctx, events, faults, nested):
    w = servers.Gevent(ctx, events, faults=faults, nested=nested)
    w.run()
    w.final()
    w.total_logged()


def asyncio(ctx, events, faults):
    w = servers.Asyncio(ctx, events, faults=faults)
    w.run()
    w.final()
    w.total_logged()


_T = ('every history of up to `events` connections, disconnections and intervals, any '
      '`faults` of the sends failing with any error number 1..132')
_N = '; up to `nested` connections, disconnections or intervals while a send is under way'
HARNESSES = [
    Harness('failures', failures, {'quick': dict(events=4, faults=3, nested=0),
                                   'thorough': dict(events=5, faults=4, nested=0)},
            covers=('a send failed', 'others go on'),
            bound_text='the base class; ' + _T),
    Harness('during', during, {'quick': dict(events=3, faults=1, nested=2),
                               'thorough': dict(events=4, faults=2, nested=2)},
            covers=('a send failed', 'during a send: connect', 'during a send: leave',
                    'during a send: tick'),
            bound_text='the base class; ' + _T + _N),
    Harness('select', select, {'quick': dict(events=4, faults=2),
                               'thorough': dict(events=6, faults=3)},
            covers=('a send failed', 'timeout'),
            bound_text='SelectProfilingServer; ' + _T + ' (and any error of recv)'),
    Harness('gevent', gevent, {'quick': dict(events=4, faults=1, nested=1),
                               'thorough': dict(events=5, faults=2, nested=2)},
            covers=('a send failed', 'tick'),
            bound_text='GeventProfilingServer; ' + _T + _N),
    Harness('asyncio', asyncio, {'quick': dict(events=4, faults=2),
                                 'thorough': dict(events=6, faults=3)},
            covers=('a send failed', 'tick'),
            bound_text='AsyncIOProfilingServer; ' + _T),
]
ASSUMPTIONS = ['a send that fails raises socket.error (OSError) with some errno',
               'while a client is being greeted rounds may end; of these it receives the '
               'newest, and every one after that']
