"""P22: waiting for sockets honours the timeout despite interruptions."""
import errno
import select as real_select

from harness.common import Harness, base_env
from harness import servers
from symex.loader import FakeModule


class Interrupted(OSError):
    """As select raises it; errno may be symbolic."""

    def __init__(self, no):
        OSError.__init__(self, 'interrupted')
        self.errno = no
        self.args = (no, 'interrupted')


def wait(ctx, interruptions, clients):
    now = [ctx.time('start', 0, 1000)]
    state = dict(calls=0, left=interruptions, raised=None, result=None)
    with_timeout = ctx.choose('with a timeout', 2)
    timeout = ctx.time('timeout', 0, 100) if with_timeout else None
    start = now[0]

    def pass_time(name, at_least=None):
        dt = ctx.time(name, 0, 1000)
        if at_least is not None:
            ctx.assume(dt >= at_least)
        now[0] = now[0] + dt

    def select(r, w, x, t=None):
        state['calls'] += 1
        r = list(r)
        ctx.check(list(w) == [] and list(x) == [], 'only incoming data is awaited')
        ctx.check(len(r) == len(socks) and all(any(a is b for b in r) for a in socks),
                  'the listener and every client are watched')
        if with_timeout:
            ctx.check(t is not None, 'waits for a limited time')
            ctx.check(t >= 0, 'no negative time')
            ctx.check(t <= timeout - (now[0] - start), 'never beyond the remaining time')
        else:
            ctx.check(t is None, 'waits for ever')
        opts = ['ready']
        if with_timeout:
            opts.append('time is over')
        if state['left']:
            opts += ['interrupted', 'bad descriptor', 'error']
        what = ctx.pick('select', opts)
        ctx.cover(what)
        if what == 'time is over':
            pass_time('waited', t)
            return [], [], []
        pass_time('passed')
        if what == 'ready':
            n = ctx.pick('ready sockets', list(range(1, len(socks) + 1)))
            state['result'] = r[:n]
            return r[:n], [], []
        state['left'] -= 1
        if what == 'bad descriptor':
            raise ValueError('file descriptor cannot be a negative integer (-1)')
        no = errno.EINTR
        if what == 'error':
            no = ctx.int('errno', 1, 133)
            ctx.assume(no != errno.EINTR)
            state['raised'] = Interrupted(no)
            raise state['raised']
        raise Interrupted(no)

    base_env(ctx, wall=lambda *a: now[0],
             select=FakeModule('select', real_select, select=select, error=OSError))
    mod = ctx.load('profiling.remote.select')
    listener = 'listener' if ctx.choose('with a listener', 2) else None
    server = mod.SelectProfilingServer(listener, servers.Profiler(), log=lambda x: None)
    for i in range(clients):
        server.clients.add(i)
    socks = ([listener] if listener else []) + list(range(clients))
    try:
        if with_timeout:
            ready = server.select_sockets(timeout)
        else:
            ready = server.select_sockets()
    except OSError as exc:
        ctx.check(exc is state['raised'], 'other errors are passed on, interruptions are not')
        ctx.cover('passed on')
        return
    ctx.check(state['raised'] is None, 'errors are passed on')
    ready = list(ready)
    if state['result'] is None:
        ctx.check(ready == [], 'nothing is ready')
        ctx.check(with_timeout == 1, 'waits until something is ready')
        ctx.check(now[0] - start >= timeout, 'the timeout has elapsed')
        ctx.cover('timed out')
    else:
        ctx.check(len(ready) == len(state['result']) and
                  all(any(a is b for b in state['result']) for a in ready),
                  'the ready sockets')
    ctx.observe('calls', state['calls'])


def dispatch(ctx, events):
    w = servers.Select(ctx, events)
    w.hows = ('eof', 'reset', 'data')
    w.spurious = True
    w.run()
    w.final()
    w.total_logged()


HARNESSES = [
    Harness('wait', wait, {'quick': dict(interruptions=4, clients=2),
                           'thorough': dict(interruptions=6, clients=2)},
            covers=('ready', 'time is over', 'interrupted', 'bad descriptor', 'error',
                    'passed on', 'timed out'),
            bound_text='up to `interruptions` interruptions, bad descriptors and errors of any '
                       'number, any timeout up to 100 s, any time passing at each'),
    Harness('dispatch', dispatch, {'quick': dict(events=4), 'thorough': dict(events=6)},
            covers=('events over', 'timeout', 'nothing to be read'),
            bound_text='every history of `events` connections, disconnections (by closing, '
                       'by a reset, by sending something), readiness without data and '
                       'intervals'),
]
ASSUMPTIONS = ['the clock does not go back while the server waits',
               'binary64 rounding of time differences is not encoded']
