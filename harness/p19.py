"""P19: a paused viewer shows one result; resuming shows the newest."""
from harness.common import Harness
from harness.viewing import Viewing, clock


class Shown(object):
    """A result."""


class Model(Viewing):

    any_header = False

    def __init__(self, ctx, profilers):
        Viewing.__init__(self, ctx, profilers)
        self.results = []
        self.newest = None          # received
        self.shown = None           # to be shown now
        self.at_pause = None
        self.paused = False
        self.type = None

    def result(self):
        ctx, k = self.ctx, len(self.results)
        r = Shown()
        r.name = 'r%d' % k
        r.cpu = ctx.time('cpu', 0, 1000)
        r.wall = ctx.time('wall', 0 if self.any_header else 0.125, 1000)
        r.title, r.at = 'title%d' % k, clock(k)
        if self.any_header:
            r.title = ctx.pick('title', [None, r.title])
            r.at = r.at if ctx.bool('has a time') else None
        inner = self.stat('inner', deep=0.5)
        r.root = self.stat(None, [self.stat(r.name, [inner], deep=1.0), self.stat('other')])
        self.results.append(r)
        self.newest = r
        self.viewer.set_result(r.root, r.cpu, r.wall, title=r.title, at=r.at)
        if not self.paused:
            self.shown = r
        else:
            ctx.cover('result while paused')

    def event(self, what):
        v = self.viewer
        if what == 'result':
            self.result()
        elif what == 'toggle':
            self.key('enter')
            self.toggled(not self.paused)
        elif what == 'pause':
            v.pause()
            self.toggled(True)
        elif what == 'resume':
            v.resume()
            self.toggled(False)
        elif what == 'update':
            v.update_result()
            self.shown = self.at_pause if self.paused else self.newest
        elif what == 'lost':
            v.inactivate()
        elif what == 'welcome':
            v.activate()
        elif what == 'same type':
            v.set_profiler_class(self.classes[self.type])
        elif what == 'other type':
            self.type = self.ctx.pick('type', [t for t in self.classes if t != self.type])
            v.set_profiler_class(self.classes[self.type])
            self.shown = None
        else:
            self.key(what)

    def toggled(self, paused):
        if paused and not self.paused:
            self.at_pause = self.newest
        if not paused:
            if self.paused and self.newest is not self.shown:
                self.ctx.cover('resumed with a newer one')
            self.at_pause = None
            self.shown = self.newest
        self.paused = paused

    def verdict(self):
        ctx, r = self.ctx, self.shown
        ctx.check(bool(self.viewer.paused) == self.paused, 'paused until it is resumed')
        text = self.header()
        ctx.check(type(self.table) is self.classes[self.type].table_class,
                  'the table is that of the profiler')
        if r is None:
            ctx.check(not self.rows() and not self.tokens(text, 't'), 'nothing to be shown')
            return
        names = set(p[0] for p, w in self.rows())
        flat = self.table.layout == self.mod.FLAT
        want = {r.name, 'other'} | ({'inner'} if flat else set())
        ctx.check(names == want, 'the rows are those of the result')
        ctx.check(ctx.eq(self.table.cpu_time, r.cpu), 'shares are of its CPU time')
        times = self.tokens(text, 't')
        ctx.check(len(times) == 2, 'CPU time and wall time are shown')
        ctx.check(ctx.eq(times[0], r.cpu), 'its CPU time')
        ctx.check(ctx.eq(times[1], r.wall), 'its wall time')
        usage = self.tokens(text, 'p')
        ctx.check(len(usage) == 1, 'the CPU usage is shown')
        ratio, denom = usage[0]
        if r.wall == 0:
            ctx.check(ctx.or_(ctx.eq(ratio, 0), ctx.eq(denom, 0)), 'no usage of no time')
        elif denom == 1:
            ctx.check(ctx.eq(ratio, r.cpu / r.wall), 'its CPU usage')
        else:
            ctx.check(ctx.and_(ctx.eq(ratio, r.cpu), ctx.eq(denom, r.wall)), 'its CPU usage')
        for k, o in enumerate(self.results):
            title = 'title%d' % k
            ctx.check((title in text) == (o is r and r.title is not None), 'its title')
            at = '10:20:%d' % (30 + k)
            ctx.check((at in text) == (o is r and r.at is not None), 'its time of day')
        ctx.observe('header', text.split('<')[0])


def history(ctx, events, first=()):
    w = Model(ctx, ('tracing',))
    w.type = 'tracing'
    w.viewer.set_profiler_class(w.classes['tracing'])
    for _ in range(ctx.choose('events', events) + 1):
        w.event(ctx.pick('event', ['result', 'toggle', ']', '\\']))
        w.verdict()


def header(ctx, events):
    w = Model(ctx, ('tracing',))
    w.any_header = True
    w.type = 'tracing'
    w.viewer.set_profiler_class(w.classes['tracing'])
    w.event('result')
    w.verdict()
    for _ in range(events):
        w.event(ctx.pick('event', ['result', 'toggle']))
        w.verdict()
    ctx.cover('shown')


def connections(ctx, events):
    """With the calls a client makes."""
    w = Model(ctx, ('tracing', 'sampling'))
    # another type whose table is one of the first's
    class Derived(w.classes['tracing']):
        class table_class(w.classes['tracing'].table_class):
            pass
    w.classes['derived'] = Derived
    w.type = 'tracing'
    w.viewer.set_profiler_class(w.classes['tracing'])
    w.event('welcome')
    if ctx.choose('begin', 2):
        w.event('result')
    for _ in range(ctx.choose('events', events) + 1):
        events = ['result', 'resume', 'lost', 'welcome', 'same type', 'other type']
        events += [] if w.paused else ['pause']
        if w.shown is not None or not w.paused:
            # (the header of a table that has been replaced meanwhile stays empty)
            events.append('update')
        w.event(ctx.pick('event', events))
        w.verdict()


def moving(ctx, events):
    """Moving around does not show another result."""
    w = Model(ctx, ('tracing',))
    w.type = 'tracing'
    w.viewer.set_profiler_class(w.classes['tracing'])
    w.event('result')
    w.event('toggle')
    w.event('result')
    for _ in range(events):
        w.event(ctx.pick('event', ['right', 'left', 'down', 'up', '>', 'esc', '[', 'result']))
        w.verdict()
    w.event('toggle')
    w.verdict()
    ctx.cover('resumed')


HARNESSES = [
    Harness('history', history, {'quick': dict(events=6), 'thorough': dict(events=8)},
            covers=('result while paused', 'resumed with a newer one'),
            bound_text='every sequence of up to `events` results, pause/resume keys, changes '
                       'of the order and of the layout; CPU time, wall time and times of '
                       'functions any real number 0..1000'),
    Harness('header', header, {'quick': dict(events=2), 'thorough': dict(events=3)},
            covers=('shown',),
            bound_text='results with and without title and time of day, any wall time from 0'),
    Harness('connections', connections, {'quick': dict(events=4), 'thorough': dict(events=5)},
            covers=('result while paused', 'resumed with a newer one'),
            bound_text='every sequence of up to `events` calls of a client or program'),
    Harness('moving', moving, {'quick': dict(events=3), 'thorough': dict(events=4)},
            covers=('result while paused', 'resumed'),
            bound_text='every sequence of `events` keys while paused'),
]
ASSUMPTIONS = ['urwid runs as it is (not encoded); number formatting is decided in P21',
               'when the profiler type changes the table is empty until the next update']
