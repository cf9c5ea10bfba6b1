"""P07: a saved or transmitted result is the result that was measured."""
from harness.common import Code, Frame, Harness, base_env, null_format
from harness import pickling, trees
from symex.loader import FakeModule

MEMBERS = ('name', 'filename', 'lineno', 'module', 'own_hits', 'deep_time')
DERIVED = ('deep_hits', 'own_time')


def same_value(ctx, a, b):
    if a is None or b is None:
        return a is None and b is None
    return ctx.eq(a, b)


def equal_trees(ctx, a, b, derived=True):
    todo = [(a, b)]
    while todo:
        x, y = todo.pop()
        for m in MEMBERS:
            ctx.check(same_value(ctx, getattr(x, m), getattr(y, m)), 'same ' + m)
        if derived:
            for m in DERIVED + (('regular_name',) if x is a else ()):
                ctx.check(same_value(ctx, getattr(x, m), getattr(y, m)),
                          'same derived ' + m)
        ks, ls = list(x), list(y)
        ctx.check(len(ks) == len(ls), 'same number of children')
        todo.extend(zip(ks, ls))


def roundtrip(ctx, nodes, kind, again):
    base_env(ctx)
    stats = ctx.load('profiling.stats')
    root, specs = trees.shape(ctx, nodes)
    if kind == 'frozen':
        for s in specs:
            trees.identity(ctx, s)
            trees.figures(ctx, s)
        tree = trees.frozen(ctx, stats, root)
    else:
        names = ctx.sort('name', lambda i: ['<module>', 'alpha', 'beta', 'gamma'][i])
        codes = ctx.sort('code', Code)
        for s in specs:
            s.void = bool(s.i and ctx.choose('placeholder', 2))
            s.coded = bool(s.i or ctx.choose('coded root', 2))
            trees.figures(ctx, s)
            if s.void:
                s.hits = 0
                ctx.cover('placeholder')
            c = codes.get(s.i)
            c.co_name = ctx.ref(names, 'co_name', 4)
            c.co_filename = ctx.choose_from('co_filename', ['nomodule.py', 'mod.py'])
            c.co_firstlineno = ctx.int('line', 0, 10 ** 5)
        tree = trees.recording(ctx, stats, root, codes)
    protocol = ctx.choose_from('protocol', [0, 2, -1])
    wire = pickling.dumps(ctx, tree, protocol)
    got = pickling.loads(ctx, wire)
    equal_trees(ctx, tree, got)
    if again:
        twice = pickling.loads(ctx, pickling.dumps(ctx, got, protocol))
        equal_trees(ctx, got, twice)
        ctx.check(type(twice) is type(got), 'saving again changes nothing')
    ctx.cover('done')
    ctx.observe('root', [got.own_hits, got.deep_time, got.own_time])


def deep(ctx, depth):
    """A chain of calls deeper than the recursion limit."""
    base_env(ctx)
    stats = ctx.load('profiling.stats')
    kind = ctx.choose('kind', 2)
    n = ctx.choose_from('depth', [depth // 2, depth])
    hits, time = ctx.int('hits', 0, 1000), ctx.time('time', 0, 1000)
    if kind:
        root = node = stats.RecordingStatistics()
        for i in range(n):
            node = node.ensure_child(Code(i), stats.RecordingStatistics)
            node.own_hits = hits + i
            node.deep_time = time + i
    else:
        node = None
        for i in range(n, -1, -1):
            node = stats.FrozenStatistics('f%d' % i, 'file.py', i, 'mod', hits + i,
                                          time + i, [] if node is None else [node])
        root = node
    got = pickling.loads(ctx, pickling.dumps(ctx, root, 2))
    x, y, k = root, got, 0
    while True:
        for m in MEMBERS:
            ctx.check(same_value(ctx, getattr(x, m), getattr(y, m)), 'same ' + m)
        xs, ys = list(x), list(y)
        ctx.check(len(xs) == len(ys), 'same number of children')
        if not xs:
            break
        x, y, k = xs[0], ys[0], k + 1
    ctx.check(k == n, 'whole depth')
    ctx.cover('deep')


class FakeLoop(object):
    made = []

    def __init__(self, widget, palette=(), *a, **k):
        self.widget = widget
        self.screen = self
        self.event_loop = self
        FakeLoop.made.append(self)

    def set_terminal_properties(self, *a):
        pass

    def run(self):
        self.ran = True


def dump_and_view(ctx):
    """Profiler.dump() followed by `profiling view`."""
    import urwid
    now = [ctx.time('clock', 0, 1000)]
    wall = [ctx.time('wall', 0, 1000)]
    hooks = base_env(ctx, clock=lambda: now[0], wall=lambda: wall[0])
    files = pickling.Files(ctx)
    ctx.module_globals['open'] = files.open
    pk = ctx.fakes['pickle'] = pickling.fake_pickle(ctx)
    FakeLoop.made = []
    ctx.fakes['urwid'] = FakeModule('urwid', urwid, MainLoop=FakeLoop)
    ctx.fakes['os'] = files.fake_os()
    null_format(ctx)
    main = ctx.load('profiling.__main__')
    tracing = ctx.load('profiling.tracing')
    sampling = ctx.load('profiling.sampling')
    which = ctx.choose('profiler', 4)
    codes = [Code(0), Code(1)]
    outer = Frame(codes[0], None)
    inner = Frame(codes[1], outer)
    p = tracing.TracingProfiler() if which in (0, 2) else sampling.SamplingProfiler()
    cls = type(p)
    if which < 2:
        started = ctx.choose('started', 2)
    else:
        started = 0
    stop_first = 0
    if started and which == 0:
        p.start()
        hooks.sys(outer, 'call', None)
        hooks.sys(inner, 'call', None)
        now[0] = now[0] + ctx.time('runs', 0, 1000)
        wall[0] = wall[0] + ctx.time('wall runs', 0, 1000)
        hooks.sys(inner, 'return', None)
        stop_first = ctx.choose('stopped before saving', 2)
        if stop_first:
            p.stop()
        ctx.cover('recorded')
    else:
        p.stats.own_hits = ctx.int('hits', 0, 1000)
        k = p.stats.ensure_child(codes[0], type(p.stats))
        k.own_hits, k.deep_time = ctx.int('hits', 0, 1000), ctx.time('time', 0, 1000)
    saver = p
    if which >= 2:
        bg = ctx.load('profiling.remote.background')
        saver = bg.BackgroundProfiler(p, None)
        ctx.cover('wrapped')
    want_stats, want_cpu, want_wall = p.result()
    name = 'result.prof'
    proto = ctx.choose_from('protocol', [None, 0, 2])
    if proto is None:
        saver.dump(name)
    else:
        saver.dump(name, proto)
    ctx.check(list(files.files) == [name], 'exactly the named file is written')
    main.view.callback(('dump', name), bool(ctx.choose('mono', 2)))
    ctx.check(len(FakeLoop.made) == 1 and FakeLoop.made[0].ran, 'one viewer loop runs')
    table = FakeLoop.made[0].widget.original_widget
    ctx.check(type(table) is cls.table_class, 'the viewer shows the saved profiler type')
    equal_trees(ctx, want_stats, table.stats)
    ctx.check(table.cpu_time == want_cpu, 'saved CPU time')
    ctx.check(table.wall_time == want_wall, 'saved wall time')
    ctx.check(table.viewer.active, 'the viewer is active')
    ctx.observe('times', [want_cpu, want_wall])


HARNESSES = [
    Harness('frozen', roundtrip,
            {'quick': dict(nodes=2, kind='frozen', again=True),
             'thorough': dict(nodes=4, kind='frozen', again=True)}, covers=('done',),
            bound_text='every tree of 1 + 0..nodes frozen nodes; identities, counts and '
                       'times symbolic; pickle protocols 0, 2 and the newest'),
    Harness('recording', roundtrip,
            {'quick': dict(nodes=2, kind='recording', again=False),
             'thorough': dict(nodes=3, kind='recording', again=True)},
            covers=('done', 'placeholder'),
            bound_text='as frozen, for recording trees with placeholders'),
    Harness('deep', deep, {'quick': dict(depth=1500), 'thorough': dict(depth=6000)},
            covers=('deep',), bound_text='a chain deeper than the recursion limit'),
    Harness('dump_and_view', dump_and_view, {'quick': {}},
            covers=('recorded', 'wrapped'),
            bound_text='each profiler type and the background wrapper: saved, then viewed'),
]
ASSUMPTIONS = [
    'the byte encoding of pickle is trusted: symbolic runs follow its object protocol '
    '(reduce, references, memo), replays use the real module',
    'files are in memory; urwid.MainLoop is a recording stand-in; formatting has an '
    'empty body here (P21 covers the text)',
]
