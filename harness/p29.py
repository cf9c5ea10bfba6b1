"""P29: the keys of the viewer do what the documentation says."""
from harness.common import Harness, base_env
from harness.viewing import Viewing

#: (name, callees)
SHAPES = [
    [('a', [('b', [('c', []), ('d', [])]), ('e', [])]), ('f', [('h', [])]), ('g', [])],
    [('a', [('b', [('c', [])])]), ('d', [])],
    [('a', [])],
    [],
]
ALIASES = {
    'vim': dict(h='left', j='down', k='up', l='right'),
    'game': dict(a='left', s='down', w='up', d='right'),
}


class Model(Viewing):
    """What the keys do."""

    def __init__(self, ctx, shape, times, kind='tracing'):
        Viewing.__init__(self, ctx, (kind,))
        self.left = times           # how many times are symbolic
        self.n = 0
        self.viewer.set_profiler_class(self.classes[kind])
        self.viewer.activate()
        self.shape = SHAPES[shape]
        self.root_stats = self.stat(None, self.build(self.shape))
        self.viewer.set_result(self.root_stats, 3.0, 4.0)
        self.at = ()                # the focus; (): nothing is focused
        self.unfolded = set()       # names
        self.flat = self.paused = False
        self.column = 5 if kind == 'tracing' else 3

    def build(self, shape):
        out = []
        for name, callees in shape:
            self.n += 1
            deep = 10.0 + self.n
            if self.left:
                self.left -= 1
                deep = self.ctx.time('deep time', 0, 100)
            out.append(self.stat(name, self.build(callees), hits=2 * self.n % 3, deep=deep))
        return out

    # the rows there should be
    def tree(self):
        if not self.flat:
            return self.shape
        names = []

        def walk(shape):
            for name, callees in shape:
                if name not in names:
                    names.append(name)
                walk(callees)
        walk(self.shape)
        return [(n, []) for n in names]

    def callees(self, path):
        level = self.tree()
        for name in path:
            level = dict(level)[name]
        return [n for n, _ in level]

    def node(self, path):
        node = self.root()
        for name in path:
            for x in node.get_child_keys():
                if x.name == name:
                    node = node.get_child_node(x)
                    break
            else:
                self.ctx.check(False, 'a row for every function', '%s' % (path,))
        return node

    def ordered(self, path):
        """The callees in the order the table has them."""
        names = [x.name for x in self.node(path).get_child_keys()] \
            if self.callees(path) else []
        self.ctx.check(sorted(names) == sorted(self.callees(path)), 'the callees, each once')
        return names

    def visible(self):
        out = []

        def walk(path):
            for n in self.ordered(path):
                out.append(path + (n,))
                if n in self.unfolded:
                    walk(path + (n,))
        walk(())
        return out

    # keys
    def press(self, key, meaning=None):
        ctx = self.ctx
        meaning = meaning or key
        rows = self.visible()
        before = self.at
        kids = self.callees(before)
        has = bool(before) and bool(kids)
        unhandled = False
        order = [o for _, _, _, o in self.table.columns]
        if meaning == 'down':
            if not rows:
                unhandled = None
            elif not before:
                self.at = rows[0]
            elif rows.index(before) + 1 < len(rows):
                self.at = rows[rows.index(before) + 1]
                ctx.cover('down')
            else:
                unhandled = None
        elif meaning == 'up':
            if before and rows.index(before):
                self.at = rows[rows.index(before) - 1]
                ctx.cover('up')
            else:
                unhandled = None
        elif self.flat and meaning in ('right', 'left'):
            ctx.cover('no folding in the flat layout')
        elif meaning == 'right':
            if has and before[-1] not in self.unfolded:
                self.unfolded.add(before[-1])
                ctx.cover('unfolds')
            elif has:
                self.at = before + (self.ordered(before)[0],)
                ctx.cover('goes to the first callee')
            elif not before:
                self.at = rows[0] if rows else ()
        elif meaning == 'left':
            if has and before[-1] in self.unfolded:
                self.unfolded.discard(before[-1])
                ctx.cover('folds')
            elif len(before) > 1:
                self.at = before[:-1]
                if not kids:
                    self.unfolded.discard(self.at[-1])
                ctx.cover('goes to the caller')
            elif before and not kids:
                self.at = None
            unhandled = None
        elif meaning == '>':
            while self.callees(self.at):
                if self.at:
                    self.unfolded.add(self.at[-1])
                self.at += (self.ordered(self.at)[0],)
            ctx.cover('hot spot')
        elif meaning == 'esc':
            self.at = ()
        elif meaning == '\\':
            self.flat = not self.flat
        elif meaning in ('[', ']'):
            columns = [i for i, o in enumerate(order) if o]
            i = columns.index(self.column) + (1 if meaning == ']' else -1)
            self.column = columns[i % len(columns)]
        elif meaning in ('enter', ' '):
            self.paused = not self.paused
            ctx.cover('paused')
        elif meaning == 'q':
            unhandled = True
        elif meaning in ('x', 'f5'):
            unhandled = True
        r = self.key(key)
        if unhandled is not None:
            ctx.check((r is not True and bool(r)) == unhandled, 'the key is known',
                      '%s %r' % (key, r))
        if meaning in ('\\', '[', ']'):
            at = self.at
            while at:
                try:
                    self.callees(at)
                except KeyError:
                    at = at[:-1]
                else:
                    break
            self.at = at
        self.verdict(before)

    def verdict(self, before):
        ctx = self.ctx
        focus = self.focus()
        if self.at is None:         # there is nothing to fold
            ctx.check(focus in ((), before), 'nowhere else')
            self.at = focus
        if self.at == () and before and before == self.visible()[0]:
            ctx.check(focus in ((), before), 'nowhere else')
            self.at = focus
        ctx.check(focus == self.at, 'the focus is where the key leads',
                  '%s, not %s' % (focus, self.at))
        rows = [p for p, w in self.rows()]
        ctx.check(rows == self.visible(), 'the rows that are unfolded are shown',
                  '%s %s' % (rows, self.visible()))
        ctx.check(bool(self.viewer.paused) == self.paused, 'paused and resumed by the key')
        order = self.table.order
        ctx.check(order is self.table.columns[self.column][3], 'ranked by the chosen column')
        ctx.observe('focus', '/'.join(self.at))


MOVES = ['down', 'up', 'right', 'left', '>', 'esc']
OTHERS = ['[', ']', '\\', 'enter', ' ', 'x']


def moving(ctx, keys, shapes):
    m = Model(ctx, ctx.pick('shape', list(range(shapes))), 0)
    for _ in range(ctx.choose('keys', keys) + 1):
        m.press(ctx.pick('key', MOVES))


def everything(ctx, keys):
    m = Model(ctx, ctx.pick('shape', [0, 1, 3]), 0)
    m.press('down')
    m.press('right')
    for _ in range(keys):
        m.press(ctx.pick('key', MOVES + OTHERS))


def ranked(ctx, times, keys):
    """The first callee is the one that comes first in the ranking."""
    m = Model(ctx, 0, times)
    for _ in range(ctx.choose('another column', 3)):
        m.press(']')
    m.press('>')
    if m.column in (5, 6):
        a, b = m.root().get_child_keys()[:2]
        ctx.check(a.deep_time >= b.deep_time or m.column == 6, 'the hottest first')
    for _ in range(keys):
        m.press(ctx.pick('key', MOVES + ['[', '\\']))


def aliases(ctx, keys):
    """The keys of vim and of games are arrow keys."""
    import urwid
    base_env(ctx)
    which = ctx.pick('keys of', ['vim', 'game', 'both'])
    saved = dict(urwid.command_map._command)
    try:
        mod = ctx.load('profiling.viewer')
        known = {}
        if which in ('vim', 'both'):
            mod.bind_vim_keys()
            known.update(ALIASES['vim'])
        if which in ('game', 'both'):
            mod.bind_game_keys()
            known.update(ALIASES['game'])
        m = Model(ctx, 0, 0)
        for _ in range(keys):
            key = ctx.pick('key', sorted(known))
            m.press(key, known[key])
            ctx.cover(known[key] + ' alias')
        m.press(ctx.pick('last', ['x', 'right', 'left']))
    finally:
        urwid.command_map._command.clear()
        urwid.command_map._command.update(saved)


def quitting(ctx, length):
    """q quits, nothing else does."""
    import urwid
    base_env(ctx)
    mod = ctx.load('profiling.viewer')
    v = mod.StatisticsViewer()
    key = ctx.text('key', 1)
    if ctx.choose('a long name', 2):
        key = ctx.pick('name', ['f1', 'ctrl q', 'page up', 'meta q', 'quit'])
    try:
        v.unhandled_input(key)
    except urwid.ExitMainLoop:
        ctx.check(ctx.or_(key == 'q', key == 'Q'), 'only q quits')
        ctx.cover('quits')
    else:
        ctx.check(ctx.not_(ctx.eq(key, 'q')), 'q quits')
        ctx.cover('stays')
    loop = v.loop(screen=Screen(), event_loop=Screen())
    ctx.check(ctx.raises(urwid.ExitMainLoop, loop.unhandled_input, 'q') is not None,
              'the loop asks the viewer')


class Screen(object):

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: None


HARNESSES = [
    Harness('moving', moving, {'quick': dict(keys=5, shapes=4), 'thorough': dict(keys=6, shapes=4)},
            covers=('down', 'up', 'unfolds', 'folds', 'goes to the first callee', 'hot spot',
                    'goes to the caller'),
            bound_text='every sequence of up to `keys` of the arrow keys, > and esc on 4 results'),
    Harness('everything', everything, {'quick': dict(keys=3), 'thorough': dict(keys=4)},
            covers=('paused', 'no folding in the flat layout', 'folds', 'hot spot'),
            bound_text='every sequence of `keys` keys of the documentation'),
    Harness('ranked', ranked, {'quick': dict(times=3, keys=1), 'thorough': dict(times=4, keys=2)},
            covers=('hot spot',),
            bound_text='`times` of the times are any real number 0..100'),
    Harness('aliases', aliases, {'quick': dict(keys=3), 'thorough': dict(keys=4)},
            covers=('left alias', 'right alias', 'down alias', 'up alias'),
            bound_text='every sequence of `keys` keys of vim, of games, or of both'),
    Harness('quitting', quitting, {'quick': dict(length=1), 'thorough': dict(length=1)},
            covers=('quits', 'stays'), bound_text='any printable key, five longer names'),
]
ASSUMPTIONS = ['urwid runs as it is (not encoded)',
               'what a key does when nothing can be moved or folded is left open']
