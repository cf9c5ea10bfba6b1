"""P20: focus and unfolded rows survive every refresh."""
from harness.common import Harness
from harness.p09 import cmp3, per_call
from harness.viewing import Viewing

#: The shapes of results: (name, children); a2 is called a as well but is at another
#: line, b* is in another file.
SHAPES = [
    [('a', [('b', [('c', [])]), ('d', [])]), ('b', [('c', [])])],
    [('a', [('b', [])]), ('c', [])],
    [('b', [('c', [('a', [])]), ('d', [])]), ('a', [('b', [('c', [('d', [])])])])],
    [],
    [('a', [('a', [('b', [('a', [])])])]), ('a2', [('b*', [])]), ('b*', [('a', [])])],
]

#: What the columns of the tracing table rank by, descending.
FIGURES = {
    'by_own_hits': lambda s: (s.own_hits,),
    'by_own_time': lambda s: (s.own_time, s.deep_time),
    'by_own_time_per_call': lambda s: (
        per_call(s.own_time, s.own_hits) if s.own_hits else s.own_time,
        per_call(s.deep_time, s.own_hits) if s.deep_hits else s.deep_time),
    'by_deep_time': lambda s: (s.deep_time,),
    'by_deep_time_per_call': lambda s: (
        per_call(s.deep_time, s.own_hits) if s.deep_hits else s.deep_time,),
}


class Model(Viewing):

    def __init__(self, ctx, symbolic):
        Viewing.__init__(self, ctx)
        self.symbolic = symbolic    # how many times are symbolic
        self.viewer.set_profiler_class(self.classes['tracing'])
        self.viewer.activate()
        self.shape = None
        self.unfolded = set()
        self.where = ()             # the path of the focus
        self.flat = False
        self.n = 0

    # the tree that is shown
    def build(self, shape):
        out = []
        for name, children in shape:
            self.n += 1
            deep = 10.0 - 7 * self.n % 5
            if self.symbolic:
                self.symbolic -= 1
                deep = self.ctx.time('deep time', 0, 100)
            out.append(self.stat(name, self.build(children), hits=self.n % 3, deep=deep))
        return out

    def tree(self):
        """The names of the rows there are, as (name, children)."""
        if self.shape is None:
            return []
        if not self.flat:
            return self.shape
        names = []

        def walk(shape):
            for name, children in shape:
                if name not in names:
                    names.append(name)
                walk(children)
        walk(self.shape)
        return [(n, []) for n in names]

    def children(self, path):
        level = self.tree()
        for name in path:
            for n, children in level:
                if n == name:
                    level = children
                    break
            else:
                return None
        return level

    # events
    def event(self, what):
        if type(what) is tuple:
            self.shape = SHAPES[what[1]]
            root = self.stat(None, self.build(self.shape))
            self.viewer.set_result(root, 3.0, 4.0)
            return self.refreshed()
        if what in ('order', 'layout'):
            if what == 'layout':
                self.flat = not self.flat
                self.ctx.cover('layout')
            self.key(']' if what == 'order' else '\\')
            return self.refreshed()
        before = self.focus()
        state = self.folded(before)
        self.key(what)
        self.moved(what, before, state)

    def folded(self, path):
        """Whether the focused row is unfolded; None: it can not be."""
        if not path or not self.children(path):
            return None
        return self.table.get_focus()[0].expanded

    def moved(self, what, before, state):
        ctx, after = self.ctx, self.focus()
        if what == '>':
            level, path = self.tree(), ()
            while path != after:
                path = after[:len(path) + 1]
                if self.children(path):
                    self.unfolded.add(path[-1])
            ctx.check(not self.children(after), 'goes down to a function without callees')
            ctx.cover('hotspot')
        elif what in ('right', '+'):
            if state is False:
                self.unfolded.add(before[-1])
                ctx.check(after == before, 'unfolding keeps the focus')
                ctx.check(self.folded(after) is True, 'unfolded')
                ctx.cover('unfolded')
        elif what in ('left', '-'):
            if state is True:
                self.unfolded.discard(before[-1])
                ctx.check(after == before, 'folding keeps the focus')
                ctx.check(self.folded(after) is False, 'folded')
                ctx.cover('folded')
            elif state is None and len(before) > 1 and not self.flat:
                # the parent is folded
                if after == before[:-1] and self.folded(after) is False:
                    self.unfolded.discard(after[-1])
                    ctx.cover('parent folded')
        elif what == 'esc':
            ctx.check(after == (), 'nothing is focused')
        ctx.check(after == () or self.children(after) is not None, 'a row that exists')
        self.where = after

    # verdicts
    def refreshed(self):
        ctx = self.ctx
        path = self.where
        while self.children(path) is None:
            path = path[:-1]
        after = self.focus()
        if self.shape is None:
            return
        ctx.check(after == path, 'the focus stays on the path or its nearest ancestor',
                  '%s %s %s' % (self.where, path, after))
        if path and path == self.where:
            ctx.cover('kept')
        elif path:
            ctx.cover('nearest ancestor')
        self.where = after
        self.check_rows()

    def check_rows(self):
        ctx = self.ctx
        rows = self.rows()
        got = [p for p, w in rows]
        want = []

        def walk(shape, path):
            for name, children in shape:
                want.append(path + (name,))
                if children and name in self.unfolded:
                    walk(children, path + (name,))
        walk(self.tree(), ())
        ctx.check(len(got) == len(want) and set(got) == set(want),
                  'a row is unfolded exactly if its function is', '%s %s' % (got, want))
        for p, w in rows:
            if self.children(p):
                ctx.check(w.expanded == (p[-1] in self.unfolded), 'marked as unfolded')
            mark = first_text(w)
            ctx.check(mark == (' ' if not self.children(p) else
                               '-' if p[-1] in self.unfolded else '+'),
                      'the mark of the row', repr((p, mark)))
            ctx.cover('marked ' + mark)
        # in the current order
        key = [n for n in dir(self.sortkeys) if n.startswith('by_') and
               getattr(self.sortkeys, n) is self.table.order]
        ctx.check(bool(key), 'ordered by a column')
        order = [o for _, _, _, o in self.table.columns if o]
        ctx.check(self.table.order in order, 'ordered by a column')
        last = {}
        for p, w in rows:
            s = w.get_node().get_value()
            prev = last.get(p[:-1])
            if prev is not None:
                if key[0] == 'by_function':
                    ctx.check(prev.name <= s.name, 'ordered by name')
                else:
                    f = FIGURES[key[0]]
                    ctx.check(cmp3(ctx, f(prev), f(s)) >= 0, 'in the current order')
                ctx.cover('ordered')
            last[p[:-1]] = s
            for q in got[:got.index(p)]:
                ctx.check(q[:len(p)] != p, 'callees come after their caller')
        ctx.observe('rows', sorted('/'.join(p) for p in got))


def first_text(widget):
    """The text at the left of a row."""
    widget = getattr(widget, 'base_widget', widget)
    if not hasattr(widget, 'contents') and hasattr(widget, '_w'):
        widget = widget._w.base_widget
    while hasattr(widget, 'contents'):
        widget = widget.contents[0][0].base_widget
    return widget.text


KEYS = ['down', 'up', 'right', 'left']


def begin(ctx, symbolic, shapes=(0, 4)):
    m = Model(ctx, symbolic)
    m.event(('result', ctx.pick('shape at first', list(shapes))))
    return m


def refresh(ctx, keys, events):
    """Keys, then a refresh; and again."""
    m = begin(ctx, 0)
    for _ in range(2):
        for _ in range(keys):
            m.event(ctx.pick('key', KEYS))
        for _ in range(events):
            m.event(ctx.pick('event', ['order', 'layout'] +
                             [('result', i) for i in range(len(SHAPES))]))
        keys -= 2


def unfolded(ctx, events, shapes=(0, 2, 4)):
    """Everything is unfolded first."""
    m = begin(ctx, 0, shapes)
    for _ in range(7):
        m.event('down')
        m.event('+')
    m.event('layout')
    m.event('layout')
    for _ in range(events):
        m.event(ctx.pick('event', KEYS + ['layout'] +
                         [('result', i) for i in range(len(SHAPES))]))


def hotspot(ctx, events):
    m = begin(ctx, 0)
    m.event('>')
    for _ in range(events):
        m.event(ctx.pick('event', ['>', 'esc', 'down', 'left', '-', 'order', ('result', 1),
                                   ('result', 2)]))


def ordering(ctx, times, orders):
    """The rows of each level are in the current order, whatever their times are."""
    m = Model(ctx, times)
    m.event(('result', ctx.pick('first', [0, 2, 4])))
    m.event('down')
    m.event('right')
    for _ in range(ctx.choose('orders', orders) + 1):
        m.event('order')
    if ctx.choose('flat', 2):
        m.event('layout')


HARNESSES = [
    Harness('refresh', refresh, {'quick': dict(keys=3, events=1),
                                 'thorough': dict(keys=4, events=1)},
            covers=('kept', 'nearest ancestor', 'unfolded', 'folded', 'layout', 'ordered'),
            bound_text='every sequence of `keys` arrow keys, `events` refreshes (a result of '
                       '5 shapes, another order, another layout), keys - 2 keys and '
                       '`events` refreshes'),
    Harness('unfolded', unfolded, {'quick': dict(events=3), 'thorough': dict(events=4)},
            covers=('kept', 'nearest ancestor', 'folded', 'layout', 'parent folded'),
            bound_text='every sequence of `events` keys and refreshes while every function '
                       'is unfolded'),
    Harness('hotspot', hotspot, {'quick': dict(events=3), 'thorough': dict(events=5)},
            covers=('kept', 'nearest ancestor', 'hotspot'),
            bound_text='every sequence of `events` keys and refreshes from a hotspot'),
    Harness('ordering', ordering, {'quick': dict(times=3, orders=5),
                                   'thorough': dict(times=4, orders=7)},
            covers=('ordered', 'unfolded', 'layout'),
            bound_text='three shapes, `times` of the inclusive times any real number 0..100, '
                       'up to `orders` changes of the order, both layouts'),
]
ASSUMPTIONS = ['urwid runs as it is (not encoded)',
               'functions of different name, file or line have different hashes']
