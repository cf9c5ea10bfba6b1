"""P28: every row shows its own function's figures under their headings."""
from harness.common import Harness, base_env
from harness.trees import Spec, figures, frozen, shape
from harness.viewing import Viewing


class Tokens(object):
    """A formatter whose numbers are tokens; functions are formatted as they are."""

    def __init__(self, real):
        self.real = real
        self.values = []

    def token(self, kind, *args):
        self.values.append((kind,) + args)
        return '<%d>' % (len(self.values) - 1)

    def _percent(self, ratio, denom=1, unit=False):
        return self.token('share', ratio, denom)

    def _int(self, num, *a, **k):
        return self.token('number', num)

    def _time(self, sec):
        return self.token('time', sec)

    def __getattr__(self, name):
        kinds = {'percent': self._percent, 'int': self._int, 'int_or_na': self._int,
                 'time': self._time}
        import urwid
        for kind, f in kinds.items():
            if name == 'format_' + kind:
                return f
            if name == 'markup_' + kind:
                return lambda *a, **k: ('name', f(*a, **k))
            if name == 'make_%s_text' % kind:
                return lambda *a, **k: urwid.Text(f(*a, **k), wrap='clip')
        if name.startswith('attr_'):
            return lambda *a, **k: 'name'
        return getattr(self.real, name)


class Model(Viewing):

    def __init__(self, ctx, kind):
        Viewing.__init__(self, ctx, (kind,))
        self.kind = kind
        self.fmt = Tokens(self.mod.Formatter)
        self.mod.fmt = self.fmt
        ctx.load('profiling.' + kind).fmt = self.fmt
        self.viewer.set_profiler_class(self.classes[kind])
        self.viewer.activate()

    def texts(self, widget):
        """The text widgets below the widget, in the order they are shown."""
        widget = getattr(widget, 'base_widget', widget)
        if not hasattr(widget, 'contents') and hasattr(widget, '_w'):
            widget = widget._w.base_widget
        if hasattr(widget, 'contents'):
            out = []
            for c in widget.contents:
                out += self.texts(c[0])
            return out
        return [widget] if hasattr(widget, 'text') else []

    def headings(self):
        return [w.text for w in self.texts(self.table.thead)]

    def cells(self, node):
        """What the row shows: its texts without the mark."""
        out = []
        for w in self.texts(node.get_widget())[1:]:
            t = w.text
            if t.startswith('<') and t.endswith('>'):
                out.append(self.fmt.values[int(t[1:-1])])
            else:
                out.append(t)
        return out


TRACING = ['FUNCTION', 'CALLS', 'OWN', '/CALL', '%', 'DEEP', '/CALL', '%']
SAMPLING = ['FUNCTION', 'OWN', '%', 'DEEP', '%']


def location(key):
    name, filename, lineno, module = key
    where = module or filename
    return '%s (%s:%d)' % (name, where, lineno) if name else where


def equal(ctx, a, b):
    if ctx.symbolic:
        return ctx.eq(a, b)
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b))     # binary64 may round


def share(ctx, cell, part, whole):
    kind, ratio, denom = cell
    ctx.check(kind == 'share', 'a share')
    if whole == 0:
        ctx.check(ctx.or_(ctx.eq(denom, 0), ctx.eq(ratio, 0)), 'no share of nothing')
    elif denom == 0:
        ctx.check(False, 'the whole of a share')
    else:
        ctx.check(equal(ctx, ratio * whole, part * denom), 'the share of the whole')


def number(ctx, cell, kind, value, label):
    ctx.check(cell[0] == kind, label)
    ctx.check(equal(ctx, cell[1], value), label)


def row(ctx, m, node, key, hits, own, deep_hits, deep, cpu, total):
    cells = m.cells(node)
    ctx.check(len(cells) == len(m.headings()), 'a cell under every heading')
    ctx.check(cells[0] == location(key), 'the function and where it is', cells[0])
    if m.kind == 'tracing':
        number(ctx, cells[1], 'number', hits, 'CALLS')
        number(ctx, cells[2], 'time', own, 'OWN')
        number(ctx, cells[5], 'time', deep, 'DEEP')
        for i, t in ((3, own), (6, deep)):
            ctx.check(cells[i][0] == 'time', '/CALL')
            ctx.check(equal(ctx, cells[i][1], t / hits if hits != 0 else 0), '/CALL')
        share(ctx, cells[4], own, cpu)
        share(ctx, cells[7], deep, cpu)
    else:
        number(ctx, cells[1], 'number', hits, 'OWN')
        number(ctx, cells[3], 'number', deep_hits, 'DEEP')
        share(ctx, cells[2], hits, total)
        share(ctx, cells[4], deep_hits, total)


KEYS = [
    ('f', '/src/f.py', 7, 'mod_f'), ('g', '/src/f.py', 12, None),
    (None, '/src/i.py', None, 'mod_i'), ('', '/src/j.py', 0, None), ('h', '/src/h.py', 3, ''),
]


def build(ctx, m, nodes, keys):
    root, specs = shape(ctx, nodes)
    for s in specs:
        figures(ctx, s)
        s.key = (None, None, None, None) if s is root else ctx.pick('function', KEYS[:keys])
    # siblings are different functions
    for s in specs:
        used = [k.key for k in s.kids]
        if len(set(used)) < len(used):
            ctx.end('equal siblings')
    return root, specs, frozen(ctx, m.stats, root)


def nested(ctx, kind, nodes, keys):
    m = Model(ctx, kind)
    root, specs, stats = build(ctx, m, nodes, keys)
    cpu = ctx.time('cpu', 0, 10 ** 6)
    wall = ctx.time('wall', 1, 10 ** 6)
    m.viewer.set_result(stats, cpu, wall)
    ctx.check(m.headings() == (TRACING if kind == 'tracing' else SAMPLING),
              'the documented headings')
    nested_rows(ctx, m, root, cpu)
    ctx.observe('cells', m.headings())


def nested_rows(ctx, m, root, cpu):
    total = root.deep_hits()

    def walk(node, spec):
        rows = dict((id(k.get_value()), k) for k in
                    [node.get_child_node(x) for x in node.get_child_keys()])
        ctx.check(len(rows) == len(spec.kids), 'a row for every callee')
        for kid in spec.kids:
            ctx.check(id(kid.stats) in rows, 'a row for every callee')
            n = rows[id(kid.stats)]
            row(ctx, m, n, kid.key, kid.hits, kid.own_time(ctx), kid.deep_hits(),
                kid.deep_time(), cpu, total)
            ctx.cover('row')
            if kid.kids:
                ctx.cover('a row with callees')
                walk(n, kid)
    walk(m.root(), root)


def flat(ctx, kind, nodes, keys):
    """In the flat layout a row shows the sums over all the occurrences."""
    m = Model(ctx, kind)
    root, specs, stats = build(ctx, m, nodes, keys)
    cpu = ctx.time('cpu', 0, 10 ** 6)
    if ctx.choose('layout first', 2):
        m.key('\\')
        m.viewer.set_result(stats, cpu, 1.0)
    else:
        m.viewer.set_result(stats, cpu, 1.0)
        m.key('\\')
    flat_rows(ctx, m, root, specs, cpu)


def flat_rows(ctx, m, root, specs, cpu):
    node = m.root()
    rows = [node.get_child_node(x) for x in node.get_child_keys()]
    by = {}
    for s in specs[1:]:
        by.setdefault(s.key, []).append(s)
    ctx.check(len(rows) == len(by), 'a row for every function')
    for n in rows:
        v = n.get_value()
        key = (v.name, v.filename, v.lineno, v.module)
        ctx.check(key in by, 'a row for every function')
        group = by.pop(key)
        if len(group) > 1:
            ctx.cover('several occurrences')

        def total(f):
            t = f(group[0])
            for s in group[1:]:
                t = t + f(s)
            return t
        row(ctx, m, n, key, total(lambda s: s.hits), total(lambda s: s.own_time(ctx)),
            total(lambda s: s.deep_hits()), total(lambda s: s.deep_time()), cpu,
            root.deep_hits())
        ctx.cover('row')


TREES = [([0, 0], [0, 1]), ([0, 1], [0, 1]), ([0, 1], [0, 0]),
         ([0, 1, 1], [0, 1, 0]), ([0, 1, 0], [0, 1, 1])]


def grown(ctx, m, parents, names, counts):
    """A result in which these functions were called, with any positive times."""
    root = Spec(-1, None)
    root.key = (None, None, None, None)
    specs = [root]
    for i, (p, n) in enumerate(zip(parents, names)):
        s = Spec(i, specs[p])
        s.key = KEYS[n]
        specs[p].kids.append(s)
        specs.append(s)
    for s in specs:
        s.hits = counts.pop() if counts else ctx.int('hits', 1, 10 ** 6)
        s.time = ctx.time('time', 1, 10 ** 6)
    for s in specs:
        for k in s.kids[:1]:
            ctx.assume(s.time > sum((x.time for x in s.kids[1:]), k.time))
    return root, specs, frozen(ctx, m.stats, root)


def rounds(ctx, kind, trees, events, counts=()):
    """Results come one after another: a row shows the figures of the shown one."""
    m = Model(ctx, kind)
    v = m.viewer
    counts = list(counts)
    parents, names = ctx.pick('tree', TREES[:trees])
    flat, paused = False, False
    shown = kept = None
    for i in range(events):
        e = 'result' if i == 0 else ctx.pick('event', ['result', '\\', ']', 'pause'])
        if e == 'result':
            new = grown(ctx, m, parents, names, counts) + (ctx.time('cpu', 1, 10 ** 6),)
            v.set_result(new[2], new[3], 1.0)
            if paused:
                kept = new
                ctx.cover('kept while paused')
            else:
                if shown:
                    ctx.cover('another result')
                shown = new
        elif e == 'pause':
            m.key('enter')
            paused = not paused
            if not paused and kept:
                shown, kept = kept, None
        else:
            m.key(e)
            flat = flat != (e == '\\')
        if i == events - 1 or ctx.choose('look', 2):
            root, specs, stats, cpu = shown
            if flat:
                flat_rows(ctx, m, root, specs, cpu)
            else:
                nested_rows(ctx, m, root, cpu)
            ctx.cover('looked')


EVENTS = [']', '[', 'toggle', 'lost', 'welcome', 'result', '\\', 'down']
STATES = {(False, True): 'thead', (False, False): 'thead.inactive',
          (True, True): 'thead.paused', (True, False): 'thead.paused'}


def headings(ctx, kind, events):
    """The heading shows the state of the viewer and which column ranks the rows."""
    m = Model(ctx, kind)
    v = m.viewer
    palette = set(e[0] for e in v.palette)
    at, paused, active = (5 if kind == 'tracing' else 3), False, True
    by = [0, 1, 2, 3, 5, 6] if kind == 'tracing' else [0, 1, 3]
    v.set_result(m.stat(None, [m.stat('f'), m.stat('g', [m.stat('f')])]), 1.0, 2.0)
    for _ in range(ctx.choose('events', events) + 1):
        e = ctx.pick('event', EVENTS)
        if e == 'toggle':
            m.key('enter')
            paused = not paused
        elif e == 'lost':
            v.inactivate()
            active = False
        elif e == 'welcome':
            v.activate()
            active = True
        elif e == 'result':
            v.set_result(m.stat(None, [m.stat('f')]), 1.0, 2.0)
        else:
            m.key(e)
            if e in ('[', ']'):
                i = by.index(at) + (1 if e == ']' else -1)
                at = by[i % len(by)]
                ctx.cover('another column')
        state = STATES[paused, active]
        ctx.cover(state)
        texts = m.texts(m.table.thead)
        ctx.check([w.text for w in texts] == (TRACING if kind == 'tracing' else SAMPLING),
                  'the documented headings')
        for i, w in enumerate(texts):
            attrs = [a for a, n in w.get_text()[1]]
            if i == at:
                ctx.check(attrs == [state + '.sorted'], 'the ranking column is marked',
                          '%s %s' % (i, attrs))
            else:
                ctx.check(attrs in ([], [None]), 'no other column is marked', '%s' % attrs)
        attr = m.table.thead.get_attr_map()
        ctx.check(attr.get(None) == state, 'the heading shows the state', '%s' % attr)
        ctx.check(state in palette and state + '.sorted' in palette, 'with a style of its own')
    ctx.observe('at', at)


def both(ctx, f, **k):
    f(ctx, ctx.pick('profiler', ['tracing', 'sampling']), **k)


HARNESSES = [
    Harness('nested', lambda ctx, **k: both(ctx, nested, **k),
            {'quick': dict(nodes=3, keys=3), 'thorough': dict(nodes=4, keys=5)},
            covers=('row', 'a row with callees'),
            bound_text='every tree of up to `nodes` functions below the root, any counts and '
                       'times up to 10**6, any CPU time'),
    Harness('flat', lambda ctx, **k: both(ctx, flat, **k),
            {'quick': dict(nodes=3, keys=2), 'thorough': dict(nodes=4, keys=3)},
            covers=('row', 'several occurrences'),
            bound_text='every tree of up to `nodes` functions below the root, `keys` different '
                       'functions, flat layout'),
    Harness('rounds', lambda ctx, **k: both(ctx, rounds, **k),
            {'quick': dict(trees=3, events=3),
             'thorough': [dict(trees=3, events=3),
                          dict(trees=5, events=4, counts=list(range(1, 40)))]},
            covers=('another result', 'kept while paused', 'looked'),
            bound_text='the first result, then every sequence of `events` - 1 further results '
                       'of the same functions (the first `trees` of five trees of up to '
                       'three functions) with any positive figures (`counts`: these call '
                       'counts), changes of layout and '
                       'order, pauses and resumptions, looked at after any of them'),
    Harness('headings', lambda ctx, **k: both(ctx, headings, **k),
            {'quick': dict(events=4), 'thorough': dict(events=5)},
            covers=('another column', 'thead', 'thead.inactive', 'thead.paused'),
            bound_text='every sequence of up to `events` keys, results and connection changes'),
]
ASSUMPTIONS = ['urwid runs as it is (not encoded); how a number becomes a text is decided in P21',
               'times are exact reals']
