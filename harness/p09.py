"""P09: rankings order the entries by the column they name."""
from harness.common import Code, Harness, base_env

WORDS = ['Zeta', '_omega', 'alpha', 'alphabet', 'beta', 'gamma']


def text(s):
    return '' if s is None else s


class Row(object):
    pass


def entries(ctx, stats, n, what):
    rows = []
    for i in range(n):
        r = Row()
        r.name = r.module = 'x'
        r.own_hits = r.deep_hits = 1
        r.own_time = r.deep_time = 1.0
        words = ctx.sort('word', lambda i: WORDS[i], ordered=True)
        if what in ('name', 'function'):
            r.name = ctx.ref(words, 'name', n + 1) if ctx.choose('named', 2) else None
        if what in ('module', 'function'):
            r.module = ctx.ref(words, 'module', n + 1) if ctx.choose('in module', 2) else None
        if what == 'hits':
            r.own_hits = ctx.int('own hits', 0, 10 ** 6)
            r.deep_hits = ctx.int('deep hits', 0, 10 ** 6)
        if what == 'time':
            r.own_time = ctx.time('own time', 0, 10 ** 6)
            r.deep_time = ctx.time('deep time', 0, 10 ** 6)
        if what == 'per call':
            r.own_time = ctx.time('own time', 0, 10 ** 6)
            r.deep_time = ctx.time('deep time', 0, 10 ** 6)
            r.own_hits = ctx.choose('own hits', 3)
            r.deep_hits = r.own_hits + ctx.choose('hits below', 2)
        r.stats = stats.FlatFrozenStatistics(
            r.name, 'f%d.py' % i, i, r.module, r.own_hits, r.deep_hits, r.own_time,
            r.deep_time)
        rows.append(r)
    return rows


def cmp3(ctx, a, b):
    """-1, 0 or 1 for two tuples of figures (forks)."""
    for x, y in zip(a, b):
        if x < y:
            return -1
        if y < x:
            return 1
    return 0


def per_call(time, hits):
    return time / hits if hits else 0.0


KEYS = {
    'name': [('by_name', lambda r: (text(r.name),), False)],
    'module': [('by_module', lambda r: (text(r.module),), False)],
    'function': [('by_function', lambda r: (text(r.module), text(r.name)), False)],
    'hits': [('by_deep_hits', lambda r: (r.deep_hits,), True),
             ('by_own_hits', lambda r: (r.own_hits,), True)],
    'time': [('by_deep_time', lambda r: (r.deep_time,), True),
             ('by_own_time', lambda r: (r.own_time, r.deep_time), True)],
    # without calls the time itself takes the place of the per-call figure
    'per call': [
        ('by_deep_time_per_call', lambda r: (
            per_call(r.deep_time, r.own_hits) if r.deep_hits else r.deep_time,), True),
        ('by_own_time_per_call', lambda r: (
            per_call(r.own_time, r.own_hits) if r.own_hits else r.own_time,
            per_call(r.deep_time, r.own_hits) if r.deep_hits else r.deep_time), True)],
}


def ranking(ctx, n, what):
    base_env(ctx)
    stats = ctx.load('profiling.stats')
    sortkeys = ctx.load('profiling.sortkeys')
    n = ctx.choose('entries', n) + 1
    rows = entries(ctx, stats, n, what)
    root = stats.FrozenStatistics(None, None, None, None, 0, 0.0, [r.stats for r in rows])
    name, figure, descending = ctx.choose_from('key', KEYS[what])
    key = getattr(sortkeys, name)
    inverted = ctx.choose('inverted', 3)
    for _ in range(inverted):
        key = ~key
    got = root.sorted(key)
    ctx.check(isinstance(got, list) and len(got) == n and
              all(any(g is r.stats for g in got) for r in rows),
              'every entry exactly once')
    order = [[r for r in rows if r.stats is g][0] for g in got]
    down = descending != bool(inverted % 2)
    for i in range(n):
        for j in range(i + 1, n):
            c = cmp3(ctx, figure(order[i]), figure(order[j]))
            ctx.check(c >= 0 if down else c <= 0,
                      'ordered by ' + name + (' inverted' if inverted % 2 else ''))
            if c:
                ctx.cover('different')
            else:
                ctx.cover('equal')
    if inverted == 1:
        ctx.cover('inverted')
    ctx.check(len(root) == n and [k for k in root] == [r.stats for r in rows],
              'the entries themselves stay as they were')
    ctx.observe('order', [rows.index(r) for r in order])


def default(ctx, n):
    """sorted() without a key ranks by inclusive time; recording entries too."""
    base_env(ctx)
    stats = ctx.load('profiling.stats')
    sortkeys = ctx.load('profiling.sortkeys')
    root = stats.RecordingStatistics()
    rows = []
    for i in range(n):
        r = Row()
        r.void = ctx.choose('placeholder', 2)
        r.stats = root.ensure_child(Code(i), stats.VoidRecordingStatistics if r.void
                                    else stats.RecordingStatistics)
        r.time, r.hits = ctx.time('time', 0, 1000), ctx.int('hits', 0, 1000)
        if r.void:
            k = r.stats.ensure_child(Code(10 + i), stats.RecordingStatistics)
            k.own_hits, k.deep_time = r.hits, r.time
        else:
            r.stats.own_hits, r.stats.deep_time = r.hits, r.time
        rows.append(r)
    which = ctx.choose('key', 3)
    if which == 0:
        got, fig = root.sorted(), 'time'
    elif which == 1:
        got, fig = root.sorted(sortkeys.by_deep_time), 'time'
    else:
        got, fig = root.sorted(sortkeys.by_deep_hits), 'hits'
    order = [[r for r in rows if r.stats is g][0] for g in got]
    ctx.check(len(order) == n, 'every entry exactly once')
    for a, b in zip(order, order[1:]):
        ctx.check(getattr(a, fig) >= getattr(b, fig), 'descending ' + fig)
    ctx.cover('sorted')


def h(what, quick, thorough, covers=('different', 'equal', 'inverted')):
    return Harness(what.replace(' ', '_'), ranking,
                   {'quick': dict(n=quick, what=what), 'thorough': dict(n=thorough, what=what)},
                   covers=covers,
                   bound_text='1..n siblings, plain, inverted and doubly inverted; '
                              + ('figures symbolic' if what in ('hits', 'time', 'per call')
                                 else 'texts present (symbolic) or missing'))


HARNESSES = [
    h('name', 3, 3), h('module', 3, 4), h('function', 2, 3), h('hits', 3, 4),
    h('time', 3, 3), h('per call', 2, 3),
    Harness('default', default, {'quick': dict(n=3), 'thorough': dict(n=4)},
            covers=('sorted',), bound_text='recording siblings and placeholders'),
]
ASSUMPTIONS = ['times are exact reals in the proof (binary64 rounding left out)',
               'texts are ordered as Python orders them; n + 1 distinct texts']
