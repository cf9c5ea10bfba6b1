"""P08: the flat layout conserves what the tree measured."""
from harness.common import Code, Harness, base_env
from harness import trees


def key_of(st):
    return (st.name, st.filename, st.lineno, st.module)


def same_key(ctx, a, b):
    r = True
    for x, y in zip(a, b):
        if x is None or y is None:
            if x is not y:
                return False
            continue
        r = ctx.and_(r, ctx.eq(x, y))
    return r


def flatten(ctx, nodes, kind, anonymous):
    base_env(ctx)
    stats = ctx.load('profiling.stats')
    root, specs = trees.shape(ctx, nodes)
    if kind == 'frozen':
        for s in specs:
            trees.identity(ctx, s, anonymous=anonymous and s.i != 1)
            trees.figures(ctx, s)
        tree = trees.frozen(ctx, stats, root)
    else:
        # the same function on several call paths
        codes = ctx.sort('code', Code)
        for s in specs:
            s.void = bool(s.i and ctx.choose('placeholder', 2))
            trees.figures(ctx, s)
            if s.void:
                s.hits = 0
        tree = stats.RecordingStatistics(None)
        root.stats = tree
        tree.own_hits, tree.deep_time = root.hits, root.time
        pool = [codes.get(i) for i in range(2)]
        for s in specs[1:]:
            used = [k.code for k in s.parent.kids[:s.parent.kids.index(s)]]
            free = [c for c in pool if c not in used]
            if not free:
                ctx.end('siblings differ')
            s.code = ctx.choose_from('code', free)
            cls = stats.VoidRecordingStatistics if s.void else stats.RecordingStatistics
            s.stats = s.parent.stats.ensure_child(s.code, cls)
            if not s.void:
                s.stats.own_hits, s.stats.deep_time = s.hits, s.time
    for s in specs:
        st = s.stats
        s.before = (key_of(st), st.own_hits, st.deep_hits, st.own_time, st.deep_time,
                    list(st))
    flat = stats.FlatFrozenStatistics.flatten(tree)
    entries = list(flat)
    # one entry per distinct function, in any order
    for e in entries:
        ctx.check(ctx.or_(False, *[same_key(ctx, key_of(e), key_of(s.stats))
                                   for s in specs[1:]]),
                  'only functions of the tree')
        for g in entries:
            if g is not e:
                ctx.check(ctx.not_(same_key(ctx, key_of(e), key_of(g))),
                          'one entry per function')
        own, deep, own_t, deep_t = 0, 0, 0.0, 0.0
        for s in specs[1:]:
            c = same_key(ctx, key_of(e), key_of(s.stats))
            own = own + ctx.ite(c, s.before[1], 0)
            deep = deep + ctx.ite(c, s.before[2], 0)
            own_t = own_t + ctx.ite(c, s.before[3], 0.0)
            deep_t = deep_t + ctx.ite(c, s.before[4], 0.0)
        ctx.check(e.own_hits == own, 'own count is the sum')
        ctx.check(e.deep_hits == deep, 'inclusive count is the sum')
        ctx.check(e.own_time == own_t, 'exclusive time is the sum')
        ctx.check(e.deep_time == deep_t, 'inclusive time is the sum')
        ctx.check(len(list(e)) == 0, 'entries are leaves')
        ctx.observe('entry', [e.own_hits, e.deep_hits, e.own_time, e.deep_time])
    for s in specs[1:]:
        ctx.check(ctx.or_(False, *[same_key(ctx, key_of(e), key_of(s.stats))
                                   for e in entries]), 'every function has an entry')
    ctx.check(same_key(ctx, key_of(flat), root.before[0]), 'identity of the root')
    ctx.check(flat.own_hits == root.before[1], 'own count of the root')
    ctx.check(flat.deep_hits == root.before[2], 'inclusive count of the root')
    ctx.check(flat.own_time == root.before[3], 'exclusive time of the root')
    ctx.check(flat.deep_time == root.before[4], 'inclusive time of the root')
    for s in specs:
        st = s.stats
        k, oh, dh, ot, dt, kids = s.before
        now = list(st)
        ctx.check(len(now) == len(kids) and all(x is y for x, y in zip(now, kids)),
                  'children untouched')
        ctx.check(ctx.and_(same_key(ctx, key_of(st), k), st.own_hits == oh,
                           st.deep_hits == dh, st.own_time == ot, st.deep_time == dt),
                  'figures untouched')
    if len(entries) < len(specs) - 1:
        ctx.cover('several occurrences')
    if len(entries) > 1:
        ctx.cover('several functions')


def alike(ctx, nodes):
    """Functions whose identities are made of the same few words."""
    base_env(ctx)
    stats = ctx.load('profiling.stats')
    pool = [None, 'x', 'x:x', '']
    root = stats.FrozenStatistics('r', None, None, None, 0, 0.0)
    made = []
    for i in range(nodes):
        key = (ctx.choose_from('name', pool), 'x' if ctx.choose('file', 2) else None,
               3, ctx.choose_from('module', pool))
        st = stats.FrozenStatistics(*(key + (ctx.int('hits', 0, 9), ctx.time('time', 0, 9))))
        root.children.append(st)
        made.append((key, st))
    flat = list(stats.FlatFrozenStatistics.flatten(root))
    ctx.check(len(flat) == len(set(k for k, _ in made)), 'one entry per function')
    for e in flat:
        same = [st for k, st in made if k == key_of(e)]
        ctx.check(bool(same), 'only functions of the tree')
        hits, t = 0, 0.0
        for st in same:
            hits, t = hits + st.own_hits, t + st.deep_time
        ctx.check(ctx.eq(e.own_hits, hits), 'own count is the sum')
        ctx.check(ctx.eq(e.deep_time, t), 'inclusive time is the sum')
    ctx.cover('one' if len(flat) == 1 else 'several')
    ctx.observe('flat', [[e.own_hits, e.deep_time] for e in flat])


HARNESSES = [
    Harness('alike', alike, {'quick': dict(nodes=2), 'thorough': dict(nodes=3)},
            covers=('one', 'several'),
            bound_text='nodes siblings whose names, files and modules are any of None, '
                       "'', x, x:x; figures symbolic"),
    Harness('frozen', flatten,
            {'quick': dict(nodes=3, kind='frozen', anonymous=False),
             'thorough': dict(nodes=4, kind='frozen', anonymous=False)},
            covers=('several occurrences', 'several functions'),
            bound_text='every tree of 1 + 0..nodes nodes; names, files, lines, modules, '
                       'counts and times symbolic'),
    Harness('anonymous', flatten,
            {'quick': dict(nodes=2, kind='frozen', anonymous=True),
             'thorough': dict(nodes=3, kind='frozen', anonymous=True)},
            covers=('several occurrences',), bound_text='with nodes without identity'),
    Harness('recording', flatten,
            {'quick': dict(nodes=4, kind='recording', anonymous=False),
             'thorough': dict(nodes=5, kind='recording', anonymous=False)},
            covers=('several occurrences', 'several functions'),
            bound_text='recording trees over two functions, with placeholders'),
]
ASSUMPTIONS = ['times are exact reals in the proof (binary64 rounding left out)']
