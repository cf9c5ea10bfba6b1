"""P06: derived figures agree with the recorded tree."""
from harness.common import Code, Harness, base_env
from harness import trees


def verify(ctx, nodes, per_call):
    for s in nodes:
        st = s.stats
        ctx.check(st.own_hits == s.hits, 'own count')
        ctx.check(st.deep_hits == s.deep_hits(), 'inclusive count')
        ctx.check(st.deep_time == s.deep_time(), 'inclusive time')
        own = s.own_time(ctx)
        ctx.check(st.own_time == own, 'exclusive time')
        ctx.check(st.own_time >= 0, 'exclusive time never negative')
        if per_call:
            if s.hits == 0:
                ctx.check(st.deep_time_per_call == 0, 'no calls, no time per call')
                ctx.check(st.own_time_per_call == 0, 'no calls, no own time per call')
                ctx.cover('no calls')
            else:
                ctx.check(st.deep_time_per_call == s.deep_time() / s.hits,
                          'inclusive time per call')
                ctx.check(st.own_time_per_call == own / s.hits, 'own time per call')
                ctx.cover('calls')
        got = [k for k in st]
        ctx.check(len(got) == len(s.kids) and len(st) == len(s.kids) and
                  all(any(g is k.stats for g in got) for k in s.kids),
                  'children are the recorded ones')
        ctx.observe('figures', [st.own_hits, st.deep_hits, st.own_time, st.deep_time])
    if any(len(s.kids) > 1 for s in nodes):
        ctx.cover('siblings')


def recursive(ctx, s):
    """Whether the node is a call of its caller to itself."""
    if s.parent is None or s is not s.parent.kids[0] or not s.parent.i:
        return False
    if not ctx.choose('recursion', 2):
        return False
    ctx.cover('recursion')
    return True


def frozen(ctx, nodes, per_call):
    base_env(ctx)
    stats = ctx.load('profiling.stats')
    root, specs = trees.shape(ctx, nodes)
    for s in specs:
        s.key = ('n%d' % s.i, 'f.py', s.i, 'm')
        if recursive(ctx, s):
            s.key = s.parent.key
        trees.figures(ctx, s)
    trees.frozen(ctx, stats, root)
    verify(ctx, specs, per_call)


def recording(ctx, nodes, per_call):
    base_env(ctx)
    stats = ctx.load('profiling.stats')
    root, specs = trees.shape(ctx, nodes)
    codes = ctx.sort('code', Code)
    for s in specs:
        s.void = bool(s.i and ctx.choose('placeholder', 2))
        s.coded = bool(s.i or ctx.choose('coded root', 2))
        trees.figures(ctx, s)
        if s.void:
            s.hits = 0
            ctx.cover('placeholder')
            if s.parent.void:
                ctx.cover('placeholder below placeholder')
        s.code = s.parent.code if recursive(ctx, s) else codes.get(s.i)
    trees.recording(ctx, stats, root, codes)
    verify(ctx, specs, per_call)


def walk(ctx, nodes):
    base_env(ctx)
    stats = ctx.load('profiling.stats')
    root, specs = trees.shape(ctx, nodes)
    for s in specs:
        s.key = ('n%d' % s.i, 'f.py', s.i, 'm')
        s.hits, s.time = 1, 1.0
    trees.frozen(ctx, stats, root)
    order = []
    for st in stats.spread_stats(root.stats):
        order.append([s for s in specs if s.stats is st][0].i)
    ctx.check(sorted(order) == list(range(1, len(specs))), 'every descendant once')
    for s in specs[1:]:
        if s.parent.i:
            ctx.check(order.index(s.parent.i) < order.index(s.i), 'parents first')
    # only below the nodes it is told to
    into = [True] + [ctx.bool('descend') for _ in specs[1:]]
    seen = []
    for st, spread in stats.spread_stats(root.stats, spreader=True):
        s = [s for s in specs if s.stats is st][0]
        seen.append(s.i)
        if into[s.i]:
            for _ in range(ctx.choose('asked again', 2) + 1 if s.i == 1 else 1):
                spread()
            ctx.cover('descends')
    for s in specs[1:]:
        p, reach = s.parent, True
        while p.i:
            reach = ctx.and_(reach, into[p.i])
            p = p.parent
        present = s.i in seen
        ctx.check(reach if present else ctx.not_(reach), 'opt-in walk')
    ctx.check(len(seen) == len(set(seen)), 'opt-in walk visits once')
    ctx.observe('walk', [order, seen])


HARNESSES = [
    Harness('frozen', frozen, {'quick': dict(nodes=4, per_call=False),
                               'thorough': dict(nodes=5, per_call=False)},
            covers=('siblings', 'recursion'),
            bound_text='every tree of 1 + 0..nodes nodes (any of which may call itself), counts in [0, 10^6], times in '
                       '[0, 10^6] s symbolic'),
    Harness('per_call', frozen, {'quick': dict(nodes=2, per_call=True),
                                 'thorough': dict(nodes=3, per_call=True)},
            covers=('calls', 'no calls'), bound_text='as frozen, with per-call figures'),
    Harness('recording', recording, {'quick': dict(nodes=3, per_call=False),
                                     'thorough': dict(nodes=4, per_call=True)},
            covers=('siblings', 'recursion', 'placeholder', 'placeholder below placeholder'),
            bound_text='recording trees; each node recorded or a placeholder'),
    Harness('walk', walk, {'quick': dict(nodes=4), 'thorough': dict(nodes=6)},
            covers=('descends',), bound_text='every tree of 1 + 0..nodes nodes, every '
                                             'choice of where to descend'),
]
ASSUMPTIONS = ['times are exact reals in the proof (binary64 rounding left out)']
