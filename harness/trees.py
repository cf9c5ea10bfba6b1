"""Statistics trees of symbolic shape and figures."""
from harness.common import Code

NAMES = ['alpha', 'beta', 'gamma', 'delta', 'epsilon', 'zeta', 'eta', 'theta']


class Spec(object):
    """What a node was built from."""

    def __init__(self, i, parent):
        self.i, self.parent, self.kids = i, parent, []
        self.void = False
        self.stats = None

    def below(self):
        out, todo = [], list(self.kids)
        while todo:
            x = todo.pop(0)
            out.append(x)
            todo.extend(x.kids)
        return out

    # the figures the properties define -----------------------------------
    def deep_hits(self):
        t = self.hits
        for k in self.below():
            t = t + k.hits
        return t

    def deep_time(self):
        if not self.void:
            return self.time
        t = 0.0
        for k in self.kids:
            t = t + k.deep_time()
        return t

    def own_time(self, ctx):
        t = self.deep_time()
        for k in self.kids:
            t = t - k.deep_time()
        return ctx.max(t, 0.0)


def figures(ctx, spec, hits=True):
    spec.hits = ctx.int('hits', 0, 10 ** 6) if hits else 0
    spec.time = ctx.time('time', 0, 10 ** 6)


def shape(ctx, n):
    """A tree of 1 + 0..n nodes: every parent relation."""
    root = Spec(0, None)
    nodes = [root]
    for i in range(1, ctx.choose('nodes below the root', n + 1) + 1):
        parent = nodes[ctx.choose('parent', i)]
        s = Spec(i, parent)
        parent.kids.append(s)
        nodes.append(s)
    return root, nodes


def identity(ctx, spec, anonymous=True):
    """Symbolic name, file, line and module."""
    names = ctx.sort('name', lambda i: NAMES[i])
    files = ctx.sort('file', lambda i: '/src/%d.py' % i)
    mods = ctx.sort('module', lambda i: 'mod%d' % i)
    if anonymous and ctx.choose('anonymous', 2):
        spec.key = (None, None, None, None)
        return
    spec.key = (ctx.ref(names, 'name', 4), ctx.ref(files, 'file', 4),
                ctx.int('lineno', 0, 10 ** 5), ctx.ref(mods, 'module', 4))


def frozen(ctx, stats, root):
    """Builds the tree out of FrozenStatistics."""
    def build(spec):
        kids = [build(k) for k in spec.kids]
        n, f, l, m = spec.key
        spec.stats = stats.FrozenStatistics(n, f, l, m, spec.hits, spec.time, kids)
        return spec.stats
    return build(root)


def recording(ctx, stats, root, codes):
    """Builds the tree out of recording statistics, through its own interface."""
    def build(spec, parent):
        code = getattr(spec, 'code', None) or codes.get(spec.i)
        if parent is None:
            s = stats.RecordingStatistics(code if spec.coded else None)
        else:
            cls = stats.VoidRecordingStatistics if spec.void else stats.RecordingStatistics
            s = parent.ensure_child(code, cls)
        if not spec.void:
            s.own_hits = spec.hits
            s.deep_time = spec.time
        spec.stats = s
        for k in spec.kids:
            build(k, s)
        return s
    return build(root, None)
