"""A viewer whose texts are stand-ins; shared by P19 and P20."""
import datetime

from harness.common import NullFormat, base_env

SIZE = (60, 20)


class Format(NullFormat):
    """Formats times and the CPU usage as tokens."""

    def __init__(self):
        self.values = []

    def token(self, kind, x):
        self.values.append(x)
        return '<%s%d>' % (kind, len(self.values) - 1)

    def format_time(self, sec):
        return self.token('t', sec)

    def markup_time(self, sec):
        return ('name', self.token('t', sec))

    def format_percent(self, ratio, denom=1, unit=False):
        return self.token('p', (ratio, denom))

    def markup_percent(self, ratio, denom=1, unit=False):
        return ('name', self.token('p', (ratio, denom)))


class Viewing(object):

    def __init__(self, ctx, profilers=('tracing',)):
        self.ctx = ctx
        base_env(ctx)
        self.mod = ctx.load('profiling.viewer')
        self.stats = ctx.load('profiling.stats')
        self.sortkeys = ctx.load('profiling.sortkeys')
        self.fmt = self.mod.fmt = Format()
        self.classes = {}
        for p in profilers:
            m = ctx.load('profiling.' + p)
            m.fmt = self.fmt
            self.classes[p] = {'tracing': 'TracingProfiler', 'sampling': 'SamplingProfiler'}[p]
            self.classes[p] = getattr(m, self.classes[p])
        self.viewer = self.mod.StatisticsViewer()

    @property
    def table(self):
        return self.viewer.table

    def stat(self, name, children=(), hits=1, deep=1.0):
        return self.stats.FrozenStatistics(
            name and name.rstrip('2*'), name and self.file(name),
            2 if name and '2' in name else 1, name and name.rstrip('2*'), hits, deep,
            list(children))

    # (a name may have marks: 2 at another line, * in another file)
    def file(self, name):
        return name.rstrip('2*') + ('_.py' if '*' in name else '.py')

    def label(self, s):
        return s.name + ('2' if s.lineno == 2 else '') + \
            ('*' if s.filename.endswith('_.py') else '')

    def key(self, key):
        return self.viewer.widget.keypress(SIZE, key)

    # what can be seen
    def header(self):
        """The texts of the header."""
        out = []
        todo = [self.table.header]
        while todo:
            w = todo.pop(0)
            w = getattr(w, 'base_widget', w)
            if hasattr(w, 'contents'):
                todo = [c[0] for c in w.contents] + todo
            elif hasattr(w, 'text'):
                out.append(w.text)
        return ' '.join(out)

    def tokens(self, text, kind):
        out = []
        for part in text.split('<')[1:]:
            part = part.split('>')[0]
            if part[0] == kind:
                out.append(self.fmt.values[int(part[1:])])
        return out

    def root(self):
        node = self.table.get_focus()[1]
        return node.get_root()

    def rows(self):
        """The visible rows: (path of names, depth, widget)."""
        out = []
        walker = self.table.walker
        node = self.root()
        widget = node.get_widget()
        for _ in range(100):
            if not node.is_root():
                out.append((self.path(node), widget))
            widget, node = walker.get_next(node)
            if node is None:
                return out
        raise AssertionError('the rows do not end')

    def path(self, node):
        path = []
        while not node.is_root():
            path.insert(0, self.label(node.get_value()))
            node = node.get_parent()
        return tuple(path)

    def focus(self):
        return self.path(self.table.get_focus()[1])


def clock(k):
    return datetime.datetime(2017, 1, 1, 10, 20, 30 + k)
