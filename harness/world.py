"""A program under a profiler: threads with call stacks, and the tree they imply."""
from harness.common import AlikeCode, Code, Frame


class World(object):
    """Threads whose frames call and return; codes are symbolic."""

    def __init__(self, ctx, ncodes, reuse=False, frame=Frame):
        self.ctx, self.ncodes, self.reuse = ctx, ncodes, reuse
        self.codes = ctx.sort('code', AlikeCode)
        self.threads = []
        self.count = 0
        self.free = []
        self.pool = None
        self.frame = frame

    def code(self):
        if self.pool is not None:
            return self.ctx.choose_from('code', self.pool)
        return self.ctx.ref(self.codes, 'code', self.ncodes)

    def thread(self, depth, base=None):
        """A thread that is already `depth` calls deep (above a base frame)."""
        stack = []
        self.threads.append(stack)
        back = base
        for _ in range(depth):
            f = self.frame(self.code(), back, self.new())
            stack.append(f)
            back = f
        stack_base = base
        self.bases = getattr(self, 'bases', [])
        self.bases.append(stack_base)
        return stack

    def new(self):
        self.count += 1
        return self.count

    def call(self, t, code=None):
        stack = self.threads[t]
        back = stack[-1] if stack else self.bases[t]
        code = code if code is not None else self.code()
        if self.reuse and self.free:
            f = self.free.pop()          # the memory of a dead frame is used again
            f.f_code, f.f_back, f.n = code, back, self.new()
        else:
            f = self.frame(code, back, self.new())
        stack.append(f)
        return f

    def ret(self, t):
        f = self.threads[t].pop()
        if self.reuse:
            self.free.append(f)
        return f


class Node(object):
    """The expected tree."""

    def __init__(self, code=None):
        self.code, self.calls, self.time, self.kids = code, 0, 0.0, []
        self.placeholder = True
        self.needed = False

    def child(self, ctx, code, make=True):
        for k in self.kids:
            if ctx.same(k.code, code):
                return k
        if not make:
            return None
        k = Node(code)
        self.kids.append(k)
        return k

    def path(self, ctx, codes, needed=True):
        node = self
        for c in codes:
            node = node.child(ctx, c)
            if needed:
                node.needed = True
        return node

    def derived(self):
        """Inclusive time of a placeholder: that of its nearest recorded nodes."""
        if not self.placeholder:
            return self.time
        t = 0.0
        for k in self.kids:
            t = t + k.derived()
        return t


def compare(ctx, want, got, times, path=()):
    """The recorded tree `got` is the expected one."""
    kids = list(got)
    matched = []
    for g in kids:
        found = None
        for w in want.kids:
            if ctx.same(w.code, g.code):
                found = w
                break
        ctx.check(found is not None, 'no node without a call on its chain',
                  'unexpected node under %s' % (path,))
        ctx.check(not any(found is m for m in matched), 'one node per chain')
        matched.append(found)
        ctx.check(g.own_hits == found.calls, 'calls counted on their chain',
                  'path %s: %s, expected %s' % (path, g.own_hits, found.calls))
        if times:
            t = g.deep_time
            ctx.check(t == found.derived(), 'inclusive time',
                      'path %s, placeholder %s' % (path, found.placeholder))
            ctx.check(t >= 0, 'inclusive time never negative')
        compare(ctx, found, g, times, path + (len(matched) - 1,))
    for w in want.kids:
        if w.needed:
            ctx.check(any(w is m for m in matched), 'a node for every chain',
                      'missing under %s' % (path,))


def shape(node):
    """Observable summary of a recorded tree."""
    return [[k.own_hits, shape(k)] for k in node]
