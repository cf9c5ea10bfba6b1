"""Where do the paths of a harness fork?  tools/where.py P07 harness [tier] [paths]"""
import collections, importlib, sys, traceback, random
sys.path.insert(0, '/verif')
from symex import env; env.setup()
from symex import engine
C = collections.Counter()
orig = engine.SymCtx.branch
def branch(self, e):
    n = self.stats['branches']
    r = orig(self, e)
    if self.stats['branches'] != n and self.pos > len(self.prefix):
        st = [f for f in traceback.extract_stack() if 'symex' not in f.filename][-3:]
        C[' < '.join('%s:%d' % (f.filename.split('/')[-1], f.lineno) for f in reversed(st))] += 1
    return r
engine.SymCtx.branch = branch
pid, name = sys.argv[1:3]
tier = sys.argv[3] if len(sys.argv) > 3 else 'quick'
n = int(sys.argv[4]) if len(sys.argv) > 4 else 30
mod = importlib.import_module('harness.' + pid.lower())
h = [h for h in mod.HARNESSES if h.name == name][0]
b = h.bounds.get(tier) or h.bounds['quick']
b = b[0] if isinstance(b, list) else b
work = [[]]
random.seed(0)
import time
for _ in range(n):
    if not work: break
    p = work.pop(random.randrange(len(work)))
    t = time.time()
    ctx, out = engine.run_path(h, b, p)
    print(out[0], str(out[1])[:1500], len(ctx.trace), '%.2fs' % (time.time() - t), ctx.stats)
    work += ctx.pending
for k, v in C.most_common(25): print(v, k)
