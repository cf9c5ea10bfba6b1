"""Runs harness cases with concrete inputs on the unmodified source of /repo.

Reads JSON lines {id, module, harness, bounds, values, timeout}; writes JSON lines
{id, outcome, label, detail, obs, covers}.  Meant for the repository's own
interpreter (PyPy), but any Python 3.9+ works.
"""
import importlib
import json
import os
import signal
import sys
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from symex import env                                    # noqa: E402
env.setup()
from symex.base import CheckFailed, PathEnd, Sort        # noqa: E402
from symex.concrete import ConcreteCtx                   # noqa: E402


class TimeOut(BaseException):
    pass


def on_alarm(*_):
    raise TimeOut()


def plain(ctx, x):
    t = type(x)
    if t in (list, tuple):
        return [plain(ctx, y) for y in x]
    if t in (str, int, float, bool) or x is None:
        return x
    for s in ctx.sorts.values():
        i = s.index_of(x)
        if i is not None:
            return 'ref:%s:%d' % (s.name, i)
    f = getattr(t, 'vt_obs', None)
    if f is not None:
        return f(x)
    if isinstance(x, (int, float, str)):
        return (int if isinstance(x, int) else float if isinstance(x, float) else str)(x)
    return t.__name__


def run_case(case):
    mod = importlib.import_module('harness.' + case['module'])
    h = [h for h in mod.HARNESSES if h.name == case['harness']][0]
    ctx = ConcreteCtx(case['values'])
    exc = None
    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, case.get('timeout', 20))
    try:
        try:
            h.func(ctx, **case['bounds'])
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except BaseException as e:
        exc = e
    a = ctx.aborted if ctx.aborted is not None and not isinstance(exc, TimeOut) else exc
    out = {'id': case['id'], 'label': None, 'detail': None}
    if a is None:
        out['outcome'] = 'ok'
    elif isinstance(a, PathEnd):
        out['outcome'] = 'cut'
    elif isinstance(a, CheckFailed):
        out.update(outcome='fail', label=a.label, detail=a.detail)
    elif isinstance(a, TimeOut):
        out.update(outcome='fail', label='did-not-finish', detail='timed out')
    else:
        out.update(outcome='fail', label='exception:' + type(a).__name__,
                   detail='%s\n%s' % (a, ''.join(
                       traceback.format_tb(a.__traceback__)[-6:])))
    if out['outcome'] == 'ok':
        out['obs'] = [(k, plain(ctx, v)) for k, v in ctx.observations]
        out['covers'] = sorted(ctx.covers)
    return out


def main():
    sys.setrecursionlimit(3000)
    real = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    for line in sys.stdin:
        line = line.strip()
        if not line:
            continue
        case = json.loads(line)
        try:
            out = run_case(case)
        except Exception:
            out = {'id': case['id'], 'outcome': 'error', 'label': None,
                   'detail': traceback.format_exc()}
        real.write(json.dumps(out) + '\n')
        real.flush()


if __name__ == '__main__':
    main()
