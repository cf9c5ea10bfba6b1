"""P05  the C accelerator captures the same stack and is memory safe.

The C source is decided by CBMC (custom() below): /repo's speedup.c is compiled
together with harness/c/driver.c, a model of the C API and of a chain of frames.
The Python side of it, the wrapper in utils.py, is executed symbolically.
"""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time
import types

from harness.common import Harness, Code, Frame
from symex.base import REPO

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = os.path.join(HERE, 'harness', 'c')
M = 3

ASSUMPTIONS = [
    'the C API behaves as harness/c models it: frames are told apart by identity, two of '
    'the codes may be equal without being the same; lists and reference counts are as '
    'documented, PyList_Reverse() does not fail',
    'any single call among PyArg_ParseTuple, PyList_New, PyList_Append, PyList_Insert, '
    'PySet_Contains, comparisons, attributes and memory may fail (the first failure is '
    'the only one)',
    'the layout of a frame is the one of the Python versions profiling supports '
    '(f_back and f_code are fields)',
]

# (frames, failing calls, what)
RUNS = {
    'quick': [(5, 1), (8, 0)],
    'thorough': [(8, 1), (12, 0)],
}
WITNESSES = {1: 'ignored frames and a base are left out', 2: 'a late call fails',
             3: 'every frame is in the stack', 4: 'there is no frame'}


def _run(cmd, timeout, cwd):
    t0 = time.time()
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       universal_newlines=True, timeout=timeout)
    return p, time.time() - t0


def source():
    return os.path.join(REPO, 'profiling', 'speedup.c')


def flags(n, extra=()):
    return ['-DVT_N=%d' % n, '-DVT_M=%d' % M, '-DVT_CAP=%d' % (n + 1), '-I', C] + list(extra)


def cbmc_cmd(n):
    return ['cbmc', '--unwind', str(max(13, n + 4)), '--unwinding-assertions',
            '--no-malloc-may-fail', '--slice-formula', '--json-ui', '--trace', '--verbosity', '8']


def compile_goto(check, work, name, n, extra=()):
    out = os.path.join(work, name + '.goto')
    p, _ = _run(['goto-cc'] + flags(n, extra) + [source(), os.path.join(C, 'driver.c'),
                                                '-o', out], 120, work)
    if p.returncode:
        check.problem('speedup.c is not compiled by goto-cc: %s' % p.stderr[-1500:])
        return None
    return out


def start_cbmc(goto, n, work, name, props=()):
    out = open(os.path.join(work, name + '.json'), 'w')
    return subprocess.Popen(cbmc_cmd(n) + [goto], cwd=work, stdout=out,
                            stderr=subprocess.STDOUT)


def parse(path):
    """(verdict, failures [(description, inputs)], seconds of the solver, bodyless)"""
    verdict, fails, secs, missing, number = None, [], 0.0, [], 0
    try:
        with open(path) as f:
            doc = json.load(f)
    except ValueError:
        return None, [], 0.0, ['unreadable output'], 0
    for x in doc:
        if 'messageText' in x:
            t = x['messageText']
            if t.startswith('Runtime Solver:') or t.startswith('Runtime decision procedure'):
                if t.startswith('Runtime Solver:'):
                    secs += float(t.split(':')[1].strip().rstrip('s'))
            if 'no body for function' in t or 'has no body' in t:
                missing.append(t)
            if x.get('messageType') == 'ERROR':
                missing.append(t)
        if 'cProverStatus' in x:
            verdict = x['cProverStatus']
        for r in x.get('result', ()):
            number += 1
            if r['status'] == 'FAILURE':
                fails.append((r['property'], r['description'], inputs(r.get('trace', ()))))
    return verdict, fails, secs, missing, number


def inputs(trace):
    """The values of the in_... variables at the end of the trace."""
    vals = {}
    for s in trace:
        if s.get('stepType') == 'assignment' and str(s.get('lhs', '')).startswith('in_'):
            d = s['value'].get('data')
            if d is None:
                continue
            vals[re.sub(r'\[(\d+)l*\]', r'[\1]', s['lhs'])] = int(d.rstrip('lu'))
    return vals


def arguments(vals, n):
    def get(name):
        return vals.get(name, 0)
    a = [get('in_n'), get('in_base'), get('in_base_code'), get('in_fail'), get('in_equal')]
    for i in range(n):
        a += [get('in_code[%d]' % i), get('in_ign_frame[%d]' % i)]
    a += [get('in_ign_code[%d]' % i) for i in range(M)]
    return [str(x) for x in a]


def build_replay(check, work, n, extra=()):
    out = os.path.join(work, 'replay%d' % n)
    p, _ = _run(['gcc', '-DREPLAY', '-g', '-w', '-fsanitize=address,undefined',
                 '-fno-sanitize-recover=all'] + flags(n, extra) +
                [source(), os.path.join(C, 'driver.c'), '-o', out], 120, work)
    if p.returncode:
        check.problem('speedup.c with the model of the C API is not compiled by gcc: %s'
                      % p.stderr[-1500:])
        return None
    return out


def replay(exe, args, work):
    e = dict(os.environ, ASAN_OPTIONS='detect_leaks=0')
    try:
        p = subprocess.run([exe] + args, cwd=work, stdout=subprocess.PIPE, env=e,
                           stderr=subprocess.STDOUT, universal_newlines=True, timeout=30)
    except subprocess.TimeoutExpired:
        return 'fail', 'does not end'
    text = p.stdout.strip()
    if p.returncode == 3:
        return 'outside', text
    if p.returncode == 0:
        return 'ok', text
    return 'fail', text[-1200:]


def custom(check):
    if check.only:
        return
    work = tempfile.mkdtemp(prefix='verif-p05-')
    try:
        decide(check, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(check, work):
    ev = check.ev
    t0 = time.time()
    jobs = []
    for n, failing in RUNS[check.tier]:
        name = 'main%d_%d' % (n, failing)
        goto = compile_goto(check, work, name, n, () if failing else ['-DNOFAIL'])
        if goto is None:
            return
        jobs.append(('main', n, failing, name, start_cbmc(goto, n, work, name)))
    wn = 4
    for w in WITNESSES:
        name = 'witness%d' % w
        goto = compile_goto(check, work, name, wn, ['-DWITNESS=%d' % w])
        if goto is None:
            return
        jobs.append(('witness', wn, w, name, start_cbmc(goto, wn, work, name)))
    exes = {}
    try:
        for kind, n, what, name, p in sorted(jobs, key=lambda j: j[0] != 'witness'):
            try:
                p.wait(timeout=max(1, check.deadline - time.time()))
            except subprocess.TimeoutExpired:
                check.problem('CBMC did not end in time (%s)' % name)
                continue
            verdict, fails, secs, missing, number = parse(os.path.join(work, name + '.json'))
            check.log('%s: %s, %d properties, solver %.1f s' % (name, verdict, number, secs))
            ev['queries'] += 1
            ev['solver_s'] += secs
            if missing:
                check.problem('the model of the C API lacks: %s' % '; '.join(missing)[:600])
                continue
            if verdict not in ('success', 'failure'):
                check.problem('CBMC gives no verdict (%s)' % name)
                continue
            if n not in exes:
                exes[n] = build_replay(check, work, n)
            if exes[n] is None:
                return
            if kind == 'witness':
                found = [v for _, d, v in fails if d == 'witness']
                if not found:
                    if not any(d != 'witness' for _, d, _ in fails):
                        check.problem('never reached: %s' % WITNESSES[what])
                    continue
                res, text = replay(exes[n], arguments(found[0], n), work)
                if res == 'ok':
                    ev['validated'] += 1
                    ev['samples'].append(dict(harness='c', inputs=found[0],
                                              observations=[WITNESSES[what], text]))
                elif res == 'outside':
                    check.problem('the witness %d is outside of the assumptions' % what)
                continue
            unwinding = [f for f in fails if 'unwinding' in f[0] or 'unwinding' in f[1]]
            ev['checks'] += number
            ev['checks_solver'] += number
            ev['unsat'] += number - len(fails)
            ev['paths'] += 1
            ev['harnesses'].append(dict(
                name=name, bounds=dict(frames=n, codes=M, failing_calls=what),
                bound_text='at most %d frames, %d codes, %s; loops unwound to the end' % (
                    n, M, 'any one call fails' if what else 'no call fails'),
                assertions_decided=number, solver_s=round(secs, 2), queries=1))
            if not fails:
                continue
            ok = False
            last = None
            for prop, desc, vals in fails:
                res, text = replay(exes[n], arguments(vals, n), work)
                last = (desc, vals, res, text)
                if res == 'fail':
                    ok = True
                    r = dict(outcome='fail', label=desc, detail=text, obs=[])
                    case = dict(custom='p05', frames=n, arguments=arguments(vals, n))
                    check.violation(None, case, desc, desc, r)
                    break
            if ok:
                break
            if unwinding and len(unwinding) == len(fails):
                check.problem('a loop of the C source goes on beyond the bound')
            else:
                check.problem('a counterexample of CBMC did not reproduce: %r' % (last,))
    finally:
        for j in jobs:
            if j[4].poll() is None:
                j[4].kill()
                j[4].wait()
    ev['functions'] |= {'profiling/speedup.c ' + f
                        for f in ('frame_stack', 'PyInit_speedup')}
    ev['extra']['c_wall_s'] = round(time.time() - t0, 1)


def replay_case(case):
    """Re-runs a recorded counterexample (bin/replay)."""
    class Say(object):
        def problem(self, text):
            print(text)
    work = tempfile.mkdtemp(prefix='verif-p05-')
    try:
        exe = build_replay(Say(), work, case['frames'])
        res, text = replay(exe, case['arguments'], work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return dict(outcome=res, detail=text)


# ------------------------------------------------------------- the Python side
class FakeSpeedup(object):
    """A C module whose frame_stack() insists on what the C code insists on."""

    def __init__(self, ctx):
        self.ctx, self.calls = ctx, []

    def frame_stack(self, *args):
        self.ctx.check(len(args) == 5, 'five arguments are passed')
        self.calls.append(args)
        return [args[0]]


def body(ctx, frames):
    """utils.frame_stack() hands everything over to the accelerator if there is one."""
    fake = FakeSpeedup(ctx)
    module = types.ModuleType('profiling.speedup')
    module.frame_stack = fake.frame_stack
    ctx.loader.modules['profiling.speedup'] = module
    utils = ctx.load('profiling.utils')
    n = frames
    codes = [Code(i) for i in range(n)]
    frames = [Frame(codes[i], None, i) for i in range(n)]
    frame = frames[0]
    kw = {}
    base = base_code = None
    ign_f, ign_c = [], []
    if ctx.bool('base_given'):
        base = kw['base_frame'] = ctx.pick('base', frames)
    if ctx.bool('base_code_given'):
        base_code = kw['base_code'] = ctx.pick('base_code', codes)
    if ctx.bool('frames_given'):
        ign_f = [f for i, f in enumerate(frames) if ctx.bool('ign_frame%d' % i)]
        kw['ignored_frames'] = ctx.choose_from('kind_f', [list, tuple, frozenset, iter])(ign_f)
    if ctx.bool('codes_given'):
        ign_c = [c for i, c in enumerate(codes) if ctx.bool('ign_code%d' % i)]
        kw['ignored_codes'] = ctx.choose_from('kind_c', [list, tuple, frozenset, iter])(ign_c)
    r = utils.frame_stack(frame, **kw)
    ctx.check(len(fake.calls) == 1, 'the accelerator is used')
    a = fake.calls[0]
    ctx.check(a[0] is frame and a[1] is base and a[2] is base_code,
              'the frame and the base are passed on')
    ctx.check(isinstance(a[3], (set, frozenset)) and isinstance(a[4], (set, frozenset)),
              'sets are passed on')
    ctx.check(a[3] == set(ign_f) and a[4] == set(ign_c), 'what is ignored is passed on')
    ctx.check(list(r) == [frame], 'its answer is returned')
    ctx.cover('called')


HARNESSES = [
    Harness('wrapper', body, {'quick': dict(frames=2), 'thorough': dict(frames=3)},
            bound_text='utils.frame_stack() with an accelerator: every subset of the '
                       'arguments, 2 (3) frames and codes',
            covers=['called']),
]
