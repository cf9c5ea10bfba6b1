"""Writes /verif/seeded/<id>/ from the specifications in tools/seeds/*.py and tries them.

  tools/mkseeds.py make [ID...]     (re)generate patch.diff, demo.sh, demo.py, meta.json
  tools/mkseeds.py test [ID...]     only demo and tests
  tools/mkseeds.py try  [ID...]     demo on both trees, stable tests with the patch,
                                    and the property's quick check on the patched copy
Works on copies of /repo under /tmp, which are removed again.
"""
import glob, json, os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')
PY = '/opt/venv/bin/python'
DEMO_SH = '#!/bin/sh\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n'
DEMO_HEAD = 'import os, sys\nsys.path.insert(0, os.getcwd())\n'


def specs():
    out = {}
    for f in sorted(glob.glob(os.path.join(HERE, 'tools', 'seeds', '*.py'))):
        for s in runpy.run_path(f)['SEEDS']:
            assert s['id'] not in out, s['id']
            out[s['id']] = s
    return out


def copy():
    d = tempfile.mkdtemp(prefix='seed.')
    shutil.rmtree(d)
    subprocess.check_call(['cp', '-a', '/repo', d])
    return d


def make(s):
    d = copy()
    try:
        for path, old, new in s['edits']:
            p = os.path.join(d, path)
            text = open(p).read()
            assert text.count(old) == 1, (s['id'], path, text.count(old), old)
            with open(p, 'w') as f:
                f.write(text.replace(old, new))
        diff = subprocess.check_output(['git', '-C', d, 'diff'], universal_newlines=True)
    finally:
        shutil.rmtree(d)
    o = os.path.join(SEEDED, s['id'])
    os.makedirs(o, exist_ok=True)
    open(os.path.join(o, 'patch.diff'), 'w').write(diff)
    open(os.path.join(o, 'demo.sh'), 'w').write(s.get('demo_sh', DEMO_SH))
    os.chmod(os.path.join(o, 'demo.sh'), 0o755)
    if 'demo' in s:
        open(os.path.join(o, 'demo.py'), 'w').write(DEMO_HEAD + s['demo'].lstrip('\n'))
    for n, t in s.get('files', {}).items():
        open(os.path.join(o, n), 'w').write(t)
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']),
              open(os.path.join(o, 'meta.json'), 'w'), indent=1)


def run(cmd, cwd, timeout, **env):
    try:
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           universal_newlines=True, timeout=timeout,
                           env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', **env))
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 'timeout', ''


def attempt(s, checks=True):
    o = os.path.join(SEEDED, s['id'])
    d = copy()
    res = dict(id=s['id'])
    try:
        demo = os.path.join(o, 'demo.sh')
        rc, out = run([demo], d, 300)
        if rc != 0:
            res['bad'] = 'demo fails on unchanged tree: %s' % out[-800:]
            return res
        subprocess.check_call(['git', '-C', d, 'apply', os.path.join(o, 'patch.diff')])
        rc, out = run([demo], d, 300)
        res['demo'] = out.strip()[-160:]
        if rc == 0:
            res['bad'] = 'demo passes with the patch'
            return res
        subprocess.call(['find', d, '-name', '__pycache__', '-prune', '-exec', 'rm', '-rf', '{}', '+'])
        stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
        rc, out = run([PY, '-m', 'pytest', '-v', '-p', 'no:cacheprovider', '--timeout=300',
                       '--continue-on-collection-errors', '-W', 'ignore::DeprecationWarning',
                       '--benchmark-disable'], d, 600, PYTHONPATH=d, LANG='C.UTF-8')
        passed = {l.split()[0].replace('.py::', '::').replace('/', '.')
                  for l in out.splitlines() if ' PASSED' in l or ' XPASS' in l}
        bad = [t for t in stable if t not in passed]
        if bad:
            res['bad'] = 'tests fail: %s' % bad
        rc, out = run(['gcc', '-fsyntax-only', '-Werror=implicit-int', '-I/usr/include/pypy3.9',
                       'profiling/speedup.c'], d, 60)
        if rc:
            res['bad'] = 'speedup.c: ' + out[-300:]
        if checks:
            for pid in ([s['property']] if checks is True else checks):
                rc, out = run([os.path.join(HERE, 'bin', 'check'), pid, '--tier', 'quick'], HERE, 900,
                              VERIF_REPO=d, VERIF_OUT=d + '.out', VERIF_SEED='1')
                res[pid] = (rc, '\n'.join(l for l in out.strip().splitlines() if l.startswith('violated: ') or
                                           'VIOLATION' in l or l.startswith('NO ANSWER'))[:300] or out[-300:])
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(d + '.out', ignore_errors=True)
    return res


def label_of(out):
    """The harness and the assertion that reported it."""
    label = [l for l in out.splitlines() if l.startswith('violated: ')]
    harness = [l for l in out.splitlines() if 'VIOLATION property=' in l]
    h = harness[0].rsplit('-', 1)[-1].replace('.json', '') if harness else '?'
    return '%s: %s' % (h, label[0][10:] if label else '')


def remember(sid, text):
    path = os.path.join(HERE, 'tools', 'caught.json')
    try:
        data = json.load(open(path))
    except IOError:
        data = {}
    data[sid] = dict(by=text)
    with open(path, 'w') as f:
        json.dump(data, f, indent=1, sort_keys=True)
        f.write('\n')


def main():
    mode, ids = sys.argv[1], sys.argv[2:]
    all_ = specs()
    todo = [all_[i] for i in ids] if ids else list(all_.values())
    for s in todo:
        make(s)
    if mode in ('try', 'test'):
        with ThreadPoolExecutor(2) as ex:
            for s, r in zip(todo, ex.map(lambda s: attempt(s, mode == 'try'), todo)):
                c = r.get(s['property'], ('-', ''))
                verdict = 'BAD ' + r['bad'] if 'bad' in r else (
                    'CAUGHT' if c[0] == 1 and 'VIOLATION property=%s' % s['property'] in c[1] else 'MISSED')
                print('%-28s %s %s' % (s['id'], s['property'], verdict))
                if mode == 'try':
                    remember(s['id'], '%s %s' % (s['property'], label_of(c[1]))
                             if verdict == 'CAUGHT' else verdict[:60])
                print('      demo: %s' % r.get('demo', '').replace('\n', ' | '))
                print('      check: %s' % str(c).replace('\\n', ' | ')[:420])
                sys.stdout.flush()


main()
