"""Decides one property: explores its harnesses, replays what fails, reports.

exit 0  held on every path explored (exhaustively, within the stated bounds)
exit 1  VIOLATION: a solver counterexample that reproduces on the real code
exit 2  no answer (not exhausted, unsupported operation, unreproduced, ...)
"""
import argparse
import importlib
import json
import os
import random
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

from symex import env                                    # noqa: E402
env.setup()

BASE = os.environ.get('VERIF_OUT') or HERE      # (elsewhere only while developing)
OUT = os.path.join(BASE, 'out')
EVIDENCE = os.path.join(BASE, 'evidence')
KNOWN = os.path.join(HERE, 'known_findings.json')
BUDGET = {'quick': 780, 'thorough': 6 * 3600}


class Replayer(object):
    """Runs concrete cases on PyPy against the unmodified source."""

    def __init__(self):
        self.n = 0

    def run(self, cases, timeout=20):
        for i, c in enumerate(cases):
            c['id'] = i
            c.setdefault('timeout', timeout)
        res = {}
        todo = list(cases)
        jobs = min(8, max(1, len(todo) // 8))
        procs = []
        for j in range(jobs):
            part = todo[j::jobs]
            if part:
                procs.append((part, self._start(part)))
        for part, p in procs:
            data = ''.join(json.dumps(c) + '\n' for c in part)
            try:
                out, err = p.communicate(data, timeout=60 + sum(
                    c['timeout'] + 1 for c in part))
            except subprocess.TimeoutExpired:
                p.kill()
                out, err = p.communicate()
            for line in out.splitlines():
                try:
                    r = json.loads(line)
                except ValueError:
                    continue
                res[r['id']] = r
            for c in part:
                if c['id'] not in res:
                    res[c['id']] = {'id': c['id'], 'outcome': 'error', 'label': None,
                                    'detail': 'replay process died: %s' % err[-1500:]}
                    break
        return [res.get(c['id'], {'outcome': 'error', 'label': None,
                                  'detail': 'not run'}) for c in cases]

    def _start(self, part):
        e = dict(os.environ)
        e['PYTHONDONTWRITEBYTECODE'] = '1'
        e['PYTHONHASHSEED'] = '0'
        return subprocess.Popen([env.PYPY, '-B', os.path.join(HERE, 'symex', 'replay_main.py')],
                                stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                stderr=subprocess.PIPE, universal_newlines=True,
                                cwd=HERE, env=e)


def close(a, b):
    if a is None or b is None:
        return True
    if isinstance(a, bool) or isinstance(b, bool):
        return a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= 1e-6 + 1e-9 * max(abs(a), abs(b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    return a == b


def load_known(pid):
    try:
        with open(KNOWN) as f:
            data = json.load(f)
    except IOError:
        return []
    return [k for k in data.get('findings', []) if k['property'] == pid]


def matches(k, harness, label, values):
    if k['harness'] != harness or k['label'] != label:
        return False
    return all(values.get(n) == v for n, v in k.get('when', {}).items())


class Check(object):

    def __init__(self, pid, tier, seed, only=None, verbose=False):
        self.pid, self.tier, self.seed, self.only = pid, tier, seed, only
        self.verbose = verbose
        self.t0 = time.time()
        self.deadline = self.t0 + BUDGET[tier]
        self.problems = []
        self.violations = []
        self.known_hit = set()
        self.known = load_known(pid)
        self.replayer = Replayer()
        self.ev = dict(harnesses=[], functions=set(), paths=0, cut=0, decisions=0,
                       validated=0, queries=0, solver_s=0.0, checks=0, checks_solver=0,
                       unsat=0, samples=[], assumptions=[], labels={}, extra={})

    def log(self, *a):
        if self.verbose:
            print(*a, file=sys.stderr)
            sys.stderr.flush()

    def say(self, *a):
        print(*a)
        sys.stdout.flush()

    # ------------------------------------------------------------------ main
    def run(self):
        modname = self.pid.lower()
        os.makedirs(EVIDENCE, exist_ok=True)
        os.makedirs(OUT, exist_ok=True)
        mod = importlib.import_module('harness.' + modname)
        self.ev['assumptions'].extend(getattr(mod, 'ASSUMPTIONS', ()))
        if hasattr(mod, 'custom'):
            mod.custom(self)
        for h in getattr(mod, 'HARNESSES', ()):
            if self.only and h.name != self.only:
                continue
            if self.violations:
                break
            bounds = h.bounds.get(self.tier, h.bounds.get('quick'))
            for b in (bounds if isinstance(bounds, list) else [bounds]):
                self.harness(modname, h, b)
                if self.violations:
                    break
        return self.finish()

    def harness(self, modname, h, bounds):
        from symex.explore import explore
        tried = {}

        def on_fail(label, detail, cands):
            st = tried.setdefault(label, dict(n=0, ok=False, detail=detail, last=None))
            if st['ok'] or st['n'] >= 16 or not cands:
                return bool(self.violations)
            unknown = [v for v in cands
                       if not any(matches(k, h.name, label, v) for k in self.known)]
            for v in cands:
                for i, k in enumerate(self.known):
                    if matches(k, h.name, label, v):
                        self.known_hit.add(self.known.index(k))
            if not unknown:
                return False
            st['n'] += 1
            cases = [dict(module=modname, harness=h.name, bounds=bounds, values=v)
                     for v in unknown]
            for case, r in zip(cases, self.replayer.run(cases)):
                st['last'] = r
                if r['outcome'] == 'fail' and (
                        r['label'] == label or not any(
                            x in r['label'] + label for x in (':', 'did-not'))):
                    st['ok'] = True
                    self.violation(h, case, label, detail, r)
                    return True
            return False

        t = explore(modname, h, bounds, self.deadline, on_fail=on_fail,
                    log=self.log if self.verbose else None,
                    max_validate=150 if self.tier == 'quick' else 600)
        for label, st in tried.items():
            if not st['ok']:
                self.problem('%s: counterexample to %r did not reproduce on the real '
                             'code: %s; replay: %s' % (h.name, label, st['detail'],
                                                       st['last']))
        for p in t['problems'][:5]:
            self.problem('%s: %s: %s' % (h.name, p[0], p[1]))
        if not t['exhausted'] and not self.violations:
            self.problem('%s: exploration not exhausted after %d paths, %.0f s'
                         % (h.name, t['paths'], t['wall_s']))
        missing = set(h.covers) - t['covers']
        if missing and not self.violations and not tried:
            self.problem('%s: never reached: %s' % (h.name, ', '.join(sorted(missing))))
        n = 0
        if not self.violations:
            n = self.validate(modname, h, bounds, t)
        if self.tier == 'thorough' and not self.violations:
            self.cross_check(h, t['samples'])
        ev = self.ev
        ev['functions'] |= t['functions']
        for k in ('paths', 'cut', 'decisions'):
            ev[k] += t[k]
        for k in ('queries', 'solver_s', 'checks', 'checks_solver', 'unsat'):
            ev[k] += t['stats'][k]
        ev['validated'] += n
        for k, v in t['labels'].items():
            ev['labels'][k] = ev['labels'].get(k, 0) + v
        ev['assumptions'].extend(a for a in h.assumptions
                                 if a not in ev['assumptions'])
        ev['harnesses'].append(dict(
            name=h.name, bounds=bounds, bound_text=h.bound_text, paths=t['paths'],
            paths_outside_assumptions=t['cut'], exhausted=t['exhausted'],
            deepest_path_decisions=t['maxdepth'], wall_s=round(t['wall_s'], 2),
            queries=t['stats']['queries'], solver_s=round(t['stats']['solver_s'], 3),
            assertions_decided=t['stats']['checks'],
            assertions_by_solver=t['stats']['checks_solver'],
            unsat=t['stats']['unsat'], covers=sorted(t['covers']),
            path_models_replayed=n))
        if t['validate']:
            vals, obs, covers = t['validate'][len(t['validate']) // 2]
            if len(ev['samples']) < 6:
                ev['samples'].append(dict(harness=h.name, inputs=vals,
                                          observations=obs[:12]))
        self.log('%s: %d paths (%d cut), %d queries, solver %.1fs, wall %.1fs, '
                 'validated %d' % (h.name, t['paths'], t['cut'],
                                   t['stats']['queries'], t['stats']['solver_s'],
                                   t['wall_s'], n))

    def validate(self, modname, h, bounds, t):
        """Replays path models on PyPy; observations have to agree."""
        todo = t['validate']
        limit = 150 if self.tier == 'quick' else 600
        if len(todo) > limit:
            todo = random.Random(self.seed).sample(todo, limit)
        cases = [dict(module=modname, harness=h.name, bounds=bounds, values=v)
                 for v, _, _ in todo]
        n = other = 0
        for (vals, obs, covers), case, r in zip(todo, cases, self.replayer.run(cases)):
            if r['outcome'] == 'ok' and close([list(o) for o in obs], r['obs']):
                n += 1
            elif r['outcome'] == 'fail':
                self.violation(h, case, r['label'],
                               'model of an explored path fails on the real code', r)
                return n
            elif h.rounding and r['outcome'] == 'ok' and other < len(todo) // 3:
                # the path has a rounding error which is not the one of binary64
                other += 1
            else:
                self.problem('%s: encoding and real code disagree on %s: %s vs %s' % (
                    h.name, json.dumps(vals)[:600], json.dumps(obs)[:600], r))
                break
        return n

    def cross_check(self, h, samples):
        """Re-decides a sample of the discharged queries with cvc5."""
        n = 0
        for label, ctx, neg in samples[:25]:
            text = '(set-logic ALL)\n%s\n(assert %s)\n(check-sat)\n' % (ctx, neg)
            try:
                p = subprocess.run(['cvc5', '--tlimit=20000', '--lang=smt2', '-'],
                                   input=text, universal_newlines=True,
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            except OSError:
                return
            out = p.stdout.strip()
            if out == 'unsat':
                n += 1
            elif out == 'sat':
                self.problem('%s: cvc5 disagrees on %r' % (h.name, label))
        e = self.ev['extra']
        e['cvc5_agreed'] = e.get('cvc5_agreed', 0) + n

    # --------------------------------------------------------------- verdicts
    def problem(self, text):
        self.problems.append(text)

    def violation(self, h, case, label, detail, r):
        name = '%s-%s.json' % (self.pid, h.name if h is not None else 'custom')
        path = os.path.join(OUT, name)
        with open(path, 'w') as f:
            json.dump(dict(property=self.pid, label=label, solver_detail=detail,
                           case=case, replayed=r,
                           how='bin/replay %s' % path), f, indent=1)
        self.violations.append((label, path, r))

    def finish(self):
        self.evidence()
        for i, k in enumerate(self.known):
            if i in self.known_hit:
                self.say('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        if self.violations:
            for label, path, r in self.violations[:1]:
                self.say('violated: %s' % label)
                self.say((r.get('detail') or '')[:1500])
                self.say('VIOLATION property=%s replay=%s' % (self.pid, path))
            return 1
        if self.problems:
            for p in self.problems[:8]:
                self.say('NO ANSWER: %s' % p)
            return 2
        e = self.ev
        self.say('%s held: %d paths, %d decisions, %d assertions decided (%d by the '
                 'solver), %d queries, solver %.1f s, %d path models replayed, %.1f s'
                 % (self.pid, e['paths'], e['decisions'], e['checks'],
                    e['checks_solver'], e['queries'], e['solver_s'], e['validated'],
                    time.time() - self.t0))
        return 0

    def evidence(self):
        e = self.ev
        cov = dict(states=e['paths'], transitions=e['decisions'],
                   traces_validated_against_impl=e['validated'],
                   samples=e['samples'][:6],
                   exhaustive=not self.problems and not self.violations,
                   meaning='states = symbolic paths completed, transitions = '
                           'decisions (branches, choices) taken on them; '
                           'traces_validated_against_impl = path models re-run on '
                           'PyPy on the unmodified source with equal observations',
                   functions_encoded=sorted(e['functions']),
                   harnesses=e['harnesses'],
                   assertions_decided=e['checks'],
                   assertions_decided_by_solver=e['checks_solver'],
                   solver_queries=e['queries'], unsat=e['unsat'],
                   solver_s=round(e['solver_s'], 3), assertion_labels=e['labels'],
                   paths_outside_assumptions=e['cut'],
                   problems=[p[:500] for p in self.problems[:5]])
        cov.update(e['extra'])
        doc = dict(property=self.pid, tier=self.tier, seed=self.seed,
                   level='model_checking', coverage=cov,
                   assumptions=e['assumptions'],
                   wall_s=round(time.time() - self.t0, 2),
                   violations=len(self.violations))
        text = json.dumps(doc, indent=1, default=str)
        while len(text) > 60000 and cov['samples']:
            cov['samples'].pop()
            text = json.dumps(doc, indent=1, default=str)
        if len(text) > 60000:
            cov['functions_encoded'] = cov['functions_encoded'][:300]
            cov['assertion_labels'] = {}
            text = json.dumps(doc, default=str)
        path = os.path.join(EVIDENCE, self.pid + '.json')
        with open(path + '.tmp', 'w') as f:
            f.write(text)
        os.replace(path + '.tmp', path)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED') or 1)
    c = Check(a.property, a.tier, seed, a.only, a.v)
    try:
        rc = c.run()
    except Exception:
        import traceback
        traceback.print_exc()
        try:
            c.problem('crash of the check: ' + traceback.format_exc()[-1500:])
            c.evidence()
        except Exception:
            pass
        rc = 1 if c.violations else 2
        if c.violations:
            c.say('VIOLATION property=%s replay=%s' % (c.pid, c.violations[0][1]))
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
