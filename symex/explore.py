"""Parallel depth-first exploration of a harness by re-execution."""
import concurrent.futures as cf
import gc
import hashlib
import importlib
import multiprocessing
import os
import sys
import time

from symex import engine
from symex.engine import run_path

KEYS = ('queries', 'solver_s', 'branches', 'checks', 'checks_solver', 'unsat')


def _prefix_key(prefix):
    return hashlib.md5(repr(prefix).encode()).digest()


def _take(trace, rate):
    """Deterministic pseudo-random selection of paths for trace validation."""
    h = _prefix_key(trace)
    return int.from_bytes(h[:4], 'big') < rate * 2 ** 32


def load_harness(modname, name):
    mod = importlib.import_module('harness.' + modname)
    for h in mod.HARNESSES:
        if h.name == name:
            return h
    raise KeyError(name)


def slice_(modname, name, bounds, prefixes, slice_s, rate, variants):
    """Explores for about slice_s seconds; returns results and what is left."""
    h = load_harness(modname, name)
    gc.disable()
    # generators of finished paths are collected when no path runs
    sys.unraisablehook = lambda *a: None
    t0 = time.time()
    work = list(prefixes)
    r = dict(paths=0, cut=0, decisions=0, fails=[], problems=[], functions=set(),
             covers=set(), labels={}, validate=[], samples=[], keys=set(),
             stats=dict.fromkeys(KEYS, 0), maxdepth=0)
    first = True
    while work and (first or time.time() - t0 < slice_s):
        first = False
        prefix = work.pop()
        ctx, (kind, info) = run_path(h, bounds, prefix)
        if (kind, info) == ('fail', ('did-not-finish', 'time')):
            # (unless the machine was busy)
            ctx, (kind, info) = run_path(h, bounds, prefix, 180)
        work.extend(ctx.pending)
        r['paths'] += 1
        new = max(0, len(ctx.trace) - len(prefix))
        r['decisions'] += new + (1 if prefix else 0)
        r['maxdepth'] = max(r['maxdepth'], len(ctx.trace))
        for k in KEYS:
            r['stats'][k] += ctx.stats[k]
        r['functions'] |= ctx.functions
        for k, v in ctx.labels.items():
            r['labels'][k] = r['labels'].get(k, 0) + v
        if ctx.sample and len(r['samples']) < 2:
            r['samples'].extend(ctx.sample)
        if kind == 'ok':
            r['covers'] |= ctx.covers
            if _take(ctx.trace, rate):
                try:
                    vals = ctx.extract()
                    obs = [(k, ctx.obs_value(v)) for k, v in ctx.observations]
                    r['validate'].append((vals, obs, sorted(ctx.covers)))
                except engine.Nondeterminism as exc:
                    r['problems'].append(('inconclusive', str(exc)))
                except engine.Inconclusive as exc:
                    pass
        elif kind == 'cut':
            r['cut'] += 1
        elif kind == 'fail':
            cands = []
            for v in range(variants):
                try:
                    vals = ctx.extract(v)
                except (engine.Nondeterminism, engine.Inconclusive) as exc:
                    r['problems'].append(('inconclusive', 'model of a failing path: %s' % exc))
                    break
                if vals not in cands:
                    cands.append(vals)
            r['fails'].append((info[0], info[1][:2000], cands))
        else:
            r['problems'].append((kind, str(info)[:3000]))
        ctx.__dict__.clear()
        engine.CUR.path = None
        if r['paths'] % 20 == 0:
            gc.collect()
    r['left'] = work
    return r


def explore(modname, h, bounds, deadline, jobs=None, rate=None, on_fail=None,
            max_validate=150, log=None):
    """Explores every path of harness `h`.  `on_fail(label, detail, cands)` is
    called for failing paths and returns True to stop."""
    jobs = jobs or min(8, os.cpu_count() or 1)
    total = dict(paths=0, cut=0, decisions=0, functions=set(), covers=set(),
                 labels={}, validate=[], samples=[], problems=[], maxdepth=0,
                 stats=dict.fromkeys(KEYS, 0), exhausted=False, fails=0)
    t0 = time.time()
    stop = False
    mp = multiprocessing.get_context('fork')
    with cf.ProcessPoolExecutor(jobs, mp_context=mp) as pool:
        work = [[]]
        running = set()
        last = 0
        while (work or running) and not stop:
            while work and len(running) < jobs:
                share = max(1, min(64, len(work) // jobs))
                batch = [work.pop() for _ in range(min(share, len(work)))]
                sl = 0.05 if len(work) < 4 * jobs and total['paths'] < 200 else 1.0
                rt = 1.0 if total['paths'] < max_validate // 3 else \
                    min(1.0, max_validate / (3.0 * total['paths']))
                running.add(pool.submit(slice_, modname, h.name, bounds, batch, sl,
                                        rt, 2))
            done, running = cf.wait(running, timeout=5,
                                    return_when=cf.FIRST_COMPLETED)
            for f in done:
                r = f.result()
                work.extend(r['left'])
                for k in ('paths', 'cut', 'decisions'):
                    total[k] += r[k]
                total['maxdepth'] = max(total['maxdepth'], r['maxdepth'])
                for k in KEYS:
                    total['stats'][k] += r['stats'][k]
                total['functions'] |= r['functions']
                total['covers'] |= r['covers']
                for k, v in r['labels'].items():
                    total['labels'][k] = total['labels'].get(k, 0) + v
                total['problems'].extend(r['problems'])
                if len(total['validate']) < 2 * max_validate:
                    total['validate'].extend(r['validate'])
                if len(total['samples']) < 40:
                    total['samples'].extend(r['samples'])
                total['fails'] += len(r['fails'])
                for label, detail, cands in r['fails']:
                    if not stop and on_fail is not None and on_fail(label, detail, cands):
                        stop = True
            if len(total['problems']) > 200:
                break
            if time.time() > deadline:
                break
            if log and time.time() - last > 10:
                last = time.time()
                log('  %s: %d paths, %d queued, %.0fs' % (
                    h.name, total['paths'], len(work), time.time() - t0))
        total['exhausted'] = not work and not running
        if not total['exhausted']:
            for p in list(pool._processes.values()):
                p.kill()
    total['wall_s'] = time.time() - t0
    return total
