"""Writes /verif/MANIFEST.json from the properties and the harnesses that exist."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NA = {
    'P26': 'The share of samples depends on when the kernel delivers SIGPROF and on how '
           'much CPU time a real program burns between two deliveries; neither is in code '
           'that can be encoded, and convergence over a long run has no bound.',
    'P27': 'Truly concurrent handlers interleave inside the interpreter (GIL release '
           'points between bytecodes, dict and attribute updates of CPython/PyPy); the code '
           'takes no locks and makes no atomicity promise that could be stated over its own '
           'source, so an encoding would decide a model of the interpreter instead. '
           'Event-level interleavings are decided in P01, P02, P12 and P14.',
}
NOTES = {
    'P05': 'Bounded model checking of the C source with stubs for the Python C API: every '
           'path within the bounds, all API failures. Trusts the stubs, CBMC and its solver.',
}
SYM = ('Exhaustive symbolic execution within the bounds in the evidence file; z3 decides '
       'each branch and assertion for all values. Trusts the executor and its stand-ins for '
       'the environment (sampled paths are replayed on the real code under PyPy); '
       'times are exact reals unless the evidence says otherwise.')
checks, na = [], []
for p in props:
    pid = p['id']
    f = os.path.join(HERE, 'harness', pid.lower() + '.py')
    if pid in NA or not os.path.exists(f):
        na.append(dict(property=pid, reason=NA.get(pid, 'The check is not built yet.')))
        continue
    checks.append(dict(
        property=pid, quick_cmd='bin/check %s --tier quick' % pid,
        thorough_cmd='bin/check %s --tier thorough' % pid,
        evidence_file='evidence/%s.json' % pid,
        technique='bounded model checking of the C source (CBMC, SAT)' if pid == 'P05' else
                  'bounded symbolic execution of the Python source, decided by z3',
        level='model_checking', level_note=NOTES.get(pid, SYM)))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', [x['property'] for x in na])
