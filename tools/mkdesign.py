"""Writes /verif/DESIGN.md: the prose below, bounds from the harnesses, tables of the
planted bugs (tools/caught.json, written by tools/mkseeds.py try) and of the defects."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from symex import env
env.setup()
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
manifest = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
known = json.load(open(os.path.join(HERE, 'known_findings.json')))
try:
    caught = json.load(open(os.path.join(HERE, 'tools', 'caught.json')))
except IOError:
    caught = {}
here = os.path.join(HERE, 'tools', 'design')
head = open(os.path.join(here, 'head.md')).read()
tail = open(os.path.join(here, 'tail.md')).read()
notes = {}
for block in open(os.path.join(here, 'notes.md')).read().split('\n## ')[1:]:
    pid, text = block.split('\n', 1)
    notes[pid.strip()] = text.strip()
na = {x['property']: x['reason'] for x in manifest['not_applicable']}


def bounds(h):
    def one(b):
        if isinstance(b, list):
            return ' and '.join(one(x) for x in b)
        out = []
        for k, v in b.items():
            s = str(v)
            out.append('%s=%s' % (k, s if len(s) < 60 else s[:56] + '...'))
        return ', '.join(out) or '-'
    q, t = h.bounds.get('quick'), h.bounds.get('thorough', h.bounds.get('quick'))
    return one(q), one(t)


out = [head.rstrip(), '', '## 5. The properties, one by one', '']
for p in props:
    pid = p['id']
    out += ['### %s %s' % (pid, p['title']), '']
    if pid in na:
        out += ['Not applicable: ' + na[pid], '']
        continue
    out += [notes.get(pid, ''), '']
    m = importlib.import_module('harness.' + pid.lower())
    out += ['| harness | ranges over | quick | thorough |', '|---|---|---|---|']
    for h in m.HARNESSES:
        q, t = bounds(h)
        out.append('| %s | %s | %s | %s |' % (h.name, h.bound_text.replace('|', '/'), q, t))
    out.append('')
    for a in getattr(m, 'ASSUMPTIONS', ()):
        out.append('* assumed: ' + a)
    out.append('')
out += ['## 6. Defects found and repaired', '',
        'Each was shown on the real code first and is one `fix:` commit in /repo '
        '(known_findings.json lists them; nothing is suppressed).', '']
out += ['* ' + x.replace('fixed: ', '') for x in known['fixed']]
out += ['', 'Recorded findings that are not repaired: ' + (', '.join(
    x['label'] for x in known['findings']) or 'none') + '.', '']
out += ['## 7. Planted bugs', '',
        '`tools/mkseeds.py` generates them from `tools/seeds/*.py` and tries them: the demo '
        'passes on the unchanged tree and fails with the patch, the stable tests pass with '
        'it, and the quick check of the property reports it.', '',
        '| bug | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    meta = json.load(open(os.path.join(HERE, 'seeded', d, 'meta.json')))
    c = caught.get(d, {})
    out.append('| %s | %s | %s | %s |' % (d, meta['property'], meta['needs'].replace('|', '/'),
                                        c.get('by', '?')))
out += ['', tail.rstrip(), '']
open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out))
