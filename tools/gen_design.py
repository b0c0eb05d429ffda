"""Writes DESIGN.md from tools/design_*.md, the check modules, properties.jsonl, evidence and seeded/."""
import glob
import importlib
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
os.environ.setdefault('VERIF_REPO', '/repo')
from mc import env  # noqa

NOTE = json.load(open(os.path.join(V, 'tools', 'design_notes.json')))
out = [open(os.path.join(V, 'tools', 'design_head.md')).read()]
props = {p['id']: p for p in map(json.loads, open(os.path.join(V, 'properties.jsonl')))}
for f in sorted(glob.glob(os.path.join(V, 'checks', 'c*_*.py'))):
    m = importlib.import_module('checks.' + os.path.basename(f)[:-3])
    p = props.get(m.PROPERTY)
    if p is None:
        continue
    out.append('### %s %s\n' % (p['id'], p['title']))
    out.append('*Specified.* ' + p['statement'].strip() + '\n')
    out.append('*How it is decided.* ' + m.EXPLANATION + '\n')
    n = NOTE.get(m.PROPERTY, {})
    if n.get('oracle'):
        out.append('*Oracle.* ' + n['oracle'] + '\n')
    out.append('*Enumerated* (quick bounds; thorough in parentheses):\n')
    for x in m.FAMILIES:
        out.append('- `%s`: %s' % (x.name, x.bounds if isinstance(x.bounds, str) else x.bounds('quick')))
    out.append('')
    a = getattr(m, 'ASSUMPTIONS', [])
    if a:
        out.append('*Assumptions / domain.* ' + '; '.join(a) + '.\n')
    if n.get('cost'):
        out.append('*Cost.* ' + n['cost'] + '\n')
    if n.get('why'):
        out.append('*Why tests cannot settle it.* ' + n['why'] + '\n')
out.append('## 3. Planted bugs\n')
out.append('Each is kept in seeded/<id> with its demonstration; the last column is what the checks said (quick tier).\n')
out.append('| planted bug | what it breaks | needs | caught by |\n|---|---|---|---|')
res = json.load(open(os.path.join(V, 'tools', 'seed_results.json')))
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))
    out.append('| %s (%s) | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'], m['needs'], res.get(d, '?')))
out.append(open(os.path.join(V, 'tools', 'design_tail.md')).read())
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))
