#!/opt/venv/bin/python
"""DESIGN.md from design_head.md, meta.py, the BOUNDS of the checks, design_notes.py, known_findings.jsonl and catches.json."""
import ast
import glob
import json
import os
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
import sys
sys.path.insert(0, H)
from meta import P
from design_notes import N


def consts(pid):
    d = {}
    for n in ast.parse(open('%s/props/%s.py' % (V, pid)).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('BOUNDS', 'ASSUMPTIONS'):
            try:
                d[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                d[n.targets[0].id] = {'quick': ast.unparse(n.value), 'thorough': ''}
    return d


out = [open(H + '/design_head.md').read(), '\n## Properties\n']
for pid, m in P.items():
    c = consts(pid)
    o, cost, why = N[pid]
    b = c.get('BOUNDS', {})
    out.append('### %s %s\n' % (pid, m['title']))
    out.append('* **Specified**: %s' % m['statement'])
    out.append('* **Method**: %s. %s' % (m['technique'], m['note']))
    out.append('* **Enumerated (quick)**: %s' % b.get('quick'))
    if b.get('thorough') not in (None, 'same', ''):
        out.append('* **Thorough**: %s' % b['thorough'])
    out.append('* **Oracle**: %s' % o)
    if c.get('ASSUMPTIONS'):
        out.append('* **Assumes**: %s' % '; '.join(c['ASSUMPTIONS']))
    out.append('* **Reach**: %s. %s' % (m['tests'].rstrip('.'), why[0].upper() + why[1:] + '.'))
    out.append('* **Cost**: about %d s (quick, 8 cores)\n' % cost)
out.append('## Genuine defects found\n')
out.append('Repaired in /repo (`fix:` commits), each found by the check named:\n')
known = []
for l in open(V + '/known_findings.jsonl'):
    l = l.strip()
    if l.startswith('fixed:'):
        out.append('* ' + l[7:].replace('property=', ''))
    elif l:
        known.append(json.loads(l))
out.append('\nRecorded, not repaired (known findings):\n')
for k in known:
    out.append('* %s `%s`: %s' % (k['property'], k['key'], k['what']))
out.append('\n## Planted bugs and what catches them\n')
ct = json.load(open(H + '/catches.json')) if os.path.exists(H + '/catches.json') else {}
out.append('`tools/seed.py` plants and confirms a bug in a scratch copy; `tools/sweep.py` runs the check of its property (and, where stated, others) against it.\n')
out.append('| bug | breaks | needs | caught by |\n|---|---|---|---|')
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i = d.split('/')[-2]
    m = json.load(open(d))
    c = ct.get(i, {})
    hit = [p for p, r in c.items() if r == 1]
    miss = [p for p, r in c.items() if r != 1]
    out.append('| %s | %s | %s | %s%s |' % (i, m['what_it_breaks'].replace('|', '/').replace('\n', ' '), m['needs'].replace('|', '/').replace('\n', ' '), ', '.join(hit) or '-', (' (not by ' + ', '.join(miss) + ')') if miss else ''))
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
print(len(P), 'properties,', len(glob.glob(V + '/seeded/*/meta.json')), 'seeds')
