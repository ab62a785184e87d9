#!/opt/venv/bin/python
"""sweep.py [ID ...]: run the check of each planted bug's property; results to tools/catches.json"""
import json
import os
import subprocess
import sys
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
extra = [a[1:] for a in ids if a.startswith('+')]
ids = [i for i in ids if not i.startswith('+')]
ids = [j for i in ids for j in sorted(os.listdir(V + '/seeded')) if j.startswith(i)]
F = H + '/catches.json'
for i in ids:
    prop = json.load(open('%s/seeded/%s/meta.json' % (V, i)))['property']
    for p in [prop] + extra:
        r = subprocess.run(['/opt/venv/bin/python', H + '/seed.py', '--check', i, p], capture_output=True, text=True)
        line = [l for l in r.stdout.splitlines() if l.startswith(i)]
        rc = int(line[0].split(' rc ')[1].split()[0]) if line else None
        if rc == 1 and 'VIOLATION' not in line[0]:
            rc = 2
        d = json.load(open(F)) if os.path.exists(F) else {}
        d.setdefault(i, {})[p] = rc
        json.dump(d, open(F, 'w'), indent=1, sort_keys=True)
        print(i, p, rc, flush=True)
