#!/opt/venv/bin/python
"""Plant one bug in a scratch copy of /repo, confirm it and record it.

usage: seed.py SPEC.py            (a spec: ID, PROPERTY, NEEDS, BREAKS,
                                   EDITS=[(file, old, new[, count])], DEMO)
       seed.py --check ID [PROP]  run the check against the recorded patch
Never touches /repo: everything happens in a copy below /tmp.
"""
import gzip
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
BASE = 'c485d88'

DEMO_SH = '''#!/bin/bash
# run with cwd = the wilson repository: 0 if the property holds, 1 if not
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d) || exit 2
trap 'rm -rf "$scratch"' EXIT
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
export WILSON_REPO=$PWD WILSON_BASES=$scratch/bases.json SCRATCH=$scratch PYTHONPATH=$here
gzip -dc "$here/bases.json.gz" > "$scratch/bases.json"
timeout 280 /opt/venv/bin/python -B "$here/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def scratch():
    d = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    sh('cp -a /repo %s/repo' % d)
    sh('git -C %s/repo checkout -q -- . && git -C %s/repo clean -fdq' % (d, d))
    return d, d + '/repo'


def stable(repo):
    """The stable tests in a copy: returns list of failures."""
    base = json.load(open('/opt/vp/BASELINE.json'))
    names = base.get('stable') or base.get('passed') or base
    env = 'cd %s && PATH=/opt/venv/bin:/usr/bin:/bin PYTHONPATH=%s/.h PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 ' % (repo, repo)
    os.makedirs(repo + '/.h', exist_ok=True)
    for f in os.listdir('/opt/vp/harness'):
        p = '/opt/vp/harness/' + f
        if os.path.isfile(p):
            s = open(p).read().replace('/repo', repo)
            open(repo + '/.h/' + f, 'w').write(s)
    r = sh(env + '/opt/venv/bin/python -m compileall -q -f wilson setup.py')
    if r.returncode:
        return 'build: ' + r.stdout[-500:]
    r = sh(env + '/opt/venv/bin/python -m pytest -q -p wilson_partial -p no:cacheprovider '
           'wilson/util/test_qcd.py wilson/wcxf/test_wcxf.py wilson/wcxf/converters/test_eos.py 2>&1 | tail -30')
    shutil.rmtree(repo + '/.h')
    return r.stdout


def main():
    if sys.argv[1] == '--check':
        sid = sys.argv[2]
        meta = json.load(open(f'{SEEDED}/{sid}/meta.json'))
        d, repo = scratch()
        try:
            r = sh(f'git -C {repo} apply {SEEDED}/{sid}/patch.diff')
            assert r.returncode == 0, r.stderr
            for p in (sys.argv[3:] or [meta['property']]):
                r = sh(f'WILSON_REPO={repo} VERIF_NOWRITE=1 {VERIF}/check.py {p}')
                v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
                print(sid, p, 'rc', r.returncode, v[0][:160] if v else '-', flush=True)
                if not v and r.returncode:
                    print(r.stdout[-600:], r.stderr[-600:])
        finally:
            shutil.rmtree(d)
        return
    spec = runpy.run_path(sys.argv[1])
    sid = spec['ID']
    out = f'{SEEDED}/{sid}'
    d, repo = scratch()
    try:
        for ed in spec['EDITS']:
            f, old, new = ed[:3]
            n = ed[3] if len(ed) > 3 else 1
            s = open(f'{repo}/{f}').read()
            assert s.count(old) == n, (f, s.count(old), old[:80])
            open(f'{repo}/{f}', 'w').write(s.replace(old, new))
        diff = sh(f'git -C {repo} diff').stdout
        # the patched lines have to be lines of the original repository
        removed = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
        for f in {e[0] for e in spec['EDITS']}:
            orig = sh(f'git -C {repo} show {BASE}:{f}').stdout.splitlines()
            removed = [l for l in removed if l not in orig]
        if removed:
            print('WARNING', sid, 'changes lines that are not original:', removed[:3])
        os.makedirs(out, exist_ok=True)
        open(f'{out}/patch.diff', 'w').write(diff)
        open(f'{out}/demo.py', 'w').write('import wload\nwilson = wload.load()\n' + spec['DEMO'].lstrip('\n'))
        open(f'{out}/demo.sh', 'w').write(DEMO_SH)
        os.chmod(f'{out}/demo.sh', 0o755)
        shutil.copy(f'{VERIF}/lib/wload.py', f'{out}/wload.py')
        with open(f'{VERIF}/fixtures/bases.json', 'rb') as fi, open(f'{out}/bases.json.gz', 'wb') as fo:
            fo.write(gzip.compress(fi.read(), 9, mtime=0))
        json.dump({'property': spec['PROPERTY'], 'needs': spec['NEEDS'], 'what_it_breaks': spec['BREAKS']},
                  open(f'{out}/meta.json', 'w'), indent=1)
        t = stable(repo)
        ok = '18 passed' in t
        laid = d + '/laid'
        shutil.copytree(out, laid, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
        r1 = sh(f'cd {repo} && bash {laid}/demo.sh')
        sh(f'git -C {repo} checkout -q -- .')
        r0 = sh(f'cd {repo} && bash {laid}/demo.sh')
        a = sh(f'git -C {repo} apply --check {out}/patch.diff').returncode
        good = ok and r0.returncode == 0 and r1.returncode == 1 and a == 0
        print(sid, 'GOOD' if good else 'BAD', 'tests', ok, 'clean', r0.returncode, 'patched', r1.returncode, 'apply', a)
        if r1.returncode != 0:
            print('   ', r1.stderr.strip().splitlines()[-1:] or r1.stdout[-200:])
        if not good:
            print(t[-800:] if not ok else '', r0.stderr[-1500:], r1.stderr[-800:] if r1.returncode != 1 else '')
            shutil.rmtree(out)
            sys.exit(1)
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    main()
