#!/opt/venv/bin/python
"""Mutation sweep: small syntactic changes of the sources against the checks.

usage: mutate.py FILE[:START-END] CHECK[,CHECK...] N [SEED] [WORKERS]
FILE is relative to /repo.  Every mutant lives in a scratch copy below /tmp; it
is first run through the stable tests, survivors go through the checks until one
reports a violation.  Output: one line per mutant on stdout, survivors of all
checks are marked SURVIVED and deserve a look (equivalent, or a gap).
A tool to find gaps; nothing in a check depends on it.
"""
import ast
import concurrent.futures as cf
import os
import random
import shutil
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seed as S

VERIF = S.VERIF


def offsets(src):
    o = [0]
    for l in src.encode().splitlines(keepends=True):
        o.append(o[-1] + len(l))
    return o


def mutants(src, lo, hi):
    """All (description, new source bytes) of single changes between two lines."""
    b = src.encode()
    off = offsets(src)
    def ok(n):
        return lo <= n.lineno <= hi
    tree = ast.parse(src)
    out = []

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def rep(n, new, what):
        s, e = span(n)
        out.append((n.lineno, what + ': ' + b[s:e].decode()[:50].replace('\n', ' ') + ' -> ' + new[:50].replace('\n', ' '), [(s, e, new.encode())]))

    def text(n):
        s, e = span(n)
        return b[s:e].decode()

    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0].value)
        if isinstance(n, ast.JoinedStr):
            for m in ast.walk(n):
                docs.add(m)
    for n in ast.walk(tree):
        if not hasattr(n, 'lineno') or not lo <= n.lineno <= hi or n in docs:
            continue
        if isinstance(n, ast.BinOp):
            l, r = text(n.left), text(n.right)
            if isinstance(n.op, ast.Add) and not isinstance(n.left, ast.Constant):
                rep(n, '((%s) - (%s))' % (l, r), 'add->sub')
            elif isinstance(n.op, ast.Sub):
                rep(n, '((%s) + (%s))' % (l, r), 'sub->add')
            elif isinstance(n.op, ast.Mult):
                rep(n, '(%s)' % r, 'drop left factor')
                rep(n, '(%s)' % l, 'drop right factor')
            elif isinstance(n.op, ast.Div):
                rep(n, '((%s) * (%s))' % (l, r), 'div->mul')
            elif isinstance(n.op, ast.Pow):
                rep(n, '(%s)' % l, 'drop power')
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            rep(n, '(%r)' % (n.value + 1), 'const+1')
            if n.value:
                rep(n, '(-%r)' % n.value, 'negate')
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            rep(n, repr(not n.value), 'flip')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            rep(n, '(' + text(n.operand) + ')', 'drop minus')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, '(' + text(n.operand) + ')', 'drop not')
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in ('conj', 'conjugate', 'copy') and not n.args:
                rep(n, '(' + text(f.value) + ')', 'drop ' + f.attr)
            elif isinstance(f, (ast.Name, ast.Attribute)) and len(n.args) == 1 and not n.keywords and text(f) in ('float', 'int', 'str', 'dict', 'list', 'set', 'sorted', 'abs', 'deepcopy', 'copy', 'copy.deepcopy', 'np.conj', 'sqrt', 'complex'):
                rep(n, '(' + text(n.args[0]) + ')', 'drop call')
            for k in n.keywords:
                if k.arg and len(n.args) + len(n.keywords) > 1:
                    args = [text(a) for a in n.args] + [text(q.value) if False else ('%s=%s' % (q.arg, text(q.value)) if q.arg else '**' + text(q.value)) for q in n.keywords if q is not k]
                    rep(n, '%s(%s)' % (text(f), ', '.join(args)), 'drop keyword ' + k.arg)
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                a = [text(x) for x in n.args]
                a[0], a[1] = a[1], a[0]
                if a[0] != a[1]:
                    kw = ['%s=%s' % (q.arg, text(q.value)) if q.arg else '**' + text(q.value) for q in n.keywords]
                    rep(n, '%s(%s)' % (text(f), ', '.join(a + kw)), 'swap args')
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            alt = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}[type(n.ops[0])]
            rep(n, '(%s %s %s)' % (text(n.left), alt, text(n.comparators[0])), 'compare')
        elif isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            rep(n, '(' + op.join('(' + text(v) + ')' for v in n.values) + ')', 'and/or')
            rep(n, '(' + text(n.values[0]) + ')', 'first only')
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) >= 2:
            e = [text(x) for x in n.slice.elts]
            for i in range(len(e) - 1):
                f = list(e)
                f[i], f[i + 1] = f[i + 1], f[i]
                if f != e:
                    rep(n, '%s[%s]' % (text(n.value), ', '.join(f)), 'swap index')
        elif isinstance(n, (ast.AugAssign, ast.Continue, ast.Break, ast.Raise)):
            rep(n, 'pass', 'delete')
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            rep(n, 'pass', 'delete')
        elif isinstance(n, (ast.Assign,)) and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            rep(n, 'pass', 'delete')
        elif isinstance(n, ast.IfExp):
            rep(n, '(' + text(n.body) + ')', 'ifexp true')
            rep(n, '(' + text(n.orelse) + ')', 'ifexp false')
        elif isinstance(n, ast.Dict):
            for k, v in list(zip(n.keys, n.values)):
                pass
            vals = [v for k, v in zip(n.keys, n.values) if k is not None]
            for v, w in zip(vals, vals[1:]):
                if text(v) != text(w):
                    s1, e1 = span(v)
                    s2, e2 = span(w)
                    out.append((v.lineno, 'swap dict values: %s <-> %s' % (text(v)[:40], text(w)[:40]), [(s1, e1, b[s2:e2]), (s2, e2, b[s1:e1])]))
        elif isinstance(n, ast.If) and n.orelse == []:
            rep(n.test, '(True)', 'if true')
            rep(n.test, '(False)', 'if false')
    seen, good = set(), []
    for ln, what, ed in out:
        key = tuple(ed)
        if key not in seen and any(b[s:e] != n for s, e, n in ed):
            seen.add(key)
            good.append((ln, what, ed))
    return good


def apply(src, ed):
    b = src.encode()
    for s, e, n in sorted(ed, reverse=True):
        b = b[:s] + n + b[e:]
    try:
        compile(b.decode(), 'm', 'exec')
    except Exception:
        return None
    return b


def run(job):
    k, f, ln, what, nb, checks = job
    d = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
    try:
        repo = d + '/repo'
        S.sh('mkdir %s && cd /repo && cp -a .git wilson setup.py %s 2>/dev/null' % (repo, repo))
        open(os.path.join(repo, f), 'wb').write(nb)
        env = dict(os.environ, VERIF_NPROC=os.environ.get('VERIF_NPROC', '2'), VERIF_MAXFAIL='3', WILSON_REPO=repo)
        t = S.stable(repo)
        last = (t.strip().splitlines() or [''])[-1]
        if 'failed' in last or 'error' in last or 'passed' not in last or t.startswith('build'):
            return k, ln, what, 'TESTS'
        # a private copy of the machinery, so that evidence files do not clash
        for c in checks:
            try:
                r = subprocess.run(['/opt/venv/bin/python', '-B', d + '/v/check.py', c] if False else
                                   ['/opt/venv/bin/python', '-B', VERIF + '/check.py', c],
                                   env=env, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                return k, ln, what, 'TIMEOUT ' + c
            if r.returncode == 1 and 'VIOLATION' in r.stdout:
                return k, ln, what, 'killed ' + c
            if r.returncode not in (0, 1):
                return k, ln, what, 'BROKEN %s %s' % (c, (r.stderr or r.stdout)[-200:].replace('\n', ' '))
        return k, ln, what, 'SURVIVED'
    finally:
        shutil.rmtree(d)


def main():
    f, checks, n = sys.argv[1], sys.argv[2].split(','), int(sys.argv[3])
    sd = int(sys.argv[4]) if len(sys.argv) > 4 else 1
    workers = int(sys.argv[5]) if len(sys.argv) > 5 else 4
    lo, hi = 1, 10**9
    if ':' in f:
        f, r = f.split(':')
        lo, hi = map(int, r.split('-'))
    src = open('/repo/' + f).read()
    ms = mutants(src, lo, hi)
    random.Random(sd).shuffle(ms)
    jobs = []
    for ln, what, ed in ms:
        if len(jobs) >= n:
            break
        nb = apply(src, ed)
        if nb is not None:
            jobs.append((len(jobs), f, ln, what, nb, checks))
    print('#', f, len(ms), 'mutants possible,', len(jobs), 'taken', flush=True)
    stat = {}
    with cf.ThreadPoolExecutor(workers) as ex:
        for fu in cf.as_completed([ex.submit(run, j) for j in jobs]):
            k, ln, what, res = fu.result()
            stat[res.split()[0]] = stat.get(res.split()[0], 0) + 1
            print('%s:%d [%s] %s' % (os.path.basename(f), ln, res, what), flush=True)
    print('# summary', f, stat, flush=True)


if __name__ == '__main__':
    main()
