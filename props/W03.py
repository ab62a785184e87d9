"""W03 Validation accepts exactly the well-formed bases and coefficient files."""
import itertools
import os
import shutil
import stat
import tempfile
from wilson import wcxf

BOUNDS = {'quick': 'bases: 2 EFT states x all assignments of {absent, empty, 1-2 of 3 coefficient names} to 3 sectors (2 known) x 8 tex states on 3 positions; all parent/child pairs over 3 sectors x 7 contents; '
                   'files: all subsets of 5 known/unknown keys x 3 EFT/basis states; every key of every shipped basis, and every pair of shipped bases',
          'thorough': 'same'}
ASSUMPTIONS = ['LaTeX itself is replaced by a stand-in executable that rejects \\badcmd and writes a TeX-style log']
FAKE = '''#!/bin/sh
# stand-in for latex: latex -halt-on-error -output-directory DIR FILE
dir="$3"; f="$4"
if grep -q 'badcmd' "$f"; then
 printf 'This is TeX\\n\\n! Undefined control sequence.\\nl.4 x \\\\badcmd\\n\\nNo pages of output.\\n' > "$dir/textest.log"; exit 1
fi
if grep -q 'stopcmd' "$f"; then
 printf 'This is TeX\\n\\n! Emergency stop.\\nl.7 y \\\\stopcmd' > "$dir/textest.log"; exit 1
fi
if grep -q 'quietcmd' "$f"; then printf 'This is TeX\\n' > "$dir/textest.log"; exit 1; fi
if grep -q 'nologcmd' "$f"; then exit 1; fi
if grep -q 'killcmd' "$f"; then kill -9 $$; fi
grep -q 'begin{document}' "$f" && grep -q 'end{document}' "$f" || exit 1
printf 'ok\\n' > "$dir/textest.log"; exit 0
'''
NAMES = ['C1', 'C2', 'C3']
CONT = [None, ()] + [(a,) for a in NAMES] + [('C1', 'C2'), ('C2', 'C3')]


def cases(tier):
    out = []
    for eft in ('ok', 'missing', 'other'):
        for a in range(len(CONT)):
            out.append(['basis', eft, a])
    for i in range(8):
        out.append(['tex', i])
    out.append(['subsets'])
    for k in sorted(wcxf.Basis.instances):
        out.append(['keys', list(k)])
    out += [['inherit', i, j] for i in range(len(CONT)) for j in range(len(CONT))]
    return out


def try_(f):
    try:
        f()
        return None
    except (ValueError, AssertionError) as e:
        return e


def basis_ok(eft, sec):
    if eft != 'ok':
        return False
    if set(sec) - {'S1', 'S2'}:
        return False
    al = [k for v in sec.values() for k in v]
    return len(al) == len(set(al))


def check(case, rec):
    se, sb = wcxf.EFT.instances, wcxf.Basis.instances
    scratch = tempfile.mkdtemp(prefix='w03')
    oldpath, oldtmp, oldtd = os.environ.get('PATH', ''), os.environ.get('TMPDIR'), tempfile.tempdir
    try:
        bindir = os.path.join(scratch, 'bin')
        os.mkdir(bindir)
        os.mkdir(os.path.join(scratch, 'tmp'))
        with open(os.path.join(bindir, 'latex'), 'w') as f:
            f.write(FAKE)
        os.chmod(os.path.join(bindir, 'latex'), stat.S_IRWXU)
        tempfile.tempdir = os.path.join(scratch, 'tmp')
        if case[0] == 'basis':
            # no latex at all here: TeX cannot be judged, the rest must be
            os.environ['PATH'] = os.path.join(scratch, 'tmp')
            wcxf.EFT.clear_all()
            wcxf.Basis.clear_all()
            if case[1] == 'ok':
                wcxf.EFT('E', {'S1': {}, 'S2': {}})
            elif case[1] == 'other':
                wcxf.EFT('F', {'S1': {}, 'S2': {}})
            for b, c in itertools.product(range(len(CONT)), repeat=2):
                sec = {s: {k: None for k in CONT[i]} for s, i in zip(('S1', 'S2', 'S3'), (case[2], b, c)) if CONT[i] is not None}
                bs = wcxf.Basis('E', 'B', sec)
                e = try_(bs.validate)
                rec.expect((e is None) == basis_ok(case[1], sec), 'basis:%s:%r' % (case[1], sec),
                           lambda: 'EFT %s, sectors %r: validate -> %r' % (case[1], sec, e))
                if e is not None:
                    m = str(e)
                    al = [k for v in sec.values() for k in v]
                    named = 'E' in m if case[1] != 'ok' else 'S3' in m if 'S3' in sec else all(k in m for k in al if al.count(k) > 1)
                    rec.expect(named, 'basis-message:%s:%r' % (case[1], sec), lambda: 'EFT %s, sectors %r: the error does not name the problem: %s' % (case[1], sec, m))
                if os.listdir(tempfile.tempdir):
                    rec.fail('basis:leftover', 'temporary files left behind: %r' % os.listdir(tempfile.tempdir))
                    break
                rec.step()
                rec.trace()
                rec.state(case[1], case[2], b, c, e is None)
            rec.sample('EFT %s, first sector %r' % (case[1], CONT[case[2]]))
        elif case[0] == 'inherit':
            os.environ['PATH'] = os.path.join(scratch, 'tmp')
            wcxf.EFT.clear_all()
            wcxf.Basis.clear_all()
            wcxf.EFT('E', {'S1': {}, 'S2': {}, 'S4': {}})
            mk = lambda idx: {s: {k: None for k in CONT[i]} for s, i in idx.items() if CONT[i] is not None}
            par = mk({'S1': case[1], 'S2': case[2]})
            wcxf.Basis('E', 'P', par)
            for sec in ({'S1': a, 'S4': b} for a in range(len(CONT)) for b in range(len(CONT))):
                own = mk(sec)
                bs = wcxf.Basis('E', 'B', own, parent='P')
                al = [k for v in {**par, **own}.values() for k in v]
                e = try_(bs.validate)
                rec.expect((e is None) == (len(al) == len(set(al))), 'inherit:%r:%r' % (par, own), lambda: 'parent %r, child %r: validate -> %r' % (par, own, e))
                rec.step()
                rec.trace()
                rec.state('inherit', case[1:], tuple(sec.values()), e is None)
            rec.sample('parent %r' % par)
        elif case[0] == 'tex':
            os.environ['PATH'] = bindir + os.pathsep + oldpath
            wcxf.EFT.clear_all()
            wcxf.Basis.clear_all()
            wcxf.EFT('E', {'S1': {}, 'S2': {}})
            opts = [None, {}, {'tex': 'C_{1}'}, {'tex': r'\badcmd', 'real': True}, {'tex': r'\stopcmd'}, {'tex': r'\quietcmd'}, {'tex': r'\nologcmd'}, {'tex': r'\killcmd'}]
            for j, k in itertools.product(range(8), repeat=2):
                sec = {'S1': {'A': opts[case[1]], 'B': opts[j]}, 'S2': {'D': opts[k]}}
                bs = wcxf.Basis('E', 'B', sec)
                e = try_(bs.validate)
                bad = [x for x in (case[1], j, k) if x > 2]
                want = not bad
                if e is not None and bad:
                    m = str(e)
                    rec.expect('badcmd' in m if 3 in bad else 'stopcmd' in m if 4 in bad else 'LaTeX' in m, 'tex-message:%r' % ((case[1], j, k),),
                               lambda: 'tex %r: the error does not name the problem: %r' % (sec, m))
                rec.expect((e is None) == want, 'tex:%r' % ((case[1], j, k),),
                           lambda: 'tex %r: validate -> %r' % (sec, e))
                left = os.listdir(tempfile.tempdir)
                rec.expect(not left, 'tex:leftover', lambda: 'temporary files left behind: %r' % left)
                rec.step()
                rec.trace()
                rec.state('tex', case[1], j, k)
            rec.sample(repr(sec))
        elif case[0] == 'subsets':
            for state in ('ok', 'noeft', 'nobasis', 'basis-of-other-eft'):
                wcxf.EFT.clear_all()
                wcxf.Basis.clear_all()
                if state != 'noeft':
                    wcxf.EFT('E', {'S1': {}, 'S2': {}})
                wcxf.EFT('F', {'S1': {}})
                if state in ('ok', 'noeft'):
                    wcxf.Basis('E', 'B', {'S1': {'A': None, 'Re{B}': {'real': True}}, 'S2': {'C': None}})
                wcxf.Basis('F', 'B', {'S1': {'A': None, 'U1': None}})
                wcxf.Basis('E', 'B2', {'S1': {'U2': None}})
                keys = ['A', 'Re{B}', 'C', 'U1', 'U2', 'a', 'A ', '']
                for n in range(len(keys) + 1):
                    for sub in itertools.combinations(keys, n):
                        for val in (0, 1.5, {'Re': 0, 'Im': 1}):
                            wc = wcxf.WC('E', 'B', 5, {k: val for k in sub})
                            e = try_(wc.validate)
                            want = state == 'ok' and set(sub) <= {'A', 'Re{B}', 'C'}
                            rec.expect((e is None) == want, 'subset:%s:%r' % (state, sub),
                                       lambda: 'keys %r in state %s: validate -> %r' % (sub, state, e))
                            if e is not None:
                                m = str(e)
                                unknown = [k for k in sub if k not in ('A', 'Re{B}', 'C')]
                                rec.expect(all(k in m for k in unknown) if state == 'ok' else ('E' in m if state == 'noeft' else 'B' in m), 'subset-message:%s:%r' % (state, sub),
                                           lambda: 'keys %r in state %s: the error does not name the problem: %s' % (sub, state, m))
                            rec.step()
                            rec.trace()
                        rec.state(state, sub)
        else:
            eft, basis = case[1]
            b = wcxf.Basis[eft, basis]
            alls = {k: set(w for s in x.sectors.values() for w in s) for k, x in wcxf.Basis.instances.items()}
            mine = alls[eft, basis]
            e = try_(wcxf.WC(eft, basis, 10, {k: 1 for k in mine}).validate)
            rec.expect(e is None, 'keys:%s' % case[1], lambda: 'all keys together rejected: %r' % e)
            for k in sorted(mine):
                e = try_(wcxf.WC(eft, basis, 10, {k: 1}).validate)
                rec.expect(e is None, 'keys:%s:%s' % (case[1], k), lambda: '%s rejected: %r' % (k, e))
                e = try_(wcxf.WC(eft, basis, 10, {k: 1, k + '_': 1}).validate)
                rec.expect(e is not None, 'keys:%s:%s_' % (case[1], k), '%s_ accepted' % k)
                rec.step(2)
                rec.trace()
                rec.state(eft, basis, k)
            for other, ks in alls.items():
                for k in sorted(ks ^ mine)[:200]:
                    e = try_(wcxf.WC(eft, basis, 10, {k: 1}).validate)
                    rec.expect((e is None) == (k in mine), 'cross:%s:%s' % (case[1], k),
                               lambda: '%s: validate -> %r' % (k, e))
                    rec.step()
    finally:
        os.environ['PATH'] = oldpath
        tempfile.tempdir = oldtd
        wcxf.EFT.instances, wcxf.Basis.instances = se, sb
        shutil.rmtree(scratch, ignore_errors=True)
