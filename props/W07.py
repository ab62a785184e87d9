"""W07 EOS export: exported parameter = SM value + new-physics value, every key."""
import itertools
import os
import shutil
import tempfile
import yaml
from wilson import wcxf
from wilson.wcxf.converters import eos

BOUNDS = {'quick': 'all assignments of 11 values (absent, 0, 9 real/complex incl. opposite, conjugate and close ones) to electron and muon coefficients of each charged-current operator; '
                   'all assignments to the direct, complex and primed spelling of every neutral-current parameter; every key of the EOS basis as a unit; '
                   'all subsets of 7 parameter-file kinds in a directory',
          'thorough': 'same plus all value triples for pairs of charged-current operators'}
DATA = os.path.join(os.environ.get('WILSON_REPO', '/repo'), 'wilson', 'wcxf', 'data')
VALS = [None, 0.0, 0.25, -1.5, 0.5j, 0.25 + 0.125j, 1e-9 - 1j, -0.25, -0.25 + 0.125j, 0.25 - 0.125j, 0.25 + 1e-13]
CC = ['cVL', 'cVR', 'cSL', 'cSR', 'cT']


def sm():
    out = {}
    for f in ('eos_btos.yaml', 'eos_btou.yaml'):
        d = yaml.safe_load(open(os.path.join(DATA, f)))
        d.pop('@metadata@')
        out.update(d)
    return out


SYN = {}
for _l in ('ulnu', 'clnu'):
    for _c in CC:
        for _p in ('Re', 'Im'):
            SYN['b->%s::%s{%s}' % (_l, _p, _c)] = {'central': 0.5 if _p == 'Re' else 0.0, 'min': -3.0, 'max': 2.0}
for _k in ('b->s::Re{c7}', 'b->s::Im{c7}', "b->s::Re{c7'}", "b->s::Im{c7'}", 'b->s::c1', 'b->s::c8', 'b->see::Re{c9}', 'b->see::Im{c9}',
           'b->smumu::Re{c9}', 'b->smumu::Im{c9}', 'b->smumu::Re{c10}', 'sbsb::c1', 'mass::b'):
    SYN[_k] = {'central': 0.125, 'min': 1.0, 'max': -1}


def model(smd, d):
    """new physics by key; None if not exportable"""
    out = {}
    for k in smd:
        m = None
        for part in ('Re', 'Im'):
            if part + '{' in k:
                i = k.index(part + '{')
                j = k.index('}', i)
                m = (part, k[:i] + k[i + 3:j] + k[j + 1:])
        if k in d:
            v = d[k].real
        elif m is None:
            v = 0
        else:
            part, n = m
            if n in d:
                z = d[n]
            else:
                ke, km = n.replace('lnu', 'enue'), n.replace('lnu', 'munumu')
                a, b = d.get(ke, 0), d.get(km, 0)
                if a != b:
                    return None
                z = a
            v = z.real if part == 'Re' else z.imag
        out[k] = smd[k]['central'] + v
    return out


def cases(tier):
    out = [['cc', a, i] for a in ('ulnu', 'clnu') for i in range(len(CC))]
    out += [['nc', i] for i in range(5)]
    out += [['unit', i] for i in range(8)]
    out += [['dir', i] for i in range(7)]
    if tier == 'thorough':
        out += [['cc2', i, j] for i in range(len(VALS)) for j in range(len(VALS))]
    return out


def run(d, smd, rec, key):
    d = {k: v for k, v in d.items() if v is not None}
    wc = wcxf.WC('WET', 'EOS', 4.2, wcxf.WC.dict2values(d))
    want = model(smd, {k: complex(v) for k, v in d.items()})
    s0 = repr(smd)
    try:
        got = eos.wcxf2eos(wc, smd)
    except ValueError:
        got = None
    rec.step()
    rec.trace()
    if got is None or want is None:
        rec.expect(got is None and want is None, key, lambda: '%r: %s' % (d, 'rejected although lepton-flavour universal' if got is None else 'non-universal file accepted'))
        return
    rec.expect(set(got) == set(want), key, lambda: 'exported keys differ: %r' % (set(got) ^ set(want)))
    for k in want:
        q = got.get(k, {})
        rec.expect(set(q) == {'central', 'min', 'max'} and all(abs(q[x] - want[k]) < 1e-14 * max(1, abs(want[k])) for x in q), key,
                   lambda: '%s with %r: exported %r, expected %r' % (k, d, dict(q), want[k]))
    rec.expect(repr(smd) == s0, key, 'the SM input was modified')
    yaml.dump(got, default_flow_style=False)


def check(case, rec):
    if case[0] == 'cc':
        for a, b in itertools.product(VALS, repeat=2):
            for l in VALS[:1] + VALS[4:6]:
                for t in (None, 0.75):
                    n = 'b->%s::' + CC[case[2]]
                    q = case[1]
                    d = {n % q.replace('lnu', 'enue'): a, n % q.replace('lnu', 'munumu'): b, n % q: l, n % q.replace('lnu', 'taunutau'): t}
                    for part in ('', 'Re', 'Im'):
                        run(d, {k: v for k, v in SYN.items() if part in k}, rec, 'cc:%s:%r' % (part, d,))
                    rec.state(case[1], case[2], a, b, l, t)
        rec.sample({k: str(v) for k, v in d.items()})
    elif case[0] == 'cc2':
        a, b = VALS[case[1]], VALS[case[2]]
        for c, d_ in itertools.product(VALS, repeat=2):
            for i, j in itertools.combinations(range(5), 2):
                for q in ('ulnu', 'clnu'):
                    d = {'b->uenue::' + CC[i]: a, 'b->umunumu::' + CC[i]: b,
                         'b->%s::%s' % (q.replace('lnu', 'enue'), CC[j]): c, 'b->%s::%s' % (q.replace('lnu', 'munumu'), CC[j]): d_}
                    run(d, SYN, rec, 'cc2:%r' % (d,))
                    rec.state('cc2', a, b, c, d_, i, j, q)
    elif case[0] == 'nc':
        base = [('b->s::Re{c7}', 'b->s::Im{c7}', 'b->s::c7'), ("b->s::Re{c7'}", "b->s::Im{c7'}", "b->s::c7'"),
                ('b->see::Re{c9}', 'b->see::Im{c9}', 'b->see::c9'), ('b->smumu::Re{c9}', 'b->see::Im{c9}', 'b->smumu::c9'),
                ('b->s::c1', 'b->s::c8', 'sbsb::c1')][case[1]]
        for vs in itertools.product(VALS, repeat=3):
            d = dict(zip(base, vs))
            run(d, SYN, rec, 'nc:%r' % (d,))
            rec.state('nc', case[1], vs)
    elif case[0] == 'unit':
        smd = sm()
        keys = sorted(wcxf.Basis['WET', 'EOS'].all_wcs) + ['b->%s::%s' % (q, c) for q in ('ulnu', 'clnu') for c in CC] + \
            ['b->s::c7', "b->s::c7'", 'b->see::c9', 'b->smumu::c10'] + sorted(smd)
        for k in keys[case[1]::8]:
            for v in VALS[1:]:
                run({k: v}, smd, rec, 'unit:%s:%s' % (k, v))
                run({k: v}, SYN, rec, 'unit-s:%s:%s' % (k, v))
                rec.state('unit', k, v)
        rec.sample(keys[case[1]])
    else:
        kinds = {
            'a.yaml': ('"@metadata@": {wcxf-relevant: true}\n"k::a": {central: 1.0, min: 0, max: 2}\n', {'k::a': 1.0}),
            'b.yaml': ('"@metadata@": {wcxf-relevant: true, other: x}\n"k::b": {central: 2.0, min: 0, max: 2}\n"k::c": {central: 3.0, min: 0, max: 2}\n', {'k::b': 2.0, 'k::c': 3.0}),
            'c.yaml': ('"@metadata@": {wcxf-relevant: false}\n"k::d": {central: 1.0, min: 0, max: 2}\n', {}),
            'd.yaml': ('"k::e": {central: 1.0, min: 0, max: 2}\n', {}),
            'e.yaml': ('"@metadata@": {x: 1}\n"k::f": {central: 1.0, min: 0, max: 2}\n', {}),
            'f.yml': ('"@metadata@": {wcxf-relevant: true}\n"k::g": {central: 1.0, min: 0, max: 2}\n', {}),
            'g.yaml': ('"@metadata@": {wcxf-relevant: true}\n', {}),
        }
        names = sorted(kinds)
        first = names[case[1]]
        for n in range(len(names)):
            for sub in itertools.combinations([x for x in names if x != first], n):
                scratch = tempfile.mkdtemp(prefix='w07')
                try:
                    want = {}
                    for x in (first,) + sub:
                        with open(os.path.join(scratch, x), 'w') as f:
                            f.write(kinds[x][0])
                        want.update(kinds[x][1])
                    got = eos.get_sm_wcs(scratch)
                    rec.expect({k: v['central'] for k, v in got.items()} == want, 'dir:%r' % ((first,) + sub,), lambda: 'read %r, expected %r' % (got, want))
                    rec.step()
                    rec.trace()
                    rec.state(first, sub)
                finally:
                    shutil.rmtree(scratch)
