"""W10 SMEFTsim export: every coefficient lands in its own card entries."""
import functools
import io
import json
import math
import os
import re
import pylha
from wilson import wcxf
from wilson.wcxf.converters import smeftsim as S

BOUNDS = {'quick': 'every coefficient of the Warsaw mass basis (dB=dL=0) x both model sets x 3 values (6 complex directions for 1 in 8); both input schemes; 4 cutoffs; dense file; card layout against the frozen table',
          'thorough': 'every coefficient x 7 values x both model sets x both schemes'}
ASSUMPTIONS = ['the assignment of card positions to labels is a frozen table of the pinned tree']
FIX = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'fixtures', 'smeftsim.json')
B = ('SMEFT', 'Warsaw mass')


def keys():
    b = wcxf.Basis[B]
    return [(k, bool((d or {}).get('real'))) for s, ws in sorted(b.sectors.items()) for k, d in sorted(ws.items())]


def perms(op, idx):
    """index tuples equal to idx under the flavour symmetries of the operator (up to conjugation)"""
    if len(idx) == 0:
        return {()}
    if len(idx) == 2:
        out = {idx}
        if op in ('phil1', 'phil3', 'phie', 'phiq1', 'phiq3', 'phiu', 'phid'):
            out.add(idx[::-1])
        return out
    i, j, k, l = idx
    out = {(i, j, k, l)}
    if op in ('ll', 'qq1', 'qq3', 'uu', 'dd', 'ee'):
        out |= {(k, l, i, j), (j, i, l, k), (l, k, j, i)}
    if op == 'ee':
        for (a, b, c, d) in list(out):
            out |= {(a, d, c, b), (c, b, a, d)}
    if op in ('le', 'lu', 'ld', 'qe', 'qu1', 'qu8', 'qd1', 'qd8', 'eu', 'ed', 'ud1', 'ud8', 'lq1', 'lq3'):
        out.add((j, i, l, k))
    return out


def mult(op, idx, real):
    """how many index assignments of the symmetrised tensor the one WCxf key stands for"""
    if len(idx) < 4:
        return 1
    i, j, k, l = idx
    if op in ('ll', 'qq1', 'qq3', 'uu', 'dd'):
        return len({(i, j, k, l), (k, l, i, j)})
    if op == 'ee':
        return len({(i, j, k, l), (k, l, i, j), (i, l, k, j), (k, j, i, l)})
    return 1


def flat(card):
    out = {}
    for blk, d in card['Block'].items():
        for row in d['values']:
            q = (blk,) + tuple(row[:-2])
            if q in out:
                raise AssertionError('position %r written twice' % (q,))
            out[q] = (float(row[-2]), row[-1])
    return out


def fill(ms, d, lam=1000.0, scheme='alpha', spell=0):
    vals = wcxf.WC.dict2values(d)
    if spell:       # the same numbers written as Re/Im dictionaries
        vals = {k: {'Re': complex(v).real, 'Im': complex(v).imag} if spell == 1 or complex(v).imag else {'Re': complex(v).real} for k, v in d.items()}
    return S.smeftsim_card_fill(S.initialize_smeftsim_card(ms), wcxf.WC(*B, 1000, vals), ms, lam, scheme)


@functools.lru_cache(None)
def parse(lab):
    m = re.match(r'# c([A-Za-z0-9]*?)(Abs|Ph)?(\d(?:x\d)+|\d\d\d\d|\d\d)$', lab)
    if m:
        return m.group(1), m.group(2), tuple(int(c) for c in m.group(3).replace('x', ''))
    return lab[2:], None, ()


def layout():
    out = {}
    for ms in 'AB':
        for sch in ('alpha', 'mw'):
            f = flat(fill(ms, {}, scheme=sch))
            out[ms + sch] = {json.dumps(k): v[1] for k, v in f.items()}
    return out


def texts():
    out = {}
    for ms in 'AB':
        for sch in ('alpha', 'mw'):
            t = S.smeftsim_card_text(ms, sch)
            out[ms + sch] = [pylha.load(x + '\n') if 'lock' in x else {} for x in t]
    return out


def generate():
    names = {}
    for ms in 'AB':
        z = flat(fill(ms, {}))
        for k, real in keys():
            f = flat(fill(ms, {k: 1e-6}))
            for q in f:
                if f[q] != z[q]:
                    names.setdefault(ms, {}).setdefault(k.split('_')[0], parse(f[q][1])[0])
    with open(FIX, 'w') as f:
        json.dump({'layout': layout(), 'texts': json.loads(json.dumps(texts())), 'names': names}, f)


def cases(tier):
    n = len([k for k in keys() if wanted(k[0])])
    step = 8
    return [['keys', i, step] for i in range(0, n, step)] + [['layout'], ['text'], ['dense', 0], ['dense', 1], ['none']]


def wanted(k):
    return k in wcxf.Basis[B].sectors['dB=dL=0']


VALS_C = [complex(0.6, 0.8) * 1e-6, -2e-6, 3e-6j, 1e-6, -1j * 1e-7, complex(-3, 4) * 1e-9, complex(-3, -4) * 1e-5]
VALS_R = [1e-6, -2.5e-6, 7e-9]
_T = []


def fixture():
    if not _T:
        _T.append(json.load(open(FIX)))
    return _T[0]


def entry(ms, k, real, v, lam, scheme, z, rec, key):
    op, _, ds = k.partition('_')
    idx = tuple(int(c) for c in ds)
    f = flat(fill(ms, {k: v}, lam, scheme))
    for sp in ((1, 2) if v in (VALS_C[1], VALS_R[0]) else ()):
        g = flat(fill(ms, {k: v}, lam, scheme, sp))
        rec.expect(all(abs(f[q][0] - g[q][0]) < 1e-12 * max(1, abs(f[q][0])) or abs(abs(f[q][0] - g[q][0]) - 2 * math.pi) < 1e-5 for q in f), key,
                   lambda: '%s = %s written as a Re/Im dictionary gives another card' % (k, v))
    ch = {q: f[q] for q in f if f[q] != z[q]}
    m = mult(op, idx, real)
    want = v / m
    parts = {}
    for q, (val, lab) in f.items():
        nm, part, ix = parse(lab)
        if nm == fixture()['names'][ms][op] and ix in perms(op, idx):
            if part in parts or (part is None and parts):
                rec.fail(key, '%s occurs twice on the card' % lab)
            parts[part] = (q, val)
    hit = {p[0] for p in parts.values()}
    rec.expect(set(ch) <= hit, key, lambda: '%s = %s changed the entries %r' % (k, v, {q: ch[q] for q in ch if q not in hit}))
    t = 2e-6
    if real:
        ok = len(parts) == 1 and not set(parts) - {None, 'Abs'} and abs(list(parts.values())[0][1] - want * lam ** 2) <= t * abs(want * lam ** 2)
    else:
        ok = set(parts) == {'Abs', 'Ph'} and abs(parts['Abs'][1] - abs(want) * lam ** 2) <= t * abs(want) * lam ** 2 \
            and abs(parts['Ph'][1] - math.atan2(complex(want).imag, complex(want).real)) < 2e-6 * 4
    rec.expect(ok, key, lambda: '%s = %s (multiplicity %d) is written as %r' % (k, v, m, parts))


def check(case, rec):
    if case[0] == 'keys':
        ks = [k for k in keys() if wanted(k[0])][case[1]:case[1] + case[2]]
        thorough = os.environ.get('VERIF_TIER') == 'thorough'
        for ms in 'AB':
            for scheme in (('alpha', 'mw') if thorough else ('alpha' if ms == 'A' else 'mw',)):
                lam = 1000.0 if ms == 'A' else 2500.0
                z = flat(fill(ms, {}, lam, scheme))
                for n, (k, real) in enumerate(ks):
                    vals = VALS_R if real else (VALS_C if thorough or n == 0 else VALS_C[:3])
                    for v in vals:
                        entry(ms, k, real, v, lam, scheme, z, rec, 'keys:%s:%s:%s' % (ms, k, v))
                        rec.step()
                        rec.trace()
                        rec.state(ms, k, v, lam, scheme)
        rec.sample('%s, %d coefficients' % (ks[0][0], len(ks)))
    elif case[0] == 'layout':
        got = layout()
        want = fixture()['layout']
        for q in want:
            rec.expect(got[q] == want[q], 'layout:' + q, lambda: [(p, got[q].get(p), want[q].get(p)) for p in set(got[q]) | set(want[q]) if got[q].get(p) != want[q].get(p)][:5])
            rec.step(len(want[q]))
            rec.state('layout', q)
        rec.trace()
    elif case[0] == 'text':
        got = json.loads(json.dumps(texts()))
        want = fixture()['texts']
        for q in want:
            for a, b in zip(got[q], want[q]):
                rec.expect(a == b, 'text:' + q, lambda: [(x, a.get('BLOCK', {}).get(x), b.get('BLOCK', {}).get(x)) for x in set(a.get('BLOCK', {})) | set(b.get('BLOCK', {}))
                                                         if a.get('BLOCK', {}).get(x) != b.get('BLOCK', {}).get(x)][:3])
            rec.step()
            rec.state('text', q)
        rec.trace()
    elif case[0] == 'dense':
        d = {}
        reals = dict(keys())
        for n, (k, real) in enumerate(keys()):
            if wanted(k):
                x = ((n * 7919) % 1009 - 504.5) * 1e-9
                d[k] = x if real or n % 3 == 0 else complex(x, ((n * 31) % 101 - 50.5) * 1e-8)
        for ms in 'AB':
            for scheme in ('alpha', 'mw'):
                for lam in (1.0, 246.0, 1e3, 1e5):
                    wc = wcxf.WC(*B, 1000, wcxf.WC.dict2values(d))
                    v0 = wc.dump()
                    card = S.smeftsim_card_fill(S.initialize_smeftsim_card(ms), wc, ms, lam, scheme)
                    f = flat(card)
                    rec.expect(wc.dump() == v0, 'dense:mut', 'the exported file was modified')
                    # superposition of the units
                    names = {(v, ): k for k, v in fixture()['names'][ms].items()}
                    table = {}
                    for q, (val, lab) in f.items():
                        nm, part, ix = parse(lab)
                        table.setdefault((nm, part), {})[ix] = val
                    for k, v in d.items():
                        op, _, ds = k.partition('_')
                        idx = tuple(int(c) for c in ds)
                        nm = fixture()['names'][ms][op]
                        m = mult(op, idx, False)
                        for part in (None, 'Abs', 'Ph'):
                            for ix in perms(op, idx) & set(table.get((nm, part), {})):
                                val = table[nm, part][ix]
                                w = complex(v) / m
                                want = w.real * lam ** 2 if part is None or reals[k] else abs(w) * lam ** 2 if part == 'Abs' else math.atan2(w.imag, w.real)
                                rec.expect(abs(val - want) <= 2e-6 * max(abs(want), 1e-9 if part != 'Ph' else 4), 'dense:%s:%s:%s' % (ms, k, part),
                                           lambda: '%s %s: %r, expected %r' % (k, part, val, want))
                                rec.step()
                    # the written card parses
                    s = io.StringIO()
                    t = S.smeftsim_card_text(ms, scheme)
                    s.write(t[0])
                    pylha.dump(card, fmt='lha', stream=s)
                    s.write(t[1])
                    p = pylha.load(s.getvalue())
                    blk = {k.upper(): v for k, v in p['BLOCK'].items()}
                    rec.expect('FRBLOCK' in blk, 'dense:parse', 'the card does not parse')
                    rec.trace()
                    rec.state('dense', ms, scheme, lam)
    else:
        # entries belonging to coefficients outside dB=dL=0 do not exist: nothing changes
        for ms in 'AB':
            z = flat(fill(ms, {}))
            for k, real in keys():
                if not wanted(k) and k.endswith(('1', '23')):
                    rec.expect(flat(fill(ms, {k: 1e-6})) == z, 'none:' + k, '%s changes the card' % k)
                    rec.step()
                    rec.state('none', ms, k)
