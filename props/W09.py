"""W09 DsixTools exchange: export and import are inverse on every coefficient."""
import itertools
import json
import os
import numpy as np
from wilson import wcxf
from wilson.wcxf.converters import dsixtools
from wilson.util import smeftutil
import pylha

BOUNDS = {'quick': 'every real degree of freedom of the SMEFT Warsaw basis (dB=dL=0, dL=2, dB=dL=1) as a unit file, through lha at one scale; dense files at 3 scales; '
                   'lha/json/yaml dumps, all orders and splits of the input streams, all 3x3 and 2^4 index tensors of the matrix codec',
          'thorough': 'the unit files at 3 scales and 2 magnitudes'}
DATA = os.path.join(os.environ.get('WILSON_REPO', '/repo'), 'wilson', 'wcxf', 'data')


def units():
    out = []
    for s, ws in sorted(wcxf.Basis['SMEFT', 'Warsaw'].sectors.items()):
        for k, d in sorted(ws.items()):
            out.append((k, False))
            if not (d or {}).get('real'):
                out.append((k, True))
    return out


def cases(tier):
    n = len(units())
    scs = [1000.0] if tier == 'quick' else [1000.0, 91.1876, 1e6]
    out = [['unit', i, sc, 1.0] for i in range(n) for sc in scs]
    if tier == 'thorough':
        out += [['unit', i, 1e3, -3.25e-7] for i in range(n)]
    out += [['dense', sc, m] for sc in (91.1876, 1e3, 1e5) for m in range(4)]
    out += [['streams'], ['golden'], ['codec', 2], ['codec', 4], ['errors'], ['fmt']]
    return out


SM = None


def sm():
    global SM
    if SM is None:
        SM = open(os.path.join(DATA, 'SMInput-CPV.dat')).read()
    return SM


def close(a, b):
    return set(a) == set(b) and all(abs(a[k] - b[k]) <= 1e-11 * abs(b[k]) for k in b)


def dim(k):
    return 5 if k.startswith('llphiphi') else 6


def check(case, rec):
    if case[0] == 'unit':
        k, im = units()[case[1]]
        sc, mag = case[2], case[3]
        v = (1j if im else 1) * mag / sc ** (dim(k) - 4)
        wc = wcxf.WC('SMEFT', 'Warsaw', sc, wcxf.WC.dict2values({k: v}))
        key = 'unit:%s:%s' % (k, im)
        lha = dsixtools.wcxf2dsixtools(wc)
        # the dimensionless entry of the card
        blocks = pylha.load(lha)['BLOCK']
        vals = [r[-1] for b, d in blocks.items() if b != 'SCALES' for r in d['values']]
        rec.expect(vals and all(abs(abs(x) - abs(mag)) < 1e-9 * abs(mag) or abs(x) < abs(mag) * (1 + 1e-9) for x in vals), key,
                   lambda: 'card entries %r for a coefficient that is %r in units of the scale' % (vals, mag))
        rec.expect(dict(blocks['SCALES']['values'])[1] == sc, key, 'scale of the card')
        back = wcxf.WC.load(dsixtools.dsixtools2wcxf((lha, sm())))
        rec.step(2)
        rec.trace()
        rec.state(k, im, sc, mag)
        rec.expect((back.eft, back.basis, back.scale) == ('SMEFT', 'Warsaw', sc), key, lambda: 'header %r' % back)
        rec.expect(close(back.dict, {k: v}), key, lambda: '%s = %s came back as %r' % (k, v, back.dict))
        rec.sample('%s = %s at %s GeV' % (k, v, sc))
    elif case[0] == 'dense':
        sc, m = case[1:]
        d = {}
        for n, (k, im) in enumerate(units()):
            if m == 3 and n % 7:
                continue
            x = ((n * 7919 + m * 31) % 1009 - 504.5) / 1009 / sc ** (dim(k) - 4)
            d[k] = d.get(k, 0) + (1j * x if im else x)
        wc = wcxf.WC('SMEFT', 'Warsaw', sc, wcxf.WC.dict2values(d))
        v0 = wc.dump()
        for how in range(2):
            lha = dsixtools.wcxf2dsixtools(wc)
            rec.expect(wc.dump() == v0, 'dense:mut', 'the exported file was modified')
            back = wcxf.WC.load(dsixtools.dsixtools2wcxf((lha, sm())))
            rec.expect(close(back.dict, d), 'dense:%s:%s' % (sc, m),
                       lambda: [(k, back.dict.get(k), d.get(k)) for k in set(d) | set(back.dict) if abs(back.dict.get(k, 0) - d.get(k, 0)) > 1e-11 * abs(d.get(k, 0))][:5])
            rec.step(2)
            rec.trace()
            rec.state('dense', sc, m)
        # explicit high scale
        for hs in (500.0, 2000.0):
            io_ = dsixtools.SMEFTio()
            io_.set_initial_wcxf(wc, scale_high=hs)
            w2 = io_.get_wcxf(io_.C_in, sc)
            rec.expect(close(w2.dict, d), 'dense:hs', 'set_initial_wcxf/get_wcxf with another high scale is not the identity')
            for k in ('phiD', 'G', 'phiBox'):
                if k in d:
                    rec.expect(abs(io_.C_in[k] - d[k] * hs ** 2) <= 1e-12 * abs(io_.C_in[k]), 'dense:hs', 'dimensionless value of %s' % k)
            rec.step(2)
    elif case[0] == 'streams':
        wcd = open(os.path.join(DATA, 'WCsInput-CPV-SMEFT.dat')).read()
        opt = open(os.path.join(DATA, 'Options.dat')).read()
        ref = None
        for perm in itertools.permutations((wcd, opt, sm())):
            for joined in range(3):
                st = perm if joined == 0 else ((perm[0] + '\n' + perm[1], perm[2]) if joined == 1 else ('\n'.join(perm),))
                got = wcxf.WC.load(dsixtools.dsixtools2wcxf(st)).dict
                ref = ref or got
                rec.expect(close(got, ref) and ref, 'streams', 'the order of the input files matters')
                rec.step()
                rec.trace()
        rec.state('streams')
        # rows of a block, blocks of a file and comments may come in any order
        wc = wcxf.WC('SMEFT', 'Warsaw', 1000, {'phiD': 1e-6, 'lq1_1123': {'Re': 1e-7, 'Im': 2e-7}, 'll_1221': 3e-6, 'qqql_1231': 4e-6, 'uphi_23': 2e-6})
        io_ = dsixtools.SMEFTio()
        io_.load_wcxf(wc.dump())
        lha = pylha.load(io_.dump(io_.C_in, scale_out=91.))
        smlha = pylha.load(sm())

        def shuffled(l, rows, blocks):
            b = list(l['BLOCK'].items())
            b = b[::-1] if blocks == 1 else b[blocks:] + b[:blocks]
            return {'BLOCK': {k: dict(d, values=(d['values'][::-1] if rows == 1 else d['values'][rows:] + d['values'][:rows])) for k, d in b}}
        for rows in range(4):
            for blocks in range(4):
                st = [pylha.dump(shuffled(l, rows, blocks), fmt='lha') for l in (lha, smlha)]
                got = wcxf.WC.load(dsixtools.dsixtools2wcxf(tuple(st)))
                rec.expect(got.scale == 1000. and close(got.dict, wc.dict), 'streams:rows', lambda: 'rows/blocks of the files in another order (%d, %d): scale %r, %r' % (rows, blocks, got.scale, got.dict))
                for sc in itertools.permutations([[1, 500.], [2, 91.], [3, 2000.]]):
                    l2 = dict(shuffled(lha, rows, blocks))
                    l2['BLOCK']['SCALES'] = dict(l2['BLOCK']['SCALES'], values=[list(x) for x in sc])
                    rec.expect(dsixtools.lha2scale(l2) == 500., 'streams:scale', lambda: 'scale block %r' % (sc,))
                rec.step(7)
                rec.trace()
                rec.state('rows', rows, blocks)
    elif case[0] == 'golden':
        wcd = open(os.path.join(DATA, 'WCsInput-CPV-SMEFT.dat')).read()
        opt = open(os.path.join(DATA, 'Options.dat')).read()
        for f in ('json', 'yaml'):
            with open(os.path.join(DATA, 'WCsInput-CPV-SMEFT.' + f)) as fh:
                want = wcxf.WC.load(fh)
            got = wcxf.WC.load(dsixtools.dsixtools2wcxf((wcd, opt, sm())))
            rec.expect(close(got.dict, want.dict) and got.scale == want.scale, 'golden', 'shipped example differs')
            lha = dsixtools.wcxf2dsixtools(want)
            back = wcxf.WC.load(dsixtools.dsixtools2wcxf((lha, sm())))
            rec.expect(close(back.dict, want.dict), 'golden', 'shipped example does not survive the round trip')
            rec.step(2)
            rec.trace()
            rec.state('golden', f)
    elif case[0] == 'codec':
        r = case[1]
        shape = (3,) * r
        n = 3 ** r
        for i in range(n):
            M = np.zeros(shape)
            M[np.unravel_index(i, shape)] = 0.75
            l = dsixtools.matrix2lha(M)
            rec.expect(len(l) == n and [x for x in l if x[-1] != 0] == [[int(j) + 1 for j in np.unravel_index(i, shape)] + [0.75]], 'codec', 'matrix2lha')
            rec.expect((dsixtools.lha2matrix(l, shape) == M).all(), 'codec', 'lha2matrix(matrix2lha) is not the identity')
            nz = [x for x in l if x[-1] != 0]
            rec.expect((dsixtools.lha2matrix(nz, shape) == M).all(), 'codec', 'missing entries are not zero')
            rec.step(2)
            rec.trace()
            rec.state('codec', r, i)
        # the SM block codec
        lha = pylha.load(sm())
        d = dsixtools.sm_lha2dict(lha)
        d2 = dsixtools.sm_lha2dict(dsixtools.sm_dict2lha({k: (v if isinstance(v, np.ndarray) else complex(v)) for k, v in d.items()}))
        for k in d:
            rec.expect(np.allclose(d[k], d2[k], rtol=1e-13, atol=0), 'codec:sm', 'SM parameter %s does not survive' % k)
    elif case[0] == 'errors':
        for e, b in (('WET', 'JMS'), ('SMEFT', 'Warsaw up'), ('SMEFT', 'Warsaw mass'), ('WET', 'Warsaw')):
            try:
                dsixtools.wcxf2dsixtools(wcxf.WC(e, b, 1000, {}))
                rec.fail('errors', 'a file in %s/%s was exported' % (e, b))
            except ValueError:
                pass
            rec.step()
            rec.state(e, b)
        rec.trace()
    else:
        wc = wcxf.WC('SMEFT', 'Warsaw', 1000, {'phiD': 1e-6, 'lq1_1123': {'Re': 1e-7, 'Im': 2e-7}, 'll_1221': 3e-6, 'qqql_1231': 4e-6})
        io_ = dsixtools.SMEFTio()
        io_.load_wcxf(wc.dump())
        ref = pylha.load(io_.dump(io_.C_in))
        for fmt in ('lha', 'json', 'yaml'):
            for red in (True, False):
                txt = io_.dump(io_.C_in, fmt=fmt, skip_redundant=red, scale_out=500.)
                got = dsixtools.load(txt, fmt=fmt)
                rec.expect(dict(got['BLOCK']['SCALES']['values']) == {1: 1000., 2: 500.}, 'fmt', 'scales')
                C = smeftutil.symmetrize(dsixtools.wc_lha2dict(got))
                for k in smeftutil.WC_keys_0f + smeftutil.WC_keys_2f + smeftutil.WC_keys_4f:
                    rec.expect(np.allclose(C[k], io_.C_in[k], rtol=1e-12, atol=1e-15), 'fmt:%s:%s' % (fmt, red), '%s changed through %s' % (k, fmt))
                rec.step()
                rec.trace()
                rec.state('fmt', fmt, red)
