"""W05 Coefficient values mean the same in every view of a coefficient file."""
import itertools
import math
import numpy as np
from wilson import wcxf

NAMES = ['k3', 'z_12', 'a_21', 'B', 'k10', 'k2', 'A', 'b']       # neither sorted nor in reverse order
BOUNDS = {'quick': 'all Re/Im pairs of 14 reals in 7 spellings; all access orders (permutations of 4 views, repeated) on 24 value dictionaries; '
                   'all pairs of spellings in one file; identity hashes of all instance pairs of 40',
          'thorough': 'same'}
R = [0.0, -0.0, 1.0, -1.5, 0.1, 1e-12, 5e-324, 1.7976931348623157e308, -1e-300, 1 / 3, 1e16, 123456789.0, -2.0**-1074, 7.0]


def spell(a, b):
    """(written value, number it denotes)"""
    out = [({'Re': a, 'Im': b}, complex(a, b)), ({'Im': b, 'Re': a}, complex(a, b)), ({'Im': b}, complex(0, b)), ({'Re': a}, complex(a, 0)),
           (a, complex(a, 0)), ({'Re': repr(a), 'Im': repr(b)}, complex(a, b)), (repr(a), complex(a, 0))]
    if a == int(a):
        out += [(int(a), complex(int(a), 0)), ({'Re': int(a), 'Im': b}, complex(a, b))]
    return out


def cases(tier):
    return [['pairs', i] for i in range(len(R))] + [['order', i] for i in range(24)] + [['hash'], ['d2v'], ['scale']]


def check(case, rec):
    if case[0] == 'pairs':
        a = R[case[1]]
        for b in R:
            sp = spell(a, b)
            vals = {'k%d' % i: w for i, (w, _) in enumerate(sp)}
            wc = wcxf.WC('E', 'B', 1, vals)
            for i, (w, z) in enumerate(sp):
                k = 'k%d' % i
                key = 'pairs:%r' % (w,)
                g = wc[k]
                rec.expect(complex(g) == z and complex(wc.dict[k]) == z, key, lambda: '%r is read as %r / %r' % (w, g, wc.dict[k]))
                rec.expect(wc.df.loc[k, 'Re'] == z.real and wc.df.loc[k, 'Im'] == z.imag, key, lambda: 'data frame row %r' % (wc.df.loc[k],))
                rec.step()
                rec.state(repr(w))
            rec.expect(list(wc.df.columns) == ['Re', 'Im'] and list(wc.df.index) == list(vals), 'df', 'data frame layout')
            for n in ('K0', 'k', 'k00', 'k0 ', ' k0', '', 'k-1', 'k0_', None, 0):
                rec.expect(wc[n] == 0 and type(wc[n]) in (int, float, complex), 'absent', lambda: 'coefficient %r is absent from %s but reads %r' % (n, list(vals), wc[n]))
            rec.expect(wc['absent'] == 0 and wc['k0x'] == 0 and 'absent' not in wc.dict, 'absent', 'absent coefficient is not 0')
            # dict -> values -> dict is the identity
            z = complex(a, b)
            for num in (z, np.complex128(z), a, np.float64(a), np.array([z])[0], np.array(z)[()], int(a) if abs(a) < 1e17 else a):
                v = wcxf.WC.dict2values({'x': num})
                back = wcxf.WC('E', 'B', 1, v).dict['x']
                key = 'd2v:%r' % (num,)
                rec.expect(complex(back) == complex(num), key, lambda: '%r -> %r -> %r' % (num, v, back))
                f = v['x']
                if complex(num).imag == 0:
                    rec.expect(type(f) is float, key, lambda: 'real number written as %r' % (f,))
                else:
                    rec.expect(isinstance(f, dict) and set(f) == {'Re', 'Im'} and type(f['Re']) is float and type(f['Im']) is float,
                               key, lambda: 'complex number written as %r' % (f,))
                rec.step()
            rec.trace()
        rec.sample(repr(vals))
    elif case[0] == 'order':
        i = case[1]
        sp = spell(R[i % len(R)], R[(5 * i + 3) % len(R)])
        vals = {NAMES[j]: w for j, (w, _) in enumerate(sp[: i % 8])}
        orig = repr(vals)
        views = {
            'dict': lambda w: {k: complex(v) for k, v in w.dict.items()},
            'df': lambda w: {k: complex(w.df.loc[k, 'Re'], w.df.loc[k, 'Im']) for k in w.df.index},
            'item': lambda w: {k: complex(w[k]) for k in vals},
            'absent': lambda w: (w['nope'], {k: complex(v) for k, v in w.dict.items()})[1],
            'dump': lambda w: {k: complex(v) for k, v in wcxf.WC.load(w.dump()).dict.items()},
            'values': lambda w: {k: complex(v) for k, v in wcxf.WC('E', 'B', 1, w.values).dict.items()},
            'd2v': lambda w: {k: complex(v) for k, v in wcxf.WC('E', 'B', 1, wcxf.WC.dict2values(w.dict)).dict.items()},
        }
        want = {NAMES[j]: z for j, (_, z) in enumerate(sp[: i % 8])}
        for n in (1, 2, 3):
            for seq in itertools.product(views, repeat=n):
                wc = wcxf.WC('E', 'B', 1, vals)
                h = hash(wc)
                for s in seq:
                    got = views[s](wc)
                    rec.step()
                    if not rec.expect(got == want, 'order:%d:%s' % (i, seq), lambda: 'view %s of %r after %r: %r' % (s, vals, seq, got)):
                        return
                rec.expect(hash(wc) == h, 'order:hash', 'the hash of the object changed on reading')
                rec.expect(repr(vals) == orig, 'order:mut', 'the given values were modified')
                rec.trace()
                rec.state(i, seq)
    elif case[0] == 'hash':
        wcs = [wcxf.WC('E', 'B', 1, {'a': 1}) for _ in range(40)]
        d = {w: i for i, w in enumerate(wcs)}
        rec.expect(len(d) == 40 and all(d[w] == i for i, w in enumerate(wcs)), 'hash', 'instances are not usable as distinct keys')
        for w in wcs:
            for v in wcs:
                rec.step()
                rec.expect((hash(w) == hash(v)) == (w is v), 'hash', 'hash does not identify the instance')
        rec.state('hash')
        rec.trace()
    elif case[0] == 'd2v':
        for n in range(5):
            for combo in itertools.product([0, 1.5, 1j, 2 - 1j, np.float64(3), np.complex128(1j)], repeat=n):
                d = {'k%d' % i: v for i, v in enumerate(combo)}
                dd = dict(d)
                v = wcxf.WC.dict2values(d)
                rec.expect(d == dd and set(v) == set(d), 'd2v:%r' % (combo,), 'keys changed or input modified')
                rec.expect(wcxf.WC('E', 'B', 1, v).dict == d, 'd2v:%r' % (combo,), lambda: '%r -> %r' % (d, v))
                rec.step()
                rec.trace()
                rec.state(repr(combo))
    elif case[0] == 'scale':
        for s in (1, 91.1876, '1e3', '160', np.float64(5), 10**6):
            wc = wcxf.WC('E', 'B', s, {})
            rec.expect(type(wc.scale) is float and wc.scale == float(s), 'scale:%r' % s, lambda: 'scale %r' % wc.scale)
            rec.state(repr(s))
            rec.step()
