"""T04 Every translator is the documented map: frozen tables of every image."""
import json
import os
import numpy as np
from lib import trans

FIX = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'fixtures', 'trans.npz')
BOUNDS = {'quick': 'all 30 translators x every unit direction of the source basis (real and imaginary part of each coefficient) at a non-default parameter point; each parameter varied alone and two scales on dense inputs',
          'thorough': 'the same at the default and the non-default parameter point'}
ASSUMPTIONS = ['the frozen tables were produced by the pinned tree with the recorded fixes; the round-trip, path-independence and EOS=flavio checks (T01, T02) tie them to independent identities']
STEP = 120
_F = {}


def tag(t):
    return '|'.join(t)


def fix():
    if not _F:
        z = np.load(FIX)
        _F.update({k: z[k] for k in z.files})
    return _F


def cases(tier):
    out = []
    for t in trans.translators():
        n = len(trans.directions(t[0], t[1]))
        for v in ((1,) if tier == 'quick' else (0, 1)):
            out += [['unit', list(t), v, a, b] for a, b in trans.chunks(n, STEP)]
        out.append(['param', list(t)])
    out.append(['complete'])
    return out


def variations(eft):
    """[(name, parameters, scale)]"""
    s = trans.SCALE[eft]
    out = [('base', dict(trans.PAR), s), ('default', None, s)]
    out += [('scale%d' % i, dict(trans.PAR), s * f) for i, f in enumerate((0.83, 1.9))]
    for p in sorted(trans.PAR):
        out.append((p, {p: trans.PAR[p]}, s))           # a partial dictionary: the rest stays at the default
    return out


def fingerprint(out, base, keep):
    """keep: coefficients whose dense value is no accident of rounding"""
    r = np.zeros(8)
    for i, k in enumerate(keep):
        z = out.get(k, 0) / base[k] if base.get(k, 0) else 0
        r[i % 8] += (z * np.exp(1.7j * i * i)).real
    return r


def row(d, idx):
    m = max([abs(x) for x in d.values()] + [0])
    it = [(idx[k], complex(x)) for k, x in d.items() if abs(x) > 1e-13 * m]
    it.sort()
    return it


def generate():
    import multiprocessing as mp
    out = {}
    with mp.Pool(8) as pool:
        for t in trans.translators():
            idx = {k: i for i, (k, r, s) in enumerate(trans.keys(t[0], t[2]))}
            D = trans.directions(t[0], t[1])
            for v in (0, 1):
                rs = pool.map(_one, [(t, v, d) for d in D], chunksize=40)
                n, c, x = [], [], []
                for d in rs:
                    it = row(d, idx)
                    n.append(len(it))
                    c += [i for i, z in it]
                    x += [z for i, z in it]
                out['%s|%d|n' % (tag(t), v)] = np.array(n, np.uint16)
                out['%s|%d|c' % (tag(t), v)] = np.array(c, np.uint16)
                out['%s|%d|x' % (tag(t), v)] = np.array(x, complex)
            names = [n for n, p, s in variations(t[0])]
            fs, base = [], None
            for n, p, s in variations(t[0]):
                d = trans.wc(t[0], t[1], dense(t), s).translate(t[2], parameters=p).dict
                if base is None:
                    base = d
                    nat = np.bincount(out[tag(t) + '|1|c'], np.abs(out[tag(t) + '|1|x']), len(idx))
                    mask = np.array([abs(base.get(k, 0)) > 1e-5 * nat[i] for k, i in idx.items()])
                    keep = [k for k, i in idx.items() if mask[i]]
                fs.append(fingerprint(d, base, keep))
            out[tag(t) + '|param'] = np.array(fs)
            out[tag(t) + '|mask'] = mask
            print(t, len(D), flush=True)
    np.savez_compressed(FIX, **out)


def dense(t):
    d = trans.dense(t[0], t[1])
    return d


def _one(a):
    t, v, (k, z) = a
    return trans.wc(t[0], t[1], {k: z}).translate(t[2], parameters=trans.point(v)).dict


def check(case, rec):
    if case[0] == 'complete':
        have = {tuple(k.split('|')[:3]) for k in fix()}
        got = set(trans.translators())
        rec.expect(got == have, 'complete', lambda: 'missing translators %r, new ones %r' % (sorted(have - got), sorted(got - have)))
        rec.state('complete')
        rec.trace()
        return
    t = tuple(case[1])
    f = fix()
    names = [k for k, r, s in trans.keys(t[0], t[2])]
    if case[0] == 'unit':
        v, a, b = case[2:]
        n, c, x = (f['%s|%d|%s' % (tag(t), v, q)] for q in 'ncx')
        off = int(n[:a].sum())
        D = trans.directions(t[0], t[1])
        for i in range(a, b):
            k, z = D[i]
            want = {names[c[j]]: x[j] for j in range(off, off + int(n[i]))}
            off += int(n[i])
            got = trans.apply(trans.wc(t[0], t[1], {k: z}), t[2], v)
            bad = trans.cmp(got, want, rtol=1e-8)
            rec.state(t, v, k, z)
            rec.step()
            rec.expect(not bad, '%s:%s*%s' % (tag(t), k, z), lambda: '%s -> %s in %s at point %d: image of %s*%s: %s' % (t[1], t[2], t[0], v, z, k, trans.show(bad)))
        rec.trace()
        rec.sample('%s -> %s (%s): directions %d..%d' % (t[1], t[2], t[0], a, b))
    else:
        base = None
        keep = [k for k, m in zip(names, f[tag(t) + '|mask']) if m]
        for i, (n, p, s) in enumerate(variations(t[0])):
            d = trans.wc(t[0], t[1], dense(t), s).translate(t[2], parameters=p).dict
            base = base or d
            got, want = fingerprint(d, base, keep), f[tag(t) + '|param'][i]
            rec.state(t, 'param', n)
            rec.step()
            rec.expect(np.allclose(got, want, rtol=1e-6, atol=1e-6), '%s:param:%s' % (tag(t), n),
                       lambda: '%s: response of the dense translation to %s at %s GeV: %r, expected %r' % (tag(t), n, s, got, want))
        rec.trace()
