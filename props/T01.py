"""T01 Translating to another basis and back."""
import numpy as np
from lib import trans

BOUNDS = {'quick': 'every pair of mutually inverse translators x every unit direction of the source basis (both parts of each coefficient; SMEFT: blocks of 16), plus dense superpositions at several scales and parameter points',
          'thorough': 'the same at two parameter points, and every direction on top of a dense background'}
ASSUMPTIONS = ['a coefficient without image in the other basis cannot come back; which ones these are is fixed by the operator content (ZERO) and frozen here']
STEP = 100


def pairs():
    T = set(trans.translators())
    return [t for t in sorted(T) if (t[0], t[2], t[1]) in T]


def cases(tier):
    out = []
    for t in pairs():
        n = len(trans.directions(t[0], t[1]))
        for v in ((1,) if tier == 'quick' else (0, 1)):
            if tier == 'quick' and t[0] == 'SMEFT':
                out += [[list(t), v, a, b, 16] for a, b in trans.chunks(n, 16 * 20)]
            else:
                out += [[list(t), v, a, b] for a, b in trans.chunks(n, STEP)]
        out.append([list(t), 'dense', 0, 4 if tier == 'quick' else 24])
    return out


def image(t, tier=None):
    """coefficients with an image in the other basis (frozen tables of T04)"""
    from props import T04
    f = T04.fix()
    D = trans.directions(t[0], t[1])
    n = f['%s|1|n' % T04.tag(t)]
    return {k for (k, z), m in zip(D, n) if m}


def comes_back(t, k, have):
    if k not in have:
        return False
    if (t[1], t[2]) == ('Bern', 'flavio') and trans.is_tensor(k):
        return False
    return True


def check(case, rec):
    t, v, a, b = tuple(case[0]), case[1], case[2], case[3]
    have = image(t)
    name = '|'.join(t)
    if v == 'dense':
        x = {k: z for k, z in trans.dense(t[0], t[1]).items() if comes_back(t, k, have)}
        for i in range(a, b):
            p = [None, dict(trans.PAR), {'m_b': 4.4}, {'Vcb': 0.039, 'gamma': 1.3}][i % 4]
            s = trans.SCALE[t[0]] * (1 + 0.17 * i)
            y = {k: z * np.exp(0.3j * i) if not isinstance(z, float) else z * (1 + i) for k, z in x.items()}
            got = trans.wc(t[0], t[1], y, s).translate(t[2], parameters=p).translate(t[1], parameters=p)
            rec.expect(got.scale == s and got.basis == t[1] and got.eft == t[0], name + ':labels', lambda: '%s: %s %s %s' % (name, got.eft, got.basis, got.scale))
            bad = trans.diff(got.dict, y, rtol=1e-7, atol=1e-10)
            rec.expect(not bad, '%s:dense%d' % (name, i), lambda: 'dense round trip %s at %s GeV with %r: %s' % (name, s, p, trans.show(bad)))
            rec.state(t, 'dense', i)
            rec.step(2)
        rec.trace()
        return
    D = trans.directions(t[0], t[1])
    if len(case) > 4:
        for i in range(a, b, case[4]):
            y = {}
            for j in range(i, min(i + case[4], len(D))):
                if comes_back(t, D[j][0], have):
                    y[D[j][0]] = y.get(D[j][0], 0) + D[j][1] * (1 + 0.37 * (j - i))
            got = trans.wc(t[0], t[1], y).translate(t[2], parameters=trans.point(v)).translate(t[1], parameters=trans.point(v)).dict
            bad = trans.diff(got, y, rtol=1e-9, atol=1e-9)
            rec.expect(not bad, '%s:block %d' % (name, i), lambda: '%s -> %s -> %s (%s): %r returns with %s' % (t[1], t[2], t[1], t[0], y, trans.show(bad)))
            rec.state(t, v, 'block', i)
            rec.step(2)
        rec.trace()
        return
    for i in range(a, b):
        k, z = D[i]
        rec.state(t, v, k, z)
        w = trans.wc(t[0], t[1], {k: 2.5 * z})
        mid = w.translate(t[2], parameters=trans.point(v))
        rec.step(2)
        key = '%s:%s*%s' % (name, k, z)
        if not comes_back(t, k, have):
            if k not in have:
                rec.expect(not any(abs(q) > 1e-12 for q in mid.dict.values()), key, lambda: '%s has no counterpart in %s but gives %r' % (k, t[2], mid.dict))
            continue
        rec.expect(mid.dict, key, '%s -> %s loses %s' % (t[1], t[2], k))
        got = mid.translate(t[1], parameters=trans.point(v)).dict
        bad = trans.diff(got, {k: 2.5 * z}, rtol=1e-9, atol=1e-9)
        rec.expect(not bad, key, lambda: '%s -> %s -> %s (%s): 2.5*%s*%s returns with %s' % (t[1], t[2], t[1], t[0], z, k, trans.show(bad)))
    rec.trace()
    rec.sample('%s -> %s -> %s (%s): directions %d..%d' % (t[1], t[2], t[1], t[0], a, b))
