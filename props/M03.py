"""M03 Every direct matcher agrees with the composition of elementary steps; flavour thresholds keep exactly what exists below."""
import numpy as np
from lib import smeft, trans
from props import M01

BOUNDS = {'quick': 'all SMEFT coefficients in blocks of 40 through every direct matcher (2 bases x 4 targets x 2 parameter points x tree/loop sample); every single coefficient of every WET/WET-4/WET-3 basis through the threshold matchers; '
                   'threshold matching commutes with basis translation on dense points',
          'thorough': 'blocks of 8'}
ASSUMPTIONS = ['elementary steps certified by M01, M02 and the translation properties']


def cases(tier):
    n = len(smeft.warsaw())
    out = [['direct', lo, hi, v, 0] for lo, hi in trans.chunks(n, 40 if tier == 'quick' else 8) for v in (0, 1)]
    out += [['direct', lo, hi, 1, 1] for lo, hi in trans.chunks(n, 200)]
    for a, b, bs in (('WET', 'WET-4', ('JMS', 'flavio', 'Bern')), ('WET-4', 'WET-3', ('JMS', 'flavio', 'Bern')), ('WET-3', 'WET-2', ('JMS',))):
        for x in bs:
            out.append(['threshold', a, b, x])
            if x != 'JMS':
                out += [['commute', a, b, x, ph] for ph in ((0.1, 1.7) if tier == 'quick' else (0.1, 0.9, 1.7, 2.5))]
    out += [['unknown']]
    return out


def check(case, rec):
    rec.trace()
    globals()[case[0]](case, rec)


def direct(case, rec):
    _, lo, hi, v, loop = case
    W = smeft.warsaw()[lo:hi]
    vals = {k: 1e-8 * ((0.5 + 0.01 * j) if r else np.exp(1j * (0.7 + 1.9 * j))) for j, (k, r, s) in enumerate(W)}
    p = None if v == 0 and not loop else dict(M01.par(v), loop_order=loop, **{k: z for k, z in trans.PAR.items() if k not in M01.par(v)})
    for basis, targets in (('Warsaw', ('JMS', 'flavio', 'EOS', 'Bern')), ('Warsaw up', ('JMS', 'flavio'))):
        w = trans.wc('SMEFT', basis, vals, 91.1876)
        up = w if basis == 'Warsaw up' else w.translate('Warsaw up', parameters=p)
        jms = up.match('WET', 'JMS', parameters=p)
        for t in targets:
            g = w.match('WET', t, parameters=p)
            want = jms if t == 'JMS' else jms.translate(t, parameters=p)
            rec.state(lo, v, loop, basis, t)
            rec.step(len(g.dict))
            rec.expect((g.eft, g.basis, g.scale) == ('WET', t, 91.1876), 'meta', lambda: 'labelled %s %s %s' % (g.eft, g.basis, g.scale))
            bad = trans.cmp(g.dict, want.dict, rtol=1e-8, noise=1e-10)
            rec.expect(not bad, 'direct:%s:%s' % (basis, t), lambda: '%s -> WET %s, coefficients from %s: %s' % (basis, t, W[0][0], trans.show(bad)))
        rec.expect(w.dict == vals, 'input', 'the input was modified')


def threshold(case, rec):
    _, a, b, x = case
    below = {k: s for k, r, s in trans.keys(b, x)}
    allk = trans.keys(a, x)
    for i, (k, r, s) in enumerate(allk):
        z = 1.5 if r else 1.5 - 0.5j
        vals = {k: z * 10.0 ** -(4 * (i % 8)), allk[(i * 7 + 3) % len(allk)][0]: 10.0 ** -(5 * (i % 7))}
        g = trans.wc(a, x, vals, 2.0).match(b, x, parameters=trans.PAR if i % 2 else None)
        rec.state(a, b, x, k)
        rec.step()
        want = {n: c for n, c in vals.items() if n in below}      # a selection: the numbers stay exactly as they are
        rec.expect((g.eft, g.basis, g.scale) == (b, x, 2.0) and g.dict == want, 'threshold:%s:%s' % (b, x), lambda: '%s -> %s %s: %s becomes %s' % (a, b, x, vals, g.dict))


def commute(case, rec):
    """translate then cross the threshold = cross the threshold then translate"""
    _, a, b, x, ph = case
    w = trans.wc(a, 'JMS', trans.dense(a, 'JMS', ph), 2.0)
    for p in (None, trans.PAR):
        one = w.match(b, 'JMS', parameters=p).translate(x, parameters=p).dict
        two = w.translate(x, parameters=p).match(b, x, parameters=p).dict
        rec.state(a, b, x, ph, p is None)
        rec.step(len(one))
        bad = trans.cmp(two, one, rtol=1e-9, noise=1e-12)
        rec.expect(not bad, 'commute:%s:%s' % (b, x), lambda: '%s -> %s in the %s basis: %s' % (a, b, x, trans.show(bad)))


def unknown(case, rec):
    from wilson import wcxf
    B = sorted({(i[0], i[1]) for i in wcxf.Basis.instances})
    reg = {tuple(i) for i in wcxf.Matcher.instances}
    for s in B:
        for t in B:
            if s[0] == t[0] or s + t in reg:
                continue
            rec.state(s, t)
            rec.step()
            try:
                trans.wc(s[0], s[1], {}, 100.0).match(t[0], t[1])
            except ValueError:
                continue
            rec.expect(False, 'unknown', 'matching %s to %s accepted' % (s, t))
