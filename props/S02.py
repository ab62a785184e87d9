"""S02 SMEFT running: the result is the solution of the RG equations with consistently determined SM parameters."""
import itertools
import numpy as np
from lib import smeft, trans
from lib import smeftref as R

BLK = 40
BOUNDS = {'quick': 'every one of the 1635 coefficients (blocks of 40, two scale pairs, both accuracies) against an independent Runge-Kutta/leading-log reference with own SM matching; '
                   'all sequences of 3 operations on one instance; all ordered pairs of runs over 5 ranges, each order in its own process; continuous solution at 7 scales; group law, precision and sector isolation',
          'thorough': 'every real direction alone in leading-log, blocks of 8 in integrate; all sequences of 4 operations'}
ASSUMPTIONS = ['beta functions as certified by S01', 'coefficients are compared modulo the unphysical lepton-flavour and baryon-number phases']
PAIRS = {'leadinglog': ((91.1876, 2000.0), (1000.0, 160.0)), 'integrate': ((1000.0, 160.0), (91.1876, 1500.0))}


def coefs():
    return [(k, r) for k, r, s in smeft.warsaw()]


def value(i, r, ph):
    z = 1e-8 * (1 + 0.02 * (i % 17)) * np.exp(1j * (1.1 * i + ph))
    return 1e-8 * (1 + 0.02 * (i % 17)) * (-1) ** i if r else z


def cases(tier):
    n = len(coefs())
    out = []
    if tier == 'quick':
        out += [['ref', 'leadinglog', lo, hi, hi - lo] for lo, hi in trans.chunks(n, BLK)]
        out += [['ref', 'integrate', lo, hi, hi - lo] for lo, hi in trans.chunks(n, BLK)]
    else:
        out += [['ref', 'leadinglog', lo, hi, 1] for lo, hi in trans.chunks(n, 10)]
        out += [['ref', 'integrate', lo, hi, 8] for lo, hi in trans.chunks(n, BLK)]
    out += [['cont', a, b] for a, b in ((1000.0, 160.0), (500.0, 3000.0), (91.1876, 1000.0))]
    ops = 3 if tier == 'quick' else 4
    out += [['hist', i, j, ops] for i in range(len(OPS)) for j in range(len(OPS))]
    out += [['fresh', a, b] for a in range(len(RUNS)) for b in range(len(RUNS)) if a != b]
    out += [['law', a, b, c] for a, b, c in itertools.permutations((1000.0, 91.1876, 3000.0), 3)]
    out += [['sector', s, t] for s in SECT for t in SECT if s != t]
    out += [['bounds', i] for i in range(len(GRID))]
    out += [['near', a, t] for a in (91.1876,) for t in (1e-3, -1e-3, 0.02, -0.02, 0.09, -0.09, 0.3, -0.3, 2.4)]
    out += [['zero'], ['errors'], ['sm']]
    return out


def runner(vals, a):
    from wilson.run.smeft import SMEFT
    return SMEFT(trans.wc('SMEFT', 'Warsaw', vals, a))


ISOLATE = True


def sm():
    from wilson.run.smeft import smpar
    return smpar.p


def differ(got, want, rel, noise):
    m = max([abs(z) for z in want.values()] + [1e-30])
    return trans.diff(R.align(got, want), want, rtol=rel, atol=noise * m)


def check(case, rec):
    rec.trace()
    globals()[case[0]](case, rec)


def ref(case, rec):
    _, acc, lo, hi, size = case
    W = coefs()
    for i in range(lo, hi, size):
        blk = list(enumerate(W))[i:min(hi, i + size)]
        for ph in ((0.4,) if size > 1 else (0.0, np.pi / 2)):
            vals = {k: value(j, r, ph) for j, (k, r) in blk}
            for a, b in PAIRS[acc]:
                if acc == 'integrate' and size > 1 and (a, b) != PAIRS[acc][(i // size) % 2]:
                    continue
                kw = dict(rtol=1e-5, atol=1e-9) if acc == 'integrate' and a < 100 else {}
                got = runner(vals, a).run(b, accuracy=acc, **kw)
                C = R.start(vals, a, sm())
                C = R.leadinglog(C, a, b) if acc == 'leadinglog' else R.evolve(C, a, b, 4)
                want = R.dump(R.default_basis(C))
                rec.state(acc, i, ph, a, b)
                rec.step(len(want))
                ok = (got.eft, got.basis, got.scale) == ('SMEFT', 'Warsaw', b)
                rec.expect(ok, 'meta', lambda: 'result labelled %s %s %s' % (got.eft, got.basis, got.scale))
                tight = a < 100 and acc == 'leadinglog'
                bad = differ(got.dict, want, 1e-7 if tight else 2e-3, 1e-10 if tight else 1e-4)
                rec.expect(not bad, 'ref:%s:%s' % (acc, blk[0][1][0].split('_')[0]), lambda: '%s %s -> %s GeV from %s: %s' % (acc, a, b, [k for _, (k, r) in blk][:3], trans.show(bad)))


POINT = {'phi': 1e-8, 'phiWB': -0.3e-8, 'phiG': 0.4e-8, 'uphi_33': 2e-8 + 1e-8j, 'dphi_23': 3e-10j, 'ephi_33': 2e-10, 'lq1_2223': 1e-8 + 1e-8j, 'll_1221': -1e-8,
         'uG_33': 1e-8j, 'qu8_3333': 3e-8, 'quqd1_3333': 1e-9, 'qq1_1233': 1e-9 + 2e-9j, 'phiq3_13': 1e-9j, 'lequ3_2233': 1e-8}


def cont(case, rec):
    _, a, b = case
    s = runner(POINT, a).run_continuous(b)
    rec.expect((s.scale_min, s.scale_max) == (min(a, b), max(a, b)), 'range', lambda: 'scale range %s..%s' % (s.scale_min, s.scale_max))
    C = R.start(POINT, a, sm())
    grid = np.exp(np.linspace(np.log(a), np.log(b), 7))
    vec = s.fun(grid)
    last = a
    for x, d in zip(grid, vec):
        if x != last:
            C = R.evolve(C, last, x, 2)
        last = x
        want = R.dump(C)
        rec.state('cont', a, b, x)
        rec.step(len(want))
        one = s.fun(x)
        rec.expect(set(one) == set(d) and all(one[k] == d[k] for k in d), 'scalar', lambda: 'scalar and vector evaluation differ at %s' % x)
        bad = differ({k: d.get(k, np.nan) for k in want}, want, 3e-3, 3e-4)
        rec.expect(not bad, 'cont', lambda: 'continuous solution %s -> %s at %s: %s' % (a, b, x, trans.show(bad)))
        w = {k: complex(C[k]) for k in smeft.SM0}
        for n in smeft.SM2:
            w.update({'%s_%d%d' % (n, i + 1, j + 1): complex(C[n][i, j]) for i in range(3) for j in range(3)})
        bad = [(k, d.get(k), w[k]) for k in w if not abs(d.get(k, np.nan) - w[k]) <= (3e-3 * abs(w[k]) if k in smeft.SM0 else 3e-3)]
        rec.expect(not bad, 'contsm', lambda: 'SM parameters of the continuous solution at %s: %s' % (x, trans.show(bad)))


GRID = [91.1876, 160.0, 500, 1000.0, 1000, 1100.0, 5000.0, 2e4]


def bounds(case, rec):
    a = GRID[case[1]]
    for b in GRID:
        if a == b:
            continue
        s = runner({'phiG': 1e-9}, a).run_continuous(b)
        rec.state('bounds', a, b)
        rec.step()
        rec.expect((s.scale_min, s.scale_max) == (min(a, b), max(a, b)), 'range', lambda: '%s -> %s: scale range %s..%s' % (a, b, s.scale_min, s.scale_max))


OPS = [('run', 160.0, 'leadinglog'), ('run', 160.0, 'integrate'), ('run', 3000.0, 'leadinglog'), ('cont', 160.0), ('par', 'leadinglog')]


def op(s, o):
    if o[0] == 'run':
        w = s.run(o[1], accuracy=o[2])
        return (w.eft, w.basis, w.scale, sorted(w.dict.items()))
    if o[0] == 'cont':
        r = s.run_continuous(o[1])
        return (r.scale_min, r.scale_max, sorted(r.fun(300.0).items()))
    return sorted(s.get_smpar(accuracy=o[1]).items())


_FRESH = {}


def hist(case, rec):
    _, i, j, n = case
    w = trans.wc('SMEFT', 'Warsaw', POINT, 1000.0)
    before = dict(w.dict)
    from wilson.run.smeft import SMEFT
    for o in OPS:
        if o not in _FRESH:
            _FRESH[o] = op(SMEFT(w), o)
    for tail in itertools.product(range(len(OPS)), repeat=n - 2):
        seq = (i, j) + tail
        s = SMEFT(w)
        if n == 3 or len(set(seq)) > 1:
            for k, m in enumerate(seq):
                r = op(s, OPS[m])
                rec.state(seq[:k + 1])
                rec.step()
                rec.expect(repr(r) == repr(_FRESH[OPS[m]]), 'hist:%s' % (seq,), lambda: 'after %s the operation %s gives a different result' % ([OPS[x] for x in seq[:k]], OPS[m]))
    rec.expect(dict(w.dict) == before and w.scale == 1000.0 and w.basis == 'Warsaw', 'input', 'the input was modified')


RUNS = [(1000.0, 950.0), (91.1876, 5000.0), (1000.0, 160.0), (1e4, 91.1876), (500.0, 3000.0)]


def fresh(case, rec):
    """a run over one range of scales has no influence on a later run over another: both orders, in processes of their own"""
    from props.T05 import _forked
    (a, b), (c, d) = RUNS[case[1]], RUNS[case[2]]
    for kind in ('run', 'cont', 'rk'):
        kw = {'rk': dict(rtol=1e-5, atol=1e-9)}.get(kind, {})
        one = lambda a, b: dict(runner(POINT, a).run_continuous(b).fun((a * b)**0.5)) if kind == 'cont' else dict(runner(POINT, a).run(b, accuracy='integrate', **kw).dict)
        x = _forked(lambda: (one(a, b), dict(runner(POINT, c).run(d).dict)))
        y = _forked(lambda: (dict(runner(POINT, c).run(d).dict), one(a, b)))
        rec.state('fresh', kind, *case[1:])
        rec.step(4)
        bad = trans.cmp(x[0], y[1], rtol=1e-13, noise=1e-18)
        rec.expect(not bad, 'fresh:' + kind, lambda: '%s %s -> %s GeV after a run %s -> %s: %s' % (kind, a, b, c, d, trans.show(bad)))
        bad = trans.cmp(x[1], y[0], rtol=1e-13, noise=1e-18)
        rec.expect(not bad, 'fresh:' + kind, lambda: 'run %s -> %s after %s %s -> %s: %s' % (c, d, kind, a, b, trans.show(bad)))


def law(case, rec):
    _, a, b, c = case
    def go(v, a, b, **k):
        return runner(v, a).run(b, **k).dict
    ab, ac = go(POINT, a, b), go(POINT, a, c)
    abc = go(ab, b, c)
    rec.state(*case)
    rec.step(4)
    bad = differ(abc, ac, 3e-3, 1e-4)
    rec.expect(not bad, 'group', lambda: '%s -> %s -> %s against direct: %s' % (a, b, c, trans.show(bad)))
    bad = differ(go(POINT, a, a), POINT, 1e-3, 3e-4)
    rec.expect(not bad, 'identity', lambda: 'at %s: %s' % (a, trans.show(bad)))
    bad = differ(go(ab, b, a), POINT, 3e-3, 1e-4)
    rec.expect(not bad, 'inverse', lambda: '%s -> %s -> %s: %s' % (a, b, a, trans.show(bad)))
    # the leading-log solution is the tangent: the difference shrinks quadratically with the logarithm
    r = 1.05 if b > a else 1 / 1.05
    kw = dict(rtol=1e-8, atol=1e-12)
    d = []
    for s in (r, r * r):
        x, y = go(POINT, a, a * s, **kw), R.align(go(POINT, a, a * s, accuracy='leadinglog'), POINT)
        x = R.align(x, POINT)
        d.append(max(abs(x.get(k, 0) - y.get(k, 0)) for k in set(x) | set(y)))
    rec.expect(3 <= d[1] / d[0] <= 5, 'tangent', lambda: 'difference to leading log for a step and twice the step: %s' % d)


SECT = {'dB=dL=0': {'lq1_1123': 1e-8j, 'uphi_33': 1e-8, 'phiG': 1e-8}, 'dL=2': {'llphiphi_12': 1e-12, 'llphiphi_33': 1e-12j}, 'dB=dL=1': {'duql_1123': 1e-9, 'qqql_1112': 1e-9j}}


def sector(case, rec):
    _, s, t = case
    from wilson import wcxf
    secs = wcxf.Basis['SMEFT', 'Warsaw'].sectors
    both = dict(SECT[s], **SECT[t])
    x, y = runner(both, 1000.0).run(160.0, accuracy='leadinglog').dict, runner(SECT[s], 1000.0).run(160.0, accuracy='leadinglog').dict
    rec.state(*case)
    rec.step(2)
    other = [k for k in y if k not in secs[s] and abs(y[k]) > 1e-25]
    rec.expect(not other, 'leak:%s' % s, lambda: 'running %s generates %s' % (s, other[:5]))
    if s == 'dB=dL=0' and t == 'dL=2':
        bad = differ({k: abs(x[k]) for k in x if k in secs[s]}, {k: abs(z) for k, z in y.items()}, 1e-6, 1e-6)
    else:
        bad = differ({k: abs(x[k]) for k in x if k in secs[s]}, {k: abs(z) for k, z in y.items() if k in secs[s]}, 1e-3 if s == 'dL=2' else 1e-4, 1e-6)
    if s != 'dL=2' and t != 'dL=2':
        rec.expect(not bad, 'isolated:%s:%s' % (s, t), lambda: '%s changed by %s: %s' % (s, t, trans.show(bad)))


def near(case, rec):
    """short distances: a small difference of two scales is the logarithm times the beta function as well"""
    _, a, t = case
    b = a * float(np.exp(t))
    W = coefs()
    for m in range(4):
        vals = {k: value(j, r, 0.7) for j, (k, r) in enumerate(W) if j % 4 == m}
        C0 = R.start(vals, a, sm())
        for acc in ('leadinglog', 'integrate') if a < 100 else ('leadinglog',):
            kw = dict(rtol=1e-8, atol=1e-14) if acc == 'integrate' else {}
            got = R.align(runner(vals, a).run(b, accuracy=acc, **kw).dict, vals)
            C = R.leadinglog(C0, a, b) if acc == 'leadinglog' else R.evolve(C0, a, b, 4 if abs(t) < 1 else 24)
            want = R.dump(R.default_basis(C))
            base = R.align(R.dump(R.default_basis(C0)), vals)
            want = R.align(want, vals)
            big = max(abs(want[k] - base.get(k, 0)) for k in want)
            bad = [(k, got.get(k, 0) - base.get(k, 0), want[k] - base.get(k, 0)) for k in want if not abs(got.get(k, 0) - want[k]) <= NEAR[acc, a < 100] * big + 1e-15]
            rec.state('near', a, t, m, acc)
            rec.step(len(want))
            rec.expect(not bad, 'near:%s' % acc, lambda: 'change %s -> %s GeV (%s): %s' % (a, b, acc, trans.show(bad)))


NEAR = {('leadinglog', True): 1e-5, ('integrate', True): 1e-5, ('leadinglog', False): 5e-2}


def zero(case, rec):
    for a, b in itertools.product((91.1876, 1000.0, 1e5), (91.1876, 160.0, 1e4)):
        for acc in ('leadinglog', 'integrate'):
            d = runner({}, a).run(b, accuracy=acc).dict
            rec.state(a, b, acc)
            rec.step()
            bad = {k: v for k, v in d.items() if abs(v) > 1e-25}
            rec.expect(not bad, 'zero', lambda: 'SM running %s -> %s generates %s' % (a, b, list(bad.items())[:4]))


def errors(case, rec):
    from wilson.run.smeft import SMEFT
    from wilson import wcxf
    for f, n in ((lambda: runner(POINT, 1000.0).run(160.0, accuracy='exact'), 'accuracy'), (lambda: runner(POINT, 1000.0).get_smpar(accuracy='x'), 'get_smpar'),
                 (lambda: runner(POINT, 1000.0).run_continuous(1000.0), 'continuous'), (lambda: SMEFT(trans.wc('SMEFT', 'Warsaw up', {}, 1000.0)), 'basis'),
                 (lambda: SMEFT(trans.wc('WET', 'JMS', {}, 100.0)), 'eft')):
        rec.state(n)
        rec.step()
        try:
            f()
        except ValueError:
            continue
        rec.expect(False, 'error:%s' % n, 'invalid request accepted: %s' % n)


def sm(case=None, rec=None):
    from wilson.run.smeft import smpar
    if rec is None:
        return smpar.p
    # the SM parameters at the electroweak scale come out as put in
    for a in (200.0, 1000.0, 1e4):
        for k, z in dict(POINT, **{'phiD': 1e-8, 'phiBox': -1e-8}).items():
            for acc in ('leadinglog', 'integrate'):
                if acc == 'integrate' and a != 1000.0:
                    continue
                q = runner({k: z}, a).get_smpar(accuracy=acc)
                rec.state(a, k, acc)
                rec.step()
                tol = 1e-2 if acc == 'integrate' else 0.25
                bad = [(n, q[n], v) for n, v in smpar.p.items() if n != 'm_Z' and not abs(q[n] - v) <= tol * abs(v)]
                rec.expect(not bad, 'sm:%s' % acc, lambda: 'input scale %s, %s=%s: %s' % (a, k, z, trans.show(bad)))
