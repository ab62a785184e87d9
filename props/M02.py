"""M02 One-loop matching SMEFT -> WET."""
import os
import numpy as np
from lib import smeft, trans
from lib import smeftref as R
from props import M01

FIX = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'fixtures', 'loop.npz')
AMP = 1e-10
SIZE = 12
BOUNDS = {'quick': 'all 1635 coefficients in blocks of 12 random complex combinations at 2 scales against frozen per-operator fingerprints; lepton relabelling, CP, reality, selection rules, homogeneity on dense points; '
                   'logarithmic scale dependence at 4 scales; SM limit',
          'thorough': 'additionally every coefficient alone: the blocks are the sum of their members'}
ASSUMPTIONS = ['the frozen table was produced by the pinned tree (published matching conditions)', 'coefficients small enough for the quadratic terms to be negligible']
_T = {}
SCALES = (91.1876, 160.0)


def names():
    from wilson import wcxf
    out = {}
    for k, r, s in trans.keys('WET', 'JMS'):
        out.setdefault(k.split('_')[0], []).append(k)
    return out


def fp(d):
    """one complex number per operator class"""
    out = []
    for n, ks in names().items():
        h = sum((i + 1) * ord(c) for i, c in enumerate(n))
        j = np.arange(len(ks))
        w = np.cos(0.7548776662 * j * j + 0.1 * h) + 1j * np.sin(0.5698402910 * j * j + 1.3 * j + 0.2 * h)
        x = np.array([d.get(k, 0) for k in ks])
        out += [np.sum(w * x.real), np.sum(w.conj() * x.imag)]
    return np.array(out) / AMP


def block(i):
    W = smeft.warsaw()[i * SIZE:(i + 1) * SIZE]
    return [(k, AMP * ((0.5 + 0.1 * j) if r else np.exp(1j * (0.9 + 2.3 * j + 0.31 * i)))) for j, (k, r, s) in enumerate(W)]


def nblocks():
    return -(-len(smeft.warsaw()) // SIZE)


def par():
    return dict(M01.par(1), loop_order=1)


def run(vals, p, scale):
    return trans.wc('SMEFT', 'Warsaw up', vals, scale).match('WET', 'JMS', parameters=p).dict


def setup(tier):
    if os.path.exists(FIX):
        d = np.load(FIX)
        _T['ref'] = d['ref']


def _one(i):
    return [fp(run(dict(block(i)), par(), s)) for s in SCALES]


def generate():
    import multiprocessing as mp
    with mp.Pool(8) as p:
        r = np.array(p.map(_one, range(nblocks()), chunksize=4))
    np.savez_compressed(FIX, ref=r)


def cases(tier):
    n = nblocks()
    out = [['ref', i] for i in range(n)]
    if tier == 'thorough':
        out += [['total', i] for i in range(n)]
    out += [['law', v] for v in (0, 1)]
    out += [['log', i] for i in range(0, n, 8)]
    out += [['sm']]
    return out


def check(case, rec):
    rec.trace()
    globals()[case[0]](case, rec)


def ref(case, rec):
    i = case[1]
    ns = list(names())
    for s, got, want in zip(SCALES, _one(i), _T['ref'][i]):
        rec.state('ref', i, s)
        rec.step(len(want))
        big = np.abs(want).max()
        bad = [(ns[j // 2], got[j], want[j]) for j in range(len(want)) if not abs(got[j] - want[j]) <= 1e-6 * abs(want[j]) + 1e-9 + 1e-11 * big]
        rec.expect(not bad, 'ref:%s' % block(i)[0][0].split('_')[0], lambda: 'one-loop matching of %s..: %s' % (block(i)[0][0], trans.show(bad)))


def total(case, rec):
    i = case[1]
    tot = {}
    for k, z in block(i):
        for a, b in run({k: z}, par(), SCALES[0]).items():
            tot[a] = tot.get(a, 0) + b
        rec.state('one', k)
        rec.step()
    want = run(dict(block(i)), par(), SCALES[0])
    m = max(abs(z) for z in want.values())
    bad = trans.diff(tot, want, rtol=1e-4, atol=1e-4 * AMP)
    rec.expect(not bad, 'sum', lambda: 'superposition in block %s: %s' % (i, trans.show(bad)))


def law(case, rec):
    M01.law(case, rec, loop=1)


def log(case, rec):
    """fixed order: the dependence on the matching scale is a single logarithm"""
    i = case[1]
    vals = dict(x for j in range(i, min(i + 8, nblocks())) for x in block(j))
    S = (91.1876, 120.0, 160.0, 80.4)
    r = [run(vals, par(), s) for s in S]
    L = np.log(S)
    rec.state('log', i)
    rec.step(len(S))
    for s, l, d in zip(S[2:], L[2:], r[2:]):
        t = (l - L[0]) / (L[1] - L[0])
        want = {k: r[0][k] + t * (r[1][k] - r[0][k]) for k in r[0]}
        bad = trans.cmp(d, want, rtol=1e-6, noise=1e-8)
        rec.expect(not bad, 'log', lambda: 'scale %s: %s' % (s, trans.show(bad)))


def sm(case, rec):
    for v in (0, 1):
        for loop in (0, 1):
            for basis in ('Warsaw', 'Warsaw up'):
                for s in (80.0, 91.1876, 160.0):
                    for vals in ({}, {'ll_1122': 0.0}, {'llphiphi_12': 1e-12}):
                        d = trans.wc('SMEFT', basis, vals, s).match('WET', 'JMS', parameters=dict(M01.par(v), loop_order=loop)).dict
                        rec.state(v, loop, basis, s, tuple(vals))
                        rec.step()
                        bad = [k for k, z in d.items() if abs(z) > 1e-20]
                        rec.expect(not bad, 'sm', lambda: 'the Standard Model limit generates %s' % bad[:4])
