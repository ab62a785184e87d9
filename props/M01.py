"""M01 Tree-level matching SMEFT -> WET."""
import numpy as np
from lib import matchref, smeft, trans
from lib import smeftref as R

AMP = 1e-12
BOUNDS = {'quick': 'all 2499 real directions of the 1635 Warsaw up coefficients at one parameter point (default), and in blocks at a second one, against an independent derivation from effective W/Z couplings; '
                   'dimensional scaling, lepton relabelling and CP on dense points',
          'thorough': 'all directions at two parameter points'}
ASSUMPTIONS = ['coefficients small enough for the quadratic terms to be negligible (the response is taken at 1e-12)']


def dirs():
    out = []
    for w, real, s in smeft.warsaw():
        out.append((w, 1.0))
        if not real:
            out.append((w, 1j))
    return out


def par(v):
    from wilson.run.smeft.smpar import p
    return dict(p) if v == 0 else dict(p, m_W=79.9, m_Z=91.0, GF=1.19e-5, alpha_e=1 / 131.0, Vus=0.23, Vub=4.1e-3, Vcb=4.0e-2, gamma=1.1, m_t=165.0, m_b=2.9, m_tau=1.75)


def cases(tier):
    n = len(dirs())
    out = [['dir', 0, lo, hi, 1] for lo, hi in trans.chunks(n, 40)]
    out += [['dir', 1, lo, hi, 20 if tier == 'quick' else 1] for lo, hi in trans.chunks(n, 40)]
    out += [['law', v] for v in (0, 1)]
    return out


def run(vals, p, basis='Warsaw up', scale=91.1876):
    return trans.wc('SMEFT', basis, vals, scale).match('WET', 'JMS', parameters=p).dict


def check(case, rec):
    rec.trace()
    globals()[case[0]](case, rec)


def dir(case, rec):
    _, v, lo, hi, size = case
    D = dirs()
    p = par(v)
    for i in range(lo, hi, size):
        vals = {}
        for j, (k, z) in enumerate(D[i:min(hi, i + size)]):
            vals[k] = vals.get(k, 0) + AMP * z * (1 + 0.13 * j)
        got = run(vals, p if v else None)
        want = matchref.match(R.load(vals), p, smeft.zero())
        rec.state(v, i)
        rec.step(len(want))
        unit = 300.0 if all(x.split('_')[0][1:] in ('W', 'B', 'G') for x in vals) else 1.0
        bad = trans.diff(got, want, rtol=3e-6, atol=4e-6 * AMP * unit)
        rec.expect(not bad, 'dir:%s' % D[i][0].split('_')[0], lambda: '%s: %s' % (vals, trans.show(bad)))


def perm(vals, s):
    """relabel the lepton flavours"""
    C = R.load(vals)
    U = {f: np.eye(3) for f in 'qud'}
    U['l'] = U['e'] = np.eye(3)[list(s)]
    return {k: z for k, z in R.dump(R.rotate(C, U)).items() if abs(z) > 1e-30}


def dense(ph, amp=1e-12):
    out = {}
    for i, (w, real, s) in enumerate(smeft.warsaw()):
        z = amp * np.exp(1j * (1.7 * i * i + ph)) * (1 + 0.3 * np.sin(i))
        out[w] = z.real if real else z
    return out


GFSET = ('ll', 'phil3')


def law(case, rec, loop=0):
    v = case[1]
    p = dict(par(v), loop_order=loop)
    rec.step(6)
    rec.state('law', v)
    tol = dict(rtol=1e-6, noise=1e-6) if loop else dict(rtol=1e-7, noise=1e-8)
    x = dense(0.2)
    got = run(x, p)
    # reality
    from wilson import wcxf
    bad = [(k, got[k], 0) for k, r, s in trans.keys('WET', 'JMS') if r and abs(complex(got.get(k, 0)).imag) > 1e-6 * AMP]
    rec.expect(not bad, 'real', lambda: 'complex values of real coefficients: %s' % trans.show(bad))
    # relabelling of electron and muon: exact; all relabellings if the muon lifetime is not involved
    for s in ((1, 0, 2), (0, 2, 1), (1, 2, 0)):
        y = x if s == (1, 0, 2) else {k: z for k, z in x.items() if k.split('_')[0] not in GFSET}
        q = dict(p)
        L = ('m_e', 'm_mu', 'm_tau')
        q.update({L[i]: p[m] for m, i in zip(L, s)})
        a = image(run(y, p), lambda o: relabel(o, s))
        b = run(perm(y, s), q)
        bad = trans.cmp(b, a, **tol)
        rec.expect(not bad, 'relabel', lambda: 'lepton relabelling %s: %s' % (s, trans.show(bad)))
    # CP
    odd = ('Gtilde', 'Wtilde', 'phiGtilde', 'phiBtilde', 'phiWtilde', 'phiWtildeB')
    cp = lambda d, o: {k: (-1 if k in o else 1) * np.conj(z) for k, z in d.items()}
    bad = trans.cmp(run(cp(x, odd), dict(p, gamma=1e-11)), cp(run(x, dict(p, gamma=1e-11)), ('Gtilde',)), **tol)
    rec.expect(not bad, 'cp', lambda: 'CP: %s' % trans.show(bad))
    # homogeneity
    bad = trans.cmp({k: 2 * z for k, z in got.items()}, run({k: 2 * z for k, z in x.items()}, p), **tol)
    rec.expect(not bad, 'linear', lambda: 'doubling the coefficients: %s' % trans.show(bad))
    # selection rules
    for sec, keys in ((s, set(ws)) for s, ws in wcxf.Basis['SMEFT', 'Warsaw up'].sectors.items()):
        r = run({k: z for k, z in x.items() if k in keys}, p)
        bnv = {k for k in r if matchref_bnv(k)}
        bad = [k for k, z in r.items() if abs(z) > 1e-5 * AMP and (k in bnv) != (sec == 'dB=dL=1')] if sec != 'dL=2' else [k for k, z in r.items() if abs(z) > 1e-5 * AMP]
        rec.expect(not bad, 'select:%s' % sec, lambda: '%s generates %s' % (sec, bad[:5]))
    if not loop:
        # dimensional analysis
        t = 1.7
        q = dict(p)
        for m in q:
            if m[:2] == 'm_':
                q[m] = q[m] * t
        q['GF'] = q['GF'] / t ** 2
        r = run({k: z / t ** (1 if k.startswith('llphiphi') else 2) for k, z in x.items()}, q, scale=91.1876 * t)
        bad = trans.cmp({k: z * (t if k.split('_')[0][1:] in ('gamma', 'G') and k[0] in 'eud' else t * t) for k, z in r.items()}, got, **tol)
        rec.expect(not bad, 'dimension', lambda: 'dimensional scaling: %s' % trans.show(bad))


def matchref_bnv(k):
    from lib import wetsym
    return k[0] == 'S' and len(wetsym._FIELDS.findall(k.split('_')[0][1:])) == 3


def image(d, f):
    out = {}
    for k, z in d.items():
        r = f(k)
        if r is None:
            continue
        n, s, c = r
        out[n] = s * (np.conj(z) if c else z)
    return out


_K = set()


def relabel(k, s):
    from lib import wetsym
    if not _K:
        _K.update(x for x, r, t in trans.keys('WET', 'JMS'))
    n = k.split('_')[0]
    i = tuple(s[j] if f in ('e', 'nu') else j for f, j in zip(wetsym.fields(n), wetsym.idx(k)))
    return wetsym.listed(n, i, _K)
