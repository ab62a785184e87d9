"""Tree-level matching of the SMEFT (Warsaw up basis) onto the JMS basis, written from the effective
couplings of the W and Z bosons (arXiv:1709.04486): no use of the package."""
from math import pi, sqrt
import numpy as np
import ckmutil.ckm
from lib import symm

D = np.eye(3)


def prod(a, b):
    return np.einsum('pr,st->prst', a, b)


def x(a, idx):
    return np.einsum(idx + '->prst', a)


def couplings(C, p):
    GF0 = p['GF'] + sqrt(2) / 4 * (C['ll'][0, 1, 1, 0] + C['ll'][1, 0, 0, 1]).real - sqrt(2) / 2 * (C['phil3'][0, 0] + C['phil3'][1, 1]).real
    v = (sqrt(2) * GF0) ** -0.5
    v2 = v * v
    eps = C['phiWB'].real * v2
    g2 = 2 * p['m_W'] / v
    e = sqrt(4 * pi * p['alpha_e'])
    # e = g1 g2 / n (1 - eps g1 g2 / n^2)
    lo, hi = 0.0, 3.0
    f = lambda g1: g1 * g2 / sqrt(g1 ** 2 + g2 ** 2) * (1 - eps * g1 * g2 / (g1 ** 2 + g2 ** 2)) - e
    for _ in range(200):
        m = (lo + hi) / 2
        lo, hi = (m, hi) if f(m) < 0 else (lo, m)
    g1 = (lo + hi) / 2
    n2 = g1 ** 2 + g2 ** 2
    s = g1 / sqrt(n2) * (1 + eps / 2 * g2 / g1 * (g2 ** 2 - g1 ** 2) / n2)
    c = g2 / sqrt(n2) * (1 - eps / 2 * g1 / g2 * (g2 ** 2 - g1 ** 2) / n2)
    gz = e / (s * c) * (1 + n2 / (2 * g1 * g2) * eps)
    mz2 = gz ** 2 * v2 / 4 * (1 + C['phiD'].real * v2 / 2)
    h = v2 / 2
    Z = {'nuL': D / 2 - h * C['phil1'] + h * C['phil3'], 'eL': (s * s - 0.5) * D - h * C['phil1'] - h * C['phil3'], 'eR': s * s * D - h * C['phie'],
         'uL': (0.5 - 2 / 3 * s * s) * D - h * C['phiq1'] + h * C['phiq3'], 'uR': -2 / 3 * s * s * D - h * C['phiu'],
         'dL': (s * s / 3 - 0.5) * D - h * C['phiq1'] - h * C['phiq3'], 'dR': s * s / 3 * D - h * C['phid']}
    W = {'l': D + v2 * C['phil3'], 'q': D + v2 * C['phiq3'], 'R': h * C['phiud']}
    return v, s, c, gz ** 2 / mz2, g2 ** 2 / p['m_W'] ** 2, Z, W


def arrays(C, p):
    v, s, c, kz, kw, Z, W = couplings(C, p)
    z = lambda a, b: -kz * prod(Z[a], Z[b])
    zz = lambda a: -kz / 4 * (prod(Z[a], Z[a]) + x(prod(Z[a], Z[a]), 'ptsr'))
    o = {}
    o['VnunuLL'] = C['ll'] + zz('nuL')
    o['VeeLL'] = C['ll'] + zz('eL')
    o['VnueLL'] = C['ll'] + x(C['ll'], 'stpr') + z('nuL', 'eL') - kw / 2 * np.einsum('pt,rs->prst', W['l'], W['l'].conj())
    o['VnuuLL'] = C['lq1'] + C['lq3'] + z('nuL', 'uL')
    o['VnudLL'] = C['lq1'] - C['lq3'] + z('nuL', 'dL')
    o['VeuLL'] = C['lq1'] - C['lq3'] + z('eL', 'uL')
    o['VedLL'] = C['lq1'] + C['lq3'] + z('eL', 'dL')
    o['VnueduLL'] = 2 * C['lq3'] - kw / 2 * np.einsum('pr,ts->prst', W['l'], W['q'].conj())
    o['VuuLL'] = C['qq1'] + C['qq3'] + z('uL', 'uL') / 2
    o['VddLL'] = C['qq1'] + C['qq3'] + z('dL', 'dL') / 2
    w4 = np.einsum('pt,rs->prst', W['q'], W['q'].conj())
    o['V1udLL'] = C['qq1'] + x(C['qq1'], 'stpr') - C['qq3'] - x(C['qq3'], 'stpr') + 2 / 3 * (x(C['qq3'], 'ptsr') + x(C['qq3'], 'srpt')) - kw / 6 * w4 + z('uL', 'dL')
    o['V8udLL'] = 4 * (x(C['qq3'], 'ptsr') + x(C['qq3'], 'srpt')) - kw * w4
    o['VeeRR'] = C['ee'] + zz('eR')
    o['VeuRR'] = C['eu'] + z('eR', 'uR')
    o['VedRR'] = C['ed'] + z('eR', 'dR')
    o['VuuRR'] = C['uu'] + z('uR', 'uR') / 2
    o['VddRR'] = C['dd'] + z('dR', 'dR') / 2
    o['V1udRR'] = C['ud1'] + z('uR', 'dR')
    o['V8udRR'] = C['ud8']
    for t, a, b, n in (('VnueLR', 'nuL', 'eR', 'le'), ('VeeLR', 'eL', 'eR', 'le'), ('VnuuLR', 'nuL', 'uR', 'lu'), ('VnudLR', 'nuL', 'dR', 'ld'), ('VeuLR', 'eL', 'uR', 'lu'), ('VedLR', 'eL', 'dR', 'ld'),
                       ('VueLR', 'uL', 'eR', 'qe'), ('VdeLR', 'dL', 'eR', 'qe'), ('V1uuLR', 'uL', 'uR', 'qu1'), ('V1udLR', 'uL', 'dR', 'qd1'), ('V1duLR', 'dL', 'uR', 'qu1'), ('V1ddLR', 'dL', 'dR', 'qd1')):
        o[t] = C[n] + z(a, b)
    for t, n in (('V8uuLR', 'qu8'), ('V8udLR', 'qd8'), ('V8duLR', 'qu8'), ('V8ddLR', 'qd8')):
        o[t] = C[n]
    o['VnueduLR'] = -kw / 2 * np.einsum('pr,ts->prst', W['l'], W['R'].conj())
    o['V1udduLR'] = -kw / 2 * np.einsum('pr,ts->prst', W['q'], W['R'].conj())
    o.update(SeuRR=-C['lequ1'], TeuRR=-C['lequ3'], SnueduRR=C['lequ1'], TnueduRR=C['lequ3'], S1udRR=C['quqd1'], S8udRR=C['quqd8'],
             S1udduRR=-x(C['quqd1'], 'stpr'), S8udduRR=-x(C['quqd8'], 'stpr'), SedRL=C['ledq'], SnueduRL=C['ledq'], G=C['G'], Gtilde=C['Gtilde'])
    q = v / sqrt(2)
    o.update(egamma=q * (c * C['eB'] - s * C['eW']), dgamma=q * (c * C['dB'] - s * C['dW']), ugamma=q * (c * C['uB'] + s * C['uW']), uG=q * C['uG'], dG=q * C['dG'])
    qqql = x(C['qqql'], 'rpst') - x(C['qqql'], 'rspt') + x(C['qqql'], 'srpt')
    o.update(SduuLL=qqql, SuddLL=qqql, SduuLR=-C['qque'] - x(C['qque'], 'rpst'), SduuRL=C['duql'], SdudRL=-C['duql'], SduuRR=C['duue'])
    # d -> V d for the left-handed down quarks
    V = ckmutil.ckm.ckm_tree(p['Vus'], p['Vub'], p['Vcb'], p['gamma'])
    return {n: rot(n, a, V) for n, a in o.items()}


# positions (index, conjugated) of left-handed down-type quarks
DL = {'VnudLL': [(2, 1), (3, 0)], 'VedLL': [(2, 1), (3, 0)], 'VnueduLL': [(2, 1)], 'VddLL': [(0, 1), (1, 0), (2, 1), (3, 0)], 'V1udLL': [(2, 1), (3, 0)], 'V8udLL': [(2, 1), (3, 0)],
      'VdeLR': [(0, 1), (1, 0)], 'V1duLR': [(0, 1), (1, 0)], 'V8duLR': [(0, 1), (1, 0)], 'V1ddLR': [(0, 1), (1, 0)], 'V8ddLR': [(0, 1), (1, 0)], 'V1udduLR': [(1, 0)],
      'S1udRR': [(2, 1)], 'S8udRR': [(2, 1)], 'S1udduRR': [(2, 1)], 'S8udduRR': [(2, 1)], 'SedRL': [(3, 0)],
      'dgamma': [(0, 1)], 'dG': [(0, 1)]}
DL.update(SnueduRR=[(2, 1)], TnueduRR=[(2, 1)], SduuLL=[(0, 0)], SduuLR=[(0, 0)], SuddLL=[(1, 0), (2, 0)], SdudRL=[(2, 0)])


def rot(n, a, V):
    for ax, conj in DL.get(n, []):
        a = np.moveaxis(np.tensordot(a, V.conj() if conj else V, axes=(ax, 0)), -1, ax)
    return a


_T = {}


def wet_dump(o):
    """{coefficient: number} of WET arrays (any representative of the symmetry class)"""
    if not _T:
        from wilson import wcxf
        for k, d in ((k, d) for ws in wcxf.Basis['WET', 'JMS'].sectors.values() for k, d in ws.items()):
            n = k.split('_')[0]
            c = symm.CLASS['WET'][n]
            _T[k] = n, c, bool((d or {}).get('real')), tuple(int(i) - 1 for i in k.split('_')[1]) if '_' in k else ()
    out = {}
    for k, (n, c, real, i) in _T.items():
        a = o.get(n)
        if a is None:
            out[k] = 0j
        elif not i:
            out[k] = complex(a)
        else:
            # the operator sum(a O) + (h.c. for non-hermitian classes): add up equivalent entries
            out[k] = complex(sum({j: s * a[j] for j, s, cc in symm.orbit(c, i) if not cc}.values()))
    return out


def match(C, p, zero):
    """linear in the coefficients up to small quadratic terms; SM part subtracted"""
    a, b = arrays(C, p), arrays(zero, p)
    return wet_dump({n: a[n] - b[n] for n in a})
