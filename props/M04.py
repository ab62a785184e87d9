"""M04 Results do not depend on the matching scale at one-loop order.

L(mu) = M0(C(mu), p(mu)) + M1(C, p, mu) has to obey the WET RGE when C and the SM parameters obey the SMEFT RGE:
   dM1/dlnmu = gamma_WET M0 - M0(gamma_SMEFT C) - dM0/dp pdot      (linear in C)
All ingredients but the SM tree-level amplitude (lib/matchref) are the package's own."""
from math import exp, log, pi, sqrt
import numpy as np
import ckmutil.ckm
from lib import matchref, smeft, trans
from lib import smeftref as R

BOUNDS = {'quick': 'each of the 1635 SMEFT coefficients alone (complex amplitude) at one parameter point, and all of them in blocks of 12 at a second point; all WET coefficients of the result; matching scales 40 and 160 GeV (the dependence is linear in the logarithm: M02); '
                   'realistic CKM mixing; light masses of order 1e-4 of their values and alpha_s 1e-3, such that higher orders are below the tolerance',
          'thorough': 'each coefficient alone at both points with a second phase'}
ASSUMPTIONS = ['one parameter point at a time; light Yukawa couplings negligible (terms of the SMEFT RGE with light Yukawa couplings are not constrained)',
               'the documented neglect of the QED running of masses and of alpha_e in the WET evolution is accounted for',
               'the basis of the left-handed d quarks in the WET may be rotated at one loop by the flavour-changing uphi, uW and phiq3, its phase by phiWtildeB (unphysical)']
MU = 91.1876
SCALES = (40.0, 160.0)
AMP = 1e-10
MT, MH = 173.0, 125.0     # the one-loop matching conditions assume these
K = ('GF', 'm_W', 'alpha_e')
TH = ('g', 'gp', 'Lambda', 'm2')
EPS = 1e-4
B0E = -80 / 9
POINTS = [dict(Vus=0.3, Vub=0.1, Vcb=0.2, gamma=1.0), dict(Vus=0.12, Vub=0.05, Vcb=0.3, gamma=2.1, m_W=76.0, GF=1.05e-5, alpha_e=1 / 112, alpha_s=1.5e-3)]
LIGHT = dict(m_b=4.2e-4, m_c=1.3e-4, m_s=1e-5, m_u=3e-7, m_d=5e-7, m_e=5e-7, m_mu=2e-6, m_tau=4e-6)
ROT = [n + '_' + i for n in ('uphi', 'uW', 'phiq3') for i in ('13', '23', '31', '32')] + ['phiWtildeB']
SIZE = 12
_ctx = {}


def cases(tier):
    W = smeft.warsaw()
    if tier == 'quick':
        return [['one', w, 0, 0] for w, r, s in W] + [['block', i, 1, 0] for i in range(0, len(W), SIZE)]
    return [['one', w, v, ph] for w, r, s in W for v in (0, 1) for ph in ((0,) if r else (0, 1))] + [['block', i, v, 0] for i in range(0, len(W), SIZE) for v in (0, 1)]


class Point:
    def __init__(self, v):
        from wilson.run.smeft.smpar import p as P0
        from wilson.util import qcd
        p = dict(P0, alpha_s=1e-3, **LIGHT)
        p.update(POINTS[v], m_t=MT, m_h=MH)
        # what the WET evolution is given: m_q(m_q) or m_q(2 GeV)
        self.pW = {k: p[k] for k in ('alpha_e', 'alpha_s', 'm_b', 'm_c', 'm_s', 'm_u', 'm_d', 'm_e', 'm_mu', 'm_tau')}
        for k, f in (('m_b', qcd.m_b), ('m_c', qcd.m_c), ('m_s', qcd.m_s), ('m_u', qcd.m_s), ('m_d', qcd.m_s)):
            p[k] = float(f(p[k], MU, 5, p['alpha_s']))
        self.p = p
        self.V = ckmutil.ckm.ckm_tree(p['Vus'], p['Vub'], p['Vcb'], p['gamma'])
        self.F0 = self.flow({}, 0)
        self.sm = {}
        for k in K:
            a, c = (matchref.wet_dump(matchref.arrays(smeft.zero(), dict(p, **{k: p[k] * (1 + s * EPS)}))) for s in (1, -1))
            self.sm[k] = {n: (a[n] - c[n]) / (2 * EPS * p[k]) for n in a}
        self.up = matchref.arrays(smeft.zero(), dict(p, Vus=1e-13, Vub=1e-13, Vcb=1e-13))
        self.gens = []
        for i in range(3):
            for j in range(i, 3):
                for ph in (1, 1j):
                    A = np.zeros((3, 3), complex)
                    A[i, j], A[j, i] = ph, -np.conj(ph)
                    if i != j or ph != 1:
                        self.gens.append(self.rotated(self.V @ A))

    def rotated(self, dV):
        """change of the SM amplitudes if the CKM matrix changes"""
        f = lambda s: matchref.wet_dump({n: matchref.rot(n, a, self.V + s * EPS * dV) for n, a in self.up.items()})
        a, c = f(1), f(-1)
        return {n: (a[n] - c[n]) / (2 * EPS) for n in a}

    def yukawas(self, v, C):
        m = lambda a, U, *x: U @ np.diag(x).astype(complex) * sqrt(2) / v + C[a + 'phi'] * v * v / 2
        p, one = self.p, np.eye(3)
        return dict(Gu=m('u', one, p['m_u'], p['m_c'], MT), Gd=m('d', self.V, p['m_d'], p['m_s'], p['m_b']), Ge=m('e', one, p['m_e'], p['m_mu'], p['m_tau']))

    def flow(self, values, amp):
        """SMEFT beta functions and the running of the input parameters"""
        p = self.p
        C = R.load({k: z * amp for k, z in values.items()})
        v = sqrt(1 / sqrt(2) / p['GF'])
        g, e = 2 * p['m_W'] / v, sqrt(4 * pi * p['alpha_e'])
        th = dict(g=g, gp=e * g / sqrt(g * g - e * e), Lambda=MH ** 2 / v ** 2, m2=MH ** 2 / 2)
        want = dict(p, m_h=MH)
        for _ in range(3 if amp else 0):
            q = inputs(th, C)
            J = np.array([[log(inputs(dict(th, **{a: th[a] * (1 + 1e-6)}), C)[k] / q[k]) / 1e-6 for a in TH] for k in q])
            for a, z in zip(TH, np.linalg.solve(J, [log(want[k] / q[k]) for k in q])):
                th[a] *= exp(z)
        D = dict(C, **{k: complex(z) for k, z in th.items()}, gs=complex(sqrt(4 * pi * p['alpha_s'])))
        D.update(self.yukawas(sqrt(vev2(th, C)), C))
        b = R.beta({k: np.array(z, complex) for k, z in D.items()})

        def shifted(s):
            D2 = {k: D[k] + s * EPS * b[k] for k in D}
            t2 = {a: complex(D2[a]).real for a in TH}
            v2 = vev2(t2, D2)
            return inputs(t2, D2), sqrt(v2 / 2) * (D2['Gu'] - v2 / 2 * D2['uphi'])
        (a, A), (c, B) = shifted(1), shifted(-1)
        M = (A - B) / (2 * EPS)      # flavour mixing with the top quark, rotated away
        rot = np.zeros((3, 3), complex)
        for i in (0, 1):
            rot[i, 2] = M[i, 2] / MT
            rot[2, i] = -np.conj(rot[i, 2])
        return b, {k: (a[k] - c[k]) / (2 * EPS) for k in K}, rot

    def match(self, values, loop, scale=MU, **kw):
        return trans.wc('SMEFT', 'Warsaw up', {k: z for k, z in values.items() if z != 0}, scale).match('WET', 'JMS', parameters=dict(self.p, loop_order=loop, **kw)).dict

    def smeft_side(self, values):
        b, d1, r1 = self.flow(values, AMP)
        _, d2, r2 = self.flow(values, -AMP)
        g = {k: z for k, z in R.dump(b).items() if z != 0}
        out = dict(self.match(g, 0))
        V = {k: z * AMP for k, z in values.items()}
        h = 1e-3
        up, dn = (self.match(V, 0, **{k: self.p[k] + s * h * self.F0[1][k] for k in K}) for s in (1, -1))
        for k in set(up) | set(dn):
            out[k] = out.get(k, 0) + (up.get(k, 0) - dn.get(k, 0)) / (2 * h)
        rot = self.rotated(-(r1 - r2) / 2 / AMP @ self.V)
        for k in rot:
            out[k] = out.get(k, 0) / AMP + rot[k] + sum(self.sm[q][k] * (d1[q] - d2[q]) / 2 / AMP for q in K)
        return out

    def wet_side(self, L):
        from wilson.run.wet import WETrunner
        h = 1e-3
        r = WETrunner(trans.wc('WET', 'JMS', {k: z for k, z in L.items() if z != 0}, MU), parameters=self.pW)
        a, c = r.run(MU * exp(h)).dict, r.run(MU * exp(-h)).dict
        out = {k: (a.get(k, 0) - c.get(k, 0)) / (2 * h) for k in set(a) | set(c)}
        e2 = self.p['alpha_e'] / (4 * pi)
        for k, z in L.items():
            n = k.split('_')[0]
            if n in ('uG', 'dG', 'ugamma', 'dgamma', 'egamma'):     # running of e and m is neglected in the WET
                Q2 = {'u': 4 / 9, 'd': 1 / 9, 'e': 1}[n[0]]
                out[k] = out.get(k, 0) - (6 * Q2 + (B0E if n[1] == 'g' else 0)) * e2 * z
        return {k: z / AMP for k, z in out.items()}


def vev2(th, C):
    x = th['m2'] / th['Lambda']
    return 2 * (x + 3 * complex(C['phi']).real * x * x / th['Lambda'])


def inputs(th, C):
    """GF, m_W, alpha_e, m_h from the parameters of the Lagrangian"""
    c = lambda n: complex(C[n]).real
    v2 = vev2(th, C)
    g2, g1 = th['g'] * (1 + c('phiW') * v2), th['gp'] * (1 + c('phiB') * v2)
    e = g1 * g2 / sqrt(g1 * g1 + g2 * g2) * (1 - c('phiWB') * v2 * g1 * g2 / (g1 * g1 + g2 * g2))
    GF = 1 / sqrt(2) / v2 + sqrt(2) / 4 * (-C['ll'][1, 0, 0, 1] - C['ll'][0, 1, 1, 0] + 2 * C['phil3'][1, 1] + 2 * C['phil3'][0, 0]).real
    return dict(GF=GF, m_W=g2 * sqrt(v2) / 2, alpha_e=e * e / 4 / pi, m_h=sqrt(v2 * (th['Lambda'] - 3 * c('phi') * v2)) * (1 + (c('phiBox') - c('phiD') / 4) * v2))


def check(case, rec):
    kind, w, v, ph = case
    rec.trace()
    if v not in _ctx:
        _ctx[v] = Point(v)
    P = _ctx[v]
    W = smeft.warsaw()
    z = lambda r, j: 0.8 - 0.07 * (j % 7) if r else (0.8 + 0.6j) * np.exp(1j * (1.3 * ph + 0.9 * j))
    if kind == 'one':
        vals = {w: z(dict((a, b) for a, b, s in W)[w], 0)}
        name = w
    else:
        vals = {k: z(r, j) for j, (k, r, s) in enumerate(W[w:w + SIZE])}
        name = '%s ... %s' % (W[w][0], W[min(w + SIZE, len(W)) - 1][0])
    V = {k: x * AMP for k, x in vals.items()}
    L0 = P.match(V, 0)
    gW, gS = P.wet_side(L0), P.smeft_side(vals)
    lo, hi = (P.match(V, 1, s) for s in SCALES)
    keys = sorted(set(gW) | set(gS) | set(lo) | set(hi))
    free = [k for k in keys if any(abs(g.get(k, 0)) > 1e-12 for g in P.gens)] if any(k in ROT for k in vals) else []
    d = {k: (hi.get(k, 0) - lo.get(k, 0)) / log(SCALES[1] / SCALES[0]) / AMP for k in keys}
    res = {k: complex(d[k] - gW.get(k, 0) + gS.get(k, 0)) for k in keys}
    if free:
        A = np.array([[g[k] for g in P.gens] for k in free])
        b = np.array([res[k] for k in free])
        x = np.linalg.lstsq(np.concatenate([A.real, A.imag]), np.concatenate([b.real, b.imag]), rcond=None)[0]
        for k, y in zip(free, A @ x):
            res[k] -= y
    rec.state(kind, w, v, ph)
    rec.step(len(keys))
    n = len(vals) ** 0.5
    bad = [(k, res[k]) for k in keys if not abs(res[k]) <= 1.2e-3 * max(abs(d[k]), abs(gW.get(k, 0)), abs(gS.get(k, 0))) + 1e-6 * n]
    bad.sort(key=lambda t: -abs(t[1]))
    rec.expect(not bad, 'scale:%s:%s' % (kind, w), lambda: '%s: the dependence of %d coefficients on the matching scale does not cancel against the running, e.g. %s: matching %.5g, WET running %.5g, SMEFT running %.5g' % (
        name, len(bad), bad[0][0], *(abs(complex(y.get(bad[0][0], 0))) for y in (d, gW, gS))))
