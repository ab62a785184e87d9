"""R01 WET evolution: group law, perturbative orders and known anomalous dimensions."""
import itertools
from math import log, pi
import numpy as np
from lib import qcdref, trans, wetsym as ws

BOUNDS = {'quick': '3 theories x all ordered scale triples of a 3-point grid x 2 parameter points x (all operators | operators without leptons), dense inputs: '
                   'U(b<-m)U(m<-a)=U(b<-a) at each order in QED, identity, inverse; slope of the running for steps from 10% down to 3e-4; analytic LO solutions for all sectors of the classes I, II, Vb, neutrino currents',
          'thorough': 'the same on a 6-point grid with 3 inputs'}
ASSUMPTIONS = ['lepton-quark mass ratios in the dipole mixing are frozen at the input scale by construction, hence the group law for dipoles is checked without lepton operators']
GRID = {'WET': (91.1876, 160.0, 40.0, 4.8, 10.0, 3.0), 'WET-4': (4.2, 2.5, 1.5, 3.3, 2.0, 1.35), 'WET-3': (2.5, 1.3, 1.8, 1.5, 2.1, 1.9)}
PAR = {0: {}, 1: dict(alpha_s=0.1161, alpha_e=1 / 120, m_b=4.35, m_c=1.31, m_s=0.081, m_u=0.0031, m_d=0.0061, m_e=0.02, m_mu=0.2, m_tau=1.5)}
F = {'WET': 5, 'WET-4': 4, 'WET-3': 3}


def run(eft, d, a, b, par=None, **kw):
    from wilson.run.wet import WETrunner
    return WETrunner(trans.wc(eft, 'JMS', d, a), parameters=par, **kw).run(b).dict


def lin(x, y, s):
    return {k: x.get(k, 0) + s * y.get(k, 0) for k in set(x) | set(y)}


def lepton(k):
    return 'e' in ws.fields(k.split('_')[0])


def dipole(k):
    return len(ws.fields(k.split('_')[0])) == 2


def cases(tier):
    n = 3 if tier == 'quick' else 6
    out = []
    for eft in GRID:
        for v in PAR:
            for a in GRID[eft][:n]:
                out.append(['law', eft, v, a, [0.0] if tier == 'quick' else [0.0, 1.1, 2.3], n])
            for a in GRID[eft][:n]:
                out.append(['orders', eft, v, a, n])
            out.append(['near', eft, v])
            for sec in analytic_sectors(eft):
                out.append(['analytic', eft, v, sec, tier])
    return out


def worst(p, q, sel, tol, floor=1.0):
    return [(k, p.get(k, 0), q.get(k, 0)) for k in sorted(set(p) | set(q)) if sel(k)
            and not abs(p.get(k, 0) - q.get(k, 0)) <= tol * max(abs(p.get(k, 0)), floor)]


def check(case, rec):
    globals()[case[0]](case, rec)


def law(case, rec):
    _, eft, v, a, phases, n = case
    par = PAR[v]
    g = GRID[eft][:n]
    X = []
    for ph in phases:
        full = trans.dense(eft, 'JMS', ph)
        X += [('all', full), ('quarks', {k: z for k, z in full.items() if not lepton(k) or dipole(k)})]
    # the evolution matrices of one pair of scales are memoised by the code: keep runs between the same scales together
    first = {}
    for b in g:
        for i, (sel, x) in enumerate(X):
            u, f = run(eft, x, a, b, par, qed_order=0), run(eft, x, a, b, par)
            first[b, i] = u, lin(f, u, -1)
            rec.step(2)
            rec.trace(2)
            if a == b:
                bad = worst(u, x, lambda k: True, 1e-9) + worst(f, x, lambda k: True, 1e-9)
                rec.expect(not bad, 'identity:%s:%s' % (eft, a), lambda: 'running from %s to %s changes %s' % (a, b, trans.show(bad)))
    four = lambda k: not dipole(k)
    for m in g:
        if m == a:
            continue
        for b in g:
            for i, (sel, x) in enumerate(X):
                ua, ea = first[m, i]
                ub, eb = first[b, i]
                uab = run(eft, ua, m, b, par, qed_order=0)
                eab = lin(run(eft, ea, m, b, par, qed_order=0), lin(run(eft, ua, m, b, par), uab, -1), 1)
                rec.state(eft, v, i, a, m, b)
                rec.step(3)
                rec.trace(3)
                dip = lambda k: dipole(k) and sel == 'quarks'
                for nm, p, q, tol, s, fl in (('QCD', ub, uab, 1e-9, four, 1.0), ('QED', eb, eab, 1e-9, four, 0.01),
                                             ('QCD dipoles', ub, uab, 3e-6, dip, 1.0), ('QED dipoles', eb, eab, 3e-6, dip, 0.1)):
                    bad = worst(q, p, s, tol, fl)
                    rec.expect(not bad, 'law:%s:%s:%s>%s>%s' % (eft, nm, a, m, b), lambda: '%s %s: running %s -> %s -> %s GeV: %s' % (eft, nm, a, m, b, trans.show(bad)))


def orders(case, rec):
    """switching the orders off; homogeneity of the first-order QED correction in alpha_e"""
    _, eft, v, a, n = case
    par = dict(PAR[v])
    x = trans.dense(eft, 'JMS', 0.4)
    from wilson.parameters import p as P0
    for b in GRID[eft][:n]:
        if a == b:
            continue
        o = run(eft, x, a, b, par, qed_order=0, qcd_order=0)
        bad = worst(o, x, lambda k: not dipole(k) and k[0] != 'G', 1e-12)
        rec.expect(not bad, 'off:%s' % eft, lambda: 'both orders switched off, %s -> %s: %s' % (a, b, trans.show(bad)))
        # QED alone: additive in the logarithm of alpha_s, four-fermion operators are not rescaled
        y = {k: z for k, z in x.items() if not dipole(k) and k[0] != 'G'}
        four = lambda k: not dipole(k) and k[0] != 'G'
        e1 = lin(run(eft, y, a, b, par, qcd_order=0), y, -1)
        eta, b0, r = lo(eft, a, b, par)
        bad = worst(e1, {k: z * r / (2 * b0) * (-4) * (eta - 1) for k, z in y.items()}, lambda k: k.startswith('VnueduLL'), 1e-7, 0.1)
        for m in GRID[eft][:n]:
            e2 = lin(lin(run(eft, y, a, m, par, qcd_order=0), y, -1), lin(run(eft, y, m, b, par, qcd_order=0), y, -1), 1)
            bad += worst(e2, e1, four, 1e-9, 0.01)
        rec.expect(not bad, 'qedonly:%s' % eft, lambda: '%s -> %s: QED evolution without QCD: %s' % (a, b, trans.show(bad)))
        rec.state(eft, v, a, b)
        rec.step(4)
        rec.trace(4)
        # four-fermion coefficients are not rescaled by alpha_e: U_e is proportional to alpha_e, U_s independent
        p2 = dict(par, alpha_e=3 * par.get('alpha_e', P0['alpha_e']))
        u1, u2 = run(eft, y, a, b, par, qed_order=0), run(eft, y, a, b, p2, qed_order=0)
        f1, f2 = run(eft, y, a, b, par), run(eft, y, a, b, p2)
        bad = worst(u1, u2, four, 1e-12) + worst(lin(f2, u2, -1), {k: 3 * z for k, z in lin(f1, u1, -1).items()}, four, 1e-9, 0.01)
        rec.expect(not bad, 'alpha_e:%s' % eft, lambda: '%s -> %s: the QED correction must be proportional to alpha_e: %s' % (a, b, trans.show(bad)))


def near(case, rec):
    """running is differentiable in the scale: close to the input scale the change is proportional to the logarithm, however small"""
    _, eft, v = case
    par = dict(PAR[v])
    x = trans.dense(eft, 'JMS', 0.4)
    for a in GRID[eft][:3]:
        for kw in ({}, {'qed_order': 0}, {'qcd_order': 0}):
            last = None
            for e in (1e-1, 3e-2, 1e-2, 3e-3, 1e-3, 3e-4) + (-3e-4, -1e-3, -3e-2):       # RunDec answers in steps of 1e-4 next to its reference scales
                y = run(eft, x, a, a * np.exp(e), par, **kw)
                d = {k: (y.get(k, 0) - x[k]) / e for k in x}
                m = max(abs(z) for z in d.values())
                rec.state(eft, v, a, e, tuple(kw.items()))
                rec.step()
                if last is not None:
                    e0, d0 = last
                    bad = [(k, d[k], d0[k]) for k in x if not abs(d[k] - d0[k]) <= 6 * (abs(e) + abs(e0)) * max(abs(d0[k]), 0.3 * m) + 1e-9 / abs(e)]
                    rec.expect(not bad, 'near:%s' % eft, lambda: '%s %s: slope of the running from %s by a factor exp(%g) against exp(%g): %s' % (eft, kw, a, e, e0, trans.show(bad)))
                last = e, d
    rec.trace()


# ---- analytic solutions -------------------------------------------------
def analytic_sectors(eft):
    from wilson.run.wet import definitions
    from wilson import wcxf
    secs = wcxf.Basis[eft, 'JMS'].sectors
    return [s for s in secs if definitions.sectors.get(s) in ('I', 'Iu', 'II', 'Vb', 'Vb_c', 'inv', 'uude', 'ucde', 'uddnu', 'udsnu')]


def lo(eft, a, b, par):
    """eta = alpha_s(a)/alpha_s(b), beta0, alpha_e/alpha_s(a)"""
    from wilson.parameters import p as P0
    f = F[eft]
    s = par.get('alpha_s', P0['alpha_s'])
    A, B = qcdref.alpha_s(a, f, s), qcdref.alpha_s(b, f, s)
    return A / B, 11 - 2 * f / 3, par.get('alpha_e', P0['alpha_e']) / A


def analytic(case, rec):
    _, eft, v, sec, tier = case
    from wilson import wcxf
    from wilson.run.wet import definitions
    par = PAR[v]
    cls = definitions.sectors[sec]
    ks = {k: bool((d or {}).get('real')) for k, d in wcxf.Basis[eft, 'JMS'].sectors[sec].items()}
    x = {k: (0.7 - 0.05 * i if ks[k] else 0.7 - 0.05 * i + (0.3 - 0.11 * i) * 1j) for i, k in enumerate(ks) if not dipole(k) and k[0] != 'G'}
    for a, b in itertools.permutations(GRID[eft][:3], 2):
        eta, b0, r = lo(eft, a, b, par)
        q = run(eft, x, a, b, par, qed_order=0)
        rec.state(eft, v, sec, a, b)
        rec.step(len(x))
        rec.trace()
        want, known = {}, set(x)

        def put(k, z):
            want[k] = want.get(k, 0) + z
        for k, z in x.items():
            n = k.split('_')[0]
            if cls in ('inv', 'II', 'Vb', 'Vb_c'):
                g = {'V': 0.0, 'S': -4.0, 'T': 4 / 3.0}[n[0]] if cls != 'inv' else 0.0
                put(k, z * eta ** (g / b0))
            elif n[:3] in ('Vdd', 'Vuu'):
                put(k, z * eta ** (2 / b0))
            elif n in ('V1ddLR', 'V8ddLR', 'V1uuLR', 'V8uuLR'):
                k1, k8 = 'V1' + k[2:], 'V8' + k[2:]
                # (V1, S) with C1 V1 + C8 V8 = (C1 - C8/6) V1 - C8 S and gamma = [[2, 12], [0, -16]]
                M = np.array([[1, -1 / 6], [0, -1]])
                w, V = np.linalg.eig(np.array([[2, 12], [0, -16]]).T)
                U = np.linalg.inv(M) @ V @ np.diag(eta ** (w.real / (2 * b0))) @ np.linalg.inv(V) @ M
                c = U[:, 0 if k == k1 else 1] * z
                put(k1, c[0])
                put(k8, c[1])
            elif n[:3] in ('S1d', 'S8d', 'S1u', 'S8u'):
                # (S, T) basis of Buras, Misiak, Urban; only the eigenvalues are basis independent
                k1, k8 = 'S1' + k[2:], 'S8' + k[2:]
                known -= {k1, k8}
                if k == k8:
                    continue
                U = np.array([[run(eft, {j: 1.0}, a, b, par, qed_order=0).get(i, 0) for j in (k1, k8)] for i in (k1, k8)])
                g = np.array([[-10, 1 / 6], [-40, 34 / 3]])
                e = np.sort((eta ** (np.linalg.eigvals(g).real / (2 * b0))))
                rec.expect(np.allclose(np.sort(np.linalg.eigvals(U).real), e, rtol=1e-7), 'analytic:%s' % k,
                           lambda: '%s %s -> %s: eigenvalues of the evolution %s, expected %s' % (k, a, b, np.linalg.eigvals(U), e))
            else:
                put(k, z * eta ** (-2 / b0))      # baryon number violation: gamma = -4
        bad = worst(q, want, lambda k: k in known, 1e-7, 0.1)
        rec.expect(not bad, 'analytic:%s:%s' % (eft, sec), lambda: '%s %s -> %s GeV, LO QCD: %s' % (sec, a, b, trans.show(bad)))
        e = run(eft, x, a, b, par)
        if cls == 'II':
            # the logarithm of Marciano and Sirlin: gamma_e = -4
            bad = worst(e, {k: z * (1 + r / (2 * b0) * (-4) * (eta - 1)) for k, z in x.items()}, lambda k: k.startswith('VnueduLL'), 1e-7, 0.1)
            rec.expect(not bad, 'sirlin:%s:%s' % (eft, sec), lambda: '%s %s -> %s GeV with QED: %s' % (sec, a, b, trans.show(bad)))
        if cls == 'inv':
            bad = worst(e, x, lambda k: True, 1e-12)
            rec.expect(not bad, 'inv:%s:%s' % (eft, sec), lambda: trans.show(bad))
