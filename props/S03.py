"""S03 SM parameters in the presence of dimension-six operators: extraction inverts determination."""
import itertools
from math import sqrt
import numpy as np
from lib import smeft

BOUNDS = {'quick': 'all sign combinations {-,0,+} of the 7 bosonic coefficients entering, 2 sizes, both flavour bases, every entry of the Yukawa-like coefficients (re/im); '
                   'Higgs potential on a 9 x 9 x 9 x 7 grid incl. unsolvable points; get_gpbar on a grid incl. unsolvable points',
          'thorough': '4 sizes and a second input point'}
ASSUMPTIONS = ['relations valid to all orders in the coefficients where the code claims so; linear where it does']
BOS = ['phi', 'phiBox', 'phiD', 'phiG', 'phiB', 'phiW', 'phiWB']


def cases(tier):
    sizes = (1e-9, 2e-7) if tier == 'quick' else (1e-12, 1e-9, 1e-8, 2e-7)
    out = [['bos', b, s, k] for b in ('Warsaw', 'Warsaw up') for s in sizes for k in (-1, 0, 1)]
    out += [['yuk', b, s] for b in ('Warsaw', 'Warsaw up') for s in (1e-9, 1e-8)]
    out += [['higgs', i] for i in range(7)]
    out += [['gp'], ['errors']]
    return out


def zero():
    C = smeft.zero()
    return C


def invert(C, basis, rec, what):
    from wilson.run.smeft import smpar
    X = dict(C)
    X.update(smpar.smeftpar(91.1876, C, basis))
    q = smpar.smpar(X)
    bad = [(k, q[k], v) for k, v in smpar.p.items() if k != 'm_Z' and not abs(q[k] - v) <= 1e-7 * abs(v)]
    rec.step()
    rec.expect(not bad, 'inverse:%s' % what, lambda: '%s %s: %s' % (basis, what, ['%s comes out as %s instead of %s' % b for b in bad[:4]]))
    return X, q


def physics(X, q, rec, what):
    """the defining relations, from the potential and the gauge boson mass terms"""
    from wilson.run.smeft import smpar
    p = smpar.p
    v2 = 1 / (sqrt(2) * p['GF'])
    v = sqrt(v2)
    lam, m2, c = X['Lambda'].real, X['m2'].real, X['phi'].real
    # V(h) = -m2/2 h^2 + lam/8 h^4 - c/8 h^6
    g = -m2 * v + lam / 2 * v ** 3 - 6 * c / 8 * v ** 5
    rec.expect(abs(g) <= 1e-9 * m2 * v, 'minimum', lambda: '%s: the potential is not stationary at v: %g' % (what, g))
    h = -m2 + 3 * lam / 2 * v2 - 30 * c / 8 * v2 ** 2
    k = 1 - 2 * v2 * (X['phiBox'].real - X['phiD'].real / 4)
    rec.expect(abs(h / k - p['m_h'] ** 2) <= 1e-8 * p['m_h'] ** 2, 'mh', lambda: '%s: Higgs mass %s' % (what, sqrt(abs(h / k))))
    gb, gpb = X['g'].real / (1 - X['phiW'].real * v2), X['gp'].real / (1 - X['phiB'].real * v2)
    rec.expect(abs(gb * v / 2 - p['m_W']) <= 1e-9 * p['m_W'], 'mw', lambda: '%s: m_W' % what)
    eps = X['phiWB'].real * v2
    e = gb * gpb / sqrt(gb ** 2 + gpb ** 2) * (1 - eps * gb * gpb / (gb ** 2 + gpb ** 2))
    rec.expect(abs(e * e / 4 / np.pi - p['alpha_e']) <= 1e-9 * p['alpha_e'], 'alpha', lambda: '%s: alpha_e' % what)
    mz = v / 2 * sqrt(gb ** 2 + gpb ** 2) * (1 + eps * gb * gpb / (gb ** 2 + gpb ** 2)) * (1 + X['phiD'].real * v2 / 4)
    rec.expect(abs(mz - q['m_Z']) <= 1e-9 * mz, 'mz', lambda: '%s: m_Z is %s, expected %s' % (what, q['m_Z'], mz))


def check(case, rec):
    rec.trace()
    globals()[case[0]](case, rec)


def bos(case, rec):
    _, basis, size, k = case
    for s in itertools.product((-1, 0, 1), repeat=len(BOS) - 1):
        s = (k,) + s
        C = zero()
        for n, x in zip(BOS, s):
            C[n] = complex(x * size * (1 + 0.1 * BOS.index(n)))
        before = {n: np.array(x) for n, x in C.items()}
        what = 'size %g signs %s' % (size, s)
        rec.state(basis, size, s)
        try:
            X, q = invert(C, basis, rec, 'bosonic')
        except ValueError as e:
            rec.expect(False, 'bos', '%s: %s' % (what, e))
            continue
        physics(X, q, rec, what)
        rec.expect(all(np.array_equal(C[n], before[n]) for n in C) and set(C) == set(before), 'input', 'smeftpar modified its input')


def yuk(case, rec):
    _, basis, size = case
    from wilson.run.smeft import smpar
    from ckmutil.ckm import ckm_tree
    K = ckm_tree(*[smpar.p[x] for x in ('Vus', 'Vub', 'Vcb', 'gamma')])
    v2 = 1 / (sqrt(2) * smpar.p['GF'])
    v = sqrt(v2)
    for n, i, j, z in itertools.product(('uphi', 'dphi', 'ephi'), range(3), range(3), (1, -1, 1j, -1j)):
        C = zero()
        C[n][i, j] = z * size
        C['phiWB'] = 0.3 * size
        rec.state(basis, size, n, i, j, z)
        X, q = invert(C, basis, rec, n)
        M = {a: v / sqrt(2) * (X['G' + a] - X[a + 'phi'] * v2 / 2) for a in 'ude'}
        D = {a: np.diag([smpar.p['m_' + f] for f in fs]) for a, fs in (('u', 'uct'), ('d', 'dsb'), ('e', ('e', 'mu', 'tau')))}
        want = {'u': K.conj().T @ D['u'], 'd': D['d'], 'e': D['e']} if basis == 'Warsaw' else {'u': D['u'], 'd': K @ D['d'], 'e': D['e']}
        for a in 'ude':
            rec.expect(np.allclose(M[a], want[a], rtol=1e-9, atol=1e-12), 'mass:%s' % a, lambda: '%s, %s_%d%d: mass matrix of %s is %s' % (basis, n, i + 1, j + 1, a, M[a]))


def higgs(case, rec):
    """Higgs potential: both directions are inverse, solvability is reported"""
    from wilson.run.smeft import smpar
    c = (0.0, 1e-17, -1e-17, 1e-9, -1e-9, 2e-7, -3e-6)[case[1]]
    for m2, lam, kin in itertools.product((-8000.0, -1.0, 0.0, 1.0, 500.0, 8e3, 8450.0, 2e4, 1e6), (-0.3, -1e-3, 0.0, 1e-3, 0.05, 0.13, 0.28, 1.0, 4.0),
                                          (0.0, 1e-8, -1e-8, 1e-7, -1e-7, 1e-6, -1e-6, 1e-5, -1e-5)):
        C = {'phi': complex(c), 'phiBox': complex(0.7 * kin), 'phiD': complex(-1.2 * kin)}
        rec.state(c, m2, lam, kin)
        rec.step()
        # smallest positive stationary point of V, with positive curvature: 3 c x^2/4 - lam x/2 + m2 = 0 for x = v^2
        roots = [2 * m2 / lam] if abs(c) < 1e-16 and lam else [] if abs(c) < 1e-16 else [r.real for r in np.roots([0.75 * c, -lam / 2, m2]) if abs(r.imag) < 1e-9 * abs(r)]
        near = abs(c) >= 1e-16 and abs(lam ** 2 - 12 * c * m2) < 1e-7 * lam ** 2
        roots = [r for r in roots if 1 - 2 * kin * r]
        sing = any(abs(1 - 2 * kin * r) < 1e-6 for r in [2 * m2 / lam if lam else 1e9] + roots)
        good = [r for r in roots if r > 0 and r / (1 - 2 * kin * r) * (lam - 3 * c * r) > 0]
        near = near or sing or not lam or not m2 or 0 < abs(c) < 1e-16 and abs(6 * c * m2) > 1e-8 * lam ** 2
        try:
            d = smpar.m2Lambda_to_vMh2(m2, lam, C)
        except (ValueError, ZeroDivisionError):
            d = None
        if near:
            continue
        if d is None:
            # the minimum of the potential, x = (lam - sqrt(lam^2 - 12 c m2)) / (3 c)
            ok = [r for r in good if lam - 3 * c * r > 0]
            rec.expect(not ok, 'unsolved', lambda: 'm2=%s Lambda=%s phi=%s kin=%s: no solution found, but v^2=%s' % (m2, lam, c, kin, ok))
            continue
        v, mh2 = d['v'], d['Mh2']
        rec.expect(any(abs(v * v - r) <= 1e-6 * r for r in good), 'wrong', lambda: 'm2=%s Lambda=%s phi=%s kin=%s: v=%s Mh2=%s is no solution (%s)' % (m2, lam, c, kin, v, mh2, good))
        want = v * v / (1 - 2 * kin * v * v) * (lam - 3 * c * v * v)
        rec.expect(abs(mh2 - want) <= 1e-8 * want, 'mh2', lambda: 'm2=%s Lambda=%s phi=%s kin=%s: Mh2=%s expected %s' % (m2, lam, c, kin, mh2, want))
        b = smpar.vMh2_to_m2Lambda(v, mh2, C)
        rec.expect(abs(b['m2'] - m2) <= 1e-6 * abs(m2) and abs(b['Lambda'] - lam) <= 1e-6 * max(abs(lam), 1e-2), 'back', lambda: 'm2=%s Lambda=%s phi=%s kin=%s -> %s -> %s' % (m2, lam, c, kin, d, b))


def gp(case, rec):
    from wilson.run.smeft import smpar
    for e, g, cwb, cb in itertools.product((0.1, 0.28, 0.31, 0.5, 0.62), (0.55, 0.65, 0.8), (0.0, 1e-12, 1e-9, -1e-9, 1e-7, -1e-7, 1e-6, -1e-6, 5e-6, -5e-6, 1e-4, -1e-4, 1e-3), (0.0, 1e-9, -1e-7)):
        v = 246.0
        C = {'phiWB': complex(cwb), 'phiB': complex(cb)}
        rec.state(e, g, cwb, cb)
        rec.step()

        def f(x):
            n = g * g + x * x
            return g * x / sqrt(n) * (1 - cwb * v * v * g * x / n) - e
        if cwb == 0 and e >= g:
            continue
        xs = np.linspace(0, 3, 601)
        ys = [f(x) for x in xs]
        solvable = any(a * b <= 0 for a, b in zip(ys, ys[1:]))
        bracket = ys[0] * ys[-1] < 0
        try:
            x = smpar.get_gpbar(e, g, v, C)
        except ValueError:
            rec.expect(not bracket, 'gp:unsolved', lambda: 'e=%s g=%s phiWB=%s: a solution exists' % (e, g, cwb))
            continue
        except Exception as ex:
            rec.expect(False, 'gp:error', '%s raised for e=%s g=%s phiWB=%s: %s' % (type(ex).__name__, e, g, cwb, ex))
            continue
        x = x / (1 - cb * v * v)
        rec.expect(abs(f(x)) <= 1e-9, 'gp:wrong', lambda: 'e=%s g=%s phiWB=%s: gp=%s leaves %s (solvable: %s)' % (e, g, cwb, x, f(x), solvable))


def errors(case, rec):
    from wilson.run.smeft import smpar
    C = zero()
    for n, f in (('basis', lambda: smpar.smeftpar(91.1876, C, 'Warsaw mass')), ('v', lambda: smpar.vMh2_to_m2Lambda(-1.0, 1e4, C)), ('mh', lambda: smpar.vMh2_to_m2Lambda(246.0, -1e4, C)),
                 ('m2', lambda: smpar.m2Lambda_to_vMh2(-1.0, 0.3, C)), ('phi', lambda: smpar.m2Lambda_to_vMh2(8e3, 0.3, dict(C, phi=1e-5 + 0j)))):
        rec.state(n)
        rec.step()
        try:
            f()
        except ValueError:
            continue
        rec.expect(False, 'error:%s' % n, 'invalid request accepted: %s' % n)
