"""R03 WET evolution matrix: frozen response to every coefficient."""
import os
import numpy as np
from lib import trans
from props.R01 import PAR, dipole, run

FIX = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'fixtures', 'wetrun.npz')
BOUNDS = {'quick': '3 theories x every coefficient as source x 3 settings (scales, parameters, orders); all targets through two fingerprints (four-fermion, dipoles)',
          'thorough': 'the same at 9 settings including upward running'}
ASSUMPTIONS = ['the reference was produced by the pinned tree with the recorded fixes (M04 confirms what it constrains independently); group law, analytic solutions and symmetries (R01, R02) do not use it']
SET = {'WET': [(120.0, 20.0, 1, {}), (91.1876, 4.8, 0, {}), (91.1876, 4.2, 1, {'qed_order': 0}), (4.2, 91.1876, 0, {}), (160.0, 91.1876, 1, {}), (5.0, 3.0, 1, {}),
               (40.0, 9.0, 0, {'qcd_order': 0}), (40.0, 9.0, 1, {'qcd_order': 0, 'qed_order': 0}), (80.0, 79.0, 0, {})],
       'WET-4': [(4.2, 2.1, 1, {}), (4.8, 1.3, 0, {}), (3.9, 2.0, 1, {'qed_order': 0}), (1.5, 3.9, 0, {}), (2.0, 1.4, 1, {}), (5.0, 3.0, 1, {}),
                 (4.0, 2.0, 0, {'qcd_order': 0}), (4.0, 2.0, 1, {'qcd_order': 0, 'qed_order': 0}), (2.0, 1.99, 0, {})],
       'WET-3': [(2.5, 1.6, 1, {}), (1.3, 2.0, 0, {}), (2.0, 1.4, 1, {'qed_order': 0}), (1.4, 2.4, 0, {}), (1.6, 1.4, 1, {}), (2.2, 1.3, 1, {}),
                 (2.5, 1.5, 0, {'qcd_order': 0}), (2.5, 1.5, 1, {'qcd_order': 0, 'qed_order': 0}), (2.0, 1.99, 0, {})]}
STEP = 150
_F = {}


def fix():
    if not _F:
        with np.load(FIX) as z:
            _F.update({k: z[k] for k in z.files})
    return _F


def cases(tier):
    out = []
    for eft in SET:
        n = len(trans.keys(eft, 'JMS'))
        for i in range(3 if tier == 'quick' else 9):
            out += [[eft, i, a, b] for a, b in trans.chunks(n, STEP)]
    return out


def weights(eft):
    return {k: np.exp(1j * (0.37 * i * i + 0.9 * len(k) + i)) * (1 + 0.5 * np.sin(1.7 * i)) for i, (k, r, s) in enumerate(trans.keys(eft, 'JMS'))}


def response(eft, i, k, real, W):
    a, b, v, kw = SET[eft][i]
    o = run(eft, {k: 1.0 if real else 1 + 0.5j}, a, b, PAR[v], **kw)
    four = [(W[j], z) for j, z in o.items() if not dipole(j)]
    dip = [(W[j], z) for j, z in o.items() if dipole(j)]
    f = [sum(w * z for w, z in t) for t in (four, dip)]
    n = [sum(abs(z) for w, z in t) for t in (four, dip)]
    return f, n, o


def check(case, rec):
    eft, i, lo, hi = case
    W, F = weights(eft), fix()
    for j, (k, real, s) in enumerate(trans.keys(eft, 'JMS')[lo:hi], lo):
        f, n, o = response(eft, i, k, real, W)
        rec.state(eft, i, k)
        rec.step(len(o))
        rec.trace()
        for t, nm in enumerate(('four-fermion', 'dipole')):
            want, norm = F['%s|%d|f' % (eft, i)][j, t], F['%s|%d|n' % (eft, i)][j, t]
            rec.expect(abs(f[t] - want) <= 2e-8 * max(norm, n[t]) + 1e-12, 'run:%s:%s' % (eft, k),
                       lambda: '%s = 1 in %s run with %s: fingerprint of the %s coefficients is %s, expected %s; %s' % (k, eft, SET[eft][i], nm, f[t], want, dict(list(o.items())[:6])))


def generate():
    from concurrent.futures import ProcessPoolExecutor
    import multiprocessing as mp
    out = {}
    with ProcessPoolExecutor(8, mp_context=mp.get_context('fork')) as ex:
        jobs = {(e, i): ex.submit(_gen, e, i) for e in SET for i in range(9)}
        for (e, i), j in jobs.items():
            out['%s|%d|f' % (e, i)], out['%s|%d|n' % (e, i)] = j.result()
    np.savez_compressed(FIX, **out)


def _gen(eft, i):
    W = weights(eft)
    r = [response(eft, i, k, real, W) for k, real, s in trans.keys(eft, 'JMS')]
    return np.array([x[0] for x in r]), np.array([x[1] for x in r])
