"""S01 SMEFT beta functions."""
import json
import os
import numpy as np
from lib import symm, smeft
from props.U02 import F, unitary

FIX = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'fixtures', 'beta.npz')
BOUNDS = {'quick': 'all 1635 coefficients x all real directions (2 per complex coefficient): beta function against a frozen fingerprint of all outputs; the Mathematica point shipped with the package; '
                   'structural identities (linearity, dimensional scaling, U(3)^5 covariance, CP, selection rules, reality) on dense points; evaluations at close points (1e-3 to 1e-8) and of small coefficients in sequence',
          'thorough': 'same with a second SM point and more rotations'}
ASSUMPTIONS = ['the frozen table was produced by the pinned tree, which agrees with the independent Mathematica point shipped with it (re-checked here)']
NCH = 64
_T = {}


def dirs():
    out = []
    for w, real, s in smeft.warsaw():
        out.append((w, 1.0))
        if not real:
            out.append((w, 1j))
    return sorted(out, key=lambda t: (t[0], abs(t[1].imag) if isinstance(t[1], complex) else 0))


def cases(tier):
    n = len(dirs())
    step = -(-n // NCH)
    out = [['ref', v, i, min(n, i + step)] for v in (range(1) if tier == 'quick' else range(2)) for i in range(0, n, step)]
    out += [['golden'], ['linear'], ['scale'], ['flags'], ['cp'], ['real'], ['order'], ['near']]
    out += [['cov', i] for i in range(8 if tier == 'quick' else 40)]
    out += [['sel', s] for s in ('dL=2', 'dB=dL=1', 'dB=dL=0')]
    return out


def weights():
    if 'w' not in _T:
        r = {}
        for n in smeft.ALL:
            nd = 0 if n in smeft.SM0 else 2 if n in smeft.SM2 else smeft.ND[n]
            k = np.arange(max(1, 3 ** nd)).reshape((3,) * nd)
            h = sum((i + 1) * ord(c) for i, c in enumerate(n))
            # quadratic phases: no accidental cancellations between related entries
            r[n] = np.cos(0.7548776662 * k * k + 0.1 * h) + 1j * np.sin(0.5698402910 * k * k + 1.3 * k + 0.2 * h)
        _T['w'] = r
    return _T['w']


def fp(B):
    W = weights()
    return np.array([np.sum(W[n] * B[n]) for n in smeft.ALL])


def point(variant, extra=None):
    C = smeft.zero()
    C.update(smeft.smp(variant))
    if extra:
        C.update(extra)
    return C


def run(C, **k):
    from wilson.run.smeft import beta
    return beta.beta(C, **k)


def setup(tier):
    if os.path.exists(FIX):
        d = np.load(FIX, allow_pickle=False)
        _T['dirs'] = [tuple(x.split('|')) for x in d['dirs']]
        _T['ref'] = {0: d['ref0'], 1: d['ref1']}
        _T['sm'] = {0: d['sm0'], 1: d['sm1']}


def generate():
    import multiprocessing as mp
    D = dirs()
    out = {}
    for v in (0, 1):
        sm = fp(run(point(v)))
        out['sm%d' % v] = sm
        with mp.Pool(8) as p:
            out['ref%d' % v] = np.array(p.starmap(_one, [(v, w, z) for w, z in D], chunksize=20))
    np.savez_compressed(FIX, dirs=np.array(['%s|%s' % (w, 'i' if z == 1j else '1') for w, z in D]), **out)


def _one(v, w, z):
    n, a = smeft.term(w, z, None)
    return fp(run(point(v, {n: a})))


def reldiff(a, b):
    """largest difference over keys relative to the size of the key"""
    worst = ('', 0.0)
    for n in smeft.ALL:
        x, y = np.asarray(a[n]), np.asarray(b[n])
        if x.shape != y.shape:
            return (n, np.inf)
        m = max(np.abs(y).max(), 1e-3)
        d = np.abs(x - y).max() / m
        if not d <= worst[1]:
            worst = (n, d)
    return worst


def rotate(C, U):
    out = {}
    spec = dict(F, Gu=[('q', True), ('u', False)], Gd=[('q', True), ('d', False)], Ge=[('l', True), ('e', False)])
    for n, a in C.items():
        if n in spec:
            a = np.asarray(a)
            for ax, (f, conj) in enumerate(spec[n]):
                a = np.moveaxis(np.tensordot(a, U[f].conj() if conj else U[f], axes=(ax, 0)), -1, ax)
        out[n] = a
    return out


def copyd(C):
    return {k: np.array(v) if np.ndim(v) else v for k, v in C.items()}


def close(rec, a, b, key, msg, tol=1e-9):
    n, d = reldiff(a, b)
    rec.step()
    rec.state(key)
    return rec.expect(d <= tol, key + ':' + n, lambda: '%s: %s differs by %.3g' % (msg, n, d))


def check(case, rec):
    kind = case[0]
    rec.trace()
    if kind == 'ref':
        v, lo, hi = case[1:]
        D = dirs()
        sm = fp(run(point(v)))
        rec.expect(np.allclose(sm, _T['sm'][v], rtol=1e-9, atol=1e-9), 'sm:%d' % v, lambda: 'SM beta functions differ in %r' % [
            n for n, x, y in zip(smeft.ALL, sm, _T['sm'][v]) if abs(x - y) > 1e-9 * (1 + abs(y))])
        rec.expect(len(D) == len(_T['dirs']), 'ndirs', 'number of coefficients changed')
        for i in range(lo, hi):
            w, z = D[i]
            key = 'beta:%d:%s:%s' % (v, w, 'i' if z == 1j else '1')
            got = _one(v, w, z)
            want = _T['ref'][v][i]
            bad = [(n, complex(x), complex(y)) for n, x, y in zip(smeft.ALL, got, want) if not abs(x - y) <= 1e-9 * (1 + abs(y))]
            rec.expect(not bad, key, lambda: 'response to %s: fingerprint changed for %r' % (key, bad[:6]))
            rec.state(key)
            rec.step()
        rec.sample('%s .. %s' % (D[lo][0], D[hi - 1][0]))
    elif kind == 'golden':
        golden(rec)
    elif kind == 'linear':
        sm = run(point(0))
        d1, d2 = smeft.dense(), smeft.dense(phase=1.9)
        b1, b2 = run(point(0, d1)), run(point(0, d2))
        b12 = run(point(0, {n: 2 * d1[n] - 0.5 * d2[n] for n in d1}))
        close(rec, b12, {n: sm[n] + 2 * (b1[n] - sm[n]) - 0.5 * (b2[n] - sm[n]) for n in b1}, 'linear', 'not linear in the coefficients')
        for n in smeft.NAMES:        # one operator at a time adds up
            pass
        tot = {k: np.array(x, complex) for k, x in sm.items()}
        for n in smeft.NAMES:
            b = run(point(0, {n: d1[n]}))
            for k in tot:
                tot[k] = tot[k] + (b[k] - sm[k])
            rec.step()
            rec.state('super', n)
        close(rec, tot, b1, 'superposition', 'contributions of the operators do not add up')
    elif kind == 'scale':
        C = point(0, smeft.dense())
        b = run(C)
        for h in (2.0, 1000.0):
            Ch = {n: (x * h**2 if n in smeft.NAMES else x) for n, x in C.items()}
            bh = run(Ch, HIGHSCALE=h)
            close(rec, bh, {n: (x * h**2 if n in smeft.NAMES else x) for n, x in b.items()}, 'scale:%r' % h, 'coefficients in units of HIGHSCALE do not rescale')
    elif kind == 'flags':
        from wilson.run.smeft import beta
        C = point(0, smeft.dense())
        keep = copyd(C)
        b = run(C)
        bs = run(C, newphys=False)
        for n in smeft.SM0 + smeft.SM2:
            rec.expect(np.allclose(b[n], bs[n], rtol=1e-12, atol=1e-14), 'newphys:' + n, 'newphys=False changes the beta function of %s' % n)
        for n in smeft.NAMES:
            rec.expect(np.shape(bs[n]) == np.shape(b[n]) and not np.any(np.asarray(bs[n])), 'newphys:' + n, 'newphys=False gives a non-zero beta function of %s' % n)
            rec.expect(np.shape(b[n]) == (3,) * smeft.ND[n], 'shape:' + n, 'shape %r' % (np.shape(b[n]),))
            rec.state('flags', n)
        rec.expect(all(np.array_equal(keep[n], C[n]) for n in C), 'mutate', 'the input was changed')
        from wilson.util import smeftutil
        arr = beta.beta_array(C)
        rec.expect(np.allclose(arr, smeftutil.C_dict2array(b), rtol=1e-12, atol=1e-14), 'array', 'beta_array is not the flattened beta')
        arr = beta.beta_array(C, 1, newphys=False)
        rec.expect(np.allclose(arr, smeftutil.C_dict2array(bs), rtol=1e-12, atol=1e-14), 'array0', 'beta_array is not the flattened beta')
        # repeated evaluation, interleaved with another point, gives the same answer
        keepb = copyd(b)
        run(point(1, smeft.dense(phase=2.2)))
        close(rec, run(C), keepb, 'repeat', 'second evaluation differs', tol=1e-13)
        rec.expect(all(np.array_equal(keepb[n], b[n]) for n in b), 'alias', 'a later evaluation changed an earlier result')
        for n in b:      # writing into a result must not change later results
            if np.ndim(b[n]):
                try:
                    b[n][...] = 0
                except ValueError:
                    pass
        close(rec, run(C), keepb, 'repeat2', 'evaluation after modifying an earlier result differs', tol=1e-13)
    elif kind == 'cp':
        C = point(0, smeft.dense())
        odd = {'Gtilde', 'Wtilde', 'phiGtilde', 'phiBtilde', 'phiWtilde', 'phiWtildeB'}

        def cp(D):
            return {n: (-np.conj(x) if n in odd else np.conj(x)) for n, x in D.items()}
        close(rec, run(cp(C)), cp(run(C)), 'cp', 'not CP covariant')
    elif kind == 'real':
        b = run(point(0, smeft.dense()))
        for n in smeft.SM0 + symm.SMEFT[0]:
            rec.expect(abs(np.imag(b[n])) <= 1e-9 * (1 + abs(b[n])), 'real:' + n, 'beta function of the real %s is %r' % (n, b[n]))
            rec.state('real', n)
        for n in smeft.NAMES:
            c = symm.CLASS['SMEFT'][n]
            if c in (2, 4, 5, 6):
                h = np.conj(np.transpose(b[n], symm.GENS[c][1][0]))
                rec.expect(np.abs(h - b[n]).max() <= 1e-9 * np.abs(b[n]).max(), 'herm:' + n, 'beta function of %s is not hermitian' % n)
            if c not in (0, 6, 8):      # for 6 and 8 the implementation keeps a different representative
                p = symm.project(c, b[n])
                if c == 9:
                    p = (b[n] + b[n].T) / 2
                rec.expect(np.abs(p - b[n]).max() <= 1e-9 * np.abs(b[n]).max(), 'symm:' + n, lambda: 'beta function of %s lacks the symmetry of the operator' % n)
            rec.state('herm', n)
            rec.step()
    elif kind == 'order':
        C = point(0, smeft.dense())
        b = run(C)
        close(rec, run(dict(reversed(list(C.items())))), b, 'order', 'depends on the order of the dictionary', tol=1e-12)
        Cr = dict(C)
        for n in smeft.SM0:
            Cr[n] = C[n].real
        close(rec, run(Cr), b, 'float', 'depends on the couplings being float or complex')
    elif kind == 'near':
        # evaluations at close points, one after the other
        C = point(0, smeft.dense())
        D = point(0, smeft.dense(phase=0.9))
        for grp, names in (('sm0', smeft.SM0), ('sm2', smeft.SM2), ('wc', smeft.NAMES)):
            def at(e):
                x = dict(C)
                for n in names:
                    d = C[n] * 0.3 if grp == 'sm0' else (D[n] if grp == 'wc' else np.asarray(C[n])[::-1] * (1 + 0.2j))
                    x[n] = C[n] + e * d
                return run(x)

            def quot(e):
                # the central point is evaluated in between
                p, _, m = at(e), run(C), at(-e)
                return {n: (np.asarray(p[n]) - np.asarray(m[n])) / (2 * e) for n in p}
            ref = quot(1e-2)
            for e, tol in ((1e-3, 2e-3), (1e-4, 2e-3), (1e-6, 2e-3), (1e-8, 2e-3)):
                q = quot(e)
                for n in smeft.ALL:
                    m = max(np.abs(ref[n]).max(), 1e-1)
                    b = np.abs(np.asarray(q[n]) - ref[n]).max() / m
                    rec.expect(b <= tol, 'near:%s:%s' % (grp, n), lambda: 'beta function of %s at points %g apart: difference quotient off by %.3g' % (n, e, b))
                    rec.state('near', grp, e, n)
                rec.step(3)
        # large coefficients, then small ones
        sm = run(point(0))
        b1 = run(point(0, smeft.dense()))
        for f in (1e-2, 1e-4, 1e-6, 1e-8):
            bf = run(point(0, {n: np.asarray(x) * f if np.ndim(x) else x * f for n, x in smeft.dense().items()}))
            for n in smeft.NAMES:
                m = max(np.abs(b1[n]).max(), 1e-3)
                rec.expect(np.abs(np.asarray(bf[n]) / f - b1[n]).max() <= 1e-7 * m, 'small:' + n, 'beta function of %s does not scale down to coefficients of %g' % (n, f))
                rec.state('small', f, n)
            rec.step()
    elif kind == 'cov':
        i = case[1]
        if i < 5:
            U = {f: (unitary(3 + i) if f == smeft.FIELDS[i] else np.eye(3)) for f in smeft.FIELDS}
        else:
            U = {f: unitary(1.7 * i + j) for j, f in enumerate(smeft.FIELDS)}
        d = smeft.dense(phase=0.3 * i)
        sm, smr = run(point(0)), run(rotate(point(0), U))
        close(rec, smr, rotate(sm, U), 'cov:SM', 'SM beta functions not covariant under flavour rotations', tol=1e-8)
        for src in smeft.NAMES:     # one source operator at a time
            C = point(0, {src: d[src]})
            b, br = run(C), run(rotate(C, U))
            want = rotate({n: b[n] - sm[n] for n in b}, U)
            for n in smeft.ALL:
                got = br[n] - smr[n]
                m = max(np.abs(want[n]).max(), 1e-3)
                rec.expect(np.abs(got - want[n]).max() <= 1e-8 * m, 'cov:%s->%s' % (src, n),
                           lambda: 'contribution of %s to the beta function of %s is not flavour covariant (rotation %d): off by %.3g of %.3g' % (
                               src, n, i, np.abs(got - want[n]).max(), m))
                rec.state('cov', src, n)
            rec.step(2)
    elif kind == 'sel':
        # a sector only drives itself (and, for dB=dL=0, the SM parameters)
        sec = case[1]
        names = {}
        for w, r, s in smeft.warsaw():
            names.setdefault(s, set()).add(w.split('_')[0])
        d = smeft.dense()
        sm = run(point(0))
        b = run(point(0, {n: d[n] for n in names[sec]}))
        for n in smeft.ALL:
            if n in names[sec] or (sec == 'dB=dL=0' and n in smeft.SM0 + smeft.SM2):
                continue
            rec.expect(np.allclose(b[n], sm[n], rtol=1e-12, atol=1e-14), 'sel:%s:%s' % (sec, n), 'operators of %s drive %s' % (sec, n))
            rec.state('sel', sec, n)
            rec.step()


def golden(rec):
    """the Mathematica point shipped with the package (a data file, 6 digits)"""
    d = json.load(open(FIX.replace('beta.npz', 'beta_mathematica.json')))
    C = {}
    rpar = d['par']
    for i, n in enumerate(smeft.SM0):
        C[n] = rpar[i]
    for i, n in enumerate(smeft.SM2):
        C[n] = np.array(rpar[5 + 2 * i]) + 1j * np.array(rpar[6 + 2 * i])
    for n in smeft.NAMES:
        C[n] = np.array(d['wc'][n]) if smeft.ND[n] else d['wc'][n]
    B = run(C, HIGHSCALE=1000)
    for n in smeft.NAMES:
        r = np.array(d['re'][n])
        got = np.asarray(B[n])
        rec.expect(np.abs(got.real - r).max() < 2e-5 * np.abs(r).max(), 'golden:' + n, lambda: 'real part of beta(%s) is %r, Mathematica %r' % (n, got.real, r))
        if smeft.ND[n]:
            im = np.array(d['im'][n])
            rec.expect(np.abs(got.imag - im).max() < 2e-5 * max(np.abs(im).max(), np.abs(r).max()), 'golden:im:' + n, lambda: 'imaginary part of beta(%s)' % n)
        rec.state('golden', n)
        rec.step()
