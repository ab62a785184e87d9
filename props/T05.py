"""T05 Translation is linear, complete in its inputs and free of side effects."""
import copy
import math
from fractions import Fraction
import numpy as np
from lib import trans

BOUNDS = {'quick': 'every translator x pairs of dense and sector-supported inputs (superposition, real scaling over 6 decades, zero, sign), all defaults/partial/full parameter dictionaries, '
                   'call forms and repetitions; each translation before and after one with another parameter, scale or input in its own process; values of every input type',
          'thorough': 'the same with every sector-supported input of every translator'}
ASSUMPTIONS = ['translators are real-linear; the neutrino mass coefficients in the mass basis are singular values and excluded from superposition']


def cases(tier):
    out = []
    for t in trans.translators():
        for kind in ('linear', 'zero', 'params', 'pure', 'types', 'memory'):
            out.append([kind, list(t)])
        if tier == 'thorough':
            S = sorted({s for k, r, s in trans.keys(t[0], t[1])})
            out += [['sector', list(t), S[a:b]] for a, b in trans.chunks(len(S), 12)]
        else:
            out.append(['sector', list(t), None])
    return out


ISOLATE = True


def tr(t, x, p=None, scale=None, **k):
    return trans.wc(t[0], t[1], x, scale).translate(t[2], parameters=p, **k).dict


def _forked(f):
    import os
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            data = pickle.dumps(f())
            with os.fdopen(w, 'wb') as g:
                g.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as g:
        data = g.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


def check(case, rec):
    kind, t = case[0], tuple(case[1])
    name = kind + ':' + '|'.join(t)
    skip = 'llphiphi' if t[2] == 'Warsaw mass' else '!'

    def D(ph=0.0, amp=1.0):
        return {k: z for k, z in trans.dense(t[0], t[1], ph, amp).items() if not k.startswith(skip)}

    def same(a, b, key, msg, rtol=1e-9, floor=0.0):
        bad = trans.cmp(a, b, rtol=rtol, noise=1e-12, floor=floor)
        rec.state(name, key)
        rec.step()
        rec.expect(not bad, name + ':' + key, lambda: '%s -> %s (%s): %s: %s' % (t[1], t[2], t[0], msg, trans.show(bad)))

    P = trans.PAR
    if kind == 'linear':
        x, y = D(0.0), D(1.1, 0.7)
        X, Y = tr(t, x, P), tr(t, y, P)
        m = max(abs(v) for v in X.values())
        for a, b in ((1, 1), (1, -1), (2.5, 0.3), (-1e-6, 1e3), (1e-12, 0), (1e-24, 0), (1e9, 0), (0, -1)):
            z = {k: a * x[k] + b * y[k] for k in x}
            Z = {k: a * X.get(k, 0) + b * Y.get(k, 0) for k in set(X) | set(Y)}
            same(tr(t, z, P), Z, '%g,%g' % (a, b), 'superposition %g x + %g y' % (a, b), rtol=1e-7, floor=m * max(abs(a), abs(b)))
        # order of the coefficients in the file is irrelevant
        same(tr(t, dict(reversed(list(x.items()))), P), X, 'order', 'reversed input', floor=m)
    elif kind == 'zero':
        for p in (None, P):
            rec.expect(tr(t, {}, p) == {}, name, lambda: 'no coefficients give %r' % tr(t, {}, p))
            zero = {k: 0 for k, r, s in trans.keys(t[0], t[1])}
            rec.expect(tr(t, zero, p) == {}, name, 'zero coefficients give non-zero ones')
            rec.state(name, p is None)
            rec.step(2)
    elif kind == 'params':
        from wilson import parameters
        x = D()
        full = dict(parameters.p)
        same(tr(t, x, None), tr(t, x, {}), 'none', 'parameters=None against {}')
        same(tr(t, x, None), tr(t, x, full), 'full', 'parameters=None against the default dictionary')
        for q in sorted(P):
            same(tr(t, x, {q: P[q]}), tr(t, x, dict(full, **{q: P[q]})), q, '{%s} against the completed dictionary' % q)
        same(tr(t, x, dict(P, unused=3.0)), tr(t, x, P), 'unused', 'an unused parameter')
        # the numerical type of a parameter is irrelevant
        for q in sorted(P):
            big = {'m_W': 80., 'm_Z': 91., 'm_h': 125., 'm_t': 173., 'm_b': 4., 'm_c': 1., 'm_tau': 2., 'm_u': 1., 'm_d': 1., 'm_s': 1., 'm_e': 1., 'm_mu': 1., 'delta': 1., 'gamma': 1.}.get(q)
            v = P[q]
            alts = [(np.float64(v), v), (np.array(v), v), (Fraction(v), v)]
            if big is not None:
                alts += [(int(big), big), (np.int64(big), big)]
            for a, b in alts:
                try:
                    got = tr(t, x, dict(P, **{q: a}))
                except TypeError:
                    if type(a) is not int and type(a) is not np.float64:
                        continue        # an error is fine, a silently different answer is not
                    raise
                same(got, tr(t, x, dict(P, **{q: b})), 'type:%s:%s' % (q, type(a).__name__), 'parameter %s = %r (%s) against the float' % (q, a, type(a).__name__), rtol=1e-8)
    elif kind == 'memory':
        # what a translation answers does not depend on the parameters, scale or values of translations before it: both orders, each in its own process
        x, y = D(), D(0.7, 0.3)
        base = _forked(lambda: tr(t, x, P))
        alt = dict(P, **{q: (v * 1.05 if q not in ('delta', 'gamma') else v + 0.1) for q, v in P.items()})
        s0 = trans.SCALE[t[0]]
        for q in sorted(P) + ['all', 'scale', 'values']:
            p2 = {'all': alt, 'scale': P, 'values': P}.get(q) or dict(P, **{q: alt[q]})
            x2, s2 = (y if q == 'values' else x), (s0 * 0.95 if q == 'scale' else s0)
            other = lambda: tr(t, x2, p2, s2)
            a, b = _forked(lambda: (tr(t, x, P), other())), _forked(lambda: (other(), tr(t, x, P)))
            same(a[1], b[0], 'memory:' + q, 'with another %s, after and before the translation with the first' % q, rtol=1e-12)
            same(b[1], base, 'memory:first:' + q, 'after a translation with another %s' % q, rtol=1e-12)
    elif kind == 'pure':
        from wilson import parameters
        x, p = D(), dict(P)
        before = (copy.deepcopy(x), dict(p), dict(parameters.p))
        w = trans.wc(t[0], t[1], x)
        w0 = (w.eft, w.basis, w.scale, copy.deepcopy(w.values), dict(w.dict))
        a = w.translate(t[2], parameters=p)
        ad = dict(a.dict)
        other = tr(t, D(2.0), dict(P, m_b=4.5, Vcb=0.04), trans.SCALE[t[0]] * 1.3)
        b = w.translate(t[2], parameters=p)
        rec.expect(dict(a.dict) == ad, name, 'an earlier result changed')
        rec.expect(dict(b.dict) == ad, name, 'the same call gives a different result after another call')
        rec.expect((w.eft, w.basis, w.scale, w.values, dict(w.dict)) == w0, name, 'the translated object changed')
        rec.expect((x, p, dict(parameters.p)) == before, name, 'an argument or the default parameters changed')
        rec.expect((a.eft, a.basis, a.scale) == (t[0], t[2], w.scale), name, lambda: 'labels %r' % ((a.eft, a.basis, a.scale),))
        names = {k: r for k, r, s in trans.keys(t[0], t[2])}
        rec.expect(set(a.dict) <= set(names), name, lambda: 'unknown coefficients %r' % sorted(set(a.dict) - set(names))[:9])
        rec.expect(all(np.isfinite(complex(v)) for v in a.dict.values()), name, 'not finite')
        rec.expect(all(v != 0 for v in a.dict.values()), name, 'explicit zeros')
        a.validate()
        bad = [(k, a.dict[k], 'real') for k in a.dict if names[k] and abs(complex(a.dict[k]).imag) > 1e-10 * abs(a.dict[k])]
        rec.expect(not bad or t[2] in ('FlavorKit',), name, lambda: 'complex values of real coefficients: ' + trans.show(bad))
        rec.expect(w.translate(t[1]) is w or dict(w.translate(t[1]).dict) == dict(w.dict), name, 'translation to the same basis')
        rec.state(name)
        rec.step(4)
    elif kind == 'types':
        x = D()
        X = tr(t, x, P)
        m = max(abs(v) for v in X.values())
        same(tr(t, {k: complex(v) for k, v in x.items()}, P), X, 'complex', 'python complex values', floor=m)
        same(tr(t, {k: np.complex128(v) for k, v in x.items()}, P), X, 'numpy', 'numpy values', floor=m)
        ints = {k: (i % 7) - 3 for i, k in enumerate(x)}
        same(tr(t, ints, P), tr(t, {k: float(v) for k, v in ints.items()}, P), 'int', 'integer values', floor=3.0 * 0)
        from wilson import wcxf
        vals = {k: ({'Re': complex(v).real, 'Im': complex(v).imag}) for k, v in x.items()}
        same(wcxf.WC(t[0], t[1], trans.SCALE[t[0]], vals).translate(t[2], parameters=P).dict, X, 'reim', '{Re, Im} values', floor=m)
        same(trans.wc(t[0], t[1], x, str(trans.SCALE[t[0]]) if False else float(trans.SCALE[t[0]])).translate(t[2], P).dict, X, 'positional', 'parameters given by position', floor=m)
    else:
        S = case[2]
        src = {}
        for k, r, s in trans.keys(t[0], t[1]):
            src.setdefault(s, []).append(k)
        x = D()
        tot, full = {}, tr(t, x, P)
        if S is None:
            groups = [[s for i, s in enumerate(sorted(src)) if i % 4 == j] for j in range(4)]
        else:
            groups = [[s] for s in S]
            rest = {k: x[k] for s in src if s not in S for k in src[s] if k in x}
            tot = tr(t, rest, P)
        for g in groups:
            for k, v in tr(t, {k: x[k] for s in g for k in src[s] if k in x}, P).items():
                tot[k] = tot.get(k, 0) + v
        same(tot, full, 'sum' + (S[0] if S else ''), 'sum of the parts against the whole', rtol=1e-7)
    rec.trace()
    rec.sample(name)
