"""T02 Different translation paths give the same coefficients."""
import itertools
import ckmutil.ckm
import numpy as np
from lib import qcdref, trans
from wilson import parameters

BOUNDS = {'quick': 'every triple A -> B -> C with a direct translator A -> C x every unit direction with an image in B (SMEFT: blocks of 16 directions); the EOS basis against the flavio basis for every JMS direction; dense inputs',
          'thorough': 'the same at two parameter points, and all translation paths of up to three steps on dense inputs'}
ASSUMPTIONS = ['information that the intermediate basis cannot hold (T01) is excluded: frozen list plus the lepton tensors absent from flavio']
STEP = 100


def all3():
    T = trans.translators()
    S = set(T)
    return [(e, a, b, c) for (e, a, b) in T for (e2, b2, c) in T if e == e2 and b == b2 and a != c and (e, a, c) in S]


def cases(tier):
    out = []
    pts = (1,) if tier == 'quick' else (0, 1)
    for q in all3():
        n = len(trans.directions(q[0], q[1]))
        for v in pts:
            if tier == 'quick' and q[0] == 'SMEFT':
                out += [['block', list(q), v, a, b] for a, b in trans.chunks(n, 16 * 20)]
            else:
                out += [['tri', list(q), v, a, b] for a, b in trans.chunks(n, STEP)]
        out.append(['dense', list(q)])
    n = len(trans.directions('WET', 'JMS'))
    for v in pts:
        out += [['eos', v, a, b] for a, b in trans.chunks(n, 200)]
    if tier == 'thorough':
        for e in ('SMEFT', 'WET', 'WET-4', 'WET-3'):
            out += [['paths', e, a] for a in sorted({t[1] for t in trans.translators() if t[0] == e})]
    return out


def check(case, rec):
    if case[0] == 'eos':
        return eos(case, rec)
    if case[0] == 'paths':
        return paths(case, rec)
    from props import T01
    q = tuple(case[1])
    e, a, b, c = q
    name = '%s:%s>%s>%s' % q
    have = T01.image((e, a, b))

    def via(k):
        return T01.comes_back((e, a, b), k, have)
    D = trans.directions(e, a)
    if case[0] == 'tri':
        v, lo, hi = case[2:]
        items = [('%s*%s' % d, {d[0]: 1.5 * d[1]}) for d in D[lo:hi] if via(d[0])]
    elif case[0] == 'block':
        v, lo, hi = case[2:]
        items = []
        for i in range(lo, hi, 16):
            x = {}
            for j in range(i, min(i + 16, len(D))):
                if via(D[j][0]) and not (c == 'Warsaw mass' and D[j][0].startswith('llphiphi')):
                    x[D[j][0]] = x.get(D[j][0], 0) + D[j][1] * (1 + 0.37 * (j - i))
            items.append(('block %d' % i, x))
    else:
        v = 1
        items = [('dense', {k: z for k, z in trans.dense(e, a).items() if via(k) and not (c == 'Warsaw mass' and k.startswith('llphiphi'))})]
    for n, x in items:
        w = trans.wc(e, a, x)
        two = w.translate(b, parameters=trans.point(v)).translate(c, parameters=trans.point(v)).dict
        one = w.translate(c, parameters=trans.point(v)).dict
        bad = trans.cmp(two, one, rtol=1e-7, noise=1e-11, floor=1e-3 if e == 'SMEFT' else 0)
        rec.expect(not bad, name + ':' + n, lambda: '%s, %s: via %s %s, direct: %s' % (name, n, b, '(got, want)', trans.show(bad)))
        rec.state(q, v, n)
        rec.step(3)
    rec.trace()
    rec.sample(name)


def eos(case, rec):
    """EOS, formflavor and flavio use the same operators for these processes, up to known normalisations"""
    v, lo, hi = case[1:]
    D = trans.directions('WET', 'JMS')
    par = dict(parameters.p)
    par.update(trans.point(v) or {})
    mb = qcdref.m_b(par['m_b'], trans.SCALE['WET'], 5, par['alpha_s'])
    V = ckmutil.ckm.ckm_tree(par['Vus'], par['Vub'], par['Vcb'], par['gamma'])
    m = {'b': mb, 'c': qcdref.m_c(par['m_c'], trans.SCALE['WET'], 5, par['alpha_s'])}
    m.update({q: qcdref.m_s(par['m_' + q], trans.SCALE['WET'], 5, par['alpha_s']) for q in 'uds'})
    e = np.sqrt(4 * np.pi * par['alpha_e'])
    gs = np.sqrt(4 * np.pi * qcdref.alpha_s(trans.SCALE['WET'], 5, par['alpha_s']))
    for k, z in D[lo:hi]:
        w = trans.wc('WET', 'JMS', {k: 1.3 * z})
        E = trans.apply(w, 'EOS', v)
        X = trans.apply(w, 'formflavor', v)
        Fl = trans.apply(w, 'flavio', v)
        B = trans.apply(w, 'Bern', v)
        rec.state('eos', v, k, z)
        rec.step(4)
        for n, got, want in itertools.chain(relations(E, X, Fl, B, {k: 1.3 * z}, mb, e, gs, V), dipoles(Fl, {k: 1.3 * z}, m, par, e, gs, V)):
            rec.expect(abs(got - want) <= 1e-8 * max(abs(got), abs(want)) + 1e-14, 'eos:%s*%s:%s' % (k, z, n),
                       lambda: '%s*%s: %s is %r, expected %r' % (z, k, n, got, want))
    rec.trace()


def relations(E, X, Fl, B, J, mb, e, gs, V):
    def g(d, n):
        return complex(d.get(n, 0))
    for l in ('e', 'mu'):
        for n, f, r in (('c9', 'C9', 1), ("c9'", 'C9p', 1), ('c10', 'C10', 1), ("c10'", 'C10p', 1),
                        ('cS', 'CS', mb), ("cS'", 'CSp', mb), ('cP', 'CP', mb), ("cP'", 'CPp', mb)):
            yield ('EOS ' + n + l, g(E, 'b->s%s%s::Re{%s}' % (l, l, n)) + 1j * g(E, 'b->s%s%s::Im{%s}' % (l, l, n)), r * g(Fl, f + '_bs' + l + l))
    for n, f in (('c7', 'C7_bs'), ("c7'", 'C7p_bs')):
        yield ('EOS ' + n, g(E, 'b->s::Re{%s}' % n) + 1j * g(E, 'b->s::Im{%s}' % n), g(Fl, f))
    for n, f in (('c8', 'C8_bs'), ("c8'", 'C8p_bs')):
        yield ('EOS ' + n, g(E, 'b->s::' + n), g(Fl, f).real)       # a real parameter in EOS
    for u in 'uc':
        for l in ('e', 'mu', 'tau'):
            for n in ('VL', 'VR', 'SR', 'SL', 'T'):
                yield ('EOS %sb%s %s' % (u, l, n), g(E, '%sb%snu%s::c%s' % (u, l, l, n)), g(Fl, 'C%s_b%s%snu%s' % (n, u, l, l)))
    for q in ('bsbs', 'bdbd', 'sdsd'):
        for n in ('VLL', 'TLL', 'VLR', 'VRR', 'TRR', 'SLR'):
            yield ('formflavor C%s_%s' % (n, q), g(X, 'C%s_%s' % (n, q)), g(Fl, 'C%s_%s' % (n, q)))
    for n in ('VLL', 'TLL', 'VLR', 'VRR', 'TRR', 'SLR'):
        yield ('formflavor C%s_cucu' % n, g(X, 'C%s_cucu' % n), np.conj(g(Fl, 'C%s_ucuc' % n)))
    for q, (i, j) in (('mt', '23'), ('em', '12'), ('et', '13')):
        yield ('formflavor CAR_' + q, g(X, 'CAR_' + q), g(J, 'egamma_' + i + j) / e)
        yield ('formflavor CAL_' + q, g(X, 'CAL_' + q), np.conj(g(J, 'egamma_' + j + i)) / e)
    for q, i in (('bs', 2), ('bd', 1)):
        # operator (chirality of the quarks, chirality of the leptons), b -> s mu mu
        for n, o, h in (('VLL', 'VedLL_22%d%d', 0), ('VRR', 'VedRR_22%d%d', 0), ('VRL', 'VedLR_22%d%d', 0), ('VLR', 'VdeLR_%d%d22', 0),
                        ('SRR', 'SedRR_22%d%d', 0), ('SLL', 'SedRR_22%d%d', 1), ('SLR', 'SedRL_22%d%d', 0), ('SRL', 'SedRL_22%d%d', 1),
                        ('TRR', 'TedRR_22%d%d', 0), ('TLL', 'TedRR_22%d%d', 1)):
            x = np.conj(g(J, o % (3, i))) if h else g(J, o % (i, 3))
            yield ('formflavor C%s_%smm' % (n, q), g(X, 'C%s_%smm' % (n, q)), x)
    for q, o, i, j in (('sb', 'd', 2, 3), ('db', 'd', 1, 3), ('uu', 'u', 1, 1), ('dd', 'd', 1, 1)):
        for n, f, r in (('A', 'gamma', e), ('G', 'G', gs)):
            yield ('formflavor C%sR_%s' % (n, q), g(X, 'C%sR_%s' % (n, q)), g(J, '%s%s_%d%d' % (o, f, i, j)) / r)
            yield ('formflavor C%sL_%s' % (n, q), g(X, 'C%sL_%s' % (n, q)), np.conj(g(J, '%s%s_%d%d' % (o, f, j, i))) / r)
    for n, o in (('VLL', 'VnudLL'), ('VRL', 'VnudLR')):
        yield ('formflavor C%s_sdnn' % n, g(X, 'C%s_sdnn' % n), sum(g(J, '%s_%d%d12' % (o, i, i)) for i in (1, 2, 3)) / 3)
    # normalised to the CKM factors of the SM amplitude
    for i in ('1', '2', '3', '4', '5', '1p', '2p', '3p'):
        n = 'sbsb::c' + i.replace('p', "'")
        yield ('EOS ' + n, g(E, n), g(B, i + 'sbsb') / (V[2, 2] * np.conj(V[2, 1]))**2)
    for q in ('sbcu', 'dbcu'):
        for i in range(1, 11):
            for p in ('', 'p'):
                n = '%s::c%d%s' % (q, i, p and "'")
                yield ('EOS ' + n, g(E, n), g(B, '%d%s%s' % (i, p, q)) / (V[1, 2] * np.conj(V[0, 'ds'.index(q[0])])))


def dipoles(Fl, J, m, par, e, gs, V):
    """photon and gluon dipoles of flavio are normalised to the heavier quark mass and the SM amplitude"""
    GF = 4 * par['GF'] / np.sqrt(2)
    xi = {'bs': V[2, 2] * np.conj(V[2, 1]), 'bd': V[2, 2] * np.conj(V[2, 0]), 'sd': V[2, 1] * np.conj(V[2, 0]), 'cu': np.conj(V[1, 2]) * V[0, 2]}
    for t, gen in (('d', 'dsb'), ('u', 'uc')):
        for i, q in enumerate(gen):
            for j, r in enumerate(gen):
                if i > j:
                    continue
                f = r + q if i < j else q + q
                for n, o, c in (('C7', 'gamma', e), ('C8', 'G', gs)):
                    N = 16 * np.pi**2 / (c * m[r] * GF * xi.get(f, 1))
                    yield ('flavio %s_%s' % (n, f), complex(Fl.get('%s_%s' % (n, f), 0)), N * complex(J.get('%s%s_%d%d' % (t, o, i + 1, j + 1), 0)))
                    if i < j:
                        yield ('flavio %sp_%s' % (n, f), complex(Fl.get('%sp_%s' % (n, f), 0)), N * np.conj(complex(J.get('%s%s_%d%d' % (t, o, j + 1, i + 1), 0))))
    for i, l in enumerate(('e', 'mu', 'tau')):
        yield ('flavio C7_%s%s' % (l, l), complex(Fl.get('C7_%s%s' % (l, l), 0)), 16 * np.pi**2 / (e * par['m_' + l] * GF) * complex(J.get('egamma_%d%d' % (i + 1, i + 1), 0)))
        for j, k in enumerate(('e', 'mu', 'tau')):
            if i != j:
                yield ('flavio Cgamma_%s%s' % (k, l), complex(Fl.get('Cgamma_%s%s' % (k, l), 0)), complex(J.get('egamma_%d%d' % (i + 1, j + 1), 0)))


def paths(case, rec):
    """any path of up to three steps on a dense input holding only what every basis on the way can hold"""
    e, a = case[1:]
    from props import T01
    T = [t for t in trans.translators() if t[0] == e]
    have = {t: T01.image(t) for t in T}

    def walk(b, k):
        yield [b]
        if k:
            for t in T:
                if t[1] == b:
                    for r in walk(t[2], k - 1):
                        yield [b] + r
    full = trans.dense(e, a)
    direct = {}
    for p in walk(a, 3):
        c = p[-1]
        if len(p) < 3 or (c != a and (e, a, c) not in have) or 'Warsaw mass' in p[1:-1]:
            continue
        # drop what a basis on the way cannot hold: keep only coefficients of a that survive a -> b -> a for every b on the way
        x = {k: z for k, z in full.items() if not k.startswith('llphiphi') and not trans.is_tensor(k) and not (k[0] == 'T' and a == 'JMS')}
        ok = True
        for b in p[1:-1]:
            if b == a:
                continue
            if (e, a, b) not in have or (e, b, a) not in have:
                ok = False
                break
            x = {k: z for k, z in x.items() if k in have[e, a, b]}
        if not ok:
            continue
        w = trans.wc(e, a, x)
        want = (w if c == a else w.translate(c, parameters=trans.PAR)).dict
        y = w
        for b in p[1:]:
            y = y.translate(b, parameters=trans.PAR)
        bad = trans.cmp(y.dict, want, rtol=1e-6, noise=1e-10)
        rec.expect(not bad, 'path:%s:%s' % (e, '>'.join(p)), lambda: '%s: %s: %s' % (e, ' > '.join(p), trans.show(bad)))
        rec.state('path', e, *p)
        rec.step(len(p))
    rec.trace()
