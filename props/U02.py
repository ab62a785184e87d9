"""U02 Flavour rotations of SMEFT coefficients are the U(3)^5 group action of the operators."""
import itertools
import numpy as np
from lib import symm

# field content of every operator, one (field, conjugate) per index
F = {}


def _add(names, spec):
    for n in names.split():
        F[n] = [(c.lower(), c.isupper()) for c in spec]


_add('uphi uW uB uG', 'Qu')
_add('dphi dW dB dG', 'Qd')
_add('ephi eW eB', 'Le')
_add('phil1 phil3', 'Ll')
_add('phiq1 phiq3', 'Qq')
_add('phie', 'Ee')
_add('phiu', 'Uu')
_add('phid', 'Dd')
_add('phiud', 'Ud')
_add('llphiphi', 'll')
_add('ll', 'LlLl')
_add('ee', 'EeEe')
_add('le', 'LlEe')
_add('qq1 qq3', 'QqQq')
_add('uu', 'UuUu')
_add('dd', 'DdDd')
_add('ud1 ud8', 'UuDd')
_add('qu1 qu8', 'QqUu')
_add('qd1 qd8', 'QqDd')
_add('lq1 lq3', 'LlQq')
_add('lu', 'LlUu')
_add('ld', 'LlDd')
_add('qe', 'QqEe')
_add('eu', 'EeUu')
_add('ed', 'EeDd')
_add('quqd1 quqd8', 'QuQd')
_add('ledq', 'LeDq')
_add('lequ1 lequ3', 'LeQu')
_add('duql', 'duql')
_add('qque', 'qque')
_add('qqql', 'qqql')
_add('duue', 'duue')
FIELDS = 'qudle'
BOUNDS = {'quick': 'every unit array entry of every fermionic operator (and every bosonic operator) x 13 rotations (identity, generic complex unitary, one field at a time, a permutation, pure phases); '
                   'all ordered pairs of 4 rotations for the group law; all single-operator dictionaries; '
                   'every entry of every WET operator under the rotation to the down-quark mass basis at 4 CKM points',
          'thorough': 'same, with 40 rotations and all pairs of 8'}


def unitary(seed):
    """a fixed generic 3x3 unitary matrix"""
    k = np.arange(9).reshape(3, 3)
    a = np.sin(1.3 * k * k + seed) + 1j * np.cos(0.7 * k + 2.1 * seed)
    q, r = np.linalg.qr(a)
    return q


E3 = np.eye(3)
P3 = np.eye(3)[[1, 2, 0]]


def rotations(n):
    out = [{f: E3 for f in FIELDS}, {f: unitary(i + 1) for i, f in enumerate(FIELDS)}]
    out += [{f: (unitary(9 + i) if f == g else E3) for f in FIELDS} for i, g in enumerate(FIELDS)]
    out += [{f: P3 for f in FIELDS}]
    out += [{f: np.diag(np.exp(1j * np.array([.1, .7, -.4]) * (i + 1))) for i, f in enumerate(FIELDS)}]
    i = 20
    while len(out) < n:
        out.append({f: unitary(i + j) for j, f in enumerate(FIELDS)})
        i += 7
    return out


def cases(tier):
    return [[n, tier] for n in sorted(F)] + [['0f', tier], ['missing', tier]] + [['down', v] for v in range(4)]


def rot(C, U):
    from wilson.util import smeft_warsaw
    return smeft_warsaw.flavor_rotation(C, Uq=U['q'], Uu=U['u'], Ud=U['d'], Ul=U['l'], Ue=U['e'])


def want(name, a, U):
    for ax, (f, conj) in enumerate(F[name]):
        m = U[f].conj() if conj else U[f]
        a = np.moveaxis(np.tensordot(a, m, axes=(ax, 0)), -1, ax)
    return a


def jms_fields(name):
    """(field, conjugated) for every index of a JMS four-fermion coefficient, read off its name"""
    import re
    kind, fl, ch = re.fullmatch(r'([SVT])\d?([a-z]+)([LR]{2})', name).groups()
    f = re.findall('nu|[eud]', fl)
    if len(f) == 3:     # baryon number violation: (f0 f1)_X (f2 lepton)_Y
        return [(f[0] + ch[0], False), (f[1] + ch[0], False), (f[2] + ch[1], False), ('lepton', False)]
    if len(f) == 2:
        f = [f[0], f[0], f[1], f[1]]
    flip = {'L': 'R', 'R': 'L'}
    if kind == 'V':
        c = [ch[0], ch[0], ch[1], ch[1]]
    else:
        c = [flip[ch[0]], ch[0], flip[ch[1]], ch[1]]
    return [(a + b, i % 2 == 0) for i, (a, b) in enumerate(zip(f, c))]


def down(case, rec):
    """the rotation of the left-handed down quarks applied after matching to the WET"""
    from wilson.util import wet_jms
    from wilson import parameters
    import ckmutil.ckm
    from wilson import wcxf
    p = dict(parameters.p, **[{}, {'gamma': 2.9}, {'Vus': 0.3, 'Vcb': 0.2, 'Vub': 0.1}, {'Vub': 0.02, 'gamma': -0.7}][case[1]])
    V = ckmutil.ckm.ckm_tree(p['Vus'], p['Vub'], p['Vcb'], p['gamma'])
    names = {}
    for k in wcxf.Basis['WET', 'JMS'].all_wcs:
        if '_' in k:
            names[k.split('_')[0]] = len(k.split('_')[1])
    for i in itertools.product(range(3), repeat=4):
        for z in (1, 1j):
            C = {n: np.zeros((3,) * d, complex) for n, d in names.items()}
            C['G'], C['Gtilde'] = 0.3 * z, 0.7
            for n, d in names.items():
                C[n][i[:d]] = z
            keep = {k: np.array(v, copy=True) for k, v in C.items()}
            out = wet_jms.rotate_down(C, p)
            rec.expect(set(out) == set(C) and all(np.array_equal(C[k], keep[k]) for k in C), 'down:keys', 'keys or input changed by the rotation')
            for n in C:
                w = keep[n]
                if n in ('dG', 'dgamma'):
                    w = V.conj().T @ w
                elif names.get(n) == 4:
                    for ax, (f, conj) in enumerate(jms_fields(n)):
                        if f == 'dL':
                            w = np.moveaxis(np.tensordot(w, V.conj() if conj else V, axes=(ax, 0)), -1, ax)
                rec.state('down', case[1], n, i, z)
                rec.step()
                rec.expect(np.abs(out[n] - w).max() < 1e-12, 'down:' + n, lambda: '%s: unit entry %r rotated wrongly to the mass basis' % (n, i))
    rec.trace()


def check(case, rec):
    if case[0] == 'down':
        return down(case, rec)
    from wilson.util import smeftutil
    name, tier = case
    R = rotations(13 if tier == 'quick' else 40)
    if name == '0f':
        for n in symm.SMEFT[0]:
            for U in R:
                rec.expect(rot({n: 3.5 - 1j}, U) == {n: 3.5 - 1j}, '0f:' + n, 'bosonic operator changed')
                rec.state(n)
        rec.trace()
        return
    if name == 'missing':
        full = {n: np.arange(3 ** len(F[n])).reshape((3,) * len(F[n])) * (1 - 0.5j) for n in F}
        U = R[1]
        ref = rot(full, U)
        rec.expect(set(ref) == set(full), 'missing:all', 'keys changed by the rotation')
        for n in F:
            part = {k: v for k, v in full.items() if k != n}
            out = rot(part, U)
            rec.expect(set(out) == set(part) and all(np.array_equal(out[k], ref[k]) for k in out), 'missing:' + n, 'result depends on which operators are present')
            rec.state('missing', n)
        rec.trace()
        return
    cls = symm.CLASS['SMEFT'][name]
    nd = len(F[name])
    for ri, U in enumerate(R):
        for i in np.ndindex(*(3,) * nd):
            a = np.zeros((3,) * nd, complex)
            a[i] = 1
            keep = a.copy()
            out = rot({name: a}, U)
            w = want(name, a, U)
            key = '%s:%s:%d' % (name, i, ri)
            rec.expect(set(out) == {name} and np.abs(out[name] - w).max() < 1e-12, key, lambda: 'unit entry %r of %s rotated by #%d is wrong' % (i, name, ri))
            rec.expect(np.array_equal(a, keep), key, 'input changed')
            rec.state(key)
            rec.step()
        d = symm.project(cls, (np.arange(3 ** nd).reshape((3,) * nd) + 1) * (0.3 + 0.7j))
        if any(symm.GENS.get(cls, ([], []))[1:][0] if cls != 8 else []):
            d = d + np.conj(np.transpose(d, symm.GENS[cls][1][0]))
        o = rot({name: d}, U)[name]
        rec.expect(np.abs(symm.project(cls, o) - (o if cls != 9 else 2 * o - np.diag(np.diag(o)))).max() < 1e-9 * np.abs(o).max(), '%s:symm:%d' % (name, ri), 'symmetry lost by the rotation')
        inv = {f: U[f].conj().T for f in FIELDS}
        rec.expect(np.abs(rot({name: o}, inv)[name] - d).max() < 1e-10 * np.abs(d).max(), '%s:inv:%d' % (name, ri), 'rotating back does not give the input')
    d = (np.arange(3 ** nd).reshape((3,) * nd) + 1) * (0.3 + 0.7j)
    k = 4 if tier == 'quick' else 8
    for a, b in itertools.product(range(1, k + 1), repeat=2):
        x = rot(rot({name: d}, R[a]), R[b])[name]
        y = rot({name: d}, {f: R[a][f] @ R[b][f] for f in FIELDS})[name]
        rec.expect(np.abs(x - y).max() < 1e-10 * np.abs(d).max(), '%s:group:%d,%d' % (name, a, b), 'two rotations are not their product')
        rec.state(name, 'pair', a, b)
        rec.step()
    # the rotation used inside the SMEFT evolution
    from wilson.run.smeft import SMEFT
    inner = getattr(SMEFT, '_flavor_rotation', None)
    if inner is not None:
        zero = smeftutil.C_array2dict(np.zeros(9999))
        for ri, U in enumerate(R):
            for seed in (0.3, 1.9):
                d = np.sin(np.arange(3 ** nd).reshape((3,) * nd) * 1.7 + seed) + 1j * np.cos(np.arange(3 ** nd).reshape((3,) * nd) * 2.3 + seed)
                for kw in ({}, {'sm_parameters': True}, {'sm_parameters': False}):
                    try:
                        out = inner({**zero, name: d}, Uq=U['q'], Uu=U['u'], Ud=U['d'], Ul=U['l'], Ue=U['e'], **kw)
                    except TypeError:
                        if not kw:      # the class has no such option
                            raise
                        continue
                    rec.expect(np.abs(out[name] - want(name, d, U)).max() < 1e-10, 'inner:%s:%d' % (name, ri), '%s rotated by #%d in the SMEFT class (%s) is wrong' % (name, ri, kw))
                    rec.state('inner', name, ri, seed, kw)
                    rec.step()
    rec.trace()
    rec.sample(name)
