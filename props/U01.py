"""U01 Non-redundant coefficients <-> symmetric coefficient arrays."""
import itertools
import numpy as np
from lib import symm

BOUNDS = {'quick': 'every coefficient of SMEFT Warsaw (1635) and WET JMS (2257) x all unit directions (1, i, generic): expansion to arrays against the group-theory oracle, '
                   'and back; dense superpositions of every array; pad/unpad, flatten/unflatten, returned arrays independent of each other and of later calls, and the JMS helpers on every index image of every coefficient',
          'thorough': 'the same plus all pairs of coefficients of one array'}
ASSUMPTIONS = ['the operator symmetries of lib/symm.py (permutation groups; the linear flavour relation of qqql) are the specification']
TOL = 1e-12


def _bits(eft):
    from wilson import util, wcxf
    u = {'SMEFT': util.smeftutil, 'WET': util.wetutil}[eft]
    b = wcxf.Basis['SMEFT', 'Warsaw'] if eft == 'SMEFT' else wcxf.Basis['WET', 'JMS']
    real = {k: bool(d and d.get('real')) for s in b.sectors.values() for k, d in s.items()}
    return u, b, real


def cases(tier):
    out = []
    for eft in ('SMEFT', 'WET'):
        for n in sorted(symm.CLASS[eft]):
            out.append([eft, n, tier])
        out.append([eft, '*', tier])
        out.append([eft, 'fresh', tier])
        out.append([eft, 'pure', tier])
    return out


def idx(w):
    return tuple(int(c) - 1 for c in w.split('_')[1])


def embed(cls, w, v, real, shape):
    """coefficient array before symmetrisation: the term and its hermitian conjugate"""
    a = np.zeros((3,) * len(shape), complex)
    i = idx(w)
    orb = symm.orbit(cls, i) if cls != 8 else {(i, 1, False)}
    a[i] = v.real if real else v
    same = {j for j, s, c in orb if not c}
    for j, s, c in sorted(orb):
        if c and j not in same:
            a[j] = np.conj(v) * s
            break
    return a


def crop(a, shape):
    return a[tuple(slice(0, s) for s in shape)]


def check(case, rec):
    eft, name, tier = case
    u, basis, real = _bits(eft)
    if name == '*':
        return whole(eft, u, basis, real, rec)
    if name == 'fresh':
        return fresh(eft, u, basis, rec)
    if name == 'pure':
        return pure(eft, u, basis, real, rec)
    cls = symm.CLASS[eft][name]
    ws = [w for w in basis.all_wcs if w.split('_')[0] == name]
    shape = u.C_keys_shape[name]
    rec.expect(bool(ws), 'names', 'no coefficient of %s' % name)
    zero = u.add_missing({})

    def arrays(parts):
        d = dict(zero)
        d[name] = parts
        return d

    def eq(a, b):
        return np.shape(a) == np.shape(b) and np.abs(np.asarray(a) - b).max() <= TOL

    allw = {}
    tot = None
    for n, w in enumerate(ws):
        vals = [1 + 0j, -2.5 + 0j] if real[w] else [1 + 0j, 1j, -0.5 + 2j]
        for v in vals:
            key = '%s:%s=%r' % (eft, w, v)
            rec.state(eft, w, repr(v))
            rec.step()
            if cls == 0:
                C = u.wcxf2arrays_symmetrized({w: v})
                rec.expect(C[w] == v, key, lambda: 'scalar became %r' % (C[w],))
                back = u.arrays2wcxf_nonred(arrays(v))
                rec.expect(back == {w: v}, key, lambda: 'back: %r' % (back,))
                continue
            want = crop(symm.project(cls, embed(cls, w, v, real[w], shape)), shape)
            d_in = {w: v}
            C = u.wcxf2arrays_symmetrized(d_in)
            rec.expect(d_in == {w: v}, key, 'the input was changed')
            rec.expect(set(C) == set(u.WC_keys), key, 'keys of the array dictionary')
            rec.expect(eq(C[name], want), key, lambda: 'array of %s is\n%r\nexpected\n%r' % (
                key, [(i, C[name][i]) for i in np.ndindex(*np.shape(C[name])) if C[name][i] != 0],
                [(i, want[i]) for i in np.ndindex(*want.shape) if want[i] != 0]))
            other = [k for k in C if k != name and np.any(np.asarray(C[k]) != 0)]
            rec.expect(not other, key, lambda: 'non-zero entries in %r' % other)
            full = arrays(want.copy())
            back = u.arrays2wcxf_nonred(full)
            back = {k: x for k, x in back.items() if abs(x) > TOL}
            rec.expect(list(back) == [w] and abs(back[w] - v) < TOL, key, lambda: 'back from arrays: %r' % (back,))
            rec.expect(eq(full[name], want), key, 'arrays2wcxf_nonred changed its input')
            # symmetrisation is the identity on symmetric arrays
            s = u.symmetrize({name: want.copy()})
            rec.expect(eq(s[name], want), key, 'symmetrize changes a symmetric array')
            if cls != 8:
                raw = u.wcxf2arrays({w: v})
                rec.expect(np.count_nonzero(raw[name]) == 1 and raw[name][idx(w)] == v, key, 'wcxf2arrays')
                s = u.symmetrize({name: raw[name].copy()})[name]
                exp = np.zeros((3,) * len(shape), complex)
                for j, sg, c in symm.orbit(cls, idx(w)):
                    exp[j] = sg * (np.conj(v) if c else v)
                rec.expect(eq(s, crop(exp, shape)), key, 'symmetrize does not fill all images of %s' % w)
            if real[w]:
                # an imaginary part of a real coefficient does not survive
                C2 = u.wcxf2arrays_symmetrized({w: v + 0.7j})
                rec.expect(eq(C2[name], want), key + '+i', 'imaginary part of the real coefficient %s is kept' % w)
        if cls != 0:
            v = complex(0.3 + 0.1 * n, 0 if real[w] else 1.7 - 0.05 * n)
            allw[w] = v
            part = symm.project(cls, embed(cls, w, v, real[w], shape))
            tot = part if tot is None else tot + part
    if cls != 0:
        C = u.wcxf2arrays_symmetrized(allw)[name]
        rec.expect(np.abs(C - crop(tot, shape)).max() < 1e-10, '%s:%s:dense' % (eft, name), 'dense superposition is wrong')
        back = u.arrays2wcxf_nonred(arrays(C))
        rec.expect(set(back) == set(allw) and all(abs(back[k] - allw[k]) < 1e-10 for k in allw), '%s:%s:denseback' % (eft, name),
                   lambda: 'dense round trip %r' % [(k, back.get(k), allw[k]) for k in allw if k not in back or abs(back[k] - allw[k]) > 1e-10][:5])
        if tier == 'thorough':
            for a, b in itertools.combinations(ws, 2):
                va, vb = allw[a], allw[b]
                C = u.wcxf2arrays_symmetrized({a: va, b: vb})
                want = crop(symm.project(cls, embed(cls, a, va, real[a], shape)) + symm.project(cls, embed(cls, b, vb, real[b], shape)), shape)
                rec.expect(eq(C[name], want), '%s:%s+%s' % (eft, a, b), 'pair')
                back = {k: x for k, x in u.arrays2wcxf_nonred(C).items() if abs(x) > TOL}
                rec.expect(set(back) == {a, b} and abs(back[a] - va) < TOL and abs(back[b] - vb) < TOL, '%s:%s+%s' % (eft, a, b), 'pair back')
                rec.state(eft, a, b)
                rec.step()
    if eft == 'WET':
        jms(name, cls, ws, real, basis, rec)
    rec.trace()
    rec.sample('%s %s class %d, %d coefficients' % (eft, name, cls, len(ws)))


def jms(name, cls, ws, real, basis, rec):
    from wilson.util import wet_jms
    if cls == 0 or cls == 6:
        imgs = {w: [(w, 1, False)] for w in ws}
    else:
        imgs = {w: [(name + '_' + ''.join(str(i + 1) for i in j), s, c) for j, s, c in sorted(symm.orbit(cls, idx(w)))] for w in ws}
    sector = {w: s for s, ks in basis.sectors.items() for w in ks}
    for w in ws:
        v = 1.5 + 0j if real[w] else 1.5 - 0.25j
        for secs in (None, (sector[w],)):
            A = wet_jms.JMS_to_array({w: v}, sectors=secs)
            key = 'JMS_to_array:%s:%s' % (w, secs)
            if cls == 0:
                rec.expect(A[w] == v, key, 'scalar')
                continue
            for w2 in ws:
                if secs and sector[w2] != secs[0]:
                    continue
                for img, s, c in imgs[w2]:
                    want = 0 if w2 != w else (s * (np.conj(v) if c else v))
                    got = A[name][idx(img)]
                    rec.expect(got == want, key, lambda: '%s: entry %s is %r, expected %r' % (key, img, got, want))
                    rec.step()
        for img, s, c in imgs[w]:
            got = wet_jms.symmetrize_JMS_dict({img: v})
            want = s * (np.conj(v) if c else v)
            if img in ws:
                want, exp = v, img
            else:
                exp = w
            rec.expect(list(got) == [exp] and got[exp] == want, 'symmetrize_JMS_dict:' + img, lambda: '%s=%r becomes %r, expected %s=%r' % (img, v, got, exp, want))
            rec.state('jms', img)
            rec.step()
        if cls != 0:
            ones = np.ones((3,) * len(idx(w)))
            n_img = len({j for j, s, c in symm.orbit(cls, idx(w)) if not c})
            up = wet_jms.unscale_dict_wet({name: ones})[name][idx(w)]
            dn = wet_jms.scale_dict_wet({name: ones})[name][idx(w)]
            rec.expect(up == n_img and abs(dn * n_img - 1) < TOL, 'scale:' + w, lambda: 'symmetry factor of %s: %r / %r, expected %d' % (w, up, dn, n_img))


def fresh(eft, u, basis, rec):
    """arrays made from a dictionary belong to the caller: writing into one changes no other array and no later result"""
    from wilson.util import wet_jms
    first = {}
    for w in basis.all_wcs:
        first.setdefault(w.split('_')[0], w)
    makers = {'wcxf2arrays_symmetrized': u.wcxf2arrays_symmetrized, 'wcxf2arrays': u.wcxf2arrays, 'add_missing': lambda d: u.add_missing(u.wcxf2arrays(d)), 'unflatten': lambda d: u.C_array2dict(u.C_dict2array(u.add_missing({**u.wcxf2arrays(d)})))}
    if eft == 'WET':
        makers['JMS_to_array'] = wet_jms.JMS_to_array
    for fn, f in makers.items():
        for d in [{}] + [{w: 0.5} for w in first.values()]:
            try:
                A = f(dict(d))
            except KeyError:        # flattening needs the dimension-4 entries as well
                continue
            snap = {k: np.array(v, copy=True) for k, v in A.items()}
            arrays = [k for k, v in A.items() if isinstance(v, np.ndarray) and v.ndim]
            for n, k in enumerate(arrays):
                A[k] += n + 1
            for n, k in enumerate(arrays):
                rec.step()
                rec.expect(np.array_equal(A[k], snap[k] + n + 1, equal_nan=True), '%s:fresh:%s' % (eft, fn), lambda: '%s(%r): writing into the other arrays changes %s' % (fn, d, k))
            B = f(dict(d))
            rec.state(eft, fn, tuple(d))
            rec.expect(set(B) == set(snap) and all(np.array_equal(B[k], snap[k], equal_nan=True) for k in snap), '%s:later:%s' % (eft, fn), lambda: '%s(%r) depends on what the caller did to an earlier result: %s' % (fn, d, [k for k in snap if not np.array_equal(B.get(k), snap[k], equal_nan=True)][:5]))
    rec.trace()


def pure(eft, u, basis, real, rec):
    """no conversion changes the dictionary (or the arrays in it) it is given"""
    from wilson.util import wet_jms
    flat = {w: complex(1 + 0.01 * n, 0 if real[w] else 0.5 - 0.003 * n) for n, w in enumerate(basis.all_wcs)}
    sym = u.wcxf2arrays_symmetrized(flat)
    for n, k in enumerate(u.dim4_keys):
        s = u.C_keys_shape[k]
        sym[k] = 0.1 + n if s == 1 else np.arange(int(np.prod(s))).reshape(s) + 1j * n
    raw = u.wcxf2arrays(flat)
    inputs = {'coefficients': flat, 'one coefficient': {basis.all_wcs[-1]: 2.0}, 'none': {}, 'arrays': sym, 'raw arrays': raw,
              'one array': {k: raw[k] for k in list(raw)[-1:]}, 'scalar': {k: 1.0 for k in list(u.WC_keys_0f)[:1]}}
    fs = {n: getattr(u, n) for n in ('wcxf2arrays', 'wcxf2arrays_symmetrized', 'add_missing', 'symmetrize', 'symmetrize_nonred', 'unscale_dict', 'pad_C', 'unpad_C', 'arrays2wcxf', 'arrays2wcxf_nonred', 'C_dict2array') if hasattr(u, n)}
    if eft == 'WET':
        fs.update({n: getattr(wet_jms, n) for n in ('JMS_to_array', 'symmetrize_JMS_dict', 'scale_dict_wet', 'unscale_dict_wet') if hasattr(wet_jms, n)})
    for fn, f in fs.items():
        for what, d in inputs.items():
            mine = {k: np.array(v, copy=True) if isinstance(v, np.ndarray) else v for k, v in d.items()}
            before = {k: np.array(v, copy=True) for k, v in d.items()}
            try:
                f(mine)
            except Exception:       # not an input of this function
                pass
            rec.state(eft, fn, what)
            rec.step()
            rec.expect(list(mine) == list(before) and all(np.array_equal(mine[k], before[k]) for k in before), '%s:pure:%s' % (eft, fn), lambda: '%s changes the dictionary (%s) it is given' % (fn, what))
    rec.trace()


def whole(eft, u, basis, real, rec):
    """every coefficient at once"""
    d = {w: complex(1 + 0.01 * n, 0 if real[w] else 0.5 - 0.003 * n) for n, w in enumerate(basis.all_wcs)}
    C = u.wcxf2arrays_symmetrized(d)
    back = u.arrays2wcxf_nonred(C)
    bad = [k for k in d if abs(back.get(k, 0) - d[k]) > 1e-10]
    rec.expect(not bad and set(back) == set(d), '%s:all' % eft, lambda: 'not recovered: %r' % bad[:10])
    again = u.wcxf2arrays_symmetrized(back)
    rec.expect(all(np.abs(np.asarray(again[k]) - C[k]).max() < 1e-10 for k in C), '%s:idem' % eft, 'array -> dict -> array')
    # flatten / unflatten, with the dimension-4 parameters
    full = dict(C)
    for n, k in enumerate(u.dim4_keys):
        s = u.C_keys_shape[k]
        full[k] = 0.1 + n if s == 1 else np.arange(int(np.prod(s))).reshape(s) + 1j * n
    flat = u.C_dict2array(full)
    un = u.C_array2dict(flat)
    rec.expect(set(un) == set(full) and all(np.array_equal(np.asarray(un[k]), np.asarray(full[k], dtype=complex)) for k in full), '%s:flat' % eft, 'flatten/unflatten')
    rec.expect(np.array_equal(u.C_dict2array(un), flat), '%s:flat2' % eft, 'unflatten/flatten')
    # pad / unpad
    for fill in (0, 1, 7.5):
        pad = u.pad_C(full, fill_value=fill)
        for k in full:
            s = u.C_keys_shape[k]
            if s == 1:
                rec.expect(pad[k] == full[k], '%s:pad:%s' % (eft, k), 'scalar changed by padding')
                continue
            want = np.full((3,) * len(s), fill, dtype=complex)
            want[tuple(slice(0, n) for n in s)] = full[k]
            rec.expect(np.array_equal(pad[k], want), '%s:pad:%s' % (eft, k), lambda: 'padding of %s with %r: %r' % (k, fill, pad[k]))
        un = u.unpad_C(pad)
        rec.expect(all(np.array_equal(un[k], full[k]) for k in full), '%s:unpad' % eft, 'unpad(pad(x)) differs from x')
        rec.step()
    flatd = u.arrays2wcxf(C)
    rt = u.wcxf2arrays({k: v for k, v in flatd.items()})
    rec.expect(all(np.array_equal(np.asarray(rt[k]), np.asarray(C[k])) for k in C), '%s:arrays2wcxf' % eft, 'arrays2wcxf/wcxf2arrays')
    ones = u.unscale_dict({k: (np.ones(u.C_keys_shape[k]) if u.C_keys_shape[k] != 1 else 1) for k in u.WC_keys})
    for w in basis.all_wcs:
        n = w.split('_')[0]
        c = symm.CLASS[eft][n]
        if c in (0, 8, 9):
            continue
        want = len({j for j, s, cc in symm.orbit(c, idx(w)) if not cc})
        rec.expect(ones[n][idx(w)] == want, '%s:factor:%s' % (eft, w), lambda: 'symmetry factor %r, expected %r' % (ones[n][idx(w)], want))
        rec.state('factor', eft, w)
    rec.trace()
