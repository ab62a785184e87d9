"""Symmetries of QCD and QED acting on the coefficients of the JMS basis.

A coefficient listed in the basis multiplies one operator (plus its hermitian conjugate); a symmetry maps it to
another operator, which lib.symm relates to a listed one.  Everything here follows from the operator definitions."""
import re
from lib import symm

_FIELDS = re.compile(r'nu|e|u|d')
QUARKONLY = None


def fields(name):
    """field letters of the four (two) indices"""
    if name in ('G', 'Gtilde'):
        return []
    m = re.fullmatch(r'(e|u|d)(gamma|G)', name)
    if m:
        return [m.group(1)] * 2
    m = re.fullmatch(r'([SVT][18]?)((?:nu|e|u|d)+?)(LL|RR|LR|RL)', name)
    fs = _FIELDS.findall(m.group(2))
    if len(fs) == 2:                      # two currents
        return [fs[0]] * 2 + [fs[1]] * 2
    if len(fs) == 3:                      # baryon number violating: the lepton is fixed by charge
        q = sum(2 if f == 'u' else -1 for f in fs)
        return fs + ['e' if q == 3 else 'nu']
    return fs


def idx(k):
    return tuple(int(c) - 1 for c in k.split('_')[1]) if '_' in k else ()


def key(name, i):
    return name + ('_' + ''.join(str(j + 1) for j in i) if i else '')


def listed(name, i, keys):
    """(listed coefficient, sign, conj) equivalent to the operator name_i, or None"""
    if not i:
        return (name, 1, False) if name in keys else None
    c = symm.CLASS['WET'][name]
    best = None
    for j, s, cc in sorted(symm.orbit(c, i)):
        k = key(name, j)
        if k in keys:
            if best is None or (best[2] and not cc):
                best = (k, s, cc)
    return best


def permute(k, perm, keys):
    """flavour permutation perm[field] = tuple"""
    n = k.split('_')[0]
    f = fields(n)
    i = tuple(perm.get(a, (0, 1, 2))[x] for a, x in zip(f, idx(k)))
    return listed(n, i, keys)


def parity(k, keys):
    """parity image of a coefficient, None if it contains neutrinos"""
    n, i = k.split('_')[0], idx(k)
    f = fields(n)
    if n == 'G':
        return 'G', 1, False
    if n == 'Gtilde':
        return 'Gtilde', -1, False
    if 'nu' in f:
        return None
    if len(i) == 2:
        r, cj = (n, i[::-1]), True
    elif len(set(f)) and _bviol(n):
        m = n[:-2] + {'LL': 'RR', 'RR': 'LL', 'LR': 'RL', 'RL': 'LR'}[n[-2:]]
        r, cj = (m, i), False
    elif n[0] in 'ST':
        if 'uddu' in n:
            r, cj = (n, i[::-1]), True
        else:
            r, cj = (n, (i[1], i[0], i[3], i[2])), True
    elif 'uddu' in n:
        r, cj = (n, i[::-1]), True
    elif n[-2:] in ('LL', 'RR'):
        r, cj = (n[:-2] + {'LL': 'RR', 'RR': 'LL'}[n[-2:]], i), False
    else:
        m = re.fullmatch(r'(V[18]?)(nu|e|u|d)(nu|e|u|d)(LR)', n)
        r, cj = (m.group(1) + m.group(3) + m.group(2) + 'LR', i[2:] + i[:2]), False
    l = listed(r[0], r[1], keys)
    return l and (l[0], l[1], l[2] != cj)


def _bviol(n):
    return n[0] == 'S' and len(_FIELDS.findall(re.sub(r'^S[18]?|(LL|RR|LR|RL)$', '', n))) == 3


def act(values, image):
    """apply a map {coefficient: (image, sign, conj)} to coefficients; those without image are dropped"""
    out = {}
    for k, v in values.items():
        m = image.get(k)
        if m:
            out[m[0]] = m[1] * (complex(v).conjugate() if m[2] else v)
    return out
