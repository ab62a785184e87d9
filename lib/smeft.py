"""Shared pieces for the SMEFT running checks (independent of wilson.util)."""
import numpy as np
from lib import symm

FIELDS = 'qudle'
SM0 = ['g', 'gp', 'gs', 'Lambda', 'm2']
SM2 = ['Gu', 'Gd', 'Ge']
NAMES = [n for c in symm.SMEFT for n in symm.SMEFT[c]]
ND = {n: (0 if c == 0 else 2 if c in (1, 2, 9) else 4) for c in symm.SMEFT for n in symm.SMEFT[c]}
ALL = SM0 + SM2 + NAMES


def smp(variant=0):
    k = np.arange(9).reshape(3, 3)
    d = dict(g=0.64 + 0.05 * variant, gp=0.36, gs=1.1 - 0.1 * variant, Lambda=0.28 + 0.1 * variant, m2=0.7 - 0.2 * variant)
    for i, n in enumerate(SM2):
        d[n] = 0.6 * np.sin(1.7 * k + i + variant) + 0.5j * np.cos(0.9 * k * k + 2 * i + variant)
    return {a: (complex(b) if np.ndim(b) == 0 else b) for a, b in d.items()}


def zero():
    return {n: (0j if ND[n] == 0 else np.zeros((3,) * ND[n], complex)) for n in NAMES}


def term(w, v, real):
    """symmetrised array of one coefficient"""
    n = w.split('_')[0]
    c = symm.CLASS['SMEFT'][n]
    if c == 0:
        return n, complex(v)
    i = tuple(int(x) - 1 for x in w.split('_')[1])
    a = np.zeros((3,) * len(i), complex)
    a[i] = v
    if c != 8:
        orb = symm.orbit(c, i)
        same = {j for j, s, cc in orb if not cc}
        for j, s, cc in sorted(orb):
            if cc and j not in same:
                a[j] = np.conj(v)
                break
    return n, symm.project(c, a)


def dense(real=None, amp=1.0, phase=0.3):
    """a dense point respecting all symmetries and hermiticity"""
    out = {}
    for n in NAMES:
        c = symm.CLASS['SMEFT'][n]
        h = (sum(map(ord, n)) % 17) / 17
        if c == 0:
            out[n] = complex(amp * (0.3 + h))
            continue
        k = np.arange(3 ** ND[n]).reshape((3,) * ND[n])
        a = amp * (np.sin(1.1 * k + h) + 1j * np.cos(0.31 * k * (1 + h) + phase))
        if c != 8 and symm.GENS[c][1]:
            a = (a + np.conj(np.transpose(a, symm.GENS[c][1][0]))) / 2
        out[n] = symm.project(c, a)
    return out


def warsaw():
    from wilson import wcxf
    b = wcxf.Basis['SMEFT', 'Warsaw']
    return [(k, bool((d or {}).get('real')), s) for s, ws in b.sectors.items() for k, d in ws.items()]
