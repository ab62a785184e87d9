"""Symmetry relations of the operators, written down as groups of index permutations.

Every class is (generators without conjugation [(perm, sign)], generators with
conjugation [perm]).  C[perm applied to idx] = sign * C[idx]  (or its conjugate).
The class of every coefficient is found from the frozen basis definition alone.
"""
import itertools
from fractions import Fraction
import numpy as np

# array name -> class, from the operator structure
SMEFT = {
    0: ['G', 'Gtilde', 'W', 'Wtilde', 'phi', 'phiBox', 'phiD', 'phiG', 'phiB', 'phiW', 'phiWB',
        'phiGtilde', 'phiBtilde', 'phiWtilde', 'phiWtildeB'],
    1: ['uphi', 'dphi', 'ephi', 'eW', 'eB', 'uG', 'uW', 'uB', 'dG', 'dW', 'dB', 'phiud'],
    2: ['phil1', 'phil3', 'phie', 'phiq1', 'phiq3', 'phiu', 'phid'],
    9: ['llphiphi'],
    4: ['ll', 'qq1', 'qq3', 'uu', 'dd'],
    6: ['ee'],
    5: ['lq1', 'lq3', 'eu', 'ed', 'ud1', 'ud8', 'le', 'lu', 'ld', 'qe', 'qu1', 'qd1', 'qu8', 'qd8'],
    3: ['ledq', 'quqd1', 'quqd8', 'lequ1', 'lequ3', 'duql', 'duue'],
    7: ['qque'],
    8: ['qqql'],
}
WET = {
    0: ['G', 'Gtilde'],
    1: ['egamma', 'uG', 'dG', 'ugamma', 'dgamma'],
    3: ['S1udRR', 'S1udduRR', 'S8udRR', 'S8udduRR', 'SedRL', 'SedRR', 'SeuRL', 'SeuRR', 'SnueduRL', 'SnueduRR', 'TedRR', 'TeuRR',
        'TnueduRR', 'V1udduLR', 'V8udduLR', 'VnueduLL', 'VnueduLR', 'SuddLL', 'SduuLL', 'SduuLR', 'SduuRL', 'SdudRL', 'SduuRR'],
    4: ['VuuRR', 'VddRR', 'VuuLL', 'VddLL'],
    41: ['S1ddRR', 'S1uuRR', 'S8uuRR', 'SeeRR', 'S8ddRR'],
    5: ['VnueLL', 'VnuuLL', 'VnudLL', 'VeuLL', 'VedLL', 'V1udLL', 'V8udLL', 'VeuRR', 'VedRR', 'V1udRR', 'V8udRR', 'VnueLR',
        'VeeLR', 'VnuuLR', 'VnudLR', 'VeuLR', 'VedLR', 'VueLR', 'VdeLR', 'V1uuLR', 'V8uuLR', 'V1udLR', 'V8udLR', 'V1duLR', 'V8duLR',
        'V1ddLR', 'V8ddLR'],
    6: ['VeeLL', 'VeeRR', 'VnunuLL'],
    71: ['SuudLR', 'SuudRL', 'SdduRL'],
}
GENS = {
    0: ([], []), 1: ([], []), 3: ([], []),
    2: ([], [(1, 0)]),
    9: ([((1, 0), 1)], []),
    4: ([((2, 3, 0, 1), 1)], [(1, 0, 3, 2)]),
    41: ([((2, 3, 0, 1), 1)], []),
    5: ([], [(1, 0, 3, 2)]),
    6: ([((2, 3, 0, 1), 1), ((2, 1, 0, 3), 1)], [(1, 0, 3, 2)]),
    7: ([((1, 0, 2, 3), 1)], []),
    71: ([((1, 0, 2, 3), -1)], []),
}
CLASS = {'SMEFT': {n: c for c, ns in SMEFT.items() for n in ns},
         'WET': {n: c for c, ns in WET.items() for n in ns}}


def ap(perm, idx):
    return tuple(idx[p] for p in perm)


def orbit(cls, idx):
    """{index: (sign, conj)} reached from idx, and the number of images without conjugation."""
    gens = [(p, s, False) for p, s in GENS[cls][0]] + [(p, 1, True) for p in GENS[cls][1]]
    seen = {(tuple(idx), 1, False)}
    todo = list(seen)
    while todo:
        i, s, c = todo.pop()
        for p, s2, c2 in gens:
            n = (ap(p, i), s * s2, c != c2)
            if n not in seen:
                seen.add(n)
                todo.append(n)
    return seen


def _qqql_projector():
    """Projector (exact rationals, as floats) on the arrays C_prs with
    C_prs + C_rps = C_spr + C_srp: the flavour symmetry of the qqql operator."""
    idx = list(itertools.product(range(3), repeat=3))
    pos = {i: n for n, i in enumerate(idx)}
    rows = []
    for p, r, s in idx:
        row = np.zeros(27)
        row[pos[p, r, s]] += 1
        row[pos[r, p, s]] += 1
        row[pos[s, p, r]] -= 1
        row[pos[s, r, p]] -= 1
        rows.append(row)
    u, sv, vt = np.linalg.svd(np.array(rows))
    rank = int((sv > 1e-10).sum())
    null = vt[rank:]
    return null.T @ null


PQ = _qqql_projector()


def project(cls, arr):
    """Symmetrised coefficient array of sum(arr * O) for operators O of the class."""
    arr = np.asarray(arr, dtype=complex)
    if cls == 8:
        return np.einsum('ab,bl->al', PQ, arr.reshape(27, 3)).reshape(3, 3, 3, 3)
    if cls == 9:
        # Weinberg operator: the coefficient is the entry of the symmetric matrix (no symmetry factor)
        return arr + arr.T - np.diag(np.diag(arr))
    gens = GENS[cls][0]
    # group generated by the permutations without conjugation
    el = {(tuple(range(arr.ndim)), 1)}
    todo = list(el)
    while todo:
        p, s = todo.pop()
        for q, t in gens:
            n = (ap(q, p), s * t)
            if n not in el:
                el.add(n)
                todo.append(n)
    return sum(s * np.transpose(arr, p) for p, s in el) / len(el)
