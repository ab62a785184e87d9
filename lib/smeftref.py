"""Reference implementation of the SMEFT evolution with tree-level determination of the SM parameters,
written from the definitions, on top of the beta functions (property S01) only."""
from math import log, pi, sqrt
import numpy as np
import ckmutil.ckm
import ckmutil.diag
import ckmutil.phases
from scipy.optimize import brentq
from lib import smeft, symm
from props.U02 import F

V0 = 246.22
MZ = 91.1876
SMF = dict(F, Gu=[('q', True), ('u', False)], Gd=[('q', True), ('d', False)], Ge=[('l', True), ('e', False)])
_INV = {}


def load(values):
    """symmetric arrays of {coefficient: number}"""
    C = smeft.zero()
    for w, z in values.items():
        n, a = smeft.term(w, z, None)
        C[n] = C[n] + a
    return C


def dump(C):
    """{coefficient: number} of symmetric arrays"""
    if not _INV:
        by = {}
        for w, real, s in smeft.warsaw():
            n = w.split('_')[0]
            by.setdefault(n, []).append((w, real))
        for n, ws in by.items():
            c = symm.CLASS['SMEFT'][n]
            if c == 0:
                continue
            if c == 8:
                M = np.array([smeft.term(w, 1, None)[1].ravel() for w, r in ws]).T
                _INV[n] = ws, np.linalg.pinv(M)
            else:
                ix = [tuple(int(x) - 1 for x in w.split('_')[1]) for w, r in ws]
                _INV[n] = ws, ix, [1 / smeft.term(w, 1, None)[1][i] for (w, r), i in zip(ws, ix)]
        _INV['0'] = [(w, r) for n, ws in by.items() if symm.CLASS['SMEFT'][n] == 0 for w, r in ws]
    out = {w: complex(C[w]) for w, r in _INV['0']}
    for n, t in _INV.items():
        if n == '0':
            continue
        if len(t) == 2:
            z = t[1] @ C[n].ravel()
        else:
            z = [C[n][i] * f for i, f in zip(t[1], t[2])]
        for (w, r), x in zip(t[0], z):
            out[w] = complex(x)
    return out


def smpar_in(C, p):
    """tree-level relations: SM parameters reproducing the input p, in the basis with diagonal down-type and charged lepton masses"""
    v2 = 1 / (sqrt(2) * p['GF'])
    v = sqrt(v2)
    ck, cp = (C['phiBox'] - C['phiD'] / 4).real, C['phi'].real
    lam = p['m_h'] ** 2 / v2 * (1 - 2 * ck * v2) + 3 * cp * v2
    gb = 2 * p['m_W'] / v
    e = sqrt(4 * pi * p['alpha_e'])
    x = C['phiWB'].real * v2

    def f(gp):
        n = gb * gb + gp * gp
        return gb * gp / sqrt(n) * (1 - x * gb * gp / n) - e
    gpb = brentq(f, 0, 3, xtol=1e-15, rtol=1e-14)
    K = ckmutil.ckm.ckm_tree(p['Vus'], p['Vub'], p['Vcb'], p['gamma'])
    y = lambda *m: np.diag(m) * sqrt(2) / v
    return dict(g=gb * (1 - C['phiW'].real * v2), gp=gpb * (1 - C['phiB'].real * v2), gs=sqrt(4 * pi * p['alpha_s']) * (1 - C['phiG'].real * v2),
                Lambda=lam, m2=lam * v2 / 2 - 0.75 * cp * v2 ** 2,
                Gu=K.conj().T @ y(p['m_u'], p['m_c'], p['m_t']) + C['uphi'] * v2 / 2,
                Gd=y(p['m_d'], p['m_s'], p['m_b']) + C['dphi'] * v2 / 2,
                Ge=y(p['m_e'], p['m_mu'], p['m_tau']) + C['ephi'] * v2 / 2)


def rotate(C, U):
    out = {}
    for n, a in C.items():
        if n in SMF:
            a = np.asarray(a)
            for ax, (f, conj) in enumerate(SMF[n]):
                a = np.moveaxis(np.tensordot(a, U[f].conj() if conj else U[f], axes=(ax, 0)), -1, ax)
        out[n] = a
    return out


def masses(C, v=V0):
    h = v * v / 2
    return {a: v / sqrt(2) * (C['G' + a] - C[a + 'phi'] * h) for a in 'eud'}


def default_basis(C):
    M = masses(C)
    UeL, _, UeR = ckmutil.diag.msvd(M['e'])
    UuL, _, UuR = ckmutil.diag.msvd(M['u'])
    UdL, _, UdR = ckmutil.diag.msvd(M['d'])
    Un, _ = ckmutil.diag.mtakfac(-V0 ** 2 * C['llphiphi'])
    UuL, UdL, UuR, UdR = ckmutil.phases.rephase_standard(UuL, UdL, UuR, UdR)
    Un, UeL, UeR = ckmutil.phases.rephase_pmns_standard(Un, UeL, UeR)
    return rotate(C, dict(q=UdL, u=UuR, d=UdR, l=UeL, e=UeR))


def beta(C, newphys=True):
    from wilson.run.smeft import beta as B
    b = B.beta(C, newphys=newphys)
    b = dict(b)
    for n, c in (("ee", 6), ("qqql", 8)):
        b[n] = symm.project(c, b[n])      # the Lagrangian only depends on the part with the symmetry of the operator
    return {k: b[k] / (16 * pi ** 2) for k in smeft.ALL}


def add(C, h, b):
    return {k: C[k] + h * b[k] for k in C}


def evolve(C, a, b, steps, newphys=True):
    """classical Runge-Kutta with fixed steps in ln(mu)"""
    h = log(b / a) / steps
    for _ in range(steps):
        k1 = beta(C, newphys)
        k2 = beta(add(C, h / 2, k1), newphys)
        k3 = beta(add(C, h / 2, k2), newphys)
        k4 = beta(add(C, h, k3), newphys)
        C = {k: C[k] + h / 6 * (k1[k] + 2 * k2[k] + 2 * k3[k] + k4[k]) for k in C}
    return C


def leadinglog(C, a, b):
    return add(C, log(b / a), beta(C))


SMK = smeft.SM0 + smeft.SM2


def sm_at(C, scale, steps, p):
    """SM parameters at `scale`, for constant Wilson coefficients C"""
    X = dict(C)
    X.update(smpar_in(C, p))
    X = {k: np.asarray(v, dtype=complex) for k, v in X.items()}
    X = default_basis(evolve(X, MZ, scale, steps, newphys=False)) if scale != MZ else default_basis(X)
    return {k: X[k] for k in SMK}


def start(values, scale, p, steps=4):
    C = load(values)
    C.update(sm_at(C, scale, steps, p))
    low = leadinglog(C, scale, MZ)
    C.update(sm_at({k: low[k] for k in smeft.NAMES}, scale, steps, p))
    return C


# ---- comparison modulo unphysical phases -------------------------------
def charge(w):
    """(L1, L2, L3, B) charges of the coefficient under rephasing of the lepton flavours and of all quarks"""
    n = w.split('_')[0]
    q = [0, 0, 0, 0]
    if n in F:
        if symm.CLASS['SMEFT'][n] == 0:
            return tuple(q)
        ix = w.split('_')[1]
        for (f, conj), i in zip(F[n], ix):
            s = -1 if conj else 1
            if f in 'le':
                q[int(i) - 1] += s
            else:
                q[3] += s
    return tuple(q)


_Q = {}


def align(got, want):
    """rephase `got` to `want`: the lepton flavour and baryon number phases are a convention"""
    if not _Q:
        for w, r, s in smeft.warsaw():
            c = charge(w)
            if any(c):
                _Q[w] = c
    ks = sorted((k for k in _Q if abs(want.get(k, 0)) > 0 and abs(got.get(k, 0)) > 0), key=lambda k: -min(abs(want[k]), abs(got[k])))
    rows, rhs = [], []
    M = np.zeros((0, 4))
    for unit in (True, False):
        for k in ks:
            c = _Q[k]
            if (max(map(abs, c[:3])) <= 1) != unit:
                continue
            N = np.vstack([M, c])
            if np.linalg.matrix_rank(N) > len(M):
                M = N
                rhs.append(np.angle(want[k] / got[k]))
            if len(M) == 4:
                break
    if not len(M):
        return got
    phi = np.linalg.pinv(M) @ np.array(rhs)
    return {k: z * np.exp(1j * np.dot(_Q[k], phi)) if k in _Q else z for k, z in got.items()}
