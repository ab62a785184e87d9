"""Independent composition of the RunDec primitives, always on fresh objects.

b threshold at 4.8 GeV, c at 1.3 GeV, t at 170 GeV; masses start from m_b(m_b)
in 5, m_c(m_c) in 4 and m_s(2 GeV) in 3 flavours.
"""
import math
import rundec

MZ = 91.1876
MB, MC, MT = 4.8, 1.3, 170


def crd(m=None, nf=None):
    c = rundec.CRunDec()
    if m is not None:
        c.nfMmu.Mth = m
        c.nfMmu.muth = m
        c.nfMmu.nf = nf
    return c


def ok(scale, f):
    if not scale > 0:
        raise ValueError('scale')
    if f not in (3, 4, 5, 6):
        raise ValueError('f')


def alpha_s(scale, f, alphasMZ=0.1185, loop=3):
    ok(scale, f)
    if f == 5:
        r = alphasMZ if scale == MZ else crd().AlphasExact(alphasMZ, MZ, scale, 5, loop)
    elif f == 6:
        c = crd(MT, 6)
        r = c.AlL2AlH(alphasMZ, MZ, c.nfMmu, scale, loop)
    elif f == 4:
        c = crd(MB, 5)
        r = c.AlH2AlL(alphasMZ, MZ, c.nfMmu, scale, loop)
    else:
        c = crd(MB, 5)
        a = c.AlH2AlL(alphasMZ, MZ, c.nfMmu, MC, loop)
        c = crd(MC, 4)
        r = c.AlH2AlL(a, MC, c.nfMmu, scale, loop)
    if r == 0:
        raise ValueError('Landau pole')
    return r


def m_b(m, scale, f, alphasMZ=0.1185, loop=3):
    ok(scale, f)
    if scale == m and f == 5:
        return m
    a0 = alpha_s(m, 5, alphasMZ, loop)
    if f == 5:
        return crd().mMS2mMS(m, a0, alpha_s(scale, 5, alphasMZ, loop), 5, loop)
    if f == 6:
        c = crd(MT, 6)
        return c.mL2mH(m, a0, m, c.nfMmu, scale, loop)
    c = crd(MB, 5)
    if f == 4:
        return c.mH2mL(m, a0, m, c.nfMmu, scale, loop)
    m1 = c.mH2mL(m, a0, m, c.nfMmu, MC, loop)
    c = crd(MC, 4)
    return c.mH2mL(m1, alpha_s(MC, 4, alphasMZ, loop), MC, c.nfMmu, scale, loop)


def m_c(m, scale, f, alphasMZ=0.1185, loop=3):
    ok(scale, f)
    if f == 6:
        raise ValueError('f')
    if scale == m and f == 4:
        return m
    a0 = alpha_s(m, 4, alphasMZ, loop)
    if f == 4:
        return crd().mMS2mMS(m, a0, alpha_s(scale, 4, alphasMZ, loop), 4, loop)
    if f == 3:
        c = crd(MC, 4)
        return c.mH2mL(m, a0, m, c.nfMmu, scale, loop)
    c = crd(MB, 5)
    return c.mL2mH(m, a0, m, c.nfMmu, scale, loop)


def m_s(m, scale, f, alphasMZ=0.1185, loop=3):
    ok(scale, f)
    if f == 6:
        raise ValueError('f')
    if scale == 2 and f == 3:
        return m
    a0 = alpha_s(2, 3, alphasMZ, loop)
    if f == 3:
        return crd().mMS2mMS(m, a0, alpha_s(scale, 3, alphasMZ, loop), 3, loop)
    c = crd(MC, 4)
    if f == 4:
        return c.mL2mH(m, a0, 2, c.nfMmu, scale, loop)
    m1 = c.mL2mH(m, a0, 2, c.nfMmu, MC, loop)
    c = crd(MB, 5)
    return c.mL2mH(m1, alpha_s(MC, 4, alphasMZ, loop), MC, c.nfMmu, scale, loop)


def call(fn, *a, **k):
    try:
        v = fn(*a, **k)
        return ('value', v)
    except ValueError:
        return ('ValueError', None)


def same(x, y, tol=1e-11):
    if x[0] != y[0]:
        return False
    if x[0] != 'value':
        return True
    a, b = x[1], y[1]
    if a != a or b != b:
        return (a != a) and (b != b)
    return abs(a - b) <= tol * abs(b)


# independent: MS-bar beta function, d alpha/d ln mu^2 = -alpha sum b_n (alpha/4pi)^(n+1)
Z3 = 1.2020569031595942


def beta(a, nf, loop):
    b = [11 - 2 * nf / 3,
         102 - 38 * nf / 3,
         2857 / 2 - 5033 * nf / 18 + 325 * nf**2 / 54,
         149753 / 6 + 3564 * Z3 - (1078361 / 162 + 6508 * Z3 / 27) * nf
         + (50065 / 162 + 6472 * Z3 / 81) * nf**2 + 1093 * nf**3 / 729]
    x = a / (4 * math.pi)
    return -a * sum(bn * x**(n + 1) for n, bn in enumerate(b[:loop]))
