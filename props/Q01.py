"""Q01 QCD coupling and running masses: values, domain and identities."""
import math
import numpy as np
from lib import qcdref as ref

BOUNDS = {'quick': 'function x flavour number {2..7, 3.5, 0, -1} x 29 scales (incl. thresholds and both float neighbours of the start points, 0, negative, below the Landau pole) '
                   'x 3 alpha_s(MZ) x loop 1..5 x 3 masses, all combinations; beta-function residual on the same grid',
          'thorough': '61 scales, 7 alpha_s(MZ), 5 masses'}
ASSUMPTIONS = ['rundec is the trusted primitive: the oracle is an independent composition of its primitives on fresh objects, '
               'with the thresholds documented by the flavour number conventions (4.8, 1.3, 170 GeV)']
SC = [-1, 0, 0.0, 0.3, 0.5, 0.7, 1, 1.2, 1.25, 1.3, 1.5, 1.9, 2, 2.0, 2.5, 3, 4.2, 4.5, 4.8, 10, 30, 80, 91.1876, 100, 160, 170, 200, 1000, 1e4]
AS = [0.1185, 0.11, 0.125]
MASS = {'m_b': [4.2, 4.163, 4.8], 'm_c': [1.2, 1.279, 1.3], 'm_s': [0.1, 0.093, 0.12]}
FL = [2, 3, 4, 5, 6, 7, 3.5, 0, -1]


def grid(tier):
    if tier == 'quick':
        return SC, AS, MASS
    return (SC + [float(x) for x in np.geomspace(0.4, 5e4, 32)], AS + [0.1181, 0.1, 0.13, 0.09],
            {'m_b': MASS['m_b'] + [4.0, 5.0], 'm_c': MASS['m_c'] + [1.0, 1.5], 'm_s': MASS['m_s'] + [0.05, 0.2]})


def cases(tier):
    sc, als, mass = grid(tier)
    out = []
    for loop in range(1, 6):
        for a in als:
            for f in FL:
                out.append(['alpha_s', tier, f, a, loop, None])
                for fn in ('m_b', 'm_c', 'm_s'):
                    for m in mass[fn]:
                        out.append([fn, tier, f, a, loop, m])
    return out


def check(case, rec):
    from wilson.util import qcd
    fn, tier, f, a, loop, m = case
    sc = list(grid(tier)[0])
    if m is not None:
        sc += [m, float(np.nextafter(m, 0)), float(np.nextafter(m, 10))]
    impl, want_fn = getattr(qcd, fn), getattr(ref, fn)
    head = () if m is None else (m,)
    for s in sc:
        args = head + (s, f)
        got = ref.call(impl, *args, alphasMZ=a, loop=loop)
        want = ref.call(want_fn, *args, alphasMZ=a, loop=loop)
        key = '%s%r' % (fn, args + (a, loop))
        rec.expect(ref.same(got, want), key, lambda: '%s is %r, the composition of the primitives gives %r' % (key, got, want))
        rec.step()
        rec.state(fn, s, f, a, loop, m)
        if fn == 'alpha_s' and want[0] == 'value' and loop <= 4 and f == 5 and s > 1.5:
            h = 1e-3
            up, dn = impl(s * math.exp(h / 2), f, a, loop), impl(s * math.exp(-h / 2), f, a, loop)
            num = (up - dn) / (2 * h)
            b = ref.beta(got[1], f, loop)
            rec.expect(abs(num - b) <= 2e-3 * abs(b) , 'ode' + key, lambda: 'd alpha/d ln mu^2 is %r, beta function %r' % (num, b))
    # defaults are alpha_s(MZ)=0.1185 and three loops
    if a == 0.1185 and loop == 3:
        for s in sc:
            args = head + (s, f)
            rec.expect(ref.same(ref.call(impl, *args), ref.call(want_fn, *args)), 'default:%s%r' % (fn, args), 'defaults are not (0.1185, 3)')
    # the flavour number decides, not the position of the scale: identity points are exact, neighbours continuous
    if f in (3, 4, 5):
        start = {'alpha_s': (91.1876, 5, a), 'm_b': (m, 5, m), 'm_c': (m, 4, m), 'm_s': (2, 3, m)}[fn]
        if f == start[1]:
            v = impl(*(head + (start[0], f)), alphasMZ=a, loop=loop)
            rec.expect(v == start[2], 'start:%s' % key, lambda: 'initial condition returned as %r' % v)
        s0 = start[0]
        lo = impl(*(head + (s0 * (1 - 1e-7), f)), alphasMZ=a, loop=loop)
        mid = impl(*(head + (s0, f)), alphasMZ=a, loop=loop)
        hi = impl(*(head + (s0 * (1 + 1e-7), f)), alphasMZ=a, loop=loop)
        rec.expect(abs(lo - mid) < 2e-4 * abs(mid) and abs(hi - mid) < 2e-4 * abs(mid), 'jump:%s' % key,
                   lambda: 'jump at the start scale %r: %r %r %r' % (s0, lo, mid, hi))
    rec.trace()
    rec.sample(key)
