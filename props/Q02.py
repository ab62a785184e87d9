"""Q02 A QCD result does not depend on what was computed before (memoisation, shared state)."""
import itertools
from lib import qcdref as ref

CALLS = [
    ('alpha_s', (91.1876, 5), {}),
    ('alpha_s', (91.1876, 5), {'alphasMZ': 0.11}),
    ('alpha_s', (91.1876, 4), {}),
    ('alpha_s', (2, 4), {}),
    ('alpha_s', (2.0, 3), {'loop': 4}),
    ('alpha_s', (200, 6), {'alphasMZ': 0.11}),
    ('alpha_s', (-1, 5), {}),
    ('alpha_s', (0.1, 3), {}),
    ('alpha_s', (2, 3, 0.1185, 2), {}),
    ('m_b', (4.2, 4.2, 5), {}),
    ('m_b', (4.2, 4.2, 4), {'loop': 2}),
    ('m_b', (4.2, 1, 3), {'alphasMZ': 0.11}),
    ('m_c', (1.2, 50, 5), {}),
    ('m_c', (1.2, 1.2, 4), {'alphasMZ': 0.11}),
    ('m_c', (1.2, 1.2, 3), {}),
    ('m_s', (0.1, 2, 3), {'loop': 2}),
    ('m_s', (0.1, 4.2, 5), {'alphasMZ': 0.125}),
    ('m_s', (0.1, 2, 6), {}),
]
FLOOD = [('alpha_s', (10 + i, 5), {}) for i in range(40)]
BOUNDS = {'quick': 'all call sequences of length <= 3 over %d calls (values, keyword/positional/int/float spellings, failing calls), each in a fresh process; '
                   'all ordered pairs again across a flood of 40 calls; each call before and after one with a scale or mass that differs by 1e-4 to 1e-13' % len(CALLS),
          'thorough': 'length <= 4'}
ISOLATE = True


def cases(tier):
    n = len(CALLS)
    out = [['flood', i, j] for i in range(n) for j in range(n)]
    # the last calls of a sequence are enumerated inside one case only through its own prefix: one process per prefix
    depth = 3 if tier == 'quick' else 4
    for k in range(1, depth + 1):
        out += [['seq'] + list(p) for p in itertools.product(range(n), repeat=k)]
    out += [['near', i, j] for i in range(len(NEAR)) for j in (0, 1)]
    return out


def _near():
    out = []
    for f, a, k in CALLS:
        for n, x in enumerate(a):
            if n == len(a) - 1 and n or isinstance(x, int) and x < 0 or n == len(a) - 2 and n == 2:
                continue        # flavours, loops
            for d in (1e-4, 1e-5, 1e-7, 1e-9, 1e-13):
                out.append(((f, a, k), (f, a[:n] + (x * (1 + d),) + a[n + 1:], k)))
    return out


NEAR = _near()
_WANT = {}


def setup(tier):
    for c in CALLS + FLOOD + [b for a, b in NEAR]:
        _WANT[repr(c)] = ref.call(getattr(ref, c[0]), *c[1], **c[2])


def check(case, rec):
    from wilson.util import qcd

    def do(c, key):
        got = ref.call(getattr(qcd, c[0]), *c[1], **c[2])
        want = _WANT[repr(c)]
        rec.expect(ref.same(got, want), key, lambda: '%r after %s gives %r, on its own %r' % (c, key, got, want))
        rec.step()
    key = repr(case)
    if case[0] == 'flood':
        do(CALLS[case[1]], key)
        for c in FLOOD:
            do(c, key)
        do(CALLS[case[2]], key)
        do(CALLS[case[1]], key)
    elif case[0] == 'near':
        pair = NEAR[case[1]]
        do(pair[case[2]], key)
        do(pair[1 - case[2]], key)
        do(pair[case[2]], key)
    else:
        for i in case[1:]:
            do(CALLS[i], key)
        # and the first call again
        do(CALLS[case[1]], key)
    rec.state(*case)
    rec.trace()
    rec.sample(key)
