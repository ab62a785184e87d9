"""Complete linear maps of the registered basis translators and EFT matchers."""
import numpy as np

SCALE = {'SMEFT': 600.0, 'WET': 120.0, 'WET-4': 3.5, 'WET-3': 1.4, 'WET-2': 0.9}
# a parameter point that differs from the default in every entry
PAR = {'m_W': 80.6, 'm_Z': 91.3, 'm_h': 126.5, 'GF': 1.18e-5, 'alpha_e': 1 / 128.9, 'alpha_s': 0.1195, 'Vus': 0.2261, 'Vub': 3.82e-3,
       'Vcb': 4.32e-2, 'gamma': 1.17, 'm_b': 4.23, 'm_s': 0.099, 'm_c': 1.265, 'm_u': 0.0024, 'm_d': 0.0049, 'm_e': 0.000522,
       'm_mu': 0.1091, 'm_tau': 1.7912}


def point(v):
    return None if v == 0 else dict(PAR)


def keys(eft, basis):
    """[(coefficient, is real, sector)]"""
    from wilson import wcxf
    return [(k, bool((d or {}).get('real')), s) for s, ws in wcxf.Basis[eft, basis].sectors.items() for k, d in ws.items()]


def directions(eft, basis):
    out = []
    for k, r, s in keys(eft, basis):
        out.append((k, 1))
        if not r:
            out.append((k, 1j))
    return out


def wc(eft, basis, values, scale=None):
    from wilson import wcxf
    return wcxf.WC(eft, basis, SCALE[eft] if scale is None else scale, wcxf.WC.dict2values(values))


def dense(eft, basis, ph=0.0, amp=1.0):
    out = {}
    for i, (k, r, s) in enumerate(keys(eft, basis)):
        z = amp * complex(np.cos(0.7 * i * i + ph + 0.1 * len(k)), np.sin(1.3 * i + 2 * ph))
        out[k] = z.real if r else z
    return out


def diff(a, b, keys=None, rtol=1e-9, atol=0.0):
    """keys on which two {coefficient: number} differ; rtol relative to the larger of the two, atol absolute"""
    bad = []
    for k in sorted(set(a) | set(b)) if keys is None else keys:
        x, y = complex(a.get(k, 0)), complex(b.get(k, 0))
        if not abs(x - y) <= atol + rtol * max(abs(x), abs(y)):
            bad.append((k, x, y))
    return bad


def translators():
    """the registered translators between shipped bases, as (eft, from, to)"""
    from wilson import wcxf
    return sorted(wcxf.Translator.instances)


def chunks(n, size):
    return [(i, min(n, i + size)) for i in range(0, n, size)]


def apply(w, to, v, sectors=None):
    return w.translate(to, parameters=point(v) if isinstance(v, int) else v, sectors=sectors).dict


def cmp(got, want, rtol=1e-9, noise=1e-12, floor=0.0):
    """differences beyond rtol; entries below noise * largest entry are rounding noise"""
    m = max([abs(x) for x in got.values()] + [abs(x) for x in want.values()] + [floor])
    return diff(got, want, rtol=rtol, atol=noise * m)


def show(bad, n=5):
    return '; '.join('%s is %s, expected %s' % b for b in bad[:n]) + (' ... (%d)' % len(bad) if len(bad) > n else '')


def is_tensor(k):
    """Bern semileptonic tensor (and its partner) coefficients of charged leptons: absent from the flavio basis"""
    return k[0] in '79' and any(x in k for x in LL)


LL = [a + b for a in ('e', 'mu', 'tau') for b in ('e', 'mu', 'tau')]
