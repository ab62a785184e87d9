"""R02 WET evolution commutes with the symmetries of QCD and QED."""
from lib import trans, wetsym as ws
from props.R01 import PAR, dipole, run, worst

BOUNDS = {'quick': '3 theories x 2 scale pairs x 2 parameter points x all orders x (parity, CP, generators of all flavour permutations), dense inputs covering every coefficient with an image',
          'thorough': '4 scale pairs, 3 inputs, and every sector separately'}
ASSUMPTIONS = ['permutations of flavours of different mass act on the masses as well where the code treats the masses alike (leptons, d and s), else the check is restricted to four-fermion sources and targets']
PAIRS = {'WET': ((120.0, 20.0), (6.0, 91.1876), (91.1876, 4.8), (3.0, 2.5)), 'WET-4': ((4.2, 2.1), (1.5, 3.9), (4.8, 1.3), (2.0, 2.01)),
         'WET-3': ((2.5, 1.6), (1.4, 2.2), (1.3, 1.29), (1.8, 2.6))}
ORD = ({}, {'qed_order': 0}, {'qcd_order': 0})
LEP = {'e12': ((1, 0, 2), ('m_e', 'm_mu')), 'e23': ((0, 2, 1), ('m_mu', 'm_tau'))}


def syms(eft):
    out = ['P', 'CP', 'e12', 'nu12', 'nu23', 'ds'] + ([] if eft == 'WET-3' else ['uc']) + (['sb'] if eft == 'WET' else [])
    return out + (['e23'] if eft != 'WET-3' else [])


def cases(tier):
    out = []
    for eft in PAIRS:
        for v in PAR:
            for p in PAIRS[eft][:2 if tier == 'quick' else 4]:
                for o in range(3):
                    out.append([eft, v, list(p), o, tier])
    return out


def maps(eft, s, keys):
    """image of every coefficient, parameter swap, restriction"""
    K = set(keys)
    if s == 'P':
        return {k: ws.parity(k, K) for k in keys}, (), None
    if s == 'CP':
        return {k: (k, -1 if k == 'Gtilde' else 1, True) for k in keys}, (), None
    if s in LEP:
        p, m = LEP[s]
        return {k: ws.permute(k, {'e': p, 'nu': p}, K) for k in keys}, m, None
    p = {'nu12': {'nu': (1, 0, 2)}, 'nu23': {'nu': (0, 2, 1)}, 'ds': {'d': (1, 0, 2)}, 'uc': {'u': (1, 0, 2)}, 'sb': {'d': (0, 2, 1)}}[s]
    four = s in ('uc', 'sb')
    return {k: ws.permute(k, p, K) for k in keys if not four or not dipole(k)}, ('m_d', 'm_s') if s == 'ds' else (), four


def check(case, rec):
    from wilson.parameters import p as P0
    eft, v, (a, b), o, tier = case
    par = dict(P0, **PAR[v])
    keys = [k for k, r, s in trans.keys(eft, 'JMS')]
    phases = (0.0,) if tier == 'quick' else (0.0, 1.3, 2.9)
    inputs = [trans.dense(eft, 'JMS', ph) for ph in phases]
    if tier != 'quick':
        sec = {}
        for k, r, s in trans.keys(eft, 'JMS'):
            sec.setdefault(s, {})[k] = inputs[0][k]
        inputs += [sec[s] for s in sorted(sec)]
    for s in syms(eft):
        im, swap, four = maps(eft, s, keys)
        par2 = dict(par)
        if swap:
            par2[swap[0]], par2[swap[1]] = par[swap[1]], par[swap[0]]
        for i, d in enumerate(inputs):
            d = {k: z for k, z in d.items() if im.get(k)}
            x = run(eft, d, a, b, par, **ORD[o])
            y = run(eft, ws.act(d, im), a, b, par2, **ORD[o])
            sx = ws.act(x, im)
            rec.state(eft, v, a, b, o, s, i)
            rec.step(len(d))
            rec.trace(2)
            sel = (lambda k: not dipole(k)) if four else (lambda k: True)
            lost = [k for k, z in x.items() if not im.get(k) and abs(z) > 1e-9 and sel(k)] if s != 'P' else []
            rec.expect(not lost, 'range:%s:%s' % (s, eft), lambda: '%s: coefficients outside of the symmetric set generated: %s' % (s, lost[:5]))
            if s == 'P':
                # neutrino operators violate parity; they generate no others, and others may not generate them
                bad = worst(y, sx, sel, 1e-9)
                nu = [k for k in x if not im.get(k) and abs(x[k]) > 1e-12]
                rec.expect(not nu or all('nu' in ws.fields(k.split('_')[0]) for k in nu), 'range:P:%s' % eft, lambda: str(nu[:5]))
            else:
                bad = worst(y, sx, sel, 1e-9)
            rec.expect(not bad, 'sym:%s:%s:%d' % (s, eft, o), lambda: '%s, %s -> %s GeV, orders %s: running and %s do not commute: %s' % (eft, a, b, ORD[o], s, trans.show(bad)))
    # real-linear, no mixing between sectors
    d = inputs[0]
    full = run(eft, d, a, b, par, **ORD[o])
    e = trans.dense(eft, 'JMS', 2.2)
    comb = run(eft, {k: 0.7 * d[k] - 2.5 * e[k] for k in d}, a, b, par, **ORD[o])
    fe = run(eft, e, a, b, par, **ORD[o])
    bad = worst(comb, {k: 0.7 * full.get(k, 0) - 2.5 * fe.get(k, 0) for k in set(full) | set(fe)}, lambda k: True, 1e-9)
    rec.expect(not bad, 'linear:%s' % eft, lambda: trans.show(bad))
    for f in (1e-30, 1e-9, -1.0, 1e6):
        g = run(eft, {k: f * z for k, z in d.items()}, a, b, par, **ORD[o])
        bad = worst({k: z / f for k, z in g.items()}, full, lambda k: True, 1e-9)
        rec.expect(not bad, 'scaling:%s' % eft, lambda: 'input multiplied by %g: %s' % (f, trans.show(bad)))
    im = [(k, z) for k, r, s in trans.keys(eft, 'JMS') if r for z in [complex(full.get(k, 0))] if abs(z.imag) > 1e-10 * max(1, abs(z))]
    rec.expect(not im, 'real:%s' % eft, lambda: '%s -> %s GeV: coefficients of hermitian operators become complex: %s' % (a, b, im[:5]))
    rec.expect(not run(eft, {}, a, b, par, **ORD[o]) and not run(eft, {k: 0 for k in d}, a, b, par, **ORD[o]), 'zero:%s' % eft, 'nothing in, something out')
    sec = {}
    for k, r, s in trans.keys(eft, 'JMS'):
        sec.setdefault(s, set()).add(k)
    for s, ks in sorted(sec.items()):
        part = run(eft, {k: d[k] for k in ks}, a, b, par, **ORD[o])
        rec.state(eft, v, a, b, o, 'sector', s)
        rec.step()
        rec.trace()
        leak = set(part) - ks
        rec.expect(not leak, 'block:%s:%s' % (eft, s), lambda: 'coefficients of sector %s generate %s' % (s, sorted(leak)[:5]))
        bad = worst(part, {k: z for k, z in full.items() if k in ks}, lambda k: True, 1e-10)
        rec.expect(not bad, 'block:%s:%s' % (eft, s), lambda: 'sector %s depends on other sectors: %s' % (s, trans.show(bad)))
