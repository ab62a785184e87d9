"""R04 WET evolution: sectors, call forms and histories do not matter."""
import copy
import itertools
import numpy as np
from lib import trans
from props.R01 import PAR

BOUNDS = {'quick': '3 theories: every single sector and every pair of small sectors against the full run; all ordered sequences of 2 runs out of 14 near-identical requests (theory, scale, one parameter, order, sectors) '
                   'in one process against fresh processes; all orders of 4 operations on one runner; call forms of parameters; continuous solution on a grid',
          'thorough': 'all sequences of 3 requests; every pair of sectors'}
ASSUMPTIONS = ['requests are restricted to a few sectors where only the history matters']
SC = {'WET': (91.1876, 4.8), 'WET-4': (4.2, 2.0), 'WET-3': (2.2, 1.4)}
BASE = ('WET', 91.1876, 4.8, {}, {}, ('sb', 'mue', 'sbsb', 'cu'))


def requests():
    """request = theory, scales, parameters, orders, sectors; each differs from the first in one respect"""
    e, a, b, p, o, s = BASE
    out = [BASE]
    for q in ({'m_mu': 0.2}, {'m_s': 0.2}, {'m_b': 4.5}, {'alpha_e': 1 / 100}, {'alpha_s': 0.13}, {'m_tau': 2.5}, {'m_c': 1.5}):
        out.append((e, a, b, q, o, s))
    out += [(e, a, b, p, {'qed_order': 0}, s), (e, a, b, p, {'qcd_order': 0}, s), (e, a, 10.0, p, o, s), (e, 40.0, b, p, o, s), (e, b, a, p, o, s),
            ('WET-4', 4.8, 2.0, p, o, ('cu', 'mue', 'sdsd'))]
    return out


def cases(tier):
    out = []
    n = len(requests())
    d = 2 if tier == 'quick' else 3
    for i in range(n):
        for rest in ([None] if d == 2 else range(n)):
            out.append(['history', i, rest, d])
    for eft in SC:
        for v in (0, 1):
            out.append(['sectors', eft, v, tier])
        out.append(['forms', eft])
        for perm in itertools.permutations(range(4)):
            out.append(['runner', eft, list(perm)])
        out.append(['continuous', eft])
    return out


ISOLATE = True
CHUNK = 2


def check(case, rec):
    globals()[case[0]](case, rec)


def runner(case, rec):
    """operations on one runner in every order"""
    from wilson.run.wet import WETrunner
    _, eft, perm = case
    a, b = SC[eft]
    secs = small(eft)
    w = trans.wc(eft, 'JMS', {k: z for k, z in trans.dense(eft, 'JMS').items() if sector_of(eft)[k] in secs}, a)
    before = copy.deepcopy((w.values, w.scale, w.eft, w.basis))
    c = (a * b) ** 0.5
    ops = [lambda r: r.run(b, sectors=secs).dict, lambda r: r.run(c, sectors=secs[:1]).dict, lambda r: r.run_continuous(b, sectors=secs).fun(c),
           lambda r: r.run(a).dict]
    one = WETrunner(w)
    C0 = dict(one.C_in)
    P0 = dict(one.parameters)
    for i in perm:
        got = ops[i](one)
        want = ops[i](WETrunner(w))
        rec.state(eft, tuple(perm), i)
        rec.step(2)
        rec.trace(2)
        bad = trans.diff(dict(got), dict(want), rtol=1e-13)
        rec.expect(not bad, 'runner:%s' % eft, lambda: 'operation %d in sequence %s: %s' % (i, perm, trans.show(bad)))
    rec.expect(dict(one.C_in) == C0 and dict(one.parameters) == P0, 'runner-state', 'running changed the state of the runner')
    rec.expect((w.values, w.scale, w.eft, w.basis) == before, 'input', 'running changed the input coefficients')


def sector_of(eft):
    return {k: s for k, r, s in trans.keys(eft, 'JMS')}


def small(eft):
    s = set(sector_of(eft).values())
    return tuple(x for x in ('mue', 'sdsd', 'usenu', 'sdnunu', 'sd') if x in s)


def sectors(case, rec):
    from wilson.run.wet import WETrunner
    _, eft, v, tier = case
    a, b = SC[eft]
    so = sector_of(eft)
    d = trans.dense(eft, 'JMS', 0.2 + v)
    w = trans.wc(eft, 'JMS', d, a)
    r = WETrunner(w, parameters=PAR[v])
    full = r.run(b)
    rec.expect((full.eft, full.basis, full.scale) == (eft, 'JMS', b), 'header', str((full.eft, full.basis, full.scale)))
    full.validate()
    missing = [k for k in so if k not in full.dict]
    rec.expect(not missing, 'complete:%s' % eft, lambda: 'coefficients lost in the evolution: %s' % missing[:5])
    secs = sorted(set(so.values()))
    todo = [(s,) for s in secs]
    few = secs if tier != 'quick' else [s for i, s in enumerate(secs) if i % 7 == 0] + list(small(eft))
    todo += [p for p in itertools.combinations(few, 2)]
    todo += [tuple(secs), tuple(reversed(secs)), secs[:3], set(secs[:3]), frozenset(secs[2:5])]
    for t in todo:
        got = r.run(b, sectors=t).dict
        want = {k: z for k, z in full.dict.items() if so[k] in t}
        rec.state(eft, v, tuple(sorted(t)))
        rec.step()
        rec.trace()
        bad = trans.diff(got, want, rtol=1e-13)
        rec.expect(not bad, 'sectors:%s:%s' % (eft, '+'.join(sorted(t))[:60]), lambda: 'run(sectors=%s): %s' % (t, trans.show(bad)))


def forms(case, rec):
    """partial, full and absent parameter dictionaries; argument spelling; parameters are read, not kept by reference or changed"""
    from wilson.run.wet import WETrunner
    from wilson import parameters
    _, eft = case
    a, b = SC[eft]
    secs = small(eft)
    so = sector_of(eft)
    w = trans.wc(eft, 'JMS', {k: z for k, z in trans.dense(eft, 'JMS').items() if so[k] in secs}, a)
    base = WETrunner(w).run(b, sectors=secs).dict
    P = dict(parameters.p)
    same = [WETrunner(w, None).run(b, secs).dict, WETrunner(w, {}).run(b, secs).dict, WETrunner(w, dict(P)).run(b, secs).dict,
            WETrunner(w, parameters=dict(P), qed_order=1, qcd_order=1).run(scale_out=b, sectors=secs).dict,
            WETrunner(w, {'m_b': P['m_b']}).run(b, secs).dict, WETrunner(w, {'unused': 1.0}).run(b, secs).dict, WETrunner(w, {'m_h': 1.0, 'Vub': 3.0}).run(b, secs).dict]
    for i, x in enumerate(same):
        bad = trans.diff(x, base, rtol=1e-13)
        rec.state(eft, 'form', i)
        rec.step()
        rec.trace()
        rec.expect(not bad, 'forms:%s:%d' % (eft, i), lambda: trans.show(bad))
    mine = {'m_b': 4.4, 'alpha_s': 0.12}
    r = WETrunner(w, mine)
    one = r.run(b, secs).dict
    rec.expect(mine == {'m_b': 4.4, 'alpha_s': 0.12}, 'forms:dict', 'the parameter dictionary of the caller was changed')
    rec.expect(dict(parameters.p) == P, 'forms:defaults', 'the default parameters were changed')
    bad = trans.diff(WETrunner(w, dict(P, **mine)).run(b, secs).dict, one, rtol=1e-13)
    rec.expect(not bad, 'forms:partial:%s' % eft, lambda: trans.show(bad))
    bad = trans.diff(WETrunner(w).run(b, secs).dict, base, rtol=1e-13)
    rec.expect(not bad, 'forms:leak:%s' % eft, lambda: 'parameters of one runner affect another: %s' % trans.show(bad))
    # each parameter the evolution depends on is honoured
    for p in ('alpha_s', 'alpha_e', 'm_s') + (('m_mu',) if 'mue' in secs else ()):
        x = WETrunner(w, {p: 1.2 * P[p]}).run(b, secs).dict
        rec.expect(bool(trans.diff(x, base, rtol=1e-9)), 'forms:ignored:%s:%s' % (eft, p), 'parameter %s is ignored' % p)


def continuous(case, rec):
    from wilson.run.wet import WETrunner
    _, eft = case
    a, b = SC[eft]
    so = sector_of(eft)
    secs = small(eft)
    w = trans.wc(eft, 'JMS', {k: z for k, z in trans.dense(eft, 'JMS', 0.9).items() if so[k] in secs}, a)
    for lo, hi, target in ((b, a, b), (a, a * 1.3, a * 1.3)):
        s = WETrunner(w).run_continuous(target, sectors=secs)
        rec.expect((s.scale_min, s.scale_max) == (lo, hi), 'continuous:range', str((s.scale_min, s.scale_max)))
        keys = [k for k in so if so[k] in secs and k in w.dict][::25]
        for scale in ('log', 'linear'):
            for part in ('re', 'im'):
                for k in keys:
                    x, y = s.plotdata(k, part=part, scale=scale, steps=4)
                    rec.state(eft, target, scale, part, k)
                    rec.step(4)
                    rec.trace()
                    want = np.geomspace(lo, hi, 4) if scale == 'log' else np.linspace(lo, hi, 4)
                    rec.expect(np.allclose(x, want, rtol=1e-12), 'continuous:grid:%s' % scale, lambda: '%s, expected %s' % (x, want))
                    z = [complex(WETrunner(w).run(q, sectors=secs).dict.get(k, 0)) for q in x]
                    z = [q.real if part == 're' else q.imag for q in z]
                    rec.expect(np.allclose(y, z, rtol=1e-10, atol=1e-13), 'continuous:%s:%s' % (eft, k), lambda: '%s %s on %s: %s, discrete runs give %s' % (k, part, x, y, z))
    try:
        WETrunner(w).run_continuous(a)
        rec.fail('continuous:same', 'a continuous solution between equal scales was returned')
    except ValueError:
        pass


_FRESH = {}


def one(r):
    from wilson.run.wet import WETrunner
    eft, a, b, p, o, s = r
    so = sector_of(eft)
    w = trans.wc(eft, 'JMS', {k: z for k, z in trans.dense(eft, 'JMS', 0.1).items() if so[k] in s}, a)
    return WETrunner(w, parameters=p, **o).run(b, sectors=s).dict


def setup(tier):
    """results of every request in a process of its own"""
    import pickle
    import os
    for i, r in enumerate(requests()):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                with os.fdopen(wr, 'wb') as f:
                    try:
                        f.write(pickle.dumps(one(r)))
                    except BaseException as e:
                        f.write(pickle.dumps(repr(e)))
            finally:
                os._exit(0)
        os.close(wr)
        with os.fdopen(rd, 'rb') as f:
            _FRESH[i] = pickle.loads(f.read())
        os.waitpid(pid, 0)
        if isinstance(_FRESH[i], str):
            raise RuntimeError('request %s fails: %s' % (r, _FRESH[i]))


def history(case, rec):
    _, i, j, d = case
    R = requests()
    for k in range(len(R)):
        seq = [i, k] if d == 2 else [i, j, k]
        for n, q in enumerate(seq):
            got = one(R[q])
            rec.step()
            rec.trace()
            rec.state(tuple(seq[:n + 1]))
            bad = trans.diff(got, _FRESH[q], rtol=1e-12)
            rec.expect(not bad, 'history:%d' % q, lambda: 'request %s after %s: %s' % (R[q], [R[t] for t in seq[:n]], trans.show(bad)))
