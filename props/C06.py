"""C06 All ways to create a Wilson instance are equivalent, inputs are never changed, and results can be stored and continued."""
import copy
import io
import itertools
import json
from lib import trans
from lib import wilsonref as W

BOUNDS = {'quick': 'all 14 input (EFT, basis), 4 ways of construction, number types, two scales; all reads leave the inputs alone; all ways to pass through one, two or all intermediate steps in the JMS basis (stored as JSON/YAML or not) on the way to each EFT, from each EFT; '
                   'invalid input refused for every (EFT, basis)',
          'thorough': 'all subsets of intermediate steps, with three option sets for the continuation'}
ASSUMPTIONS = ['continuation is compared through the JMS basis, which is complete', 'options are set on every instance of a chain']
SC = {'SMEFT': 91.1876, 'WET': 80.0, 'WET-4': 4.0, 'WET-3': 1.8, 'WET-2': 0.9}
ALL = [(e, b) for e in W.CHAIN for b in W.BASES[e]] + [('WET-2', 'JMS')]
OPTS = [{}, {'parameters': W.PARAMS, 'mb_matchingscale': 4.8, 'mc_matchingscale': 1.6, 'smeft_matchingscale': 120.0}, {'qed_order': 0, 'smeft_matching_order': 1}]


def cases(tier):
    out = [['make', e, b] for e, b in ALL] + [['invalid', e, b] for e, b in ALL]
    for o in range(2 if tier == 'quick' else 3):
        for e in W.CHAIN:
            for e2 in W.CHAIN[1:]:
                if W.reach(e, e2):
                    out += [['chain', o, e, e2, b2, tier] for b2 in ('JMS', 'flavio')]
    return sorted(out, key=lambda c: 'SMEFT' not in c)


CHUNK = 1


def check(case, rec):
    rec.trace()
    globals()[case[0]](case, rec)


def values(e, b, ph=0.3):
    return W.smeft_input(b, ph) if e == 'SMEFT' else trans.dense(e, b, ph)


def make(case, rec):
    import numpy as np
    from wilson import Wilson, wcxf
    _, e, b = case
    d = values(e, b)
    s = SC[e]
    target = {'SMEFT': (91.1876, 'WET', 'flavio'), 'WET': (4.8, 'WET', 'flavio'), 'WET-4': (2.0, 'WET-3', 'flavio'), 'WET-3': (1.5, 'WET-3', 'flavio'), 'WET-2': (0.9, 'WET-2', 'JMS')}[e]
    wc = wcxf.WC(e, b, s, wcxf.WC.dict2values(d))
    streams = {}
    for fmt in ('json', 'yaml'):
        streams[fmt] = io.StringIO(wc.dump(fmt=fmt))
    d0 = dict(d)
    v0 = copy.deepcopy(wc.values)
    ws = {'init': Wilson(d, s, e, b), 'from_wc': Wilson.from_wc(wc), 'json': Wilson.load_wc(streams['json']), 'yaml': Wilson.load_wc(streams['yaml']),
          'numpy': Wilson({k: np.complex128(v) for k, v in d.items()}, np.float64(s), e, b), 'reversed': Wilson(dict(reversed(list(d.items()))), s, e, b)}
    ref = None
    for n, w in ws.items():
        rec.state(e, b, n)
        rec.step()
        rec.expect((w.wc.eft, w.wc.basis, w.wc.scale) == (e, b, s), 'label', lambda: '%s: %s %s %s' % (n, w.wc.eft, w.wc.basis, w.wc.scale))
        bad = trans.diff(dict(w.wc.dict), d0, rtol=1e-15)
        rec.expect(not bad, 'values:%s' % n, lambda: '%s: %s' % (n, trans.show(bad)))
        g = w.match_run(*target).dict
        if ref is None:
            ref = g
        bad = trans.cmp(g, ref, rtol=1e-12, noise=1e-14)
        rec.expect(not bad, 'answer:%s' % n, lambda: '%s: %s' % (n, trans.show(bad)))
        rec.expect(not trans.diff(dict(w.wc.dict), d0, rtol=1e-15) and (w.wc.eft, w.wc.basis, w.wc.scale) == (e, b, s), 'input-state', 'match_run changed the coefficients of the instance')
    rec.expect(d == d0 and list(d) == list(d0), 'caller-dict', 'the dictionary of the caller was changed')
    rec.expect(wc.values == v0, 'caller-wc', 'the WC object of the caller was changed')
    # the instance is independent of what the caller does with the dictionary afterwards
    w = ws['init']
    d.clear()
    rec.expect(not trans.diff(dict(w.wc.dict), d0, rtol=1e-15), 'alias', 'the instance refers to the dictionary of the caller')
    w.clear_cache()
    rec.expect(not trans.cmp(w.match_run(*target).dict, ref, rtol=1e-12, noise=1e-14), 'alias-answer', 'the answer depends on the dictionary of the caller')
    # ... and of what happens to the WC object it was made from, in both directions
    w = ws['from_wc']
    wd = wc.dict
    for k in list(wc.values):
        wc.values[k] = {'Re': 7.0, 'Im': 7.0}
    for k in list(wd):
        wd[k] = 7.0
    rec.expect(not trans.diff(dict(w.wc.dict), d0, rtol=1e-15) and w.wc.values == v0, 'alias-wc', 'the instance refers to the WC object of the caller')
    w.clear_cache()
    rec.expect(not trans.cmp(w.match_run(*target).dict, ref, rtol=1e-12, noise=1e-14), 'alias-wc-answer', 'the answer depends on the WC object of the caller')
    wc.values.clear()
    w.clear_cache()
    rec.expect(not trans.diff(dict(w.wc.dict), d0, rtol=1e-15) and not trans.cmp(w.match_run(*target).dict, ref, rtol=1e-12, noise=1e-14), 'alias-wc-clear', 'the instance refers to the WC object of the caller')
    rec.step(4)
    for z in ({}, ):
        r = Wilson(z, s, e, b).match_run(*target)
        rec.expect(not [k for k, v in r.dict.items() if v != 0], 'empty', lambda: 'no coefficients in, %s out' % list(r.dict.items())[:3])
    few = list(d0)[:9]
    html = Wilson({k: d0[k] for k in few}, s, e, b)._repr_html_()
    rec.expect(all(k in html for k in few) and e in html and b in html and str(s) in html, 'html', 'coefficient, EFT, basis or scale missing in the HTML representation')


def invalid(case, rec):
    from wilson import Wilson, wcxf
    _, e, b = case
    d = values(e, b)
    k = next(iter(d))
    other = [x for (e2, b2) in ALL if (e2, b2) != (e, b) for x, r, s in trans.keys(e2, b2)[:3] if x not in {y for y, _, _ in trans.keys(e, b)}]
    for x in sorted(set(other)) + ['nonsense', k + '_9', '']:
        for way in ('init', 'from_wc', 'json'):
            rec.state(e, b, x, way)
            rec.step()
            try:
                if way == 'init':
                    Wilson({k: 1e-3, x: 1e-3}, SC[e], e, b)
                elif way == 'from_wc':
                    Wilson.from_wc(wcxf.WC(e, b, SC[e], {k: 1e-3, x: 1e-3}))
                else:
                    Wilson.load_wc(io.StringIO(json.dumps({'eft': e, 'basis': b, 'scale': SC[e], 'values': {k: 1e-3, x: 1e-3}})))
                rec.fail('unknown:%s' % way, 'coefficient %r accepted for %s %s' % (x, e, b))
            except Exception:
                pass
    for e2, b2 in ((e, 'nonsense'), ('nonsense', b), ('', ''), (b, e)):
        rec.step()
        try:
            Wilson({k: 1e-3}, SC[e], e2, b2)
            rec.fail('basis', 'EFT %r basis %r accepted' % (e2, b2))
        except Exception:
            pass
    for v in ('x', [1], None, {'Re': 1, 'Im': 'y'}):
        rec.step()
        try:
            Wilson({k: v}, SC[e], e, b)
            rec.fail('number', 'coefficient value %r accepted' % (v,))
        except Exception:
            pass


def chain(case, rec):
    from wilson import Wilson
    _, o, e, e2, b2, tier = case
    opts = W.options(smeft_accuracy='leadinglog', **OPTS[o])
    th = {'SMEFT': opts['smeft_matchingscale'], 'WET': opts['mb_matchingscale'], 'WET-4': opts['mc_matchingscale']}
    b = W.BASES[e][0]
    s = 400.0 if e == 'SMEFT' else SC[e]
    fin = {'WET': 4.5, 'WET-4': 2.0, 'WET-3': 1.4}[e2]
    d = values(e, b)
    if True:
        want = W.make((d, s, e, b), opts).match_run(fin, e2, b2).dict
        # possible stops: (threshold scale, upper EFT), (threshold scale, lower EFT)
        i, j = W.CHAIN.index(e), W.CHAIN.index(e2)
        stops = []
        for n in range(i, j):
            if W.CHAIN[n] != 'SMEFT':
                stops.append((th[W.CHAIN[n]], W.CHAIN[n]))
            stops.append((th[W.CHAIN[n]], W.CHAIN[n + 1]))
        stops.append((fin, e2))
        for m in range(1, len(stops) + 1):
            for sel in itertools.combinations(stops, m):
                if tier == 'quick' and 2 < m < len(stops):
                    continue
                for store in ((None, 'json', 'yaml') if m == len(stops) or (m == 1 and e != 'SMEFT') else (None,)):
                    w = W.make((d, s, e, b), opts)
                    for sc, ef in sel:
                        r = w.match_run(sc, ef, 'JMS')
                        r.validate()
                        if store:
                            w = Wilson.load_wc(io.StringIO(r.dump(fmt=store)))
                        else:
                            w = Wilson.from_wc(r)
                        for k, v in opts.items():
                            if v != W.DEFAULT[k]:
                                w.set_option(k, v)
                    g = w.match_run(fin, e2, b2).dict
                    rec.state(o, e, e2, b2, sel, store)
                    rec.step(len(sel) + 1)
                    rec.trace()
                    bad = trans.cmp(g, want, rtol=1e-8, noise=1e-12)
                    rec.expect(not bad, 'chain:%s>%s' % (e, e2), lambda: '%s -> %s %s via %s (%s, options %s): %s' % (e, e2, b2, sel, store, OPTS[o], trans.show(bad)))
