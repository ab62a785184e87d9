"""C04 Wilson.match_run is the composition of the elementary steps with the options of the instance."""
import numpy as np
from lib import trans
from lib import wilsonref as W

OPTS = {
    'll': {'smeft_accuracy': 'leadinglog'},
    'default': {},
    'loop': {'smeft_accuracy': 'leadinglog', 'smeft_matching_order': 1},
    'qed0': {'smeft_accuracy': 'leadinglog', 'qed_order': 0},
    'qcd0': {'smeft_accuracy': 'leadinglog', 'qcd_order': 0},
    'noqq': {'smeft_accuracy': 'leadinglog', 'qcd_order': 0, 'qed_order': 0},
    'ew': {'smeft_accuracy': 'leadinglog', 'smeft_matchingscale': 160.0},
    'mb': {'smeft_accuracy': 'leadinglog', 'mb_matchingscale': 4.9},
    'mc': {'smeft_accuracy': 'leadinglog', 'mc_matchingscale': 1.7},
    'par': {'smeft_accuracy': 'leadinglog', 'parameters': W.PARAMS},
    'all': {'smeft_accuracy': 'leadinglog', 'smeft_matchingscale': 120.0, 'mb_matchingscale': 4.6, 'mc_matchingscale': 1.5, 'parameters': W.PARAMS, 'smeft_matching_order': 1, 'qed_order': 0},
}
IN = {'SMEFT': (1000.0, 91.1876), 'WET': (91.1876, 4.2), 'WET-4': (4.2, 1.3), 'WET-3': (2.0,)}
OUT = {'SMEFT': (1000.0, 500.0, 91.1876, 80.0), 'WET': (91.1876, 4.2, 4.8, 160.0, 3.0), 'WET-4': (4.2, 2.0, 6.0, 1.2), 'WET-3': (2.0, 1.3, 3.0)}
ALLP = {'m_Z': 91.4, 'm_h': 126.2, 'Vus': 0.2262, 'Vub': 0.0038, 'm_u': 0.0024, 'm_d': 0.0049, 'm_e': 0.00053}
BOUNDS = {'quick': 'all 13 input (EFT, basis) x all reachable of 16 output (EFT, basis) x all scales of a grid incl. the matching scales themselves, dense input, 3 option sets; every option alone on all paths between EFTs; '
                   'every parameter alone on the longest path; every impossible path; output scales also on the far side of the thresholds',
          'thorough': 'every option set on every path and scale'}
ASSUMPTIONS = ['elementary steps certified by their own properties']


def cases(tier):
    out = []
    for o in OPTS:
        full = tier != 'quick' or o in ('ll', 'all')
        for e in W.CHAIN:
            bs = W.BASES[e] if full else ['Warsaw' if e == 'SMEFT' else 'JMS']
            for b in bs:
                for s in (IN[e] if full else IN[e][:1]):
                    if o == 'default' and e != 'SMEFT':
                        continue
                    out.append(['path', o, e, b, s, full])
    out += [['impossible', e] for e in W.CHAIN + ['WET-2']]
    out += [['param', p] for p in sorted(dict(W.PARAMS, **ALLP))]
    out += [['vacuous']]
    return sorted(out, key=lambda c: -('default' in c or 'loop' in c or 'all' in c))


CHUNK = 1


def values(e, b, ph=0.3):
    return W.smeft_input(b, ph) if e == 'SMEFT' else {k: v * 1e-3 for k, v in trans.dense(e, b, ph).items()}


def check(case, rec):
    rec.trace()
    globals()[case[0]](case, rec)


def compare(rec, got, want, key, what):
    rec.expect((got.eft, got.basis, got.scale) == (want.eft, want.basis, want.scale), 'label:' + key, lambda: '%s: labelled %s %s %s' % (what, got.eft, got.basis, got.scale))
    bad = trans.cmp(got.dict, want.dict, rtol=1e-8, noise=1e-13)
    rec.step(len(want.dict))
    rec.expect(not bad, key, lambda: '%s: %s' % (what, trans.show(bad)))


def path(case, rec):
    _, o, e, b, s, full = case
    opts = W.options(**OPTS[o])
    vals = values(e, b)
    for e2 in W.CHAIN:
        if not W.reach(e, e2):
            continue
        for s2 in (OUT[e2] if full else OUT[e2][:2]):
            for b2 in (W.TARGETS[e2] if full and (s2 == OUT[e2][1] or s2 == s) else W.TARGETS[e2][:2]):
                w = W.make((vals, s, e, b), opts)
                if e == e2 and (e, b, b2) not in trans.translators() and s == s2 and b != b2:
                    continue      # no direct rule: see 'impossible'
                got = w.match_run(s2, e2, b2)
                want = W.answer(trans.wc(e, b, vals, s), s2, e2, b2, opts)
                rec.state(o, e, b, s, e2, b2, s2)
                compare(rec, got, want, 'path:%s:%s>%s' % (o, e, e2), '%s %s at %s -> %s %s at %s with options %s' % (e, b, s, e2, b2, s2, OPTS[o]))


def impossible(case, rec):
    """upward, unknown EFTs and bases: refused"""
    from wilson import Wilson
    e = case[1]
    b = 'Warsaw' if e == 'SMEFT' else 'JMS'
    k = trans.keys(e, b)[0][0]
    for e2 in W.CHAIN + ['WET-2', 'WET-5', '']:
        for b2 in ('JMS', 'Warsaw', 'flavio', 'nonsense'):
            ok = W.reach(e, e2) and b2 in W.TARGETS[e2]
            if ok:
                continue
            w = Wilson({k: 1e-3}, 50.0, e, b)
            w.set_option('smeft_accuracy', 'leadinglog')
            rec.state(e, e2, b2)
            rec.step()
            try:
                r = w.match_run(3.0, e2, b2)
                rec.fail('impossible:%s>%s:%s' % (e, e2, b2), '%s -> %s %s gave %s %s with %d values' % (e, e2, b2, r.eft, r.basis, len(r.dict)))
            except (ValueError, KeyError, AttributeError):
                pass


def param(case, rec):
    """each parameter alone, through the longest path, from the start of each EFT"""
    p = case[1]
    opts = W.options(smeft_accuracy='leadinglog', parameters={p: dict(W.PARAMS, **ALLP)[p]})
    for e, b, s in (('SMEFT', 'Warsaw up', 1000.0), ('WET', 'flavio', 80.0), ('WET-4', 'flavio', 4.0)):
        vals = values(e, b, 0.8)
        for e2, b2, s2 in (('SMEFT', 'Higgs-Warsaw up', 300.0), ('WET', 'flavio', 4.8), ('WET-3', 'flavio', 2.0)):
            if not W.reach(e, e2):
                continue
            got = W.make((vals, s, e, b), opts).match_run(s2, e2, b2)
            want = W.answer(trans.wc(e, b, vals, s), s2, e2, b2, opts)
            rec.state(p, e, e2)
            compare(rec, got, want, 'param:%s' % p, '%s -> %s with %s' % (e, e2, opts['parameters']))


def vacuous(case, rec):
    """every option does influence the answer"""
    base = W.options(smeft_accuracy='leadinglog')
    vals = values('SMEFT', 'Warsaw')
    w = W.make((vals, 1000.0, 'SMEFT', 'Warsaw'), base).match_run(2.0, 'WET-3', 'flavio').dict
    for o, d in OPTS.items():
        if o == 'll':
            continue
        g = W.make((vals, 1000.0, 'SMEFT', 'Warsaw'), W.options(**d)).match_run(2.0, 'WET-3', 'flavio').dict
        rec.state(o)
        rec.step()
        rec.expect(bool(trans.diff(g, w, rtol=1e-6)), 'noeffect:%s' % o, 'options %s have no effect on SMEFT -> WET-3' % d)
