"""C03 The hash of a Wilson instance changes whenever coefficients or options change, and only then."""
import itertools
from lib import trans
from lib import wilsonref as W

VALS = {'smeft_accuracy': ['integrate', 'leadinglog'], 'qed_order': [1, 0], 'qcd_order': [1, 0], 'smeft_matching_order': [0, 1], 'smeft_matchingscale': [91.1876, 160.0, 91.0, 1000.0],
        'mb_matchingscale': [4.2, 4.8, 1.3], 'mc_matchingscale': [1.3, 1.5, 4.2],
        'parameters': [{}, {'m_b': 4.2}, {'m_b': 4.3}, {'m_c': 4.2}, {'m_b': 4.2, 'm_c': 4.3}, {'m_b': 4.3, 'm_c': 4.2}, {'m_c': 1.27}, {'Vcb': 0.04}, {'qed_order': 1}, {'gamma': -1.0}, {'gamma': -2.0}, {'gamma': 1.0}]}
BOUNDS = {'quick': 'all 2304 x 12 option combinations on one instance: pairwise distinct hashes; every sequence of up to 3 option changes (12 settings) returns to the hash of the same configuration; every read operation keeps the hash; '
                   'instances with different single coefficients, scales and bases differ',
          'thorough': 'sequences of 4 changes'}
ASSUMPTIONS = ['instances are created independently, as documented, so equality across instances is not required']


def cases(tier):
    return [['combos']] + [['seq', i, 3 if tier == 'quick' else 4] for i in range(len(sets()))] + [['reads', e] for e in ('SMEFT', 'WET', 'WET-4', 'WET-3')] + [['instances']]


def sets():
    return [(k, v) for k in ('qed_order', 'mb_matchingscale', 'mc_matchingscale', 'smeft_accuracy') for v in VALS[k][:2]] + [('parameters', v) for v in VALS['parameters'][:4]]


def make():
    return W.make(({'VeuLL_1112': 1e-3}, 50.0, 'WET', 'JMS'), {})


def check(case, rec):
    rec.trace()
    globals()[case[0]](case, rec)


def fro(o):
    return tuple((k, tuple(sorted(v.items())) if isinstance(v, dict) else v) for k, v in sorted(o.items()))


def combos(case, rec):
    w = make()
    seen = {}
    cur = {}
    for c in itertools.product(*VALS.values()):
        o = dict(zip(VALS, c))
        for k, v in o.items():
            if cur.get(k) != v:
                w.set_option(k, v)
        cur = o
        h = hash(w)
        f = fro(o)
        rec.step()
        if h in seen:
            rec.fail('collision', 'same hash for options %s and %s' % (seen[h], f))
            return
        seen[h] = f
    rec.state(*[str(len(seen))])
    rec.count('configurations', len(seen))


def seq(case, rec):
    _, i, depth = case
    S = sets()
    w = make()
    table = {}
    base = {k: v[0] for k, v in VALS.items()}
    for rest in itertools.product(range(len(S)), repeat=depth - 1):
        for k, v in base.items():
            w.set_option(k, v)
        o = dict(base)
        for j in (None, i) + rest:
            if j is not None:
                k, v = S[j]
                w.set_option(k, v)
                o[k] = v
            f = fro(o)
            h = hash(w)
            rec.step()
            rec.state(f)
            if table.setdefault(f, h) != h:
                rec.fail('unstable', 'the same options %s give different hashes (after %s)' % (f, [S[x] for x in (i,) + rest]))
                return
    if len(set(table.values())) != len(table):
        rec.fail('collision', 'different options with the same hash')


def reads(case, rec):
    from wilson import wcxf
    e = case[1]
    b = W.BASES[e][0]
    s = {'SMEFT': 91.1876, 'WET': 80.0, 'WET-4': 4.0, 'WET-3': 1.8}[e]
    d = W.smeft_input(b) if e == 'SMEFT' else trans.dense(e, b)
    w = W.make((d, s, e, b), W.options(smeft_accuracy='leadinglog', parameters={'m_b': 4.4}))
    h = hash(w)
    t = {'SMEFT': 'WET', 'WET': 'WET-4', 'WET-4': 'WET-3', 'WET-3': 'WET-3'}[e]
    for name, f in (('match_run', lambda: w.match_run(1.5 if t != 'WET' else 4.8, t, 'flavio')), ('match_run again', lambda: w.match_run(1.5 if t != 'WET' else 4.8, t, 'flavio')),
                    ('sectors', lambda: w.match_run(2.0, t, 'JMS', sectors=('mue',))), ('input', lambda: w.match_run(s, e, b)), ('get_option', lambda: w.get_option('parameters')),
                    ('parameters', lambda: w.parameters), ('wc.dict', lambda: w.wc.dict), ('html', lambda: w._repr_html_()), ('clear', w.clear_cache), ('df', lambda: w.wc.df)):
        f()
        rec.state(e, name)
        rec.step()
        rec.expect(hash(w) == h, 'reads:%s' % name, '%s changed the hash' % name)
    w.wc = wcxf.WC(e, b, s, dict(w.wc.values))
    rec.expect(hash(w) != h, 'replaced', 'replacing the coefficients does not change the hash')


def instances(case, rec):
    seen = {}
    for e in W.CHAIN:
        for b in W.BASES[e]:
            for s in (2.0, 50.0):
                for k, r, x in trans.keys(e, b)[::9]:
                    for v in (1e-3, 2e-3):
                        w = W.make(({k: v}, s, e, b), {})
                        h = hash(w)
                        rec.step()
                        rec.state(e, b, s, k, v)
                        if h in seen:
                            rec.fail('instances', 'same hash for %s and %s' % (seen[h], (e, b, s, k, v)))
                            return
                        seen[h] = (e, b, s, k, v)
                        rec.expect(hash(w) == h, 'repeat', 'hash differs when asked twice')
