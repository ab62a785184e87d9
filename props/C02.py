"""C02 Options: validation, isolation between instances and defaults, effect on the answers."""
import itertools
import warnings
from lib import trans
from lib import wilsonref as W

GOOD = [('qed_order', 0, 0), ('smeft_accuracy', 'leadinglog', 'leadinglog'), ('mb_matchingscale', 5, 5.0), ('mb_matchingscale', '4.5', 4.5), ('mc_matchingscale', 1.5, 1.5),
        ('parameters', {'m_b': '4.4'}, {'m_b': 4.4}), ('parameters', {'Vcb': 0.04, 'm_s': 1}, {'Vcb': 0.04, 'm_s': 1.0}), ('parameters', {}, {}),
        ('parameters', {'delta': 1.1, 'm_c': 1.2}, {'gamma': 1.1, 'm_c': 1.2}), ('smeft_matching_order', 1, 1), ('smeft_matchingscale', 160, 160.0), ('qcd_order', 0, 0)]
BAD = [('qed_order', 2), ('qed_order', 'x'), ('qcd_order', -1), ('smeft_matching_order', 2), ('smeft_accuracy', 'leading'), ('smeft_accuracy', None), ('mb_matchingscale', 'abc'), ('mc_matchingscale', None),
       ('smeft_matchingscale', [1]), ('parameters', {'m_b': 'x'}), ('parameters', [1, 2]), ('parameters', {'m_b': None}), ('nonsense', 1), ('QED_order', 1)]
BOUNDS = {'quick': 'all sequences of 4 operations on the class and two instances (default changes, option changes, new instances, invalid values; 5 valid and 2 invalid settings); options unchanged by reading and using them; every valid and invalid value on class and instance; '
                   'effect of each option set in any of 3 ways on the answers',
          'thorough': 'all sequences of 5 operations'}
ASSUMPTIONS = ['values of options are compared as returned by get_option']
ISOLATE = True
CHUNK = 1
SEQ = [('qed_order', 0), ('mb_matchingscale', '4.5'), ('parameters', {'m_b': 4.4}), ('parameters', {'delta': 1.1}), ('parameters', {})]
SEQBAD = [('qed_order', 2), ('parameters', {'m_b': 'x'})]


def norm(k, v):
    if k == 'parameters':
        v = dict(v)
        if 'delta' in v:
            v['gamma'] = v.pop('delta')
        return {a: float(b) for a, b in v.items()}
    return float(v) if k.endswith('scale') else v


def ops():
    out = [('new', i) for i in (0, 1)]
    for k, v in SEQ:
        out += [('default', k, v)] + [('set', i, k, v) for i in (0, 1)]
    for k, v in SEQBAD:
        out += [('default', k, v, 'bad')] + [('set', 0, k, v, 'bad')]
    return out


def cases(tier):
    n = len(ops())
    depth = 4 if tier == 'quick' else 5
    out = [['seq', i, j, depth] for i in range(n) for j in range(n)]
    out += [['value', where] for where in ('class', 'instance')]
    out += [['effect', i] for i in range(len(EFFECT))]
    out += [['names']]
    return out


def check(case, rec):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        globals()[case[0]](case, rec)


def new(vals=None):
    from wilson import Wilson
    return Wilson(vals or {'CVRR_cdenu' if False else 'VeuLL_1112': 1e-3}, 50.0, 'WET', 'JMS')


def seq(case, rec):
    from wilson import Wilson
    _, i, j, depth = case
    O = ops()
    base = dict(W.DEFAULT)
    for rest in itertools.product(range(len(O)), repeat=depth - 2):
        s = (i, j) + rest
        for k, v in base.items():
            Wilson.set_default_option(k, v)
        D = {k: v for k, v in base.items()}
        inst = [new(), new()]
        model = [dict(D), dict(D)]
        rec.trace()
        for n, x in enumerate(s):
            o = O[x]
            bad = o[-1] == 'bad'
            if o[0] == 'new':
                inst[o[1]] = new()
                model[o[1]] = dict(D)
            else:
                k, v = (o[1], o[2]) if o[0] == 'default' else (o[2], o[3])
                arg = dict(v) if isinstance(v, dict) else v
                try:
                    if o[0] == 'default':
                        Wilson.set_default_option(k, arg)
                    else:
                        inst[o[1]].set_option(k, arg)
                    raised = False
                except Exception:
                    raised = True
                if raised != bad:
                    rec.fail('accept', '%s %s' % (o, 'refused' if raised else 'accepted'))
                if not bad:
                    (D if o[0] == 'default' else model[o[1]])[k] = norm(k, v)
                if arg != v:
                    rec.fail('argument', '%s changed its argument to %s' % (o, arg))
                if isinstance(arg, dict):
                    arg['m_b'] = 77.0       # the caller may reuse the dictionary
        rec.step(len(s))
        got = [{k: w.get_option(k) for k in base} for w in inst]
        inst.append(new())
        got.append({k: inst[2].get_option(k) for k in base})
        rec.state(str(model), str(D))
        for g, m, name in zip(got, model + [D], ('first instance', 'second instance', 'new instance')):
            if g != m:
                diff = [(k, g[k], m[k]) for k in base if g[k] != m[k]]
                rec.fail('options', 'after %s: %s has (option, value, expected) %s' % ([O[x] for x in s], name, diff))
                return


def value(case, rec):
    from wilson import Wilson
    for k, v, want in GOOD:
        w0 = new()
        if case[1] == 'class':
            Wilson.set_default_option(k, v)
            w = new()
        else:
            w = new()
            w.set_option(k, v)
        g = w.get_option(k)
        rec.state(case[1], k, str(v))
        rec.step()
        rec.expect(g == want and type(g) is type(want), 'good:%s' % k, lambda: '%s = %r is stored as %r' % (k, v, g))
        if k == 'parameters':
            from wilson import parameters as P
            rec.expect(w.parameters == dict(P.p, **want), 'parameters', lambda: 'parameters property: %s' % {a: b for a, b in w.parameters.items() if b != dict(P.p, **want).get(a)})
            w.parameters['m_b'] = 1e3
            rec.expect(w.parameters == dict(P.p, **want), 'parameters-copy', 'changing the dictionary returned by .parameters changes the instance')
            rec.expect(w0.parameters == P.p, 'parameters-default', lambda: 'parameters of another instance: %s' % w0.parameters)
        # neither reading nor using an option changes any
        for name, use in (('parameters', lambda: w.parameters), ('matching_parameters', lambda: w.matching_parameters), ('hash', lambda: hash(w)), ('match_run', lambda: w.match_run(10.0, 'WET', 'flavio')),
                          ('representation', w._repr_html_), ('from_wc', lambda: Wilson.from_wc(w.wc)), ('clear_cache', w.clear_cache)):
            use()
            rec.step()
            now = {a: w.get_option(a) for a in W.DEFAULT}
            rec.expect(now == dict({a: new().get_option(a) for a in W.DEFAULT}, **{k: want}), 'use:%s' % name, lambda: 'with %s = %r, %s changes the options to %s' % (k, v, name, {a: b for a, b in now.items() if b != W.DEFAULT[a]}))
        rec.expect(w0.get_option(k) == W.DEFAULT[k], 'other:%s' % k, lambda: 'setting %s on %s changed an existing instance' % (k, case[1]))
        Wilson.set_default_option(k, W.DEFAULT[k])
    rec.expect({k: new().get_option(k) for k in W.DEFAULT} == W.DEFAULT, 'defaults', lambda: 'defaults: %s' % {k: new().get_option(k) for k in W.DEFAULT})
    for k, v in BAD:
        w = new()
        rec.state(case[1], k, str(v), 'bad')
        rec.step()
        try:
            (Wilson.set_default_option if case[1] == 'class' else w.set_option)(k, v)
            rec.fail('bad:%s' % k, '%s = %r accepted' % (k, v))
        except Exception:
            pass
        rec.expect({a: w.get_option(a) for a in W.DEFAULT} == W.DEFAULT and {a: new().get_option(a) for a in W.DEFAULT} == W.DEFAULT, 'bad-change:%s' % k, 'refused value of %s changed an option' % k)


def names(case, rec):
    w = new()
    for k in ('nonsense', 'QED_order', '', None):
        rec.step()
        try:
            w.get_option(k)
            rec.fail('unknown', 'get_option(%r) returned something' % k)
        except KeyError:
            pass


EFFECT = [{'smeft_accuracy': 'leadinglog'}, {'qed_order': 0}, {'qcd_order': 0}, {'smeft_matching_order': 1}, {'smeft_matchingscale': 120.0}, {'mb_matchingscale': 4.9}, {'mc_matchingscale': 1.7},
          {'parameters': {'m_b': 4.5, 'alpha_s': 0.125, 'Vcb': 0.045}}]


def effect(case, rec):
    """an option has the same effect however it is set, on the right instances only"""
    from wilson import Wilson
    opts = dict(EFFECT[case[1]])
    vals = W.smeft_input('Warsaw', 0.9, every=5)
    args = (vals, 400.0, 'SMEFT', 'Warsaw')
    req = (2.0, 'WET-3', 'flavio')
    fast = {} if 'smeft_accuracy' in opts else {'smeft_accuracy': 'leadinglog'}
    if 'smeft_accuracy' not in opts:
        Wilson.set_default_option('smeft_accuracy', 'leadinglog')
    (k, v), = opts.items()
    plain = W.answer(trans.wc('SMEFT', 'Warsaw', vals, 400.0), *req, W.options(**fast)).dict
    want = W.answer(trans.wc('SMEFT', 'Warsaw', vals, 400.0), *req, W.options(**dict(fast, **opts))).dict
    rec.expect(bool(trans.cmp(plain, want, rtol=1e-6)), 'noeffect:%s' % k, 'option %s has no effect at all' % k)
    before = Wilson(*args)
    used = Wilson(*args)
    used.match_run(*req)
    old = Wilson(*args)
    old.match_run(*req)
    old.set_option(k, v)
    Wilson.set_default_option(k, v)
    after = Wilson(*args)
    back = Wilson(*args)
    back.set_option(k, W.DEFAULT[k] if k != 'smeft_accuracy' else 'integrate')
    Wilson.set_default_option(k, W.DEFAULT[k])
    last = Wilson(*args)
    for name, w, ref in (('existing', before, plain), ('existing, used', used, plain), ('option set on a used instance', old, want), ('created after the default was changed', after, want),
                         ('created after the default was changed, set back', back, plain), ('created after the default was restored', last, plain)):
        g = w.match_run(*req).dict
        rec.state(k, name)
        rec.step()
        rec.trace()
        bad = trans.cmp(g, ref, rtol=1e-9, noise=1e-13)
        rec.expect(not bad, 'effect:%s' % k, lambda: '%s = %s, instance %s: %s' % (k, v, name, trans.show(bad)))
