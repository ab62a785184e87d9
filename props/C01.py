"""C01 A Wilson instance answers every request as a fresh instance would, after any history of requests and option changes."""
import itertools
import math
from lib import trans
from lib import wilsonref as W

REQ = {
    'SMEFT': [(91.1876, 'WET', 'JMS', 'all'), (91.1876, 'WET', 'flavio', 'all'), (91.1876, 'WET', 'JMS', ('sb',)), (4.2, 'WET', 'flavio', ('sb', 'mue')), (4.2, 'WET', 'flavio', 'all'),
              (4.2, 'WET-4', 'flavio', ('cu',)), (500.0, 'SMEFT', 'Warsaw', 'all'), (500.0, 'SMEFT', 'Warsaw up', 'all'), (91.1876, 'SMEFT', 'Warsaw', 'all'), (120.0, 'WET', 'JMS', ('sb',))],
    'WET': [(80.0, 'WET', 'flavio', 'all'), (80.0, 'WET', 'JMS', 'all'), (80.0, 'WET', 'JMS', ('sb',)), (4.2, 'WET', 'flavio', ('sb', 'mue')), (4.2, 'WET', 'flavio', 'all'), (4.2, 'WET', 'JMS', ('sb',)),
            (4.2, 'WET', 'EOS', 'all'), (4.2, 'WET-4', 'flavio', ('cu',)), (2.0, 'WET-3', 'flavio', ('mue', 'sd')), (2.0, 'WET-4', 'flavio', ('mue', 'cu')), (4.2, 'WET-4', 'JMS', 'all'), (4.2, 'WET', 'JMS', ['sb'])],
    'WET-4': [(4.0, 'WET-4', 'JMS', 'all'), (4.0, 'WET-4', 'flavio', ('cu',)), (2.0, 'WET-4', 'flavio', 'all'), (2.0, 'WET-3', 'flavio', 'all'), (2.0, 'WET-3', 'JMS', ('mue',)), (1.3, 'WET-3', 'flavio', 'all'),
              (4.0, 'WET-3', 'flavio', 'all')],
}
OPT = {
    'SMEFT': [('smeft_matchingscale', 120.0), ('parameters', {'Vcb': 0.045, 'm_b': 4.3}), ('smeft_accuracy', 'integrate'), ('qcd_order', 0), ('mb_matchingscale', 4.7)],
    'WET': [('mb_matchingscale', 4.8), ('mc_matchingscale', 1.6), ('parameters', {'Vcb': 0.045, 'm_b': 4.3, 'alpha_s': 0.121}), ('parameters', {}), ('qed_order', 0), ('qcd_order', 0)],
    'WET-4': [('mc_matchingscale', 1.7), ('parameters', {'m_mu': 0.12, 'alpha_s': 0.121}), ('qed_order', 0), ('mb_matchingscale', 4.0), ('qcd_order', 0)],
}
SRC = {'SMEFT': ('Warsaw', 91.1876), 'WET': ('JMS', 80.0), 'WET-4': ('JMS', 4.0)}
BOUNDS = {'quick': 'all sequences of 3 operations ending in a request, from 3 source theories; operations: 5-8 requests with all kinds of sector arguments (including those that coincide with intermediate results), 3-4 option changes, clear_cache, '
                   'a request to another instance with other coefficients and options, failing requests and failing option changes; '
                   'every request before and after changing each of the options and changing it back; and all ordered pairs of requests that differ in one argument only, with scales apart by one ulp up to 0.3 GeV; all ordered pairs of requests at one scale with different EFT, basis or sectors',
          'thorough': 'all sequences of 4 operations, with 7-11 requests and 5-6 option changes'}
ASSUMPTIONS = ['results of a fresh instance are certified by C04 and C05']
_REF = {}


QUICK = {'SMEFT': ((0, 1, 2, 3, 5, 6, 9), (0, 1, 2, 3)), 'WET': ((0, 1, 2, 3, 4, 7, 8, 9), (0, 2, 4)), 'WET-4': ((0, 1, 2, 4, 5), (0, 1, 4))}


def ops(e, tier='thorough'):
    hashable = [r for r in REQ[e] if not isinstance(r[3], list)]
    if tier == 'quick':
        q, o = QUICK[e]
        return [('req', hashable[i]) for i in q] + [('set', OPT[e][i]) for i in o] + [('clear',), ('other', hashable[3]), ('fail', (3.0, 'WET-5', 'JMS')), ('badset', ('qed_order', 7))]
    return [('req', r) for r in hashable] + [('set', o) for o in OPT[e]] + [('clear',), ('other', hashable[0]), ('other', hashable[3]), ('fail', (3.0, 'WET-5', 'JMS')), ('badset', ('qed_order', 7))]


def cases(tier):
    depth = 3 if tier == 'quick' else 4
    out = []
    for e in SRC:
        n = len(ops(e, tier))
        for i in range(n):
            if ops(e, tier)[i][0] in ('clear', 'fail', 'badset'):
                continue        # nothing happens on a fresh instance
            if depth == 3:
                out.append([e, tier, i])
            else:
                out += [[e, tier, i, j] for j in range(n)]
    out += [['again', tier, e, i] for e in SRC for i in range(len(EVERY))]
    out += [['close', tier, e, i, len(close(e, tier))] for e in SRC for i in range(len(close(e, tier)))]
    out += [['label', tier, e, i, len(label(e, tier))] for e in SRC for i in range(len(label(e, tier)))]
    out.sort(key=lambda c: 'SMEFT' not in c)
    return out


EVERY = [('smeft_accuracy', 'integrate'), ('qed_order', 0), ('qcd_order', 0), ('smeft_matching_order', 1), ('smeft_matchingscale', 120.0), ('mb_matchingscale', 4.8), ('mc_matchingscale', 1.6),
         ('parameters', {'Vcb': 0.045, 'm_b': 4.3, 'alpha_s': 0.121}), ('parameters', {'m_mu': 0.12})]


def check_again(tier, e, i, rec):
    """request, set one option, same request, set it back, same request"""
    k, v = EVERY[i]
    default = W.options().get(k)
    for r in REQ[e]:
        if isinstance(r[3], list) or (k, v) == ('smeft_accuracy', 'integrate') and r[3] != 'all':
            continue
        if e == 'SMEFT' and tier == 'quick' and r[3] == 'all' and r[2] not in ('JMS', 'Warsaw up'):
            continue
        w = build(e, sorted(start(e)))
        o = dict(start(e))
        rec.trace()
        for step in range(3):
            if step:
                x = (v, o0)[step - 1]
                w.set_option(k, dict(x) if isinstance(x, dict) else x)
                o[k] = fro(x)
            else:
                o0 = o.get(k, default)
            g = ask(w, r)
            rec.step()
            want, lab = ref(e, frozenset(o.items()), r)
            bad = trans.cmp(g.dict, want, rtol=1e-9, noise=1e-13)
            rec.state('again', e, i, r, step)
            if bad or (g.eft, g.basis, g.scale) != lab:
                rec.fail('again:%s:%s' % (e, k), 'request %s from %s, step %d of setting %s to %s and back: %s; labelled %s' % (r, e, step, k, v, trans.show(bad), (g.eft, g.basis, g.scale)))
                return


def close(e, tier):
    """Requests that differ in a single argument, and there only by little."""
    t, bases, secs, s0 = {'SMEFT': ('WET', ['JMS', 'flavio'], ['all', ('sb',)], 91.1876),
                          'WET': ('WET', ['JMS', 'flavio'], ['all', ('sb',), ('mue',), ('sb', 'mue'), ('mue', 'sb')], 4.2),
                          'WET-4': ('WET-3', ['JMS', 'flavio'], ['all', ('mue',)], 1.3)}[e]
    scales = [s0, math.nextafter(s0, 9e9), s0 * (1 + 1e-7), s0 + 3e-4, s0 + 0.03, s0 + 0.3]
    if tier == 'quick':
        scales = [scales[i] for i in ((0, 1, 3) if e == 'SMEFT' else (0, 1, 3, 5))]
        if e == 'WET':
            secs = secs[:1] + secs[2:]
    return [(s, t, b, c) for s in scales for b in bases for c in secs]


def label(e, tier):
    """Requests at one scale which differ in EFT, basis or sectors."""
    s, efts = {'SMEFT': (91.1876, ('SMEFT', 'WET', 'WET-4', 'WET-3')), 'WET': (3.0, ('WET', 'WET-4', 'WET-3')), 'WET-4': (1.4, ('WET-4', 'WET-3'))}[e]
    out = [(s, t, b, c) for t in efts for b in ('JMS', 'flavio') for c in (['all', ('mue',)] if e != 'SMEFT' else ['all', ('sb',)][b == 'JMS' or tier != 'quick':][:1])
           if t != 'SMEFT'] + [(s, 'SMEFT', b, 'all') for b in ('Warsaw', 'Warsaw up') if e == 'SMEFT']
    return out


def check_close(tier, e, i, rec, label=None):
    R = label(e, tier) if label else close(e, tier)
    o = start(e)
    for j, b in enumerate(R):
        if i == j:
            continue
        w = build(e, sorted(o))
        rec.trace()
        for r in (R[i], b, R[i]):
            rec.step()
            g = ask(w, r)
            want, lab = ref(e, o, r)
            bad = trans.cmp(g.dict, want, rtol=1e-9, noise=1e-13)
            if bad or (g.eft, g.basis, g.scale) != lab or g.scale != r[0]:
                rec.fail('close:%s:%s' % (e, r[:3]), 'requests %s then %s: %s; labelled %s' % (R[i], b, trans.show(bad), (g.eft, g.basis, g.scale)))
                return
        rec.state('close', e, i, j)


CHUNK = 1


def values(e, ph=0.3):
    b = SRC[e][0]
    return W.smeft_input(b, ph) if e == 'SMEFT' else trans.dense(e, b, ph)


def start(e):
    o = {'smeft_accuracy': 'leadinglog'}
    return frozenset((k, v) for k, v in o.items())


def build(e, opts, ph=0.3):
    b, s = SRC[e]
    w = W.make((values(e, ph), s, e, b), W.options())
    for k, v in opts:
        w.set_option(k, dict(v) if isinstance(v, tuple) else v)
    return w


def fro(v):
    return tuple(sorted(v.items())) if isinstance(v, dict) else v


def ask(w, r):
    s, e, b, sec = r
    return w.match_run(s, e, b, sectors=sec)


def ref(e, opts, r):
    k = (e, opts, r)
    if k not in _REF:
        g = ask(build(e, sorted(opts, key=str)), r)
        _REF[k] = dict(g.dict), (g.eft, g.basis, g.scale)
    return _REF[k]


def check(case, rec):
    if case[0] == 'close':
        return check_close(*case[1:4], rec)
    if case[0] == 'label':
        return check_close(*case[1:4], rec, label=label)
    if case[0] == 'again':
        return check_again(*case[1:4], rec)
    e, tier, *pre = case
    O = ops(e, tier)
    depth = 3 if tier == 'quick' else 4
    reqs = [i for i, o in enumerate(O) if o[0] == 'req']
    others = W.options(smeft_accuracy='leadinglog', parameters={'m_b': 4.0, 'Vcb': 0.039}, qed_order=0)
    for mid in itertools.product(range(len(O)), repeat=depth - 1 - len(pre)):
        for last in reqs:
            seq = tuple(pre) + mid + (last,)
            w = build(e, sorted(start(e)))
            opts = dict(start(e))
            rec.trace()
            for n, i in enumerate(seq):
                o = O[i]
                rec.step()
                if o[0] == 'set':
                    k, v = o[1]
                    w.set_option(k, dict(v) if isinstance(v, dict) else v)
                    opts[k] = fro(v)
                elif o[0] == 'clear':
                    w.clear_cache()
                elif o[0] == 'other':
                    ask(W.make((values(e, 1.9), SRC[e][1], e, SRC[e][0]), others), o[1])
                elif o[0] == 'fail':
                    try:
                        w.match_run(*o[1])
                        rec.fail('fail', 'impossible request answered')
                    except ValueError:
                        pass
                elif o[0] == 'badset':
                    try:
                        w.set_option(*o[1])
                        rec.fail('badset', 'invalid option accepted')
                    except Exception:
                        pass
                else:
                    g = ask(w, o[1])
                    st = frozenset(opts.items())
                    want, lab = ref(e, st, o[1])
                    rec.state(e, str(sorted(st, key=str)), seq[:n + 1])
                    bad = trans.cmp(g.dict, want, rtol=1e-9, noise=1e-13)
                    if bad or (g.eft, g.basis, g.scale) != lab:
                        rec.fail('history:%s:%s' % (e, o[1][:3]), 'step %d of %s from %s: %s; labelled %s' % (n, [O[x] for x in seq], e, trans.show(bad), (g.eft, g.basis, g.scale)))
                        return
