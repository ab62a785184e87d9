"""C05 match_run(sectors=...) returns exactly the coefficients of these sectors, with their unrestricted values."""
import itertools
from lib import trans
from lib import wilsonref as W

SRC = [('SMEFT', 'Warsaw', 91.1876), ('WET', 'JMS', 80.0), ('WET', 'flavio', 80.0), ('WET', 'Bern', 80.0), ('WET-4', 'JMS', 4.0), ('WET-4', 'flavio', 4.0), ('WET-4', 'Bern', 4.0),
       ('WET-3', 'JMS', 1.8), ('WET-3', 'flavio', 1.8), ('WET-3', 'Bern', 1.8)]
DST = {'WET': 4.8, 'WET-4': 2.0, 'WET-3': 1.4}
BOUNDS = {'quick': '10 input (EFT, basis) x all output (EFT, basis) x every single sector on a fresh instance, at another scale and at the input scale; pairs of small sectors; collections of all types; all orders of 3 requests with different sectors on one instance',
          'thorough': 'additionally every pair of sectors (JMS, flavio) and all orders of 4 requests'}
ASSUMPTIONS = ['unknown sector names and EFT SMEFT as output are outside the documented domain']
MISFILED = {'CVLL_sdnn', 'CVRL_sdnn'}      # listed under dbnunu in the formflavor basis file
SOME = ('sb', 'mue', 'sbsb', 'usenu', 'sdnunu')


def cases(tier):
    out = []
    for i, (e, b, s) in enumerate(SRC):
        for e2 in DST:
            if W.reach(e, e2):
                for b2 in W.TARGETS[e2]:
                    out.append(['single', i, e2, b2, tier])
    for i, (e, b, s) in enumerate(SRC):
        out.append(['history', i, 3 if tier == 'quick' else 4])
    out.append(['wet2'])
    return out


CHUNK = 1


def check(case, rec):
    rec.trace()
    globals()[case[0]](case, rec)


def values(e, b):
    return W.smeft_input(b, 0.5) if e == 'SMEFT' else trans.dense(e, b, 0.4)


def fresh(i):
    e, b, s = SRC[i]
    return W.make((values(e, b), s, e, b), W.options(smeft_accuracy='leadinglog'))


def judge(rec, got, full, so, t, key, what):
    t = set(t)
    full = {k: v for k, v in full.items() if k not in MISFILED}
    got = {k: v for k, v in got.items() if k not in MISFILED}
    want = {k: v for k, v in full.items() if so.get(k) in t}
    extra = [k for k in got if so.get(k) not in t]
    rec.step(len(want) + 1)
    rec.expect(not extra, 'extra:' + key, lambda: '%s: coefficients of other sectors returned: %s' % (what, [(k, so.get(k)) for k in extra[:4]]))
    bad = trans.cmp({k: v for k, v in got.items() if so.get(k) in t}, want, rtol=1e-9, noise=1e-13)
    rec.expect(not bad, 'value:' + key, lambda: '%s: %s' % (what, trans.show(bad)))


def single(case, rec):
    _, i, e2, b2, tier = case
    e, b, s = SRC[i]
    so = W.sector_of(e2, b2)
    secs = sorted(set(so.values()))
    for s2 in [DST[e2]] + ([s] if e2 == e else []):
        if s2 == s and b != b2 and (e, b, b2) not in trans.translators():
            continue
        w = fresh(i)
        full = w.match_run(s2, e2, b2).dict
        todo = [(x,) for x in secs]
        few = [x for x in SOME if x in secs]
        todo += list(itertools.combinations(few, 2)) + list(itertools.permutations(few[:3]))
        if tier != 'quick' and b2 in ('JMS', 'flavio') and e != 'SMEFT':
            todo += list(itertools.combinations(secs, 2))
        todo += [frozenset(few), tuple(secs), tuple(reversed(secs))]
        if e == 'SMEFT' and tier == 'quick':
            todo = todo[::3]
        for t in todo:
            g = fresh(i).match_run(s2, e2, b2, sectors=t)
            rec.state(i, e2, b2, s2, tuple(sorted(t)))
            rec.expect((g.eft, g.basis, g.scale) == (e2, b2, s2), 'label', lambda: 'labelled %s %s %s' % (g.eft, g.basis, g.scale))
            judge(rec, g.dict, full, so, t, '%s:%s>%s:%s' % (e, b, e2, b2), '%s %s at %s -> %s %s at %s, sectors %s' % (e, b, s, e2, b2, s2, t if len(t) < 8 else len(t)))


def history(case, rec):
    """requests with different sectors do not answer each other"""
    _, i, depth = case
    e, b, s = SRC[i]
    e2 = 'WET' if e == 'SMEFT' else e
    b2 = 'flavio'
    so = W.sector_of(e2, b2)
    s2 = DST[e2]
    full = fresh(i).match_run(s2, e2, b2).dict
    few = [x for x in SOME if x in set(so.values())]
    reqs = ['all', (few[0],), (few[1],), (few[0], few[1]), (few[1], few[0]), frozenset(few[:2])]
    for seq in itertools.product(range(len(reqs)), repeat=depth):
        w = fresh(i)
        for n, j in enumerate(seq):
            t = reqs[j]
            g = w.match_run(s2, e2, b2, sectors=t).dict
            rec.state(i, seq[:n + 1])
            judge(rec, g, full, so, set(so.values()) if t == 'all' else t, 'history:%s:%s' % (e, b), '%s %s -> %s %s: request %d of %s' % (e, b, e2, b2, n, [reqs[x] for x in seq]))


def wet2(case, rec):
    """no running in WET-2, but the input scale works"""
    from wilson import Wilson
    vals = trans.dense('WET-2', 'JMS')
    so = W.sector_of('WET-2', 'JMS')
    for t in sorted(set(so.values())):
        g = Wilson(vals, 0.9, 'WET-2', 'JMS').match_run(0.9, 'WET-2', 'JMS', sectors=(t,)).dict
        rec.state('wet2', t)
        judge(rec, g, vals, so, (t,), 'wet2', 'WET-2, sector %s' % t)
