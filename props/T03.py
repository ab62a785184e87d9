"""T03 Restricting a translation to sectors never changes what was asked for."""
import itertools
from lib import trans

BOUNDS = {'quick': 'every translator x every single sector of source and target basis, dense input; every pair of sectors for the small theories; input restricted to the sector',
          'thorough': 'every translator x every pair of sectors, and every unit direction with its own sector'}
ASSUMPTIONS = ['a translator may ignore the restriction (documented); then everything else it returns must be unrestricted values']
STEP = 24


def secs(t):
    return sorted({s for b in (t[1], t[2]) for k, r, s in trans.keys(t[0], b)})


def cases(tier):
    out = []
    for t in trans.translators():
        S = secs(t)
        items = [[s] for s in S] + [S]
        if tier == 'thorough' or len(S) <= 25:
            items += [list(p) for p in itertools.combinations(S, 2)]
        out += [['sec', list(t), items[a:b]] for a, b in trans.chunks(len(items), STEP)]
        if tier == 'thorough' and t[0] != 'SMEFT':
            n = len(trans.directions(t[0], t[1]))
            out += [['unit', list(t), a, b] for a, b in trans.chunks(n, 100)]
    return out


def check(case, rec):
    t = tuple(case[1])
    sec = {k: s for k, r, s in trans.keys(t[0], t[2])}
    src = {k: s for k, r, s in trans.keys(t[0], t[1])}
    par = trans.PAR
    if case[0] == 'sec':
        full = trans.dense(t[0], t[1])
        w = trans.wc(t[0], t[1], full)
        ref = w.translate(t[2], parameters=par).dict
        for S in case[2]:
            one(t, w, ref, S, sec, rec, 'dense')
            for kind, c in (('tuple', tuple(S)), ('list', list(S)), ('set', set(S))):
                if kind == 'tuple' or len(S) == 1:
                    one(t, w, ref, c, sec, rec, kind)
            # only the input of that sector present
            x = {k: z for k, z in full.items() if src[k] in S}
            if x and not any(len(v) > 1 for v in (S,)):
                w1 = trans.wc(t[0], t[1], x)
                one(t, w1, w1.translate(t[2], parameters=par).dict, S, sec, rec, 'own')
    else:
        D = trans.directions(t[0], t[1])
        for k, z in D[case[2]:case[3]]:
            w = trans.wc(t[0], t[1], {k: z})
            ref = w.translate(t[2], parameters=par).dict
            for s in sorted({src[k]} | {sec[q] for q in ref}):
                one(t, w, ref, (s,), sec, rec, '%s*%s' % (z, k))
    rec.trace()
    rec.sample('%s -> %s (%s)' % (t[1], t[2], t[0]))


def one(t, w, ref, S, sec, rec, what):
    name = '%s:%s:%s' % ('|'.join(t), what, ','.join(sorted(S)) if len(S) < 4 else '%d sectors' % len(S))
    rec.state(name)
    rec.step()
    got = w.translate(t[2], parameters=trans.PAR, sectors=S)
    rec.expect(got.scale == w.scale and got.basis == t[2], name, 'labels')
    got = got.dict
    m = max([abs(x) for x in ref.values()] + [0])
    bad = []
    for k in sorted(set(ref) | set(got)):
        a, b = got.get(k), ref.get(k, 0)
        if k not in sec:
            rec.fail(name, '%s is no coefficient of the target basis' % k)
            continue
        if a is None:
            if sec[k] in S and abs(b) > 1e-12 * m:
                bad.append((k, 'missing', b))
        elif abs(a - b) > 1e-9 * max(abs(a), abs(b)) + 1e-12 * m:
            bad.append((k, a, b))
    rec.expect(not bad, name, lambda: '%s -> %s (%s) restricted to %r: %s' % (t[1], t[2], t[0], S, trans.show(bad)))
