"""C08 Concurrent requests to one Wilson instance give the answers of a fresh instance, under every schedule."""
import itertools
from lib import sched, trans
from lib import wilsonref as W

BOUNDS = {'quick': 'all schedules of 2 threads with one preemption (any line of wilson/classes.py) for all ordered pairs of 8 requests to a fresh instance; all schedules with 2 preemptions for 4 pairs of requests (6 lines apart at most); all ordered pairs of 5 requests (4 different target EFTs/sectors) to an instance at 80 GeV in the flavio basis, one preemption; 3 threads with one preemption; two SMEFT instances switched at any function call of the evolution; independent evolutions, translations and matchings in two threads (14 operations, ordered pairs of the same kind), one preemption at the first and the last execution of every line of the package',
          'thorough': 'all schedules with 2 preemptions for all pairs of 5 requests; independent operations: all ordered pairs of different kinds, too, and a third execution of every line'}
ASSUMPTIONS = ['switches happen at line boundaries of wilson/classes.py (function calls for the SMEFT evolution; all lines of the package for independent operations); the numerical libraries are atomic']
FILES = ('wilson/classes.py',)
REQ = [(1.8, 'WET-3', 'flavio', ('mue',)), (1.5, 'WET-3', 'JMS', ('mue',)), (1.5, 'WET-3', 'flavio', ('mue',)), (1.5, 'WET-3', 'flavio', ('sd',)), (1.5, 'WET-3', 'flavio', ('sd', 'mue')),
       (1.4, 'WET-3', 'flavio', ('mue',)), (1.8, 'WET-3', 'JMS', ('mue',)), (1.5, 'WET-3', 'flavio', ('mue',))]
FL = [(4.8, 'WET', 'flavio', ('sbsb',)), (4.8, 'WET', 'flavio', ('dbdb',)), (4.2, 'WET-4', 'flavio', ('mue',)), (3.0, 'WET-4', 'JMS', ('dbdb', 'mue')), (1.5, 'WET-3', 'flavio', ('mue',))]
SM = [(91.1876, 'WET', 'JMS', 'all'), (4.8, 'WET', 'flavio', ('mue',)), (4.2, 'WET-4', 'flavio', ('mue',))]


def cases(tier):
    out = [['one', i, j] for i in range(len(REQ)) for j in range(len(REQ))]
    if tier == 'quick':
        out += [['two', i, j, 6] for i, j in ((2, 3), (2, 5), (2, 2), (1, 2))]
    else:
        out += [['two', i, j, 10 ** 6] for i in range(1, 6) for j in range(1, 6)]
    out += [['three', 2, 3, 5], ['three', 0, 2, 2]]
    out += [['flavio', i, j] for i in range(len(FL)) for j in range(len(FL))]
    out += [['smeft', i, j] for i in range(len(SM)) for j in range(len(SM))]
    out += [['evolve', k, tier] for k in range(8)]
    P = pairs(tier)
    out += [['indep', a, b, j, m, tier] for a, b in P for m in (8 if 'match' in a + b else 2,) for j in range(m)]
    return sorted(out, key=lambda c: c[0] not in ('smeft', 'two', 'evolve', 'flavio', 'indep'))


def small(e, b, secs, ph=0.0):
    so = W.sector_of(e, b)
    return {k: v for k, v in trans.dense(e, b, ph).items() if so[k] in secs}


def operations():
    """independent operations: kind -> two callables on different inputs"""
    from wilson.run.wet import WETrunner
    w1, w2 = trans.wc('WET', 'JMS', small('WET', 'JMS', ('sbsb', 'mue', 'sb')), 80.), trans.wc('WET-4', 'JMS', small('WET-4', 'JMS', ('sdsd', 'cu'), 0.7), 4.2)
    f1, f2 = trans.wc('WET', 'flavio', small('WET', 'flavio', ('sbsb', 'mue'))), trans.wc('WET-3', 'flavio', small('WET-3', 'flavio', ('sd', 'dF=0'), 0.7))
    s1, s2 = trans.wc('SMEFT', 'Warsaw', W.smeft_input('Warsaw', 0.3, every=11), 91.1876), trans.wc('SMEFT', 'Warsaw', W.smeft_input('Warsaw', 1.1, every=7), 120.)
    par = dict(W.parameters(W.options()))
    alt = dict(par, m_b=4.5, Vcb=0.045, alpha_s=0.12)
    return {
        'run': (lambda: WETrunner(w1).run(4.8, sectors=('sbsb', 'mue', 'sb')), lambda: WETrunner(w2, alt).run(2.0, sectors=('sdsd', 'cu'))),
        'cont': (lambda: WETrunner(w1).run_continuous(4.8, sectors=('sbsb', 'mue')).fun(10.0), lambda: WETrunner(w1, alt).run_continuous(9.0, sectors=('sbsb', 'mue')).fun(20.0)),
        'jms2flavio': (lambda: w1.translate('flavio', sectors=('sbsb', 'mue')), lambda: w2.translate('flavio', parameters=alt, sectors=('sdsd', 'cu'))),
        'flavio2jms': (lambda: f1.translate('JMS', sectors=('sbsb', 'mue')), lambda: f2.translate('JMS', parameters=alt, sectors=('sd', 'dF=0'))),
        'mass': (lambda: s1.translate('Warsaw mass'), lambda: s2.translate('Warsaw mass', parameters=alt)),
        'eos': (lambda: w1.translate('EOS'), lambda: w1.translate('Bern')),
        'match': (lambda: s1.match('WET', 'JMS'), lambda: s2.match('WET', 'JMS', parameters=alt)),
    }


def pairs(tier):
    n = ('run', 'cont', 'jms2flavio', 'flavio2jms', 'mass', 'eos', 'match')
    return [(x + ':0', x + ':1') for x in n] + [(x + ':1', x + ':0') for x in n] + ([(x + ':0', y + ':1') for x in n for y in n if x != y] if tier != 'quick' else [])


def package():
    import os
    import wilson
    root = os.path.dirname(wilson.__file__)
    return tuple(os.path.join(r, f) for r, _, fs in os.walk(root) for f in fs if f.endswith('.py') and 'test' not in r)


def indep(case, rec):
    _, a, b, j, m, tier = case
    ops = operations()
    fs = [ops[x.split(':')[0]][int(x.split(':')[1])] for x in (a, b)]

    def plain(r):
        return dict(r.dict) if hasattr(r, 'dict') else dict(r)
    fs = [lambda f=f: plain(f()) for f in fs]
    PKG = package()
    want = [f() for f in fs]

    def go(sw):
        run = sched.Run(fs, sw, PKG, stop=True).run()
        rec.step(run.step)
        rec.trace()
        rec.state('indep', a, b, tuple(sw.items()))
        for i in (0, 1):
            if run.error[i] is not None:
                rec.fail('indep-error:' + a, '%s, interrupted by %s at step %s: thread %d raised %r' % (a, b, sw, i, run.error[i]))
                return None
            bad = trans.cmp(run.result[i], want[i], rtol=1e-9, noise=1e-13)
            if bad or set(run.result[i]) != set(want[i]):
                rec.fail('indep:' + a, '%s, interrupted by %s at step %s: result of thread %d: %s' % (a, b, sw, i, trans.show(bad)))
                return None
        return run
    base = go({})
    if base is None:
        return
    occ = {}
    for s, (i, loc) in enumerate(base.locs):
        if i == 0:
            occ.setdefault(loc, []).append(s)
    steps = set()
    for o in occ.values():
        steps |= {o[0], o[-1]} | ({o[len(o) // 2]} if tier != 'quick' else set())
    steps = sorted(steps)
    rec.count('lines', len(occ) if j == 0 else 0)
    for s in steps[j::m]:
        if go({s: 1}) is None:
            return


CHUNK = 1


def inst(k=0):
    if k == 'SMEFT':
        return W.make((W.smeft_input('Warsaw', 0.3, every=11), 91.1876, 'SMEFT', 'Warsaw'), W.options(smeft_accuracy='leadinglog'))
    if k == 'flavio':
        so = W.sector_of('WET', 'flavio')
        return W.make(({k: v for k, v in trans.dense('WET', 'flavio').items() if so[k] in ('mue', 'sbsb', 'dbdb')}, 80., 'WET', 'flavio'), {})
    so = W.sector_of('WET-3', 'JMS')
    return W.make(({k: v for k, v in trans.dense('WET-3', 'JMS').items() if so[k] in ('mue', 'sd')}, 1.8, 'WET-3', 'JMS'), {})


def ask(w, r):
    g = w.match_run(r[0], r[1], r[2], sectors=r[3])
    return g.eft, g.basis, g.scale, dict(g.dict)


def check(case, rec):
    kind = case[0]
    if kind in ('evolve', 'indep'):
        return globals()[kind](case, rec)
    table = {'smeft': SM, 'flavio': FL}.get(kind, REQ)
    src = {'smeft': 'SMEFT', 'flavio': 'flavio'}.get(kind, 0)
    idx = case[1:4] if kind == 'three' else case[1:3]
    reqs = [table[i] for i in idx]
    want = [ask(inst(src), r) for r in reqs]

    def go(sw):
        w = inst(src)
        run = sched.Run([lambda r=r: ask(w, r) for r in reqs], sw, FILES).run()
        rec.step(run.step)
        rec.trace()
        rec.state(kind, tuple(idx), tuple(sorted(sw.items())))
        for i, r in enumerate(reqs):
            if run.error[i] is not None:
                rec.fail('error:%s' % kind, 'requests %s, switches %s: thread %d raised %r' % (reqs, sw, i, run.error[i]))
                return run, False
            g = run.result[i]
            bad = trans.cmp(g[3], want[i][3], rtol=1e-9, noise=1e-13)
            if bad or g[:3] != want[i][:3]:
                rec.fail('answer:%s' % kind, 'requests %s, switches (line number: thread) %s: thread %d got %s; %s' % (reqs, sw, i, g[:3], trans.show(bad)))
                return run, False
        # afterwards, too
        for r, x in zip(reqs, want):
            g = ask(w, r)
            bad = trans.cmp(g[3], x[3], rtol=1e-9, noise=1e-13)
            if bad or g[:3] != x[:3]:
                rec.fail('later:%s' % kind, 'requests %s, switches %s: later request %s: %s' % (reqs, sw, r, trans.show(bad)))
                return run, False
        return run, True
    base, ok = go({})
    n0 = base.step
    others = range(1, len(reqs))
    for s in range(n0):
        for j in others:
            run, ok = go({s: j})
            if not ok:
                return
            if kind == 'two':
                for t in range(s + 1, min(run.step, s + 1 + case[3])):
                    r2, ok = go({s: j, t: 0})
                    if not ok:
                        return


def evolve(case, rec):
    """two independent SMEFT instances, switched at function calls of the evolution (the case number selects every 8th call)"""
    from wilson.run.smeft import SMEFT
    files = ('wilson/run/smeft/classes.py', 'wilson/run/smeft/rge.py', 'wilson/run/smeft/smpar.py') + (() if case[2] == 'quick' else ('wilson/util/smeftutil.py', 'wilson/util/common.py'))
    ins = [(W.smeft_input('Warsaw', 0.3, every=7), 1000.0, 300.0), (W.smeft_input('Warsaw', 1.4, every=5), 700.0, 1500.0)]

    def one(i):
        d, a, b = ins[i]
        return dict(SMEFT(trans.wc('SMEFT', 'Warsaw', d, a)).run(b, accuracy='leadinglog').dict)
    want = [one(0), one(1)]

    def go(sw):
        run = sched.Run([lambda: one(0), lambda: one(1)], sw, files, 'call').run()
        rec.step(run.step)
        rec.trace()
        rec.state('evolve', tuple(sw.items()))
        for i in (0, 1):
            if run.error[i] is not None:
                rec.fail('evolve-error', 'switch %s: thread %d raised %r' % (sw, i, run.error[i]))
                return None
            bad = trans.cmp(run.result[i], want[i], rtol=1e-9, noise=1e-12)
            if bad:
                rec.fail('evolve', 'switch at call %s: thread %d: %s' % (sw, i, trans.show(bad)))
                return None
        return run
    n = go({}).step
    rec.count('calls', n if case[1] == 0 else 0)
    for s in range(case[1], n, 8):
        if go({s: 1}) is None:
            return
