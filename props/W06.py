"""W06 Dispatch contract of basis translation and EFT matching."""
import itertools
import numpy as np
from wilson import wcxf

BOUNDS = {'quick': 'all subsets of 6 registered translators/matchers x 3 source files x 8 requests x 4 parameter values x 5 sector values; '
                   'function results: all assignments of 13 values to 3 keys',
          'thorough': 'same'}
OUT = [0, 0.0, -0.0, 0j, complex(0, -0.0), 1.5, 1e-320, 2 - 1j, 1j, 1e-30j, np.float64(0), np.complex128(0), np.complex128(1 + 1j)]
REG = [('T', 'E', 'B1', 'B2'), ('T', 'E', 'B2', 'B1'), ('T', 'F', 'B1', 'B2'), ('M', 'E', 'B1', 'F', 'B1'), ('M', 'E', 'B1', 'F', 'B2'), ('M', 'E', 'B2', 'F', 'B1')]
PARS = [None, {}, {'a': 1.0}, {'a': 2, 'b': [1]}]
SECS = [None, [], ['S1'], ('S1', 'S2'), 'all']


def cases(tier):
    return [['disp', m] for m in range(2 ** len(REG))] + [['zero', i] for i in range(len(OUT))] + [['sig']]


class Spy:
    def __init__(self, name, out=None):
        self.name, self.calls, self.out = name, [], out

    def __call__(self, d, scale, parameters, **kw):
        self.calls.append((dict(d), scale, parameters, kw))
        return dict(self.out) if self.out is not None else {'f%s' % '-'.join(self.name): 2.0, 'n': float(len(d))}


def public(o):
    return {k: v for k, v in o.__dict__.items() if not k.startswith('_')}


def check(case, rec):
    st, sm = wcxf.Translator.instances, wcxf.Matcher.instances
    try:
        _check(case, rec)
    finally:
        wcxf.Translator.instances, wcxf.Matcher.instances = st, sm


def _check(case, rec):
    wcxf.Translator.clear_all()
    wcxf.Matcher.clear_all()
    if case[0] == 'disp':
        active = [r for i, r in enumerate(REG) if case[1] >> i & 1]
        spies = {}
        for r in active:
            spies[r] = Spy(r)
            if r[0] == 'T':
                wcxf.translator(*r[1:])(spies[r])
            else:
                wcxf.matcher(*r[1:])(spies[r])
        vals = {'x': 1, 'y': {'Re': 0, 'Im': 2}, 'z': 0}
        for (e, b, sc), par in itertools.product([('E', 'B1', 5), ('E', 'B2', 91.1876), ('F', 'B1', 1000)], PARS):
            for req in [('T', 'B1'), ('T', 'B2'), ('T', 'B3'), ('M', 'E', 'B1'), ('M', 'E', 'B2'), ('M', 'F', 'B1'), ('M', 'F', 'B2'), ('M', 'G', 'B1')]:
                for sec in (SECS if req[0] == 'T' else [None]):
                    wc = wcxf.WC(e, b, sc, {k: (dict(v) if isinstance(v, dict) else v) for k, v in vals.items()})
                    for s in spies.values():
                        s.calls = []
                    r = (req[0], e, b) + tuple(req[1:])
                    toe, tob = (e, req[1]) if req[0] == 'T' else req[1:]
                    key = 'disp:%d:%s:%s:%r:%r' % (case[1], (e, b), req, par, sec)
                    p0 = repr(par)
                    try:
                        if req[0] == 'T':
                            kw = {} if sec is None else {'sectors': sec}
                            out = wc.translate(tob, parameters=par, **kw)
                        else:
                            out = wc.match(toe, tob, parameters=par)
                        err = None
                    except ValueError as ex:
                        out, err = None, ex
                    rec.step()
                    rec.trace()
                    rec.state(case[1], e, b, req, p0, repr(sec))
                    calls = [(n, c) for n, s in spies.items() for c in s.calls]
                    rec.expect(public(wc) == {'eft': e, 'basis': b, 'scale': float(sc), 'values': vals}, key, 'the source file was modified')
                    rec.expect(repr(par) == p0, key, 'the parameters were modified')
                    if (toe, tob) == (e, b):
                        rec.expect(err is None and public(out) == public(wc) and not calls, key,
                                   lambda: 'same basis: %r %r, calls %r' % (out, err, calls))
                    elif r not in active:
                        rec.expect(out is None and not calls, key, lambda: 'no route, but got %r, calls %r' % (out, calls))
                    else:
                        rec.expect(err is None and len(calls) == 1 and calls[0][0] == r, key, lambda: 'wrong function: %r (%r)' % (calls, err))
                        if err or not calls:
                            continue
                        d, s_, p_, kw_ = calls[0][1]
                        rec.expect(d == {'x': 1, 'y': 2j, 'z': 0} and s_ == sc and p_ == par and kw_ == ({} if sec is None else {'sectors': sec}),
                                   key, lambda: 'the function received %r' % (calls[0][1],))
                        rec.expect(public(out) == {'eft': toe, 'basis': tob, 'scale': float(sc), 'values': {'f%s' % '-'.join(r): 2.0, 'n': 3.0}},
                                   key, lambda: 'result %r' % (public(out),))
        rec.sample('registered: %r' % active)
    elif case[0] == 'zero':
        for b, c in itertools.product(range(len(OUT)), repeat=2):
            res = {'a': OUT[case[1]], 'b': OUT[b], 'c': OUT[c]}
            wcxf.Translator('E', 'B1', 'B2', Spy('t', res))
            wcxf.Matcher('E', 'B1', 'F', 'B2', Spy('m', res))
            wc = wcxf.WC('E', 'B1', 5, {'x': 1})
            want = {k: complex(v) for k, v in res.items() if v != 0}
            for out in (wc.translate('B2'), wc.match('F', 'B2'), wc.translate('B2', sectors=('S',))):
                got = {k: complex(v) for k, v in out.dict.items()}
                rec.expect(got == want and set(out.values) == set(want), 'zero:%r' % (res,), lambda: '%r -> %r' % (res, out.values))
                out.dump()
                rec.step()
                rec.trace()
            rec.state(case[1], b, c)
        rec.sample(repr(res))
    else:
        # a function that knows no sectors keeps working without them
        wcxf.translator('E', 'B1', 'B2')(lambda d, scale, parameters: {k: 2 * v for k, v in d.items()})
        wcxf.matcher('E', 'B1', 'F', 'B2')(lambda d, scale, parameters: {k: 3 * v for k, v in d.items()})
        for v in (1, 1j, 0, 2.5):
            wc = wcxf.WC('E', 'B1', 5, wcxf.WC.dict2values({'x': v}))
            rec.expect(wc.translate('B2')['x'] == 2 * v, 'sig', 'translator without sectors')
            rec.expect(wc.match('F', 'B2')['x'] == 3 * v, 'sig', 'matcher')
            rec.expect(wcxf.Translator['E', 'B1', 'B2'].translate(wc)['x'] == 2 * v, 'sig', 'direct')
            rec.expect(wcxf.Matcher['E', 'B1', 'F', 'B2'].match(wc)['x'] == 3 * v, 'sig', 'direct')
            rec.step(4)
            rec.state('sig', v)
