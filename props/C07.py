"""C07 Plot data of continuous solutions: grid, values and labels."""
import itertools
import sys
import types
import numpy as np
from lib import trans
from lib import wilsonref as W

BOUNDS = {'quick': 'synthetic solutions: all combinations of 6 ranges x 2 grids x 2 parts x 6 step numbers x 4 keys; real solutions: 6 coefficients each of dense WET, WET-4, WET-3 input, 6 coefficients and the SM parameters of SMEFT input, 2 directions of running, both grids and parts; three single coefficients of every sector, quantities of the whole sector; '
                   'all combinations of the arguments of plot against a recording stand-in',
          'thorough': 'more steps for the real solutions'}
ASSUMPTIONS = ['the discrete evolution is certified by R01-R03 and S02']
SC = {'WET': ((91.1876, 4.8), (10.0, 60.0)), 'WET-4': ((4.2, 2.0), (1.6, 3.9)), 'WET-3': ((2.2, 1.4), (1.4, 2.0)), 'SMEFT': ((1000.0, 160.0), (91.1876, 700.0))}


def cases(tier):
    out = [['synthetic', i] for i in range(6)] + [['plot', i] for i in range(2)]
    for e in SC:
        for i in (0, 1):
            for g in ('log', 'linear'):
                out.append(['real', e, i, g, 4 if tier == 'quick' else 9])
    for e in ('WET', 'WET-4', 'WET-3'):
        out += [['sparse', e, i] for i in (0, 1)]
    out.append(['same'])
    return out


ISOLATE = True
CHUNK = 1


def check(case, rec):
    rec.trace()
    globals()[case[0]](case, rec)


RANGES = [(1.0, 2.0), (91.1876, 1000.0), (1.3, 1.3000001), (0.5, 1e5), (1000.0, 1e16), (2, 5)]


def grid(lo, hi, kind, n):
    if n == 1:
        return np.array([float(lo)])
    t = np.arange(n) / (n - 1)
    return lo * (hi / lo) ** t if kind == 'log' else lo + (hi - lo) * t


def synthetic(case, rec):
    from wilson.classes import RGsolution
    lo, hi = RANGES[case[1]]
    fs = {'a': lambda x: x ** 2 + 1j / x, 'b': lambda x: 3 * x, 'g': lambda x: 1.0 + 0 * x, 'c_12': lambda x: -1j * x}

    def fun(x):
        if np.ndim(x) == 0:
            return {k: f(x) for k, f in fs.items()}
        return np.array([{k: f(y) for k, f in fs.items()} for y in x], dtype=object)
    sol = RGsolution(fun, lo, hi)
    for kind, part, n, key in itertools.product((None, 'log', 'linear'), (None, 're', 'im'), (None, 1, 2, 3, 17, 50, 120), fs):
        kw = {k: v for k, v in (('scale', kind), ('part', part), ('steps', n)) if v is not None}
        x, y = sol.plotdata(key, **kw)
        wx = grid(lo, hi, kind or 'log', n or 50)
        wy = np.array([fs[key](z) for z in wx])
        wy = wy.imag if part == 'im' else wy.real
        rec.state(case[1], kind, part, n, key)
        rec.step(len(wx))
        ok = np.shape(x) == wx.shape and np.shape(y) == wx.shape and np.allclose(x, wx, rtol=1e-9, atol=0) and np.allclose(y, wy, rtol=1e-8, atol=1e-9) and np.isrealobj(y)
        rec.expect(ok, 'synthetic', lambda: 'plotdata(%r, %s) on [%s, %s]: x=%s..., y=%s..., expected %s..., %s...' % (key, kw, lo, hi, x[:3], y[:3], wx[:3], wy[:3]))


def real(case, rec):
    from wilson.run.wet import WETrunner
    from wilson.run.smeft import SMEFT
    _, e, i, kind, n = case
    a, b = SC[e][i]
    if e == 'SMEFT':
        d = W.smeft_input('Warsaw', 0.2)
        r = SMEFT(trans.wc(e, 'Warsaw', d, a))
        sol = r.run_continuous(b)
        tol, noise = 2e-3, 1e-4
    else:
        d = trans.dense(e, 'JMS', 0.2)
        r = WETrunner(trans.wc(e, 'JMS', d, a))
        sol = r.run_continuous(b)
        tol, noise = 1e-9, 1e-13
    rec.expect((sol.scale_min, sol.scale_max) == (min(a, b), max(a, b)), 'range', lambda: 'range %s %s' % (sol.scale_min, sol.scale_max))
    wx = grid(min(a, b), max(a, b), kind, n)
    want = [r.run(z).dict for z in wx] if e != 'SMEFT' else None
    keys = [k for k, _, _ in trans.keys(e, 'JMS' if e != 'SMEFT' else 'Warsaw')]
    if e == 'SMEFT':
        keys = [k for j, k in enumerate(keys) if j % 300 == 7] + ['g', 'gp', 'gs', 'Lambda', 'm2', 'Gu_33', 'Gd_11']
        direct = [sol.fun(float(z)) for z in wx]
    else:
        keys = [k for j, k in enumerate(keys) if j % (len(keys) // (6 if n == 4 else 40)) == 3]
    for k in keys:
        for part in ('re', 'im'):
            x, y = sol.plotdata(k, part=part, scale=kind, steps=n)
            rec.state(e, i, kind, k, part)
            rec.step(n)
            rec.expect(np.allclose(x, wx, rtol=1e-9), 'grid', lambda: 'x = %s, expected %s' % (x, wx))
            w = np.array([complex((direct[j] if e == 'SMEFT' else want[j]).get(k, 0)) for j in range(n)])
            w = w.real if part == 're' else w.imag
            m = max(abs(w)) + 1e-300
            rec.expect(len(y) == n and np.allclose(y, w, rtol=1e-8, atol=1e-10 * m + (0 if e == 'SMEFT' else 1e-13)), 'real:%s' % e, lambda: '%s %s of %s: %s, expected %s' % (part, k, e, y, w))


def sparse(case, rec):
    """Single coefficients: the quantities generated by running exist on the whole
    grid, in particular (as zero) at the input scale."""
    from wilson.run.wet import WETrunner
    from wilson import wcxf
    _, e, i = case
    a, b = SC[e][i]
    B = wcxf.Basis[e, 'JMS']
    for s, keys in sorted(B.sectors.items()):
        keys = sorted(keys)
        for k0 in keys[::max(1, len(keys) // 3)][:3]:
            r = WETrunner(trans.wc(e, 'JMS', {k0: 1e-6}, a))
            for secs in ('all', (s,)):
                sol = r.run_continuous(b, sectors=secs)
                for kind in ('log', 'linear'):
                    wx = grid(min(a, b), max(a, b), kind, 3)
                    want = [r.run(z).dict for z in wx]
                    for k in keys[::max(1, len(keys) // 4)] + [k0]:
                        x, y = sol.plotdata(k, scale=kind, steps=3)
                        w = np.array([complex(d.get(k, 0)).real for d in want])
                        rec.step(3)
                        rec.state(e, s, k0, k, kind, secs)
                        rec.expect(np.allclose(x, wx, rtol=1e-9) and np.allclose(y, w, rtol=1e-7, atol=1e-16), 'sparse:%s' % e,
                                   lambda: '%s from %s: %s, expected %s' % (k, k0, y, w))


def same(case, rec):
    from wilson.run.wet import WETrunner
    from wilson.run.smeft import SMEFT
    for e, b, s in (('SMEFT', 'Warsaw', 1000.0), ('WET', 'JMS', 80.0)):
        w = trans.wc(e, b, {trans.keys(e, b)[0][0]: 1e-8}, s)
        r = (SMEFT if e == 'SMEFT' else WETrunner)(w)
        rec.step()
        try:
            r.run_continuous(s)
            rec.fail('same', 'continuous solution of zero length')
        except ValueError:
            pass


def plot(case, rec):
    from wilson.classes import RGsolution
    if case[1] == 0:
        calls = []
        plt = types.ModuleType('matplotlib.pyplot')
        for f in ('plot', 'xscale', 'legend'):
            setattr(plt, f, lambda *a, _f=f, **k: calls.append((_f, a, k)))
        mpl = types.ModuleType('matplotlib')
        mpl.pyplot = plt
        sys.modules['matplotlib'] = mpl
        sys.modules['matplotlib.pyplot'] = plt

        def fun(x):
            return [{'a': z * (1 + 2j), 'b': z} for z in np.atleast_1d(x)]
        sol = RGsolution(fun, 10.0, 1000.0)
        for key, part, kind, n, legend, args in itertools.product('ab', ('re', 'im'), ('log', 'linear'), (2, 11), (True, False), ({}, {'color': 'r', 'ls': '--'})):
            del calls[:]
            a0 = dict(args)
            sol.plot(key, part=part, scale=kind, steps=n, legend=legend, plotargs=args)
            x, y = sol.plotdata(key, part=part, scale=kind, steps=n)
            rec.state(key, part, kind, n, legend, str(args))
            rec.step()
            names = [c[0] for c in calls]
            ok = names.count('plot') == 1 and ('legend' in names) == legend and ('xscale' in names) == (kind == 'log') and args == a0
            if ok:
                c = calls[names.index('plot')]
                ok = np.array_equal(c[1][0], x) and np.array_equal(c[1][1], y) and c[2] == dict(args, label=key)
                ok = ok and all(c[1][:1] == ('log',) for c in calls if c[0] == 'xscale')
            rec.expect(ok, 'plot', lambda: 'plot(%r, %r, %r, %r, %r, %r) made the calls %s' % (key, part, kind, n, legend, args, str(calls)[:300]))
    else:
        sys.modules['matplotlib'] = None
        sys.modules['matplotlib.pyplot'] = None
        try:
            RGsolution(lambda x: [{'a': 1.0}], 1.0, 2.0).plot('a')
            rec.fail('import', 'plot without matplotlib succeeded')
        except ImportError:
            rec.step()
