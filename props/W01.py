"""W01 Registry histories: every operation sequence on the named registries."""
import itertools
from wilson import wcxf

DEPTH = {'quick': 4, 'thorough': 5}
BOUNDS = {t: 'all sequences of <=%d of 26 operations (reading everything is one of them) on the EFT/Basis/Translator/Matcher registries (2 EFTs, 2 bases), '
             'and of <=5 of 12 operations on two fresh named classes' % d for t, d in DEPTH.items()}
ASSUMPTIONS = ['operations are issued from one thread']

B = [('E1', 'B1'), ('E1', 'B2'), ('E2', 'B1')]
T = [('E1', 'B1', 'B2'), ('E1', 'B2', 'B1'), ('E2', 'B1', 'B2')]
M = [('E1', 'B1', 'E2', 'B1'), ('E1', 'B2', 'E2', 'B1')]
OPS = ([('new', 'E', n) for n in ('E1', 'E2')] + [('del', 'E', n) for n in ('E1', 'E2')]
       + [('new', 'B', n) for n in B] + [('del', 'B', n) for n in B[:2]]
       + [('new', 'T', n) for n in T] + [('dec', 'T', n) for n in T[:1]] + [('del', 'T', n) for n in T[:2]]
       + [('new', 'M', n) for n in M] + [('dec', 'M', M[0])] + [('del', 'M', n) for n in M[:1]]
       + [('clear', c, None) for c in 'EBTM'] + [('load', 'E', 'E1'), ('load', 'B', B[0]), ('read', 'E', None)])
GOPS = [(o, c, n) for o in ('new', 'del') for c in 'XY' for n in ('a', 'b')] + \
    [('clear', c, None) for c in 'XY'] + [('delm', 'X', 'a'), ('delm', 'Y', 'b')]


def cases(tier):
    d = DEPTH[tier]
    out = []
    for a in range(len(OPS)):
        for b in range(len(OPS)):
            out.append(['reg', d, [a, b]])
    for a in range(len(GOPS)):
        out.append(['gen', 5, [a]])
    return out


class Spy:
    def __init__(self, tag):
        self.tag = tag

    def __call__(self, d, scale, parameters, **kw):
        return {'x': self.tag}


CLS = {'E': wcxf.EFT, 'B': wcxf.Basis, 'T': wcxf.Translator, 'M': wcxf.Matcher}
NAMES = {'E': ['E1', 'E2'], 'B': B + [('E2', 'B2')], 'T': T, 'M': M}
_cnt = [0]


def apply(op, cls, name, model):
    """One operation on the real registries and on the model; returns error text."""
    _cnt[0] += 1
    tag = float(_cnt[0])
    if op == 'read':
        return observe(model)
    if op == 'clear':
        CLS[cls].clear_all()
        model[cls] = {}
        return
    if op == 'del':
        try:
            del CLS[cls][name]
            ok = True
        except (KeyError, AttributeError):
            ok = False
        if ok != (name in model[cls]):
            return 'deleting %r from %s: succeeded=%r, model has it=%r' % (name, cls, ok, name in model[cls])
        model[cls].pop(name, None)
        return
    if cls == 'E':
        o = wcxf.EFT(name, {'s': {}}, tag=tag) if op == 'new' else wcxf.EFT.load('{"eft": "%s", "sectors": {}}' % name)
    elif cls == 'B':
        o = wcxf.Basis(name[0], name[1], {'s': {'x': None}}) if op == 'new' else \
            wcxf.Basis.load('eft: %s\nbasis: %s\nsectors: {s: {x: }}\n' % name)
    elif cls == 'T':
        f = Spy(tag)
        if op == 'new':
            o = wcxf.Translator(*name, f)
        else:
            if wcxf.translator(*name)(f) is not f:
                return 'translator decorator does not return the function'
            o = ('fn', f)
    else:
        f = Spy(tag)
        if op == 'new':
            o = wcxf.Matcher(*name, f)
        else:
            if wcxf.matcher(*name)(f) is not f:
                return 'matcher decorator does not return the function'
            o = ('fn', f)
    model[cls][name] = o
    return


def observe(model, full=True):
    for c in 'EBTM':
        for n in NAMES[c]:
            try:
                got = CLS[c][n]
                got2 = CLS[c].get_instance(n)
            except (KeyError, AttributeError):
                got = got2 = None
            want = model[c].get(n)
            if isinstance(want, tuple):
                if got is None or got.function is not want[1]:
                    return '%s[%r] is not the last one registered' % (c, n)
            elif got is not want or got2 is not want:
                return '%s[%r] is %r, the last registered is %r' % (c, n, got, want)
            if c == 'T' and got is not None and (got.eft, got.from_basis, got.to_basis) != n:
                return 'Translator[%r] carries the names %r' % (n, (got.eft, got.from_basis, got.to_basis))
            if c == 'M' and got is not None and (got.from_eft, got.from_basis, got.to_eft, got.to_basis) != n:
                return 'Matcher[%r] carries other names' % (n,)
            if c == 'B' and got is not None and (got.eft, got.basis) != n:
                return 'Basis[%r] carries other names' % (n,)
    for n, e in model['E'].items():
        kb = e.known_bases
        if sorted(kb) != sorted(b for (x, b) in model['B'] if x == n):
            return 'known_bases of %s: %r' % (n, kb)
        kt = e.known_translators
        if sorted(kt) != sorted(t for t in model['T'] if t[0] == n):
            return 'known_translators of EFT %s: %r' % (n, kt)
    for n, b in model['B'].items():
        kt = b.known_translators
        if sorted(kt['from']) != sorted(t for t in model['T'] if t[:2] == n) or \
           sorted(kt['to']) != sorted(t for t in model['T'] if (t[0], t[2]) == n):
            return 'known_translators of basis %r: %r' % (n, kt)
    # dispatch uses the registered functions
    for t in T:
        want = model['T'].get(t)
        wc = wcxf.WC(t[0], t[1], 5, {'x': 1})
        try:
            got = wc.translate(t[2]).values.get('x')
        except ValueError:
            got = None
        wf = None if want is None else (want[1] if isinstance(want, tuple) else want.function).tag
        if got != wf:
            return 'translate%r used function %r instead of %r' % (t, got, wf)
    for m in M:
        want = model['M'].get(m)
        wc = wcxf.WC(m[0], m[1], 5, {'x': 1})
        try:
            got = wc.match(m[2], m[3]).values.get('x')
        except ValueError:
            got = None
        wf = None if want is None else (want[1] if isinstance(want, tuple) else want.function).tag
        if got != wf:
            return 'match%r used function %r instead of %r' % (m, got, wf)


def history(seq, rec):
    model = {c: {} for c in 'EBTM'}
    for c in CLS.values():
        c.clear_all()
    for i, k in enumerate(seq):
        err = apply(*OPS[k], model)
        if err:
            break
    rec.step(len(seq))
    rec.trace()
    err = err or observe(model)
    if err:
        rec.fail('history:%s' % [OPS[k] for k in seq], err)
        return False
    rec.state(tuple(sorted((c, tuple(model[c])) for c in model)))
    return True


def ghistory(seq, rec):
    from wilson.wcxf import classes
    cl = {'X': type('X', (classes.NamedInstanceClass,), {}), 'Y': type('Y', (classes.NamedInstanceClass,), {})}
    model = {'X': {}, 'Y': {}}
    err = None
    for k in seq:
        op, c, n = GOPS[k]
        if op == 'new':
            model[c][n] = cl[c](n)
        elif op == 'clear':
            cl[c].clear_all()
            model[c] = {}
        else:
            try:
                if op == 'del':
                    del cl[c][n]
                else:
                    cl[c].del_instance(n)
                ok = True
            except (KeyError, AttributeError):
                ok = False
            if ok != (n in model[c]):
                err = 'deleting %s[%r]: succeeded=%r' % (c, n, ok)
                break
            model[c].pop(n, None)
    if not err:
        for c in 'XY':
            for n in 'ab':
                try:
                    got = cl[c][n]
                except (KeyError, AttributeError):
                    got = None
                if got is not model[c].get(n):
                    err = '%s[%r] is not the last one registered' % (c, n)
    rec.step(len(seq))
    rec.trace()
    if err:
        rec.fail('generic:%s' % [GOPS[k] for k in seq], err)
        return False
    rec.state('g', tuple(sorted((c, tuple(model[c])) for c in model)))
    return True


def check(case, rec):
    kind, depth, prefix = case
    ops = OPS if kind == 'reg' else GOPS
    run = history if kind == 'reg' else ghistory
    if kind == 'reg':
        saved = {c: c.instances for c in CLS.values()}
    try:
        n = len(prefix)
        if prefix[-1] == 0 and kind == 'reg':
            run(prefix[:1], rec)
        for d in range(0, depth - n + 1):
            for rest in itertools.product(range(len(ops)), repeat=d):
                if not run(prefix + list(rest), rec):
                    return
        rec.sample([list(map(str, ops[k])) for k in prefix])
    finally:
        if kind == 'reg':
            for c, v in saved.items():
                c.instances = v
