"""W02 Basis inheritance: every small family of parent/child bases."""
import itertools
import copy
import json
from wilson import wcxf

BOUNDS = {'quick': 'all chains root->child->grandchild over 2 sectors x 5 sector contents (absent, empty, 3 non-empty), '
                   'all 6 registration events after construction, constructor and file load, all 16 shipped bases',
          'thorough': 'the same with 3 sectors in the chains root->child and 7 sector contents'}
CONT = [None, {}, {'C1': None}, {'C1': {'real': True}, 'C2': {'tex': 'C_2'}}, {'C3': None, 'C1': {'tex': 'x'}},
        {'C2': {'real': False}}, {'C4': None}]


def sectors(nsec, ncont):
    for combo in itertools.product(range(ncont), repeat=nsec):
        yield combo


def mk(combo):
    return {'S%d' % i: copy.deepcopy(CONT[c]) for i, c in enumerate(combo) if c}


# index 0 = absent; CONT[0] is None and is skipped above


def cases(tier):
    nc = 5 if tier == 'quick' else 7
    out = [['chain', list(a), nc] for a in sectors(2, nc)]
    if tier == 'thorough':
        out += [['chain3', list(a), 5] for a in sectors(3, 5)]
    out += [['missing', v] for v in ('none', 'other-eft', 'deleted', 'self')]
    out += [['shipped', list(k)] for k in sorted(wcxf.Basis.instances)]
    return out


def expect(*layers):
    m = {}
    for l in layers:
        for s, v in l.items():
            m[s] = v
    return m


def build(how, eft, basis, sec, parent=None):
    if how == 'init':
        kw = {'parent': parent} if parent else {}
        return wcxf.Basis(eft, basis, copy.deepcopy(sec), **kw)
    d = {'eft': eft, 'basis': basis, 'sectors': sec}
    if parent:
        d['parent'] = parent
    return wcxf.Basis.load(json.dumps(d))


def names(sec):
    return sorted(w for v in sec.values() for w in v)


def verify(b, want, key, rec, what):
    rec.expect(b.sectors == want, key, lambda: '%s: sectors %r, expected %r' % (what, b.sectors, want))
    rec.expect(sorted(b.all_wcs) == names(want), key,
               lambda: '%s: all_wcs %r, expected %r' % (what, b.all_wcs, names(want)))


def chain(combo, nsec, nc, rec, depth3):
    s0 = mk(combo)
    for c1 in sectors(nsec, nc):
        s1 = mk(c1)
        for how in ('init', 'load'):
            wcxf.Basis.clear_all()
            key = 'chain:%s:%s:%s' % (how, combo, c1)
            root = build(how, 'E', 'root', s0)
            child = build(how, 'E', 'child', s1, 'root')
            rec.step(2)
            verify(root, s0, key, rec, 'root')
            verify(child, expect(s0, s1), key, rec, 'child')
            rec.state(tuple(combo), tuple(c1))
            if depth3:
                for c2 in sectors(nsec, nc):
                    s2 = mk(c2)
                    g = build('init', 'E', 'grand', s2, 'child')
                    rec.step()
                    rec.trace()
                    verify(g, expect(s0, s1, s2), key + ':%s' % (c2,), rec, 'grandchild')
                    rec.state(tuple(combo), tuple(c1), tuple(c2))
            # later events do not reach the finished child
            for ev in range(6):
                wcxf.Basis.clear_all()
                root = build(how, 'E', 'root', s0)
                child = build(how, 'E', 'child', s1, 'root')
                if ev == 1:
                    build('init', 'E', 'root', {'S9': {'Z': None}})
                elif ev == 2:
                    del wcxf.Basis['E', 'root']
                elif ev == 3:
                    build('init', 'F', 'root', {'S9': {'Z': None}})
                elif ev == 4:
                    child.sectors['S8'] = {'Y': None}
                    rec.expect('S8' not in root.sectors, key, 'a sector added to the child appears in the parent')
                    continue
                elif ev == 5:
                    root.sectors['S8'] = {'Y': None}
                    rec.expect('S8' not in child.sectors, key, 'a sector added to the parent later appears in the child')
                    continue
                verify(root, s0, key, rec, 'root after event %d' % ev)
                verify(child, expect(s0, s1), key, rec, 'child after event %d' % ev)
                # a sibling built from the current root
                if ev in (1, 3):
                    sib = build(how, 'E', 'sib', s1, 'root')
                    verify(sib, expect({'S9': {'Z': None}} if ev == 1 else s0, s1), key, rec, 'sibling after event %d' % ev)
                rec.trace()
                rec.step()
    rec.sample('root %r' % s0)


def check(case, rec):
    saved = wcxf.Basis.instances
    try:
        if case[0] == 'chain':
            chain(case[1], 2, case[2], rec, True)
        elif case[0] == 'chain3':
            chain(case[1], 3, case[2], rec, False)
        elif case[0] == 'missing':
            wcxf.Basis.clear_all()
            v = case[1]
            if v == 'other-eft':
                build('init', 'F', 'root', {'S': {'A': None}})
            elif v == 'deleted':
                build('init', 'E', 'root', {'S': {'A': None}})
                del wcxf.Basis['E', 'root']
            old = build('init', 'E', 'child', {'S': {'Z': None}}) if v in ('none', 'other-eft', 'deleted') else None
            before = dict(getattr(wcxf.Basis, 'instances', {}))
            for how in ('init', 'load'):
                try:
                    build(how, 'E', 'child' if v != 'self' else 'root', {'S': {'A': None}}, 'root')
                    rec.fail('missing:' + v, 'a basis whose parent is unknown was accepted')
                except ValueError:
                    pass
                rec.step()
                now = getattr(wcxf.Basis, 'instances', {})
                rec.expect(list(now) == list(before) and all(now[n] is before[n] for n in now), 'rejected:' + v, lambda: 'the rejected basis changed the registry: %s instead of %s' % (list(now), list(before)))
                rec.expect(old is None or wcxf.Basis['E', 'child'] is old and old.all_wcs == ['Z'], 'replaced:' + v, 'the rejected basis replaced the valid one of the same name')
            rec.trace()
            rec.state(v)
        else:
            b = wcxf.Basis[tuple(case[1])]
            par = getattr(b, 'parent', None)
            verify(b, b.sectors, 'shipped:%s' % case[1], rec, 'shipped')
            if par:
                p = wcxf.Basis[b.eft, par]
                for s in p.sectors:
                    rec.expect(s in b.sectors, 'shipped:%s' % case[1], 'sector %s of the parent is lost' % s)
            rec.state(tuple(case[1]))
            rec.step()
            rec.trace()
    finally:
        wcxf.Basis.instances = saved
