"""W04 JSON/YAML round trips of EFT, basis and coefficient files."""
import io
import itertools
import json
import math
import yaml
import logging
from wilson import wcxf
from wilson.wcxf.converters import yamljson

BOUNDS = {'quick': '21 scalar values (and all Re/Im pairs of 12) x 24 key spellings singly, x 4 dump routes x 3 format options x 2 load routes; '
                   'all conversion sequences up to 4 JSON/YAML conversions; EFT and basis files incl. all shipped ones; 12 malformed streams',
          'thorough': 'the same with all key x value pairs and conversion sequences up to 6'}
V = [0, 1, -3, 10**20, 0.0, -0.0, 0.1, -1.5, 1e-5, 1e-9, 123456.789e-30, 1e300, 1.7976931348623157e308, 5e-324, 2.2250738585072014e-308,
     1e16, 1e22, 1/3, 3.141592653589793, -1e-16, 1e5]
PV = [0, 1, -1.5, 1e-5, 5e-324, 1.7976931348623157e308, 1/3, -0.0, 1e22, '1e-3', '2', -1e-16]
K = ['C', 'b->s::Re{c7}', 'a: b', 'x#y', "it's", 'q"q', '1', '1.0', 'yes', 'null', '~', 'true', '1e3', '2020-01-01', '[x]', '{x}', '&a', '*a', '!t',
     '%p', '@a', '`b`', 'ä_ν', ' lead', 'trail ', '- d', 'a,b', '\\alpha', '0x1F', '1_000', '?', 'a\tb', 'C_{12}^{(1)}', '=', '<<', '.inf', 'phiWtildeB', 'lq1_1111']
EXTRA = [{}, {'metadata': {'generator': 'x', 'description': 'a: b\nc'}}, {'metadata': None, 'note': [1, 2.5, 'x']}]
META = {'id': 2**53 + 1, 'neg': -2**63 - 1, 'on': True, 'off': False, 'none': None, 'empty': '', 'list': [], 'dict': {}, 'date': '2020-01-01', 'num': '1e-3', 'int': '007',
        'float': 0.1, 'one': 1.0, 'nested': [{'a': [1, [2.5, 'ä'], {'b': None}]}], 'multi': 'a\n\nb\n', 'Yes': 'no', '~': '~', 'x y': ' z ', 'long': 'word ' * 60}
EXTRA.append({'metadata': dict(META, tiny=5e-324), 'version': '1', 'list': [2**60 + 1, False, None, {}]})
ROUTES = ['string', 'stream']
DUMPS = [('json', {}), ('json', {'indent': None}), ('JSON', {'indent': 4}), ('yaml', {}), ('yaml', {'default_flow_style': True}), ('YAML', {'default_flow_style': None})]


def cases(tier):
    out = []
    for i in range(len(V)):
        out.append(['value', i, tier])
    for i in range(len(PV)):
        out.append(['pair', i])
    for i in range(len(K)):
        out.append(['key', i])
    for i in range(8):
        out.append(['conv', i, 4 if tier == 'quick' else 6])
    out += [['obj', c, list(k) if isinstance(k, tuple) else k] for c, r in (('EFT', wcxf.EFT), ('Basis', wcxf.Basis)) for k in sorted(r.instances)]
    out += [['raw'], ['bad'], ['fmt']]
    return out


def num(v):
    if isinstance(v, dict):
        return complex(float(v.get('Re', 0)), float(v.get('Im', 0)))
    return complex(float(v))


def same(a, b):
    return a == b and math.copysign(1, a.real) == math.copysign(1, b.real) and math.copysign(1, a.imag) == math.copysign(1, b.imag)


def public(o):
    return {k: v for k, v in o.__dict__.items() if not k.startswith('_')}


def plain(o):
    return json.loads(json.dumps(o))


def text_of(o):
    return json.dumps(o, sort_keys=True)


def dumps(obj, fmt, kw, route):
    if route == 'string':
        return obj.dump(fmt=fmt, **dict(kw))
    s = io.StringIO()
    obj.dump(stream=s, fmt=fmt, **dict(kw))
    return s.getvalue()


def loads(cls, text, route):
    return cls.load(text if route == 'string' else io.StringIO(text))


def wcround(wc, rec, key):
    want = {k: num(v) for k, v in wc.values.items()}
    for (fmt, kw), r1, r2 in itertools.product(DUMPS, ROUTES, ROUTES):
        text = dumps(wc, fmt, kw, r1)
        # the format really is the one asked for
        if fmt.lower() == 'json':
            json.loads(text)
        else:
            yaml.safe_load(text)
        back = loads(wcxf.WC, text, r2)
        rec.step(2)
        rec.trace()
        if not rec.expect((back.eft, back.basis, back.scale) == (wc.eft, wc.basis, wc.scale), key,
                          lambda: 'header changed: %r -> %s' % (public(wc), text)):
            return
        if not rec.expect(set(back.dict) == set(want) and set(back.values) == set(wc.values), key,
                          lambda: 'keys changed through %s/%s/%s: %r -> %r\n%s' % (fmt, r1, r2, sorted(want), sorted(back.dict), text)):
            return
        for k in want:
            a = complex(back.dict[k])
            if not rec.expect(same(a, want[k]) or (a == want[k]), key,
                              lambda: '%r: %r became %r through %s/%s/%s' % (k, wc.values[k], a, fmt, r1, r2)):
                return
        for k, v in public(wc).items():
            if k not in ('values', 'scale'):
                rec.expect(text_of(getattr(back, k, '<lost>')) == text_of(v), key, lambda: 'attribute %s lost or changed' % k)
        rec.expect(set(public(back)) == set(public(wc)), key, lambda: 'attributes %r' % sorted(public(back)))


def check(case, rec):
    kind = case[0]
    logging.disable(logging.CRITICAL)
    if kind == 'value':
        v = V[case[1]]
        keys = K[:4] if case[2] == 'quick' else K
        for k in keys:
            for ex in EXTRA:
                for sc in (5, '91.1876', 1e5):
                    wc = wcxf.WC('E', 'B', sc, {k: v, 'other': 0.25}, **ex)
                    wcround(wc, rec, 'value:%r:%r:%r' % (v, k, sc))
        rec.state('v', v)
        rec.sample({'value': v, 'dump': wc.dump(fmt='yaml')})
    elif kind == 'pair':
        a = PV[case[1]]
        for b in PV:
            wcround(wcxf.WC('E', 'B', 100, {'C': {'Re': a, 'Im': b}, 'D': {'Im': b}, 'F': {'Re': a}}), rec, 'pair:%r:%r' % (a, b))
            rec.state('p', a, b)
    elif kind == 'key':
        k = K[case[1]]
        wcround(wcxf.WC('E' + k, 'B' + k, 100, {k: 0.5, 'z': {'Re': 1, 'Im': 2}}), rec, 'key:%r' % k)
        for k2 in K:
            if k2 != k:
                wcround(wcxf.WC('E', 'B', 100, {k: 0.5, k2: {'Re': 1, 'Im': 2}}), rec, 'key:%r:%r' % (k, k2))
                rec.state('k', k, k2)
        wcround(wcxf.WC('E', 'B', 100, {}), rec, 'empty')
    elif kind == 'conv':
        vals = [{'A': 1e-5, 'B': {'Re': 1, 'Im': -2e-7}}, {}, {k: 0.1 * i for i, k in enumerate(K)}, {'A': 1e-300}, {'A': 10**20, 'B': -0.0},
                {'ä': {'Re': 0.5}}, {'A': 1e22, 'B': {'Im': 1e-10}}, {'b->s::c1': 3}]
        wc = wcxf.WC('WET', 'My B', 1e-1 if case[1] % 2 else 1e16, vals[case[1]], metadata=dict(META, t='x: y\nz'))
        want = {k: num(v) for k, v in wc.values.items()}
        for n in range(1, case[2] + 1):
            for seq in itertools.product('JY', repeat=n):
                for start in 'JY':
                    if seq[0] == 'Y' and start == 'Y':
                        continue            # YAML -> YAML: input must be JSON
                    if any(a == b == 'Y' for a, b in zip(seq, seq[1:])):
                        continue
                    text = wc.dump(fmt='json' if start == 'J' else 'yaml')
                    for s in seq:
                        o = io.StringIO()
                        r = (yamljson.convert_json if s == 'J' else yamljson.convert_yaml)(io.StringIO(text), o)
                        text = o.getvalue()
                        rec.step()
                        if r == 1:
                            rec.fail('conv:%d:%s:%s' % (case[1], start, seq), 'the converter rejected its own output:\n' + text)
                            return
                        if s == 'J':
                            json.loads(text)
                        else:
                            yaml.safe_load(text)
                    b = wcxf.WC.load(text)
                    rec.trace()
                    rec.expect((b.eft, b.basis, b.scale) == (wc.eft, wc.basis, wc.scale)
                               and {k: complex(v) for k, v in b.dict.items()} == want
                               and text_of(b.metadata) == text_of(dict(META, t='x: y\nz')),
                               'conv:%d:%s:%s' % (case[1], start, ''.join(seq)),
                               lambda: 'after %s%s: %r, scale %r, expected %r, scale %r' % (start, seq, b.dict, b.scale, want, wc.scale))
                    rec.state(case[1], start, seq)
        rec.sample({'conversion chain': ''.join(seq), 'file': text[:300]})
    elif kind == 'obj':
        cls = getattr(wcxf, case[1])
        saved = cls.instances
        name = tuple(case[2]) if isinstance(case[2], list) else case[2]
        obj = cls[name]
        want = plain(public(obj))
        want.pop('parent', None)
        try:
            for (fmt, kw) in (DUMPS[0], DUMPS[1], DUMPS[3]) if len(str(want)) > 20000 else DUMPS:
                if case[1] == 'Basis' and len(str(want)) > 200000 and fmt != 'json':
                    continue       # slow pure-Python YAML; the small bases go through it
                for r in ROUTES:
                    text = dumps(obj, fmt, kw, r)
                    cls.instances = saved.copy()
                    back = loads(cls, text, r)
                    got = plain(public(back))
                    got.pop('parent', None)
                    rec.step(2)
                    rec.trace()
                    rec.expect(cls[name] is back, 'obj:%s' % case[1:], 'loading does not register the object')
                    rec.expect(got == want, 'obj:%s' % case[1:], 'dump and load changes the object through %s' % fmt)
                    if case[1] == 'Basis':
                        rec.expect(sorted(back.all_wcs) == sorted(obj.all_wcs), 'obj:%s' % case[1:], 'coefficients changed')
            rec.state(case[1], name)
        finally:
            cls.instances = saved
    elif kind == 'raw':
        # texts as users write them
        for text, want, sc in [
            ('eft: E\nbasis: B\nscale: 1e3\nvalues:\n  A: 1e-3\n  B:\n    Re: 1\n    Im: 2E-4\n', {'A': 1e-3, 'B': 1 + 2e-4j}, 1000.),
            ('eft: E\nbasis: B\nscale: 160\nvalues: {A: 1, B: -2, C: {Im: .5}}\n', {'A': 1, 'B': -2, 'C': .5j}, 160.),
            ('{"eft": "E", "basis": "B", "scale": "91.1876", "values": {"A": "0.5", "B": {"Re": "1e-2"}}}', {'A': .5, 'B': .01}, 91.1876),
            ('{"eft": "E", "basis": "B", "scale": 5, "values": {}}', {}, 5.),
            ('# comment\neft: E\nbasis: B\nscale: 5.0 # GeV\nvalues: {}\n', {}, 5.),
            ('---\neft: E\nbasis: B\nscale: 5.0\nvalues:\n    A: +1.5e+2\n', {'A': 150}, 5.),
        ]:
            for r in ROUTES:
                wc = loads(wcxf.WC, text, r)
                rec.expect(wc.dict == want and wc.scale == sc and isinstance(wc.scale, float), 'raw:%s' % text,
                           lambda: '%r read as %r at %r' % (text, wc.dict, wc.scale))
                wcround(wc, rec, 'raw:%s' % text)
                rec.state(text)
                for d in (('json', yamljson.convert_json), ('yaml', yamljson.convert_yaml)):
                    if d[0] == 'yaml' and not text.startswith('{'):
                        continue
                    o = io.StringIO()
                    d[1](io.StringIO(text), o)
                    b = wcxf.WC.load(o.getvalue())
                    rec.expect(b.dict == want and b.scale == sc, 'raw:%s' % text, lambda: 'converted to %s: %r' % (d[0], b.dict))
                    rec.step()
    elif kind == 'bad':
        badj = ['', '{', '{"a": 1,}', 'a: 1', '[1, 2', "{'a': 1}", '{"a": 1} x']
        bady = ['a: [1', '{', 'a: "x', '\tb: 1', 'a: b: c']
        for t in badj:
            o = io.StringIO()
            r = yamljson.convert_yaml(io.StringIO(t), o)
            rec.expect(r == 1 and o.getvalue() == '', 'bad:yaml:%s' % t, lambda: 'malformed JSON %r: returned %r, wrote %r' % (t, r, o.getvalue()))
            rec.step()
            rec.trace()
            rec.state('j', t)
        for t in bady:
            o = io.StringIO()
            r = yamljson.convert_json(io.StringIO(t), o)
            rec.expect(r == 1 and o.getvalue() == '', 'bad:json:%s' % t, lambda: 'malformed YAML %r: returned %r, wrote %r' % (t, r, o.getvalue()))
            rec.step()
            rec.trace()
            rec.state('y', t)
    elif kind == 'fmt':
        wc = wcxf.WC('E', 'B', 5, {'A': 1})
        for f in ('', 'xml', 'yml', 'jsn', 'toml'):
            o = io.StringIO()
            for st in (None, o):
                try:
                    wc.dump(stream=st, fmt=f)
                    rec.fail('fmt:' + f, 'unknown format %r accepted' % f)
                except ValueError:
                    pass
                rec.step()
            rec.expect(o.getvalue() == '', 'fmt:' + f, 'output written for an unknown format')
            rec.state(f)
