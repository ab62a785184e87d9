"""W11 Printed representations of coefficient files, bases and Wilson instances."""
import html.parser
import itertools
import re
from wilson import wcxf

BOUNDS = {'quick': 'coefficient files: all pairs of 12 values (real, complex, extreme, text, Re/Im) under 10 names, 0 to 8 coefficients, all orders of 2 views out of 6; '
                   'bases: all contents of 2 sectors x 3 coefficients x 8 kinds of details, and every row of every shipped basis; files with all coefficients of every shipped basis; Wilson instances of every EFT',
          'thorough': 'the same with all orders of 3 views'}
ASSUMPTIONS = ['the number format of the HTML table is that of pandas (6 decimals)', 'HTML tables of more than 60 coefficients may be abbreviated in the middle, as pandas does', 'the layout (table with name in the first column) is as documented in the Markdown output']
VALS = [0, 1.5, -1e-9, 1e300, '2.5e-3', {'Re': 1, 'Im': -2}, {'Im': 1e-7}, {'Re': '3'}, 1 / 3, {'Re': 1e-30, 'Im': 1e30}, -7, {'Re': 0.1, 'Im': 0.1}]
NAMES = ['z', 'b->s::Re{c7}', 'lq1_1111', 'C_{1}', 'a b', 'x*y', 'A', 'phiG', "b->s::c9'", 'G#1']
DET = [None, {}, {'real': True}, {'real': False}, {'tex': 'O_1'}, {'tex': r'\bar q_i q_j', 'real': True}, {'tex': 'Q', 'real': None}, {'real': True, 'note': 'x'}]


def cases(tier):
    out = [['values', i] for i in range(len(VALS))] + [['views', n, 2 if tier == 'quick' else 3] for n in range(9)]
    out += [['basis', i] for i in range(len(DET))] + [['shipped', list(k)] for k in sorted(wcxf.Basis.instances)]
    out += [['long', list(k)] for k in sorted(wcxf.Basis.instances)]
    out += [['wilson', e] for e in ('SMEFT', 'WET', 'WET-4', 'WET-3')]
    return out


def num(v):
    if isinstance(v, dict):
        return complex(float(v.get('Re', 0)), float(v.get('Im', 0)))
    return complex(float(v))


def rows(md, ncol):
    """Rows of the Markdown tables: first cell in backquotes."""
    out = []
    for l in md.splitlines():
        m = re.match(r'^\|\s*`(.*?)`\s*\|(.*)\|\s*$', l)
        if m:
            cells = [m.group(1)] + ([c.strip() for c in m.group(2).rsplit('|', ncol - 2)] if ncol > 2 else [m.group(2).strip()])
            out.append(cells)
    return out


class Table(html.parser.HTMLParser):
    def __init__(self):
        super().__init__()
        self.tables, self.cell, self.text = [], None, ''

    def handle_starttag(self, tag, attrs):
        if tag == 'table':
            self.tables.append([])
        elif tag == 'tr' and self.tables:
            self.tables[-1].append([])
        elif tag in ('td', 'th'):
            self.cell = ''

    def handle_endtag(self, tag):
        if tag in ('td', 'th') and self.cell is not None:
            self.tables[-1][-1].append(self.cell.strip())
            self.cell = None

    def handle_data(self, d):
        self.text += d
        if self.cell is not None:
            self.cell += d


def check_md(md, eft, basis, scale, want, rec, key):
    got = rows(md, 2)
    rec.expect(eft in md and basis in md and str(scale) in md, key, lambda: 'EFT, basis or scale missing in %r' % md[:300])
    rec.expect([g[0] for g in got] == list(want), key, lambda: 'printed names %r, expected %r' % ([g[0] for g in got], list(want)))
    for n, v in got:
        try:
            z = complex(v)
        except ValueError:
            rec.fail(key, 'value %r of %s is not a number' % (v, n))
            continue
        rec.expect(z == want.get(n), key, lambda: '%s printed as %r, value %r' % (n, v, want.get(n)))
    rec.step(len(got))


def check_html(h, eft, basis, scale, want, rec, key):
    t = Table()
    t.feed(h)
    rec.expect(eft in t.text and basis in t.text and str(scale) in t.text, key, lambda: 'EFT, basis or scale missing in %r' % t.text[:300])
    if not want:
        return
    tab = t.tables[-1]
    rec.expect(tab[0][1:] == ['Re', 'Im'], key, lambda: 'columns %r' % tab[0])
    body = [r for r in tab[1:] if len(r) == 3]
    names = [r[0] for r in body]
    if len(want) > 60 and '...' in names:
        # long tables are abbreviated in the middle as pandas does
        i = names.index('...')
        ok = i >= 1 and len(names) - i >= 2 and names[:i] == list(want)[:i] and names[i + 1:] == list(want)[i + 1 - len(names):]
    else:
        ok = names == list(want)
    rec.expect(ok, key, lambda: 'names in the HTML table %r, expected %r' % (names, list(want)))
    mx = [max(abs(z.real) for z in want.values()), max(abs(z.imag) for z in want.values())]
    for n, a, b in body:
        z = want.get(n)
        if z is None:
            continue
        for x, y, m in ((float(a), z.real, mx[0]), (float(b), z.imag, mx[1])):
            rec.expect(abs(x - y) <= 1e-5 * abs(y) + 1e-5 * min(1, m), key, lambda: '%s shown as %s, %s, value %r' % (n, a, b, z))
    rec.step(len(body))


VIEWS = {
    'md': lambda w, a, rec, key: check_md(w._repr_markdown_(), *a, rec, key),
    'str': lambda w, a, rec, key: check_md(str(w), *a, rec, key),
    'html': lambda w, a, rec, key: check_html(w._repr_html_(), *a, rec, key),
    'repr': lambda w, a, rec, key: rec.expect(all(str(x) in repr(w) for x in a[:3]), key, lambda: 'repr %r' % w),
    'dict': lambda w, a, rec, key: rec.expect({k: complex(v) for k, v in w.dict.items()} == a[3], key, 'dictionary changed'),
    'df': lambda w, a, rec, key: rec.expect({k: complex(w.df.loc[k, 'Re'], w.df.loc[k, 'Im']) for k in w.df.index} == a[3], key, 'table changed'),
}


def check(case, rec):
    rec.trace()
    if case[0] == 'values':
        for v in VALS:
            for n in NAMES:
                vals = {n: VALS[case[1]], 'other': v}
                w = wcxf.WC('EF', 'My basis', 91.1876, vals)
                a = ('EF', 'My basis', 91.1876, {k: num(x) for k, x in vals.items()})
                key = 'values:%r:%r:%r' % (n, VALS[case[1]], v)
                for f in VIEWS.values():
                    f(w, a, rec, key)
                rec.state('v', case[1], repr(v), n)
        rec.sample(str(w)[-200:])
    elif case[0] == 'views':
        for i, scale in itertools.product(range(len(VALS)), (5.0, 1e16)):
            names = [NAMES[(i * 3 + j) % len(NAMES)] for j in range(case[1])]
            vals = {n: VALS[(i + 5 * j) % len(VALS)] for j, n in enumerate(names)}
            o = repr(vals)
            a = ('WET-X', 'B2', scale, {k: num(x) for k, x in vals.items()})
            for seq in itertools.product(VIEWS, repeat=case[2]):
                w = wcxf.WC('WET-X', 'B2', scale, vals)
                for s in seq:
                    VIEWS[s](w, a, rec, 'views:%d:%d:%s' % (case[1], i, seq))
                rec.expect(repr(w.values) == o and w.scale == scale, 'views', 'printing changed the file')
                rec.state('o', case[1], i, seq)
    elif case[0] == 'basis':
        saved = wcxf.Basis.instances
        try:
            wcxf.Basis.clear_all()
            for j, k in itertools.product(range(len(DET)), repeat=2):
                for shape in ((('A', 'B'), ('C',)), (('B', 'C', 'A'), ()), ((), ('z_1',)), (('A',), ('C', 'B'))):
                    d = itertools.cycle([DET[case[1]], DET[j], DET[k]])
                    sec = {s: {n: next(d) for n in ns} for s, ns in zip(('S 1', 'a'), shape)}
                    for meta in ({}, {'metadata': {'description': 'A `basis` of x'}}, {'metadata': {}}):
                        check_basis(wcxf.Basis('EF', 'B', sec, **meta), sec, rec, 'basis:%r' % (sec,))
                    rec.state('b', case[1], j, k, shape)
        finally:
            wcxf.Basis.instances = saved
    elif case[0] == 'long':
        # all (and the first n) coefficients of a shipped basis in one file
        e, b = case[1]
        ks = list(wcxf.Basis[e, b].all_wcs)
        for n in sorted({59, 60, 61, 120, len(ks)}):
            vals = {k: {'Re': (i + 1) * 0.5, 'Im': -i} if i % 3 else i + 0.25 for i, k in enumerate(ks[:n])}
            w = wcxf.WC(e, b, 160.25, vals)
            a = (e, b, 160.25, {k: num(x) for k, x in vals.items()})
            for v in ('html', 'md', 'str', 'repr', 'dict', 'df', 'html'):
                VIEWS[v](w, a, rec, 'long:%s:%s:%d' % (e, b, n))
            rec.state('l', e, b, n)
    elif case[0] == 'shipped':
        b = wcxf.Basis[tuple(case[1])]
        check_basis(b, b.sectors, rec, 'shipped:%s' % case[1])
        rec.state('s', tuple(case[1]))
    else:
        wilson_(case, rec)


def check_basis(b, sec, rec, key):
    md = str(b)
    rec.expect(b.eft in md and b.basis in md and b.eft in repr(b) and b.basis in repr(b), key, 'EFT or basis not shown')
    desc = getattr(b, 'metadata', {}).get('description')
    if desc:
        rec.expect(desc in md, key, 'description not shown')
    want = [(s, n, '$' + ((d or {}).get('tex', '~')) + '$', 'R' if (d or {}).get('real') else 'C') for s, ws in sec.items() for n, d in (ws or {}).items()]
    got, cur = [], None
    for l in md.splitlines():
        m = re.match(r'^#+ `(.*)`\s*$', l)
        if m:
            cur = m.group(1)
        m = re.match(r'^\|\s*`(.*?)`\s*\|(.*)\|\s*(\w)\s*\|\s*$', l)
        if m:
            got.append((cur, m.group(1), m.group(2).strip(), m.group(3)))
    rec.step(len(want))
    rec.expect(got == want, key, lambda: 'printed %r, expected %r' % ([g for g in got if g not in want][:3] or len(got), [w for w in want if w not in got][:3] or len(want)))


def wilson_(case, rec):
    from wilson import Wilson
    e = case[1]
    for b in sorted(x[1] for x in wcxf.Basis.instances if x[0] == e):
        ks = sorted(wcxf.Basis[e, b].all_wcs)
        for n in range(1, 5):
            for o in range(3):
                ks2 = ks[o * 7:][:n]
                d = {k: (1e-6 * (i + 1) if i % 2 else complex(2e-6, -1e-6 * i)) for i, k in enumerate(ks2)}
                w = Wilson(d, 80.5 + o, e, b)
                key = 'wilson:%s:%s' % (e, b)
                t0 = w._repr_html_()
                check_html(t0, e, b, 80.5 + o, {k: complex(v) for k, v in d.items()}, rec, key)
                rec.expect('Wilson coefficients' in t0, key, 'heading missing')
                rec.expect(w._repr_html_() == t0, key, 'display changed on the second time')
                rec.state('w', e, b, n, o)
