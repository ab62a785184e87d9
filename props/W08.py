"""W08 The command line tools do exactly what the library does."""
import itertools
import json
import logging
import os
import shutil
import sys
import tempfile
import yaml
import pylha
from wilson import wcxf
from wilson.wcxf import cli
from wilson.wcxf.converters import dsixtools, eos as eosconv, smeftsim as S

BOUNDS = {'quick': 'every subcommand of the 5 tools x 3 input routes x 2 output routes x 3 format spellings x 2-6 files (JSON, YAML, malformed, wrong content), each in its own process image',
          'thorough': 'same'}
DATA = os.path.join(os.environ.get('WILSON_REPO', '/repo'), 'wilson', 'wcxf', 'data')

WCS = {
    'flavio': ('WET', 'flavio', 160, {'CVLL_bsbs': {'Re': 1e-8, 'Im': 2e-9}, 'C9_bsmumu': 1.1, 'C7_bs': 0.1}),
    'jms': ('WET', 'JMS', 91.1876, {'VddLL_1213': {'Re': 1e-8, 'Im': -3e-9}, 'VedLL_2223': 1e-7, 'S1ddRR_2323': 1e-9, 'TeuRR_1112': 2e-8}),
    'warsaw': ('SMEFT', 'Warsaw', 1000, {'phiq1_23': 1e-7, 'lq1_2223': {'Re': 1e-8, 'Im': 1e-9}, 'll_1221': 1e-8, 'phiBox': -1e-7}),
    'mass': ('SMEFT', 'Warsaw mass', 1000, {'phil1_11': -1e-7, 'lq1_2223': {'Re': 1e-8, 'Im': 1e-9}, 'll_1221': 1e-8, 'phiBox': -1e-7}),
    'eos': ('WET', 'EOS', 4.2, {'b->s::c1': 0.5, 'b->see::Re{c9}': -1.0}),
    'bad': ('WET', 'flavio', 160, {'nonsense': 1}),
    'warsawbad': ('SMEFT', 'Warsaw', 1000, {'phiBox': -1e-7, 'phiq1_32': 1e-7, 'phie_21': 1e-8}),
    'massbad': ('SMEFT', 'Warsaw mass', 1000, {'phiBox': -1e-7, 'phil1_21': 1e-7}),
    'eosbad': ('WET', 'EOS', 4.2, {'b->s::c1': 0.5, 'b->see::c9': -1.0}),
    'badbasis': ('WET', 'nonsense', 160, {'CVLL_bsbs': 1}),
    'empty': ('WET', 'flavio', 160, {}),
}


def cases(tier):
    out = []
    inp = ['file', 'dash', 'stdin']
    outp = ['file', 'stdout']
    fm = ['json', 'yaml']
    for w, i, o, f, t in itertools.product(['flavio', 'empty', 'warsaw'], inp, outp, fm, ['json', 'yaml', 'JSON']):
        out.append(['convert', w, i, o, f, t])
    for w, to in (('flavio', 'JMS'), ('flavio', 'Bern'), ('jms', 'flavio'), ('warsaw', 'Warsaw up'), ('jms', 'JMS'), ('flavio', 'Warsaw'), ('empty', 'JMS')):
        for i, o, f, t in itertools.product(inp, outp, fm[:1] if i == 'dash' else fm, [None, 'yaml', 'json']) if False else \
                itertools.product(inp, outp, ['json', 'yaml'], [None, 'yaml', 'json']):
            out.append(['translate', w, i, o, f, t, to])
    for t in ('YAML', 'JSON', 'Yaml', 'toml', 'yml', ''):
        for o in outp:
            out.append(['translate', 'flavio', 'file', o, 'json', t, 'JMS'])
            out.append(['match', 'jms', 'file', o, 'json', t, 'WET-4', 'JMS'])
    for w, e, b in (('jms', 'WET-4', 'JMS'), ('jms', 'WET-3', 'JMS'), ('warsaw', 'WET', 'JMS'), ('warsaw', 'WET', 'flavio'), ('flavio', 'WET-4', 'flavio'), ('jms', 'WET', 'JMS'), ('jms', 'SMEFT', 'Warsaw')):
        for i, o, t in itertools.product(inp, outp, [None, 'yaml']):
            out.append(['match', w, i, o, 'yaml' if t else 'json', t, e, b])
    for w, i, f in itertools.product(sorted(WCS), inp, fm):
        out.append(['validate', w, i, 'stdout', f, 'wc'])
    for w, i in itertools.product(['eft:ok', 'basis:ok', 'basis:dupe', 'basis:sector', 'basis:noeft', 'nonsense:ok'], inp):
        out.append(['validate2', w, i, 'stdout', 'json'])
    for w, i, o in itertools.product(['eos', 'bad', 'eosbad', 'empty'], inp, ['file', 'stdout', 'home', 'homebad', 'both']):
        out.append(['eos', w, i, o, 'json'])
    for w, ms, sch, lam, o in itertools.product(['mass'], [None, 'A', 'B'], [None, 'alpha', 'mw'], [None, '2500'], ['default', 'file']):
        out.append(['smeftsim', w, 'file', o, 'json', ms, sch, lam])
    for w, key in itertools.product(['warsaw', 'bad', 'warsawbad', 'massbad'], ['i', 'I', 'x', '']):
        out.append(['smeftsim', w, 'file', 'default', 'json', None, None, None, key])
    for w, i, o in itertools.product(['warsaw', 'bad', 'warsawbad', 'mass'], inp, outp):
        out.append(['wcxf2dsixtools', w, i, o, 'json'])
    for o, n in itertools.product(outp, (1, 3)):
        out.append(['dsixtools2wcxf', 'warsaw', 'file', o, 'json', n])
    out += [['nothing', 'flavio', 'stdin', 'stdout', 'json'], ['convertbad', 'x', 'stdin', 'stdout', 'json']]
    return out


ENTRY = {'convert': 'wcxf_cli', 'convertbad': 'wcxf_cli', 'translate': 'wcxf_cli', 'match': 'wcxf_cli', 'validate': 'wcxf_cli', 'validate2': 'wcxf_cli',
         'nothing': 'wcxf_cli', 'eos': 'eos', 'smeftsim': 'smeftsim', 'wcxf2dsixtools': 'wcxf2dsixtools', 'dsixtools2wcxf': 'dsixtools2wcxf'}


def spawn(entry, argv, stdin, cwd):
    """Run one entry point in a forked process image; returns (ok, stdout, stderr)."""
    fi, fo, fe, fr = (os.path.join(cwd, '.' + x) for x in ('in', 'out', 'err', 'rc'))
    with open(fi, 'w') as f:
        f.write(stdin)
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 'crash'
        try:
            os.chdir(cwd)
            for n, (p, m) in enumerate(((fi, os.O_RDONLY), (fo, os.O_WRONLY | os.O_CREAT | os.O_TRUNC), (fe, os.O_WRONLY | os.O_CREAT | os.O_TRUNC))):
                fd = os.open(p, m)
                os.dup2(fd, n)
            sys.stdin = open(0, 'r', closefd=False)
            sys.stdout = open(1, 'w', closefd=False)
            sys.stderr = open(2, 'w', closefd=False)
            logging.getLogger().handlers.clear()
            logging.disable(logging.NOTSET)
            sys.argv = [entry] + argv
            try:
                r = getattr(cli, entry)()
                code = 'rc:%r' % (r,)
            except SystemExit as e:
                code = 'exit:%r' % (e.code,)
            except BaseException as e:
                code = 'exc:%s:%s' % (type(e).__name__, e)
            import gc
            gc.collect()
            for s in (sys.stdout, sys.stderr):
                try:
                    s.flush()
                except ValueError:
                    pass
        finally:
            with open(fr, 'w') as f:
                f.write(code)
            os._exit(0)
    os.waitpid(pid, 0)
    return open(fr).read(), open(fo).read(), open(fe).read()


def okcode(code):
    return code in ('rc:None', 'rc:0', 'exit:0', 'exit:None')


def check(case, rec):
    scratch = tempfile.mkdtemp(prefix='w08')
    try:
        _check(case, rec, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def pub(wc):
    return {'eft': wc.eft, 'basis': wc.basis, 'scale': wc.scale, 'values': {k: complex(v) for k, v in wc.dict.items()}}


OLD = ('{}\n', '# ' + 'left over from before ' * 20000 + '\n')


def _content(text):
    for f in (json.loads, yaml.safe_load, lambda t: pylha.load(t)):
        try:
            d = f(text)
        except Exception:
            continue
        if isinstance(d, dict):
            return d


def _check(case, rec, cwd):
    cmd, w, route, o, f = case[:5]
    key = ':'.join(map(str, case))
    rec.state(key)
    rec.step()
    rec.trace()
    if cmd in ('validate2',):
        kind, what = w.split(':')
        d = {'eft': {'eft': 'CE', 'sectors': {'s': None}}, 'basis': {'eft': 'CE', 'basis': 'CB', 'sectors': {'s': {'A': None, 'B': {'tex': 'C_A'}}}}}.get(
            kind, {'eft': 'CE', 'sectors': {'s': None}})
        if what == 'dupe':
            d['sectors'] = {'s': {'A': None}, 's2': {'A': None}}
        if what == 'sector':
            d['sectors'] = {'sX': {'A': None}}
        if what != 'noeft' and kind == 'basis':
            wcxf.EFT('CE', {'s': {}, 's2': {}})
        elif 'CE' in wcxf.EFT.instances:
            del wcxf.EFT['CE']
        text = json.dumps(d)
        wc = None
    elif w in WCS:
        e, b, s, v = WCS[w]
        wc = wcxf.WC(e, b, s, v)
        text = wc.dump(fmt=f)
    elif cmd == 'convertbad':
        text, wc = '{"a": 1,', None
    argv, stdin = [], ''
    fn = os.path.join(cwd, 'input file.txt')
    if cmd != 'dsixtools2wcxf':
        if route == 'file':
            with open(fn, 'w') as fh:
                fh.write(text)
            src = [fn]
        elif route == 'dash':
            src, stdin = ['-'], text
        else:
            src, stdin = [], text
    outf = os.path.join(cwd, 'result.out')
    oarg = ['--output', outf] if o in ('file', 'both') else []
    sub = {'validate2': 'validate', 'convertbad': 'convert'}.get(cmd, cmd)
    if cmd == 'convert':
        argv = ['convert', case[5]] + src + oarg
        if route == 'stdin':
            argv = ['convert', case[5]] + oarg
    elif cmd == 'convertbad':
        argv = ['convert', 'yaml']
    elif cmd == 'translate':
        argv = ['translate', case[6]] + src + oarg + (['--format', case[5]] if case[5] is not None else [])
    elif cmd == 'match':
        argv = ['match', case[6], case[7]] + src + oarg + (['--format', case[5]] if case[5] is not None else [])
    elif cmd == 'validate':
        argv = ['validate', 'wc'] + src
    elif cmd == 'validate2':
        argv = ['validate', w.split(':')[0]] + src
    elif cmd == 'eos':
        prefix = os.path.join(cwd, 'usr')
        shutil.copytree(DATA, os.path.join(prefix, 'share', 'eos', 'parameters'))
        home = os.path.join(cwd, 'home')
        os.makedirs(home if o == 'homebad' else os.path.join(home, 'parameters'))
        argv = src + ['--eosprefix', prefix] + oarg + (['--eoshome', home] if o in ('home', 'homebad', 'both') else [])
    elif cmd == 'smeftsim':
        ms, sch, lam = case[5:8]
        argv = src + (['--output', outf] if o == 'file' else []) + (['--model-set', ms] if ms else []) + (['--input-scheme', sch] if sch else []) + (['--cutoff-scale', lam] if lam else [])
        stdin = case[8] + '\n' if len(case) > 8 else ''
    elif cmd == 'wcxf2dsixtools':
        argv = src + oarg
    elif cmd == 'dsixtools2wcxf':
        if case[5] == 3:
            argv = [os.path.join(DATA, x) for x in ('SMInput-CPV.dat', 'WCsInput-CPV-SMEFT.dat', 'Options.dat')]
        else:
            p = os.path.join(cwd, 'all.dat')
            with open(p, 'w') as fh:
                for x in ('SMInput-CPV.dat', 'WCsInput-CPV-SMEFT.dat', 'Options.dat'):
                    fh.write(open(os.path.join(DATA, x)).read() + '\n')
            argv = [p]
        argv += oarg
    elif cmd == 'nothing':
        argv = []
    deflt = os.path.join(cwd, 'wcxf2smeftsim_param_card.dat')
    dest = deflt if cmd == 'smeftsim' and o == 'default' else os.path.join(cwd, 'home', 'parameters', 'wcxf.yaml') if cmd == 'eos' and o == 'home' else outf
    for old in OLD:
        # whatever the output file held before has no influence; nothing else in the directory changes
        if o in ('file', 'default', 'home'):
            with open(dest, 'w') as fh:
                fh.write(old)
            c1 = spawn(ENTRY[cmd], argv, stdin, cwd)
            first = open(dest).read() if os.path.exists(dest) else None
            os.path.exists(dest) and os.remove(dest)
            c2 = spawn(ENTRY[cmd], argv, stdin, cwd)
            second = open(dest).read() if os.path.exists(dest) else None
            os.path.exists(dest) and os.remove(dest)
            same = c1[0] == c2[0] and (first == second or second in (None, '') and first in (old, '', None))
            if not same and second and first:
                same = sorted(first.split('\n')) == sorted(second.split('\n')) or _content(first) == _content(second) is not None
            rec.expect(same, key, lambda: 'argv %r: an existing output file of %d characters changes the result: %r (%s) instead of %r (%s)' % (argv, len(old), (first or '')[:300], c1[0], (second or '')[:300], c2[0]))
    code, so, se = spawn(ENTRY[cmd], argv, stdin, cwd)
    got = open(outf).read() if o in ('file', 'both') and os.path.exists(outf) else so

    def bad(msg):
        rec.fail(key, '%s\nargv %r\nreturned %s\nstdout %r\nstderr %r\nresult %r' % (msg, argv, code, so[:600], se[:600], got[:600]))
    if o == 'file' and cmd not in ('smeftsim',) and so.strip():
        bad('output on stdout although a file was requested')
    if cmd == 'nothing':
        if not okcode(code) or 'usage' not in (so + se).lower():
            bad('no help')
        return
    if cmd == 'convertbad':
        if so.strip():
            bad('malformed input produced output')
        return
    if cmd == 'convert':
        tgt = case[5].lower()
        if tgt == 'yaml' and f == 'yaml':
            if got.strip():     # YAML input is not JSON: must be refused
                bad('a YAML file was accepted as JSON')
            return
        if not okcode(code):
            return bad('convert failed')
        (json.loads if tgt == 'json' else yaml.safe_load)(got)
        if tgt == 'yaml':
            try:
                json.loads(got)
                bad('the output is JSON')
            except ValueError:
                pass
        if pub(wcxf.WC.load(got)) != pub(wc):
            bad('the content changed')
        return
    if cmd in ('translate', 'match'):
        try:
            want = wc.translate(case[6]) if cmd == 'translate' else wc.match(case[6], case[7])
        except ValueError:
            want = None
        if want is None or (case[5] or 'json').lower() not in ('json', 'yaml') or case[5] == '':
            if okcode(code) or got.strip():
                bad('an impossible request succeeded')
            return
        if not okcode(code):
            return bad('failed')
        fmt = (case[5] or 'json').lower()
        if fmt == 'json':
            json.loads(got)
        else:
            try:
                json.loads(got)
                bad('the output is JSON')
            except ValueError:
                pass
        a, b = pub(wcxf.WC.load(got)), pub(want)
        same = set(a['values']) == set(b['values']) and all(abs(a['values'][k] - b['values'][k]) <= 1e-12 * abs(b['values'][k]) for k in b['values'])
        if not same or any(a[k] != b[k] for k in ('eft', 'basis', 'scale')):
            bad('differs from the library result %r' % b)
        return
    if cmd == 'validate':
        try:
            wc.validate()
            good = True
        except (ValueError, AssertionError):
            good = False
        if good != (okcode(code) and 'successful' in so):
            bad('library says valid=%r' % good)
        if good != (w not in ('bad', 'badbasis', 'warsawbad', 'massbad', 'eosbad')):
            bad('the library itself accepts %s: %r' % (w, good))
        return
    if cmd == 'validate2':
        good = w in ('eft:ok', 'basis:ok')
        if good != (okcode(code) and 'successful' in so):
            bad('expected valid=%r' % good)
        return
    if cmd == 'eos':
        if o == 'home':
            p = os.path.join(home, 'parameters', 'wcxf.yaml')
            got = open(p).read() if os.path.exists(p) else ''
        if w in ('bad', 'eosbad') or o in ('homebad', 'both'):
            if code == 'rc:0' or got.strip():
                bad('an invalid request succeeded')
            return
        want = eosconv.wcxf2eos(wc, eosconv.get_sm_wcs(DATA))
        try:
            d = yaml.safe_load(got)
        except yaml.YAMLError:
            # the library's representer writes mappings as plain YAML
            return bad('the output is not plain YAML')
        want = {k: dict(v) for k, v in want.items()}
        if code != 'rc:0' or d != want:
            bad('differs from the library result')
        return
    if cmd == 'smeftsim':
        p = outf if o == 'file' else os.path.join(cwd, 'wcxf2smeftsim_param_card.dat')
        exists = os.path.exists(p)
        if w in ('bad', 'warsawbad', 'massbad') or (w == 'warsaw' and case[8] not in ('i', 'I')):
            if exists or code == 'rc:0':
                bad('a card was written for an unsuitable file')
            return
        if not exists or code != 'rc:0':
            return bad('no card')
        card = pylha.load(open(p).read())
        A, sc, L = case[5] or 'A', case[6] or 'alpha', float(case[7] or 1000)
        import io
        s = io.StringIO()
        t = S.smeftsim_card_text(A, sc)
        s.write(t[0])
        pylha.dump(S.smeftsim_card_fill(S.initialize_smeftsim_card(A), wc, A, L, sc), fmt='lha', stream=s)
        s.write(t[1])
        if card != pylha.load(s.getvalue()):
            bad('differs from the library result')
        return
    if cmd == 'wcxf2dsixtools':
        if w in ('bad', 'warsawbad', 'mass'):
            if okcode(code) or got.strip():
                bad('an unsuitable file was converted')
            return
        if code != 'rc:0' or dsixtools.load(got) != dsixtools.load(dsixtools.wcxf2dsixtools(wc)):
            bad('differs from the library result')
        return
    if cmd == 'dsixtools2wcxf':
        st = tuple(open(os.path.join(DATA, x)).read() for x in ('SMInput-CPV.dat', 'WCsInput-CPV-SMEFT.dat', 'Options.dat'))
        want = wcxf.WC.load(dsixtools.dsixtools2wcxf(st))
        if code != 'rc:0' or pub(wcxf.WC.load(got)) != pub(want):
            bad('differs from the library result')
