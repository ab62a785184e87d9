"""H01 No call leaves a trace in the process: every answer is the one a fresh process gives, after any history of other calls."""
import itertools
import os
import pickle
import warnings
import numpy as np
from lib import trans
from lib import wilsonref as W

BOUNDS = {'quick': 'all ordered pairs of 20 operations from all parts of the package (incl. failing calls, other parameters, exports, registries), followed by a third of the operations as probes (each operation follows each other one), each compared with its answer in a fresh process; settings of the process and of the libraries unchanged by every operation',
          'thorough': 'all ordered triples, every third probe'}
ASSUMPTIONS = ['fresh process = fork of a process that has only imported the package']
ISOLATE = True
CHUNK = 1
REFS = {}
ALT = {'alpha_s': 0.124, 'm_b': 4.6, 'm_c': 1.2, 'm_s': 0.11, 'Vcb': 0.046, 'gamma': 0.9, 'alpha_e': 1 / 120.0, 'm_mu': 0.15, 'GF': 1.2e-5, 'm_W': 81.0, 'm_Z': 92.0, 'm_t': 165.0}


def smeft(k, ph=0.3, every=9, **o):
    return W.make((W.smeft_input('Warsaw', ph, every=every), 300.0, 'SMEFT', 'Warsaw'), W.options(smeft_accuracy='leadinglog', **o)).match_run(*k).dict


def wet(e, b, s, k, ph=0.3, sectors='all', **o):
    return W.make((trans.dense(e, b, ph), s, e, b), W.options(**o)).match_run(*k, sectors=sectors).dict


def op_smeft_wet():
    return smeft((4.8, 'WET', 'flavio'))


def op_smeft_alt():
    return smeft((4.0, 'WET-4', 'JMS'), parameters=ALT, smeft_matching_order=1, smeft_matchingscale=120.0)


def op_smeft_smeft():
    return smeft((900.0, 'SMEFT', 'Higgs-Warsaw up'), ph=1.1, every=4)


def op_wet3():
    return wet('WET', 'flavio', 80.0, (1.5, 'WET-3', 'flavio'), sectors=('sd', 'mue', 'sdsd', 'dF=0'))


def op_wet3_alt():
    return wet('WET', 'JMS', 80.0, (1.5, 'WET-3', 'JMS'), sectors=('sd', 'mue', 'sdsd'), parameters=ALT, qed_order=0, mb_matchingscale=4.5)


def op_translate():
    out = {}
    for i, (e, a, b) in enumerate(trans.translators()):
        for k, v in trans.wc(e, a, W.smeft_input(a) if e == 'SMEFT' else trans.dense(e, a)).translate(b).dict.items():
            out[i, k] = v
    return out


def op_translate_alt():
    out = {}
    for i, (e, a, b) in enumerate(trans.translators()):
        for k, v in trans.wc(e, a, W.smeft_input(a) if e == 'SMEFT' else trans.dense(e, a)).translate(b, parameters=dict(ALT)).dict.items():
            out[i, k] = v
    return out


def op_qcd():
    from wilson.util import qcd
    return {(f, x): fun(*a) for f in (3, 4, 5) for x, fun, a in (('as', qcd.alpha_s, (3.0, f)), ('mb', qcd.m_b, (4.18, 5.0, f)), ('mc', qcd.m_c, (1.27, 3.0, f)), ('ms', qcd.m_s, (0.096, 1.5, f)))}


def op_qcd_alt():
    from wilson.util import qcd
    return {(f, x): fun(*a, alpha_s=0.13) if False else fun(*a, 0.13) for f in (3, 4, 5) for x, fun, a in (('as', qcd.alpha_s, (3.0, f)), ('mb', qcd.m_b, (4.18, 5.0, f)), ('mc', qcd.m_c, (1.27, 3.0, f)))}


def op_smpar():
    from lib import smeft as S
    from wilson.run.smeft import smpar
    C = S.zero()
    C['phiD'] = 1e-8
    C['phiWB'] = -2e-8
    out = dict(smpar.smeftpar(91.1876, C, 'Warsaw up'))
    return {k: v for k, v in out.items() if np.ndim(v) == 0} | {(k, i, j): out[k][i, j] for k in ('Gu', 'Gd', 'Ge') for i in range(3) for j in range(3)}


def op_smpar_fail():
    from lib import smeft as S
    from wilson.run.smeft import smpar
    C = S.zero()
    C['phi'] = 1e-4
    C['phiWB'] = 1e-2
    out = {}
    for i, f in enumerate((lambda: smpar.smeftpar(91.1876, C, 'Warsaw'), lambda: smpar.get_gpbar(0.3, 100.0, 246.0, C), lambda: smpar.smeftpar(91.1876, C, 'nonsense'))):
        try:
            f()
            out[i] = 0
        except Exception as e:
            out[i] = sum(map(ord, type(e).__name__))
    return out


def op_wilson_fail():
    from wilson import Wilson
    out = {}
    w = Wilson({'VeuLL_1112': 1e-3}, 50.0, 'WET', 'JMS')
    for i, f in enumerate((lambda: w.match_run(3.0, 'WET-5', 'JMS'), lambda: w.match_run(3.0, 'WET', 'nonsense'), lambda: w.match_run(3.0, 'SMEFT', 'Warsaw'), lambda: w.set_option('qed_order', 5), lambda: w.set_option('parameters', {'m_b': 'x'}),
                           lambda: Wilson({'nonsense': 1}, 50.0, 'WET', 'JMS'), lambda: Wilson.set_default_option('qcd_order', 9), lambda: w.get_option('x'))):
        try:
            f()
            out[i] = 0
        except Exception as e:
            out[i] = sum(map(ord, type(e).__name__))
    return out


def op_default():
    """change a default, use it, restore it"""
    from wilson import Wilson
    Wilson.set_default_option('parameters', {'m_b': 4.5, 'Vcb': 0.044})
    Wilson.set_default_option('qed_order', 0)
    try:
        return wet('WET', 'flavio', 80.0, (4.4, 'WET', 'flavio'), sectors=('sb', 'sbsb'))
    finally:
        Wilson.set_default_option('parameters', {})
        Wilson.set_default_option('qed_order', 1)


def op_continuous():
    from wilson.run.wet import WETrunner
    from wilson.run.smeft import SMEFT
    s = WETrunner(trans.wc('WET', 'JMS', trans.dense('WET', 'JMS'), 80.0), parameters=dict(ALT, **{k: v for k, v in W.parameters(W.options()).items() if k not in ALT})).run_continuous(10.0, sectors=('sb', 'cu'))
    t = SMEFT(trans.wc('SMEFT', 'Warsaw', {'phiG': 1e-8, 'uG_33': 1e-8}, 500.0)).run_continuous(300.0)
    return {**{('w', k): v for k, v in s.fun(20.0).items()}, **{('s', k): v for k, v in t.fun(400.0).items()}}


def op_export():
    from wilson.wcxf.converters import dsixtools, smeftsim
    w = trans.wc('SMEFT', 'Warsaw', {k: v for k, v in W.smeft_input('Warsaw', every=3).items()})
    out = {'dsix': hash_text(str(dsixtools.wcxf2dsixtools(w))), 'text': hash_text(str(smeftsim.smeftsim_card_text('A', 'mw')))}
    for ms in 'AB':
        v = {k: 1e-6 * z for k, z in W.smeft_input('Warsaw', every=3).items()}
        card = smeftsim.smeftsim_card_fill(smeftsim.initialize_smeftsim_card(ms), trans.wc('SMEFT', 'Warsaw up', v), ms, 1000.0, 'alpha')
        out[ms] = hash_text(repr(card))
    return out


def hash_text(s):
    import hashlib
    return int(hashlib.sha1(s.encode()).hexdigest()[:8], 16)


def op_registry():
    from wilson import wcxf
    out = {k: len(str(v)) for d in (wcxf.EFT.instances, wcxf.Basis.instances, wcxf.Translator.instances, wcxf.Matcher.instances) for k, v in ((str(k), str(k)) for k in d)}
    # content and order of the definitions
    out.update({('basis',) + k: hash_text(repr((list(b.all_wcs), b.sectors, sorted((x, repr(y)) for x, y in b.__dict__.items() if x[0] != '_')))) for k, b in wcxf.Basis.instances.items()})
    out.update({('eft', k): hash_text(repr((e.sectors, e.known_bases, e.known_translators))) for k, e in wcxf.EFT.instances.items()})
    return out


def op_loop():
    return dict(trans.wc('SMEFT', 'Warsaw up', W.smeft_input('Warsaw up', 0.6, every=5), 120.0).match('WET', 'JMS', parameters=dict(W.parameters(W.options()), loop_order=1)).dict)


def op_integrate():
    from wilson.run.smeft import SMEFT
    return dict(SMEFT(trans.wc('SMEFT', 'Warsaw', W.smeft_input('Warsaw', 0.8, every=23), 2000.0)).run(91.1876).dict)


def op_matchrun_card():
    """files written and read back"""
    import io
    from wilson import wcxf
    out = {}
    for e, b in (('WET', 'flavio'), ('SMEFT', 'Warsaw')):
        w = trans.wc(e, b, trans.dense(e, b) if e != 'SMEFT' else W.smeft_input(b, every=3))
        for f in ('json', 'yaml'):
            s = w.dump(fmt=f)
            out[e, f] = hash_text(s)
            out.update({(e, f, k): v for k, v in wcxf.WC.load(io.StringIO(s)).dict.items()})
    return out


def process():
    """settings of the process and of the libraries which no call may change"""
    import decimal
    import gc
    import locale
    import logging
    import os
    import signal
    import sys
    import threading
    um = os.umask(0o22)
    os.umask(um)
    return {'numpy errors': np.geterr(), 'numpy error handler': np.geterrcall(), 'numpy print': sorted(map(repr, np.get_printoptions().items())),
            'locale': locale.setlocale(locale.LC_ALL), 'decimal': repr(decimal.getcontext()), 'environment': dict(os.environ), 'directory': os.getcwd(), 'umask': um, 'path': list(sys.path),
            'stdout': sys.stdout, 'stderr': sys.stderr, 'excepthook': sys.excepthook, 'recursion limit': sys.getrecursionlimit(), 'argv': list(sys.argv), 'gc': (gc.isenabled(), gc.get_threshold()),
            'warning filters': list(warnings.filters), 'showwarning': warnings.showwarning, 'logging': (logging.root.level, list(logging.root.handlers), logging.root.manager.disable),
            'signals': {i: signal.getsignal(i) for i in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGPIPE)}, 'threads': threading.active_count(), 'trace': sys.gettrace(), 'profile': sys.getprofile(),
            'descriptors': len(os.listdir('/proc/self/fd')), 'yaml': tables(), 'pandas': pandas_options()}


def pandas_options():
    from pandas._config import config
    return repr(getattr(config, '_global_config', None))


def tables():
    """what the YAML classes other than the package's own do with every type, tag and scalar"""
    import yaml
    out = {}
    for n in ('SafeLoader', 'BaseLoader', 'SafeDumper'):
        c = getattr(yaml, n)
        for a in ('yaml_constructors', 'yaml_multi_constructors', 'yaml_representers', 'yaml_multi_representers', 'yaml_implicit_resolvers'):
            d = getattr(c, a, {})
            out[n, a] = sorted((repr(k), getattr(v, '__qualname__', None) or repr(v)) for k, v in d.items())
    return out


def op_display():
    """printed representations"""
    from wilson import wcxf
    out = {}
    for n, (e, b, v) in enumerate((('WET', 'flavio', {'C9_bsmumu': 0.123456789012}), ('WET', 'JMS', trans.dense('WET', 'JMS')), ('SMEFT', 'Warsaw', W.smeft_input('Warsaw', every=12)))):
        w = trans.wc(e, b, v)
        x = W.make((v, w.scale, e, b), W.options())
        B = wcxf.Basis[e, b]
        for i, t in enumerate((repr(w), str(w), w._repr_html_(), x._repr_html_(), repr(B), str(B), B._repr_markdown_(), repr(w.df))):
            out[n, i] = hash_text(t)
    return out


OPS = {k[3:]: v for k, v in sorted(globals().items()) if k.startswith('op_')}


def isolated(f):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            fd = os.open(os.devnull, os.O_WRONLY)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    res = dict(f())
            except Exception as e:
                res = {'exception': repr(e)[:300]}
            with os.fdopen(w, 'wb') as g:
                pickle.dump(res, g)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as g:
        out = pickle.load(g)
    os.waitpid(pid, 0)
    return out


def setup(tier):
    from concurrent.futures import ThreadPoolExecutor
    for k, f in OPS.items():
        REFS[k] = isolated(f)


def cases(tier):
    n = list(OPS)
    if tier == 'quick':
        return [[a, b] for a in n for b in n]
    return [[a, b, c] for a in n for b in n for c in n]


def check(case, rec):
    rec.trace()
    hist = []
    n = len(OPS)
    probes = list(OPS)
    if len(case) == 3:
        probes = [p for i, p in enumerate(probes) if i % 3 == (sum(map(len, case))) % 3]
    else:       # each probe after each operation; the pairs share the work
        i = list(OPS).index(case[0]) + list(OPS).index(case[1])
        probes = [p for j, p in enumerate(probes) if (i + j) % 3 == 0]
    for name in case + probes:
        hist.append(name)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            pro = process()
            try:
                got = dict(OPS[name]())
            except Exception as e:
                got = {'exception': repr(e)[:300]}
            now = process()
            bad = [k for k in pro if repr(now[k]) != repr(pro[k])]
            rec.expect(not bad, 'process:' + name, lambda: '%s changed %s' % (name, [(k, str(pro[k])[:200], str(now[k])[:200]) for k in bad]))
        want = REFS[name]
        rec.step()
        rec.state(tuple(hist))
        if 'exception' in want or 'exception' in got:
            rec.expect(got == want, name, lambda: 'after %s: %s gives %s, in a fresh process %s' % (hist[:-1], name, str(got)[:300], str(want)[:300]))
            continue
        g = {str(k): v for k, v in got.items()}
        w = {str(k): v for k, v in want.items()}
        bad = trans.cmp(g, w, rtol=1e-10, noise=1e-14)
        if not rec.expect(not bad, name, lambda: 'after %s: %s differs from the answer in a fresh process: %s' % (hist[:-1], name, trans.show(bad))):
            return


def finish(rec):
    for k, v in REFS.items():
        rec.expect('exception' not in v, 'probe:%s' % k, lambda: 'operation %s fails in a fresh process: %s' % (k, v))
