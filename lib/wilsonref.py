"""Reference model of wilson.Wilson: a value object whose answers are explicit compositions of the public elementary steps."""
import numpy as np
from lib import trans

DEFAULT = {'smeft_accuracy': 'integrate', 'qed_order': 1, 'qcd_order': 1, 'smeft_matching_order': 0, 'smeft_matchingscale': 91.1876,
           'mb_matchingscale': 4.2, 'mc_matchingscale': 1.3, 'parameters': {}}
PARAMS = {'alpha_s': 0.1205, 'm_b': 4.25, 'm_c': 1.26, 'm_s': 0.0995, 'm_mu': 0.112, 'Vcb': 0.0429, 'gamma': 1.13, 'GF': 1.17e-5, 'alpha_e': 1 / 126.0,
          'm_W': 80.7, 'm_tau': 1.79, 'm_t': 171.0}
BASES = {'SMEFT': ['Warsaw', 'Warsaw up', 'Higgs-Warsaw up'], 'WET': ['JMS', 'flavio', 'Bern', 'FlavorKit'], 'WET-4': ['JMS', 'flavio', 'Bern'],
         'WET-3': ['JMS', 'flavio', 'Bern']}
TARGETS = {'SMEFT': ['Warsaw', 'Warsaw up', 'Higgs-Warsaw up', 'Warsaw mass'], 'WET': ['JMS', 'flavio', 'Bern', 'EOS', 'FlavorKit', 'formflavor'],
           'WET-4': ['JMS', 'flavio', 'Bern'], 'WET-3': ['JMS', 'flavio', 'Bern']}
CHAIN = ['SMEFT', 'WET', 'WET-4', 'WET-3']


class NotPossible(Exception):
    pass


def parameters(opts):
    from wilson import parameters as P
    return dict(P.p, **opts['parameters'])


def options(**kw):
    return dict(DEFAULT, **kw)


def reach(src, dst):
    return src in CHAIN and dst in CHAIN and CHAIN.index(dst) >= CHAIN.index(src)


def answer(w, scale, eft, basis, opts):
    """the coefficients of w (a wcxf.WC) at another scale, EFT and basis"""
    from wilson.run.smeft import SMEFT
    from wilson.run.wet import WETrunner
    par = parameters(opts)
    if not reach(w.eft, eft):
        raise NotPossible()
    if w.eft == eft and w.scale == scale:
        return w.translate(basis, parameters=par)
    ro = {'parameters': par, 'qed_order': opts['qed_order'], 'qcd_order': opts['qcd_order']}
    mo = dict(par, loop_order=opts['smeft_matching_order'])
    if w.eft == 'SMEFT':
        w = w.translate('Warsaw', parameters=par)
        target = scale if eft == 'SMEFT' else opts['smeft_matchingscale']
        if w.scale != target:
            w = SMEFT(w).run(target, accuracy=opts['smeft_accuracy'])
        if eft == 'SMEFT':
            return w.translate(basis, parameters=par)
        w = w.match('WET', 'JMS', parameters=mo)
    else:
        w = w.translate('JMS', parameters=par)
    for e, nxt, th in (('WET', 'WET-4', 'mb_matchingscale'), ('WET-4', 'WET-3', 'mc_matchingscale')):
        if w.eft == e and eft != e:
            w = WETrunner(w, **ro).run(opts[th]).match(nxt, 'JMS', parameters=mo)
    return WETrunner(w, **ro).run(scale).translate(basis, parameters=par)


def smeft_input(basis, ph=0.3, amp=1e-8, every=1):
    out = {}
    for i, (k, r, s) in enumerate(trans.keys('SMEFT', basis)):
        if i % every == 0 and k != 'llphiphi':
            z = amp * complex(np.cos(0.7 * i * i + ph), np.sin(1.3 * i + 2 * ph))
            out[k] = z.real if r else z
    return out


def sector_of(eft, basis):
    return {k: s for k, r, s in trans.keys(eft, basis)}


def make(wc_or_args, opts):
    """a fresh Wilson instance with the options set"""
    from wilson import Wilson
    w = Wilson(*wc_or_args)
    for k, v in opts.items():
        if v != DEFAULT[k]:
            w.set_option(k, v)
    return w
