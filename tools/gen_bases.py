"""Reconstruct the EFT and basis definitions of the missing wcxf-bases
submodule from data contained in /repo, and freeze them in
/verif/fixtures/bases.json.  Run once on the pristine tree; never at check
time.  Sources: wilson/data/run_wet_definitions_coeffs.json (WET JMS sectors),
wilson/wcxf/data/test.Warsaw_mass.yml (SMEFT), the symmetry classes, and the
output keys of the translators (flavio, Bern, EOS, formflavor, FlavorKit).
"""
import json, os, sys, types, re
import yaml
REPO = '/repo'
OUT = sys.argv[1] if len(sys.argv) > 1 else '/verif/fixtures/bases.json'
D = os.path.join(REPO, 'wilson')

# ---------------------------------------------------------------- WET JMS
coeffs = json.load(open(os.path.join(D, 'data/run_wet_definitions_coeffs.json')))
sys.dont_write_bytecode = True
HERM2 = ["VnueLL", "VnuuLL", "VnudLL", "VeuLL", "VedLL", "V1udLL", "V8udLL", "VeuRR", "VedRR", "V1udRR", "V8udRR", "VnueLR", "VeeLR", "VnuuLR", "VnudLR", "VeuLR", "VedLR", "VueLR", "VdeLR", "V1uuLR", "V8uuLR", "V1udLR", "V8udLR", "V1duLR", "V8duLR", "V1ddLR", "V8ddLR"]
HERM4 = ['VuuRR', 'VddRR', 'VuuLL', 'VddLL']
HERM6 = ['VeeLL', 'VeeRR', 'VnunuLL']

def orbit(name, idx):
    """index tuples equal to C_idx without conjugation"""
    i, j, k, l = idx
    if name in HERM4:
        return {(i, j, k, l), (k, l, i, j)}
    if name in HERM6:
        return {(i, j, k, l), (k, l, i, j), (k, j, i, l), (i, l, k, j)}
    return {(i, j, k, l)}

def jms_real(key):
    if key in ('G', 'Gtilde'):
        return True
    name, ind = key.split('_')
    if name in HERM2 + HERM4 + HERM6:
        i, j, k, l = ind
        return (j, i, l, k) in orbit(name, tuple(ind))
    return False

def fields(name):
    """fermion species of each index"""
    n = re.sub(r'^[VST][18]?', '', name)
    chir = n[-2:] if n[-2:] in ('LL', 'LR', 'RL', 'RR') else ''
    n = n[:-2] if chir else n
    if name in ('egamma',): return ['e', 'e']
    if name in ('ugamma', 'uG'): return ['u', 'u']
    if name in ('dgamma', 'dG'): return ['d', 'd']
    toks = re.findall(r'nu|[eud]', n)
    assert ''.join(toks) == n, name
    if len(toks) == 2:
        return [toks[0]] * 2 + [toks[1]] * 2
    if len(toks) == 4:
        return toks
    bnv = {'udd': ['u', 'd', 'd', 'nu'], 'duu': ['d', 'u', 'u', 'e'],
           'uud': ['u', 'u', 'd', 'e'], 'dud': ['d', 'u', 'd', 'nu'],
           'ddu': ['d', 'd', 'u', 'nu']}
    return bnv[n]

def allowed(key, nu, nd, ne):
    if '_' not in key:
        return True
    name, ind = key.split('_')
    lim = {'u': nu, 'd': nd, 'e': ne, 'nu': 3}
    return all(int(i) <= lim[f] for f, i in zip(fields(name), ind))

def jms_basis(eft, nu, nd, ne):
    out = {}
    for s, cl in coeffs.items():
        d = {}
        for c in cl:
            if allowed(c, nu, nd, ne):
                d[c] = {'real': True} if jms_real(c) else {}
        if d:
            out[s] = d
    return {'eft': eft, 'basis': 'JMS', 'sectors': out,
            'metadata': {'description': 'reconstructed'}}

FL = {'WET': (2, 3, 3), 'WET-4': (2, 2, 3), 'WET-3': (1, 2, 2), 'WET-2': (1, 1, 2)}
jms = {e: jms_basis(e, *f) for e, f in FL.items()}

# ---------------------------------------------------------------- SMEFT
wm = yaml.safe_load(open(os.path.join(D, 'wcxf/data/test.Warsaw_mass.yml')))['values']
order = "G Gtilde W Wtilde phi phiBox phiD phiG phiB phiW phiWB phiGtilde phiBtilde phiWtilde phiWtildeB uphi dphi ephi eW eB uG uW uB dG dW dB phil1 phil3 phie phiq1 phiq3 phiu phid phiud llphiphi ll qq1 qq3 lq1 lq3 ee uu dd eu ed ud1 ud8 le lu ld qe qu1 qd1 qu8 qd8 ledq quqd1 quqd8 lequ1 lequ3 duql qque qqql duue".split()
byname = {n: [] for n in order}
for k, v in wm.items():
    byname[k.split('_')[0]].append((k, {} if isinstance(v, dict) else {'real': True}))

def smeft_basis(name, full_ll):
    secs = {'dB=dL=0': {}, 'dL=2': {}, 'dB=dL=1': {}}
    for n in order:
        s = 'dL=2' if n == 'llphiphi' else ('dB=dL=1' if n in ('duql', 'qque', 'qqql', 'duue') else 'dB=dL=0')
        if n == 'llphiphi' and full_ll:
            for ij in ('11', '12', '13', '22', '23', '33'):
                secs[s]['llphiphi_' + ij] = {}
            continue
        for k, f in sorted(byname[n]):
            secs[s][k] = dict(f)
    return {'eft': 'SMEFT', 'basis': name, 'sectors': secs,
            'metadata': {'description': 'reconstructed'}}

warsaw = smeft_basis('Warsaw', True)
warsaw_up = smeft_basis('Warsaw up', True)
warsaw_mass = smeft_basis('Warsaw mass', False)
ren = {'phi': 'deltalambda3', 'phiBox': 'deltacz', 'phiD': 'czBox', 'phiG': 'cgg',
       'phiW': 'czz', 'phiB': 'cgammagamma', 'phiWB': 'czgamma', 'phiGtilde': 'cggtilde',
       'phiWtilde': 'czztilde', 'phiBtilde': 'cgammagammatilde', 'phiWtildeB': 'czgammatilde',
       'phil3': 'deltagWlL', 'phil1': 'deltagZeL', 'phie': 'deltagZeR', 'phiq3': 'deltagZuL',
       'phiq1': 'deltagZdL', 'phiu': 'deltagZuR', 'phid': 'deltagZdR', 'phiud': 'deltagWqR'}
higgs = {'eft': 'SMEFT', 'basis': 'Higgs-Warsaw up', 'sectors': {},
         'metadata': {'description': 'reconstructed'}}
for s, d in warsaw_up['sectors'].items():
    higgs['sectors'][s] = {
        '_'.join([ren.get(k.split('_')[0], k.split('_')[0])] + k.split('_')[1:]): dict(f) for k, f in d.items()}

efts = [{'eft': 'SMEFT', 'sectors': {s: {} for s in warsaw['sectors']}, 'metadata': {'description': 'reconstructed'}}]
for e in FL:
    efts.append({'eft': e, 'sectors': {s: {} for s in jms[e]['sectors']}, 'metadata': {'description': 'reconstructed'}})

bases = [warsaw, warsaw_up, warsaw_mass, higgs] + [jms[e] for e in FL]
json.dump({'efts': efts, 'bases': bases}, open(OUT, 'w'))

# --------------------------------------------- derived WET bases (images)
sys.path.insert(0, '/verif/lib')
import wload
wilson = wload.load(REPO, OUT)
from wilson.translate import wet as T

def image(fn, eft):
    """sector -> output keys with real flags, from one complex and one real probe per coefficient group"""
    import numpy as np
    rng = np.random.RandomState(1)
    full = {}
    for s, d in jms[eft]['sectors'].items():
        for k, f in d.items():
            full[k] = rng.rand() + 0.5 + (0 if f.get('real') else 1j * (rng.rand() + 0.5))
    def nz(C):
        out = fn(C, 4.8 if eft == 'WET' else 2.0)
        return {k: complex(np.ravel(v)[0]) for k, v in out.items() if isinstance(k, str) and np.ravel(v)[0] != 0}
    secs = {}
    allout = nz(full)
    seen = {}
    for s, d in jms[eft]['sectors'].items():
        o = nz({k: full[k] for k in d})
        for k, v in o.items():
            if k in seen:
                print('DUP', fn.__name__, k, seen[k], s)
                continue
            seen[k] = s
            secs.setdefault(s, {})[k] = {'real': True} if abs(v.imag) < 1e-14 * abs(v) or re.match(r'b->s.*::(Re|Im|c[1-6]$|c8)', k) else {}
    missing = set(allout) - set(seen)
    assert not missing, missing
    return secs

def mk(eft, name, fn):
    b = {'eft': eft, 'basis': name, 'sectors': image(fn, eft), 'metadata': {'description': 'reconstructed'}}
    bases.append(b)
    print(eft, name, sum(len(x) for x in b['sectors'].values()), len(b['sectors']))

for e in ('WET', 'WET-4', 'WET-3'):
    mk(e, 'flavio', T.JMS_to_flavio)
    mk(e, 'Bern', T.JMS_to_Bern)
mk('WET', 'EOS', T.JMS_to_EOS)
mk('WET', 'formflavor', T.JMS_to_FormFlavor)
mk('WET', 'FlavorKit', T.JMS_to_FlavorKit)
json.dump({'efts': efts, 'bases': bases}, open(OUT, 'w'), indent=0, separators=(',', ':'))
