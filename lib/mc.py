"""Small explicit-state model-checking framework for real Python code.

A property module (props/<ID>.py) enumerates a finite set of *cases* (histories,
inputs, configurations, schedules) completely and drives each case through the
real implementation in /repo in lock step with a reference model.  Everything
explored is counted here; nothing is sampled.
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_LIMIT = int(os.environ.get('VERIF_CASE_LIMIT', '400'))   # seconds per case
NPROC = int(os.environ.get('VERIF_NPROC', '0')) or min(8, os.cpu_count() or 1)
MAXFAIL = int(os.environ.get('VERIF_MAXFAIL', '40'))            # stop exploring after so many


class CaseTimeout(BaseException):
    pass


class Rec:
    """What one case explored, and what it found."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.fails = []
        self.samples = []
        self.extra = {}

    def state(self, *key):
        self.states.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def fail(self, key, msg):
        """`key` names the failing input/history, stable between runs."""
        if len(self.fails) < 60:
            self.fails.append((str(key), str(msg)[:4000]))

    def expect(self, cond, key, msg):
        if not cond:
            self.fail(key, msg() if callable(msg) else msg)
        return bool(cond)


_START = [0.0, 0.0]


def _used():
    t = os.times()
    return t.elapsed, t.user + t.system + t.children_user + t.children_system


def _alarm(signum, frame):
    # a machine busy with other work is no reason to give up a case
    wall, cpu = (b - a for a, b in zip(_START, _used()))
    if cpu < 0.75 * CASE_LIMIT and wall < 1.9 * CASE_LIMIT:
        signal.alarm(20)
        return
    raise CaseTimeout()


def run_case(prop, case):
    rec = Rec()
    signal.signal(signal.SIGALRM, _alarm)
    _START[:] = _used()
    signal.alarm(CASE_LIMIT)
    try:
        prop.check(case, rec)
    except CaseTimeout:
        rec.fail('timeout:' + short(case), 'no result within %d s' % CASE_LIMIT)
    except (KeyboardInterrupt, GeneratorExit):
        raise
    except BaseException as e:
        tb = traceback.format_exc()
        rec.fail('exception:%s:%s' % (type(e).__name__, short(case)), tb[-3500:])
    finally:
        signal.alarm(0)
    return rec


def run_case_isolated(prop, case):
    """Run the case in a fresh fork of the (pristine) worker."""
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            rec = run_case(prop, case)
            data = pickle.dumps(rec)
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if not data:
        rec = Rec()
        rec.fail('crash:' + short(case), 'interpreter died with wait status %r' % st)
        return rec
    return pickle.loads(data)


def short(case):
    s = json.dumps(case, sort_keys=True, default=str)
    return s if len(s) < 200 else hashlib.sha1(s.encode()).hexdigest()


_PROP = None


def _work(case):
    f = run_case_isolated if getattr(_PROP, 'ISOLATE', False) else run_case
    return case, f(_PROP, case)


def known_findings(pid):
    out = {}
    path = os.path.join(ROOT, 'known_findings.jsonl')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('{'):
                d = json.loads(line)
                if d['property'] == pid and 'key' in d:
                    out[d['key']] = d['what']
    return out


def get_prop(pid):
    return importlib.import_module('props.' + pid)


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args(argv)
    global _PROP
    t0 = time.time()
    pid = args.id
    os.environ['VERIF_TIER'] = args.tier
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    agg = Rec()
    fails = []          # (case, key, msg)
    ncases = 0
    prop = None
    try:
        from lib import wload
        wload.load()
        _PROP = prop = get_prop(pid)
        if hasattr(prop, 'setup'):
            prop.setup(args.tier)
    except BaseException:
        fails.append((None, 'import', 'the package cannot be loaded:\n' + traceback.format_exc()[-3500:]))
    if args.replay:
        d = json.load(open(args.replay))
        if fails:
            print(fails[0][2])
            print('VIOLATION property=%s replay=%s' % (pid, args.replay))
            return 1
        rec = run_case(prop, d['case']) if not getattr(prop, 'ISOLATE', False) else run_case_isolated(prop, d['case'])
        for k, m in rec.fails:
            print('--', k)
            print(m)
        if rec.fails:
            print('VIOLATION property=%s replay=%s' % (pid, args.replay))
            return 1
        print('not reproduced')
        return 0
    if not fails:
        cases = list(prop.cases(args.tier))
        ncases = len(cases)
        if args.v:
            print('cases', ncases, 'setup %.1fs' % (time.time() - t0), file=sys.stderr)
        stop = False
        nproc = min(NPROC, getattr(prop, 'NPROC', NPROC))
        if nproc > 1 and ncases > 1:
            import concurrent.futures as cf
            chunk = getattr(prop, 'CHUNK', None) or max(1, ncases // (nproc * 8))
            with cf.ProcessPoolExecutor(nproc, mp_context=mp.get_context('fork'), initializer=_quiet) as ex:
                chunks = [cases[i:i + chunk] for i in range(0, ncases, chunk)]
                futs = {ex.submit(_work_many, c): c for c in chunks}
                try:
                    for fu in cf.as_completed(futs):
                        try:
                            res = fu.result()
                        except cf.process.BrokenProcessPool:
                            fails.append((futs[fu][0], 'crash', 'a worker process died'))
                            stop = True
                            break
                        for case, rec in res:
                            _merge(agg, rec, case, fails)
                        if len(fails) >= MAXFAIL:
                            stop = True
                            break
                finally:
                    if stop:
                        for f in futs:
                            f.cancel()
        else:
            for c in cases:
                _merge(agg, _work(c)[1], c, fails)
                if len(fails) >= MAXFAIL:
                    break
        if not fails and hasattr(prop, 'finish'):
            rec = Rec()
            prop.finish(rec)
            _merge(agg, rec, None, fails)
    known = known_findings(pid)
    seen_known, bad = {}, []
    for case, key, msg in fails:
        if key in known:
            seen_known[key] = known[key]
        else:
            bad.append((case, key, msg))
    wall = time.time() - t0
    ev = {
        'property': pid, 'tier': args.tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': len(agg.states),
            'transitions': agg.transitions,
            'traces_validated_against_impl': agg.traces,
            'cases': ncases,
            'exhaustive': not bad,
            'bounds': getattr(prop, 'BOUNDS', {}).get(args.tier, '') if prop else '',
            'samples': agg.samples[:6] or ['(none)'],
        },
        'assumptions': list(getattr(prop, 'ASSUMPTIONS', [])) if prop else [],
        'wall_s': round(wall, 2),
        'violations': len(bad),
    }
    ev['coverage'].update({'n_' + k: v for k, v in sorted(agg.extra.items())})
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for k, what in sorted(seen_known.items()):
        print('KNOWN-FINDING: property=%s %s' % (pid, what))
    if bad:
        bad.sort(key=lambda t: (len(json.dumps(t[0], default=str)), t[1]))
        case, key, msg = bad[0]
        os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
        rp = os.path.join(ROOT, 'replays', pid + '.json')
        with open(rp, 'w') as f:
            json.dump({'property': pid, 'case': case, 'key': key, 'message': msg,
                       'others': [b[1] for b in bad[1:20]]}, f, indent=1, default=str)
        print('%s: %d violation(s); first: %s' % (pid, len(bad), key))
        print(msg)
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('%s ok: %d cases, %d states, %d transitions, %d traces on the implementation, %.1f s' % (
        pid, ncases, len(agg.states), agg.transitions, agg.traces, wall))
    return 0


def _quiet():
    """Compiled libraries write warnings to the worker's own stdout/stderr: drop them."""
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    os.dup2(fd, 2)


def _work_many(cs):
    return [_work(c) for c in cs]


def _merge(agg, rec, case, fails):
    agg.states |= rec.states
    agg.transitions += rec.transitions
    agg.traces += rec.traces
    if len(agg.samples) < 6:
        agg.samples.extend(rec.samples[:1])
    for k, v in rec.extra.items():
        agg.extra[k] = agg.extra.get(k, 0) + v
    for k, m in rec.fails:
        fails.append((case, k, m))
