"""Runner: deterministic cases per (property, seed), parallel workers, three-valued verdict, evidence."""
import gc
import hashlib
import io
import json
import os
import re
import signal
import sys
import time
import traceback
import warnings

import numpy as np

import anyorder

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CHUMPY_UNDER_TEST', '/repo')


class Violation(Exception):
    def __init__(self, kind, detail):
        Exception.__init__(self, '%s: %s' % (kind, detail))
        self.kind, self.detail = kind, detail


class NoEnd(Exception):
    """One case used CPU_BUDGET seconds of processor time (ordinary ones need about a hundredth of one)."""


CPU_BUDGET = 60


def _no_end(*_):
    raise NoEnd('no end after %d seconds of processor time' % CPU_BUDGET)


class Monitor(object):
    """Counts what the oracles actually observed in one worker."""

    def __init__(self, prop):
        self.prop = prop
        self.events = {}
        self.distinct = set()
        self.samples = []
        self.known = {}
        self.evaluations = 0
        self.skipped = 0
        self.cases = 0
        self.trace = []

    def saw(self, kind, sig=None, n=1):
        self.events[kind] = self.events.get(kind, 0) + n
        self.evaluations += n
        if sig is not None:
            self.distinct.add(hashlib.md5(repr((kind, sig)).encode()).hexdigest()[:16])

    def skip(self, why):
        self.skipped += 1
        self.events['abstained:' + why] = self.events.get('abstained:' + why, 0) + 1

    def note(self, what):
        if len(self.trace) < 400:
            self.trace.append(what)

    def fail(self, kind, detail):
        raise Violation(kind, detail)

    def check(self, cond, kind, detail, sig=None):
        self.saw(kind, sig)
        if not cond:
            self.fail(kind, detail() if callable(detail) else detail)

    def known_finding(self, fid, what):
        self.known[fid] = self.known.get(fid, 0) + 1
        self.events['known:' + fid] = self.events.get('known:' + fid, 0) + 1

    def sample(self, s):
        if len(self.samples) < 4:
            self.samples.append(s)


def rng_for(prop, seed, idx):
    h = hashlib.sha256(('%s|%d|%d' % (prop, seed, idx)).encode()).digest()
    return np.random.RandomState(np.frombuffer(h[:16], dtype=np.uint32))


def import_chumpy():
    sys.path.insert(0, REPO)
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    import chumpy
    if not os.path.realpath(chumpy.__file__).startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError('wrong chumpy: %s' % chumpy.__file__)
    anyorder.install()
    return chumpy


NOT_AN_EXPRESSION = re.compile(r"^'(numpy\.\w+|ndarray|float|int|bool|NoneType|list|tuple|\w+_(matrix|array))' object has no attribute "
                               r"'(r|dr_wrt|lop|lmult_wrt|dterms)'$")


def through_repo(e):
    """Did the exception come out of the code under test?"""
    root = os.path.realpath(REPO) + os.sep
    tb = e.__traceback__
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        if str(tb.tb_frame.f_globals.get('__name__')).split('.')[0] == 'chumpy':     # generated by exec
            return True
        tb = tb.tb_next
    return False


def run_cases(mod, prop, tier, seed, idxs, deadline):
    """Run the given case indices in this process. Returns a result dictionary."""
    ch = import_chumpy()
    mon = Monitor(prop)
    out = {'violation': None, 'error': None, 'done': 0, 'cut': False}
    real = sys.stdout
    real_err = sys.stderr
    signal.signal(signal.SIGVTALRM, _no_end)
    try:
        for i in idxs:
            if time.time() > deadline:
                out['cut'] = True
                break
            mon.trace = []
            anyorder.SALT[0] = '' if i % 3 == 0 else '%d|%d|' % (seed, i)
            anyorder.COUNT[0] = 0
            rng = rng_for(prop, seed, i)
            np.random.seed(rng.randint(2 ** 31 - 1))
            sys.stdout = io.StringIO()
            sys.stderr = io.StringIO()
            try:
                signal.setitimer(signal.ITIMER_VIRTUAL, CPU_BUDGET, 1.)
                mod.case(ch, rng, mon, tier, i)
            finally:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
                sys.stdout = real
                sys.stderr = real_err
            mon.cases += 1
            if anyorder.COUNT[0]:
                mon.events['sets of names walked in another order'] = mon.events.get('sets of names walked in another order', 0) + anyorder.COUNT[0]
            out['done'] += 1
            if len(mon.samples) < 2 and mon.trace:
                mon.samples.append({'case': i, 'history': mon.trace[:12]})
    except Violation as v:
        out['violation'] = {'case': i, 'kind': v.kind, 'detail': v.detail, 'history': mon.trace,
                            'where': traceback.format_exc()[-3000:]}
    except Exception as e:
        if isinstance(e, AttributeError) and NOT_AN_EXPRESSION.search(str(e)):
            out['violation'] = {'case': i, 'kind': 'no expression', 'detail': 'an operation returned something that is no '
                                'expression: %s' % e, 'history': mon.trace, 'where': traceback.format_exc()[-4000:]}
        elif through_repo(e):      # inputs of every case are ones chumpy supports
            out['violation'] = {'case': i, 'kind': 'unexpected exception', 'detail': '%s: %s' % (type(e).__name__, e),
                                'history': mon.trace, 'where': traceback.format_exc()[-4000:]}
        else:
            out['error'] = {'case': i, 'error': '%s: %s' % (type(e).__name__, e),
                            'history': mon.trace, 'where': traceback.format_exc()[-4000:]}
    out.update(events=mon.events, distinct=sorted(mon.distinct), samples=mon.samples, known=mon.known,
               evaluations=mon.evaluations, skipped=mon.skipped)
    return out


def worker(mod, prop, tier, seed, idxs, deadline, path):
    res = run_cases(mod, prop, tier, seed, idxs, deadline)
    with open(path + '.tmp', 'w') as f:
        json.dump(res, f, default=str)
    os.rename(path + '.tmp', path)


def load_known(prop):
    """Lines of known_findings.txt: 'finding: property=<id> id=<fid> <what>'. 'fixed:' lines suppress nothing."""
    res = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding:') and ('property=%s ' % prop) in line:
                fid = [w for w in line.split() if w.startswith('id=')][0][3:]
                res[fid] = line.split('id=' + fid, 1)[1].strip()
    return res


def main(prop, mod, argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--case', type=int)
    ap.add_argument('--cases', type=int)
    ap.add_argument('--workers', type=int, default=int(os.environ.get('VERIF_WORKERS', '8')))
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    t0 = time.time()
    if a.replay:
        r = json.load(open(a.replay))
        idxs = [r['case']]
        res = run_cases(mod, prop, r['tier'], r['seed'], idxs, t0 + 800)
        if not (res['violation'] or res['error']):   # needs the state earlier cases of that worker left behind
            idxs = [i for i in range(r['case'] % r['workers'], r['case'] + 1, r['workers'])]
            res = run_cases(mod, prop, r['tier'], r['seed'], idxs, t0 + 800)
        print(json.dumps(res['violation'] or res['error'] or 'not reproduced', indent=1, default=str))
        return 1 if res['violation'] else (2 if res['error'] else 0)
    if a.case is not None:
        res = run_cases(mod, prop, tier, a.seed, [a.case], t0 + 3600)
        print(json.dumps(dict((k, v) for k, v in res.items() if k != 'distinct'), indent=1, default=str))
        return 1 if res['violation'] else 0

    n = a.cases or mod.CASES[tier]
    nw = max(1, min(a.workers, n))
    limit = {'quick': 600, 'thorough': 840}[tier]
    deadline = t0 + limit
    evdir = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
    os.makedirs(evdir, exist_ok=True)
    tmp = os.path.join(evdir, '.%s.%d' % (prop, os.getpid()))
    pids, paths = {}, []
    for w in range(nw):
        path = '%s.%d' % (tmp, w)
        paths.append(path)
        pid = os.fork()
        if pid == 0:
            rc = 0
            try:
                os.setpgid(0, 0)
                if hasattr(mod, 'SCRATCH'):
                    import tempfile
                    d = tempfile.mkdtemp(prefix='verif_%s_' % prop)
                    os.chdir(d)
                worker(mod, prop, tier, a.seed, list(range(w, n, nw)), deadline, path)
            except BaseException:
                traceback.print_exc()
                rc = 3
            finally:
                if hasattr(mod, 'SCRATCH'):
                    import shutil
                    os.chdir('/')
                    shutil.rmtree(d, ignore_errors=True)
                os._exit(rc)
        pids[pid] = w
    hung = []
    while pids:
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid:
            pids.pop(pid, None)
            continue
        if time.time() > deadline + 20:      # watchdog: generous, and its firing is never a verdict
            for pid in list(pids):
                hung.append(pids[pid])
                try:
                    os.kill(pid, 9)
                except OSError:
                    pass
        time.sleep(.02)
    results = []
    for w, path in enumerate(paths):
        if os.path.exists(path):
            results.append((w, json.load(open(path))))
            os.remove(path)
        else:
            results.append((w, None))

    events, distinct, samples, known = {}, set(), [], {}
    evals = skipped = done = 0
    viol, errs = [], []
    for w, r in results:
        if r is None:
            errs.append({'worker': w, 'error': 'worker ended without a result' + (' (watchdog)' if w in hung else '')})
            continue
        for k, v in r['events'].items():
            events[k] = events.get(k, 0) + v
        for k, v in r['known'].items():
            known[k] = known.get(k, 0) + v
        distinct.update(r['distinct'])
        samples += r['samples']
        evals += r['evaluations']
        skipped += r['skipped']
        done += r['done']
        if r['violation']:
            viol.append(r['violation'])
        if r['error']:
            errs.append(r['error'])
        if r['cut']:
            events['cut_by_time_limit'] = 1
    listed = load_known(prop)
    for fid in sorted(known):
        if fid not in listed:
            viol.append({'case': -1, 'kind': 'unlisted finding ' + fid, 'detail': fid, 'history': []})
    need = getattr(mod, 'REQUIRED', ())
    missing = [k for k in need if not events.get(k)]
    ev = {'property': prop, 'tier': tier, 'seed': a.seed, 'level': getattr(mod, 'LEVEL', 'exploration'),
          'coverage': {'evaluations': evals, 'distinct_nontrivial': len(distinct), 'rule': mod.RULE,
                       'samples': samples[:6], 'cases_run': done, 'cases_planned': n,
                       'observations_by_kind': dict(sorted(events.items())), 'abstained': skipped},
          'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(time.time() - t0, 2),
          'violations': len(viol)}
    with open(os.path.join(evdir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for fid in sorted(known):
        if fid in listed:
            print('KNOWN-FINDING: property=%s %s' % (prop, listed[fid]))
    if viol:
        v = sorted(viol, key=lambda q: q['case'])[0]
        rp = os.path.join(evdir, '%s.replay.json' % prop)
        with open(rp, 'w') as f:
            json.dump(dict(v, property=prop, tier=tier, seed=a.seed, workers=nw), f, indent=1, default=str)
        print('%s: %s: %s' % (prop, v['kind'], str(v['detail'])[:1500]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if errs:
        print('%s: INCONCLUSIVE: %s' % (prop, json.dumps(errs[0], default=str)[:3000]))
        return 2
    if missing or not evals:
        print('%s: INCONCLUSIVE: monitors never observed %s' % (prop, missing))
        return 2
    print('%s: held on %d cases, %d observations (%d distinct), %d abstentions, %.1fs' %
          (prop, done, evals, len(distinct), skipped, time.time() - t0))
    return 0
