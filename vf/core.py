"""Core of the runtime-monitoring framework.

A check is a module vf.checks.cNN with
    PROP      property id
    RULE      text: how cases are made / what makes one non-trivial
    CASES     {'quick': n, 'thorough': n}
    gen(rng, i, tier) -> case       (JSON-able dict; {'kind': ...})
    run(case, mon)                  executes the real code on the case, reports to mon

Monitors report through Mon:
    mon.ok(kind)                 one oracle evaluation that held
    mon.fail(kind, msg, data)    a violation (oracle evaluation that did not hold)
    mon.finding(id, msg)         observation matching the mechanism of a known finding
    mon.seen(*sig)               distinct/non-trivial signature
    mon.event(kind, n)           count of observed events
"""
import contextlib
import io
import json
import math
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback

import numpy as np

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, 'evidence')
KF_FILE = os.path.join(HERE, 'known_findings.txt')


class CaseTimeout(BaseException):
    pass


class Mon(object):
    def __init__(self):
        self.evals = 0
        self.counts = {}
        self.sigs = set()
        self.fails = []
        self.findings = {}
        self.samples = []
        self.notes = {}
        self.case = None
        self.idx = None

    def event(self, kind, n=1):
        self.counts[kind] = self.counts.get(kind, 0) + n

    def ok(self, kind, n=1):
        self.event('ok:' + kind, n)

    def fail(self, kind, msg, **data):
        self.event('fail:' + kind)
        data = dict(getattr(self, 'data', None) or {}, **data)
        self.fails.append({'kind': kind, 'msg': msg, 'data': jsonable(data),
                           'case': jsonable(self.case), 'idx': self.idx})

    def check(self, cond, kind, msg, **data):
        if cond:
            self.ok(kind)
        else:
            self.fail(kind, msg() if callable(msg) else msg, **data)
        return bool(cond)

    def finding(self, fid, msg):
        self.event('finding:' + fid)
        if fid not in self.findings:
            self.findings[fid] = {'msg': msg, 'case': jsonable(self.case),
                                  'idx': self.idx}

    def seen(self, *sig):
        self.sigs.add(hash_sig(sig))

    def sample(self, d):
        if len(self.samples) < 3:
            self.samples.append(jsonable(d))


def hash_sig(sig):
    return repr(sig)


def jsonable(o, depth=0):
    if depth > 12:
        return repr(o)
    if isinstance(o, dict):
        return dict((str(k), jsonable(v, depth + 1)) for k, v in o.items())
    if isinstance(o, (list, tuple)):
        return [jsonable(v, depth + 1) for v in o]
    if isinstance(o, (str, int, bool)) or o is None:
        return o
    if isinstance(o, float):
        return o if math.isfinite(o) else repr(o)
    if isinstance(o, complex):
        return [o.real, o.imag]
    if isinstance(o, np.ndarray):
        if o.size > 200:
            return 'ndarray%s:%s' % (o.shape, repr(o.ravel()[:20].tolist()))
        return jsonable(o.tolist(), depth + 1)
    if isinstance(o, np.generic):
        return jsonable(o.item(), depth + 1)
    return repr(o)


class _Null(io.TextIOBase):
    encoding = 'utf-8'

    def write(self, s):
        return len(s)

    def flush(self):
        pass


@contextlib.contextmanager
def quiet(capture=False):
    """Silence (or capture) the stdout/stderr chatter of the code under test."""
    o, e = sys.stdout, sys.stderr
    so = io.StringIO() if capture else _Null()
    se = io.StringIO() if capture else _Null()
    sys.stdout, sys.stderr = so, se
    try:
        yield (so, se)
    finally:
        sys.stdout, sys.stderr = o, e


def in_ahkab(tb):
    """Does the traceback's innermost ahkab-or-below frame lie in the code under test?"""
    hit = False
    for f in traceback.extract_tb(tb):
        fn = f.filename.replace('\\', '/')
        if '/vf/' in fn or fn.startswith(HERE + '/'):
            hit = False
        if '/ahkab/' in fn and '/vf/' not in fn:
            hit = True
    return hit


def _alarm(signum, frame):
    raise CaseTimeout()


def run_one(mod, case, mon, idx, limit):
    mon.case, mon.idx = case, idx
    mon.evals += 1
    st = random.getstate()
    nst = np.random.get_state()
    random.seed(12345)
    np.random.seed(12345)
    signal.signal(signal.SIGPROF, _alarm)
    if isinstance(case, dict) and case.get('slow_ok'):
        limit = min(limit, case['slow_ok'])
    signal.setitimer(signal.ITIMER_PROF, limit)
    try:
        with quiet():
            mod.run(case, mon)
    except CaseTimeout:
        # CPU-time (not wall-clock) budget, far above what any case needs: bounded progress
        mon.notes.setdefault('timeouts', []).append(idx)
        if isinstance(case, dict) and case.get('slow_ok'):
            # legitimately unbounded work (adaptive steps); not judged
            mon.event('given up (slow)')
        else:
            mon.fail('hang', 'case used more than %g s of CPU time without completing' % limit)
    except Exception as ex:
        tb = sys.exc_info()[2]
        s = ''.join(traceback.format_exception(type(ex), ex, tb))[-1800:]
        if in_ahkab(tb):
            mon.fail('crash', 'the code under test raised %s: %s on a valid input'
                     % (type(ex).__name__, str(ex)[:200]), traceback=s)
        else:
            mon.notes.setdefault('harness_errors', []).append([idx, s])
    except SystemExit as ex:
        mon.fail('exit', 'the code under test called sys.exit(%r) on a valid input' % (ex.code,))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        random.setstate(st)
        np.random.set_state(nst)
        mon.case = None


def case_rng(prop, seed, i):
    return random.Random('%s/%d/%d' % (prop, seed, i))


def _worker(args):
    modname, tier, seed, idxs, limit, deadline = args
    import importlib
    mod = importlib.import_module(modname)
    mon = Mon()
    if hasattr(mod, 'setup'):
        with quiet():
            mod.setup()
    skipped = 0
    for i in idxs:
        if time.time() > deadline:
            skipped += 1
            continue
        rng = case_rng(mod.PROP, seed, i)
        case = mod.gen(rng, i, tier)
        t0 = time.time()
        run_one(mod, case, mon, i, limit)
        dt = time.time() - t0
        if dt > mon.notes.get('slowest', [0, None])[0]:
            mon.notes['slowest'] = [dt, i]
    mon.notes['skipped'] = skipped
    return {'evals': mon.evals, 'counts': mon.counts, 'sigs': list(mon.sigs),
            'fails': mon.fails[:40], 'nfails': len(mon.fails),
            'findings': mon.findings, 'samples': mon.samples,
            'notes': mon.notes}


def load_known(prop):
    out = {}
    if os.path.exists(KF_FILE):
        for line in open(KF_FILE, encoding='utf-8'):
            line = line.strip()
            if line.startswith('finding:'):
                parts = line.split(None, 3)
                d = dict(p.split('=', 1) for p in parts[1:3])
                if d.get('property') == prop:
                    out[d['id']] = parts[3]
    return out


def main(prop, tier, argv):
    import importlib
    modname = 'vf.checks.%s' % prop.lower()
    mod = importlib.import_module(modname)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    limit = getattr(mod, 'CASE_LIMIT', 60.0)
    if '--replay' in argv:
        rp = json.load(open(argv[argv.index('--replay') + 1]))
        mon = Mon()
        if hasattr(mod, 'setup'):
            with quiet():
                mod.setup()
        case = rp['case']
        run_one(mod, case, mon, rp.get('idx'), 10 * limit)
        for f in mon.fails:
            print('FAIL %s: %s' % (f['kind'], f['msg']))
            print(json.dumps(f['data'], indent=1)[:4000])
        for k, f in mon.findings.items():
            print('FINDING %s: %s' % (k, f['msg']))
        print(mon.counts, mon.notes)
        return 1 if mon.fails else 0

    n = mod.CASES[tier]
    if '--n' in argv:
        n = int(argv[argv.index('--n') + 1])
    njobs = int(os.environ.get('VF_JOBS', '8'))
    budget = {'quick': getattr(mod, 'BUDGET_QUICK', 300.0),
              'thorough': getattr(mod, 'BUDGET_THOROUGH', 820.0)}[tier]
    deadline = t0 + budget
    idxs = list(range(n))
    if '--only' in argv:
        idxs = [int(argv[argv.index('--only') + 1])]
        njobs = 1
    # small interleaved shards, processed by forked workers
    nsh = max(1, min(len(idxs), njobs * 4))
    shards = [idxs[k::nsh] for k in range(nsh)]
    args = [(modname, tier, seed, s, limit, deadline) for s in shards]
    # import the code under test once, before forking
    with quiet():
        import ahkab  # noqa
    if njobs == 1:
        res = [_worker(a) for a in args]
    else:
        ctx = multiprocessing.get_context('fork')
        res = pool_run(ctx, args, njobs, deadline + limit + 20)

    evals = sum(r['evals'] for r in res)
    counts, sigs, fails, findings, samples = {}, set(), [], {}, []
    skipped, herr, touts, slowest = 0, [], [], [0, None]
    nf = 0
    for r in res:
        for k, v in r['counts'].items():
            counts[k] = counts.get(k, 0) + v
        sigs.update(r['sigs'])
        fails += r['fails']
        nf += r['nfails']
        samples += r['samples']
        for k, v in r['findings'].items():
            if k not in findings or v['idx'] < findings[k]['idx']:
                findings[k] = v
        skipped += r['notes'].get('skipped', 0)
        herr += r['notes'].get('harness_errors', [])
        touts += r['notes'].get('timeouts', [])
        if r['notes'].get('slowest', [0])[0] > slowest[0]:
            slowest = r['notes']['slowest']
    if hasattr(mod, 'finalize'):
        # global monitors over the merged counters
        for kind, msg in mod.finalize(counts, evals, tier):
            fails.append({'kind': kind, 'msg': msg, 'data': {}, 'case': None, 'idx': None})
    known = load_known(prop)
    # findings observed but not listed are violations
    for k, v in findings.items():
        if k not in known:
            fails.append({'kind': k, 'msg': v['msg'], 'data': {}, 'case': v['case'],
                          'idx': v['idx']})
    wall = time.time() - t0
    ok_evals = sum(v for k, v in counts.items() if k.startswith('ok:'))
    os.makedirs(EVID, exist_ok=True)
    replays = []
    fails.sort(key=lambda f: (f['kind'], -1 if f['idx'] is None else f['idx']))
    perkind = {}
    for f in fails:
        perkind.setdefault(f['kind'], []).append(f)
    rd = os.path.join(EVID, 'replay')
    for kind, fl in sorted(perkind.items()):
        for j, f in enumerate(fl[:2]):
            os.makedirs(rd, exist_ok=True)
            p = os.path.join(rd, '%s-%s-%s-%d.json' % (prop, tier, ''.join(
                c if c.isalnum() else '_' for c in kind)[:40], j))
            with open(p, 'w') as fp:
                json.dump({'property': prop, 'seed': seed, 'tier': tier, 'idx': f['idx'],
                           'kind': kind, 'msg': f['msg'], 'data': f['data'],
                           'case': f['case']}, fp, indent=1)
            replays.append((kind, f['msg'], p))
    minimum = getattr(mod, 'MIN_OK', {}).get(tier, 1)
    needed = getattr(mod, 'NEED', [])
    missing = [k for k in needed if not counts.get('ok:' + k) and not counts.get('fail:' + k) and not counts.get(k)]
    inconclusive = []
    if herr:
        inconclusive.append('%d harness errors' % len(herr))
    if ok_evals + nf < minimum:
        inconclusive.append('only %d oracle evaluations (< %d)' % (ok_evals, minimum))
    if missing and '--n' not in argv and '--only' not in argv:
        inconclusive.append('monitors never reached: %s' % ','.join(missing))
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evals,
            'distinct_nontrivial': len(sigs),
            'rule': mod.RULE,
            'samples': samples[:3] if samples else [{'none': True}],
            'oracle_evaluations_held': ok_evals,
            'monitor_events': dict(sorted(counts.items())),
            'cases_skipped_by_time_budget': skipped,
            'cases_inconclusive_by_case_timeout': len(touts),
            'slowest_case_s': slowest,
            'known_findings_observed': dict((k, v['msg']) for k, v in findings.items()),
        },
        'wall_s': round(wall, 2),
        'violations': [{'kind': k, 'what': m[:400], 'replay': p} for k, m, p in replays],
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'verdict': 'violated' if replays else ('inconclusive' if inconclusive else
                                               'held on what was observed'),
    }
    if inconclusive:
        ev['inconclusive'] = inconclusive
    with open(os.path.join(EVID, prop + '.json'), 'w') as fp:
        json.dump(ev, fp, indent=1)
    for k in sorted(known):
        print('KNOWN-FINDING: property=%s id=%s %s%s' % (
            prop, k, known[k], '' if k in findings else ' [not re-observed in this run]'))
    print('%s %s seed=%d: %d cases, %d oracle evaluations held, %d distinct, %d skipped, '
          '%d timeouts, %.1fs, slowest %.1fs (#%s)' % (prop, tier, seed, evals, ok_evals, len(sigs),
                                     skipped, len(touts), wall, slowest[0], slowest[1]))
    if '-v' in argv or os.environ.get('VF_VERBOSE'):
        for k, v in sorted(counts.items()):
            print('   %-50s %d' % (k, v))
    if touts:
        print('   timeouts: %s' % touts[:20])
    if replays:
        for kind, msg, p in replays:
            print('  [%s] %s' % (kind, msg[:600]))
            print('VIOLATION property=%s replay=%s' % (prop, p))
        return 1
    if inconclusive:
        print('INCONCLUSIVE: ' + '; '.join(inconclusive))
        for i, s in herr[:3]:
            print('case %s: %s' % (i, s))
        return 3
    return 0


def pool_run(ctx, args, njobs, hard_deadline):
    """Forked workers, one per shard, at most njobs alive; a dead worker is retried
    never and reported as a harness error (not silently dropped)."""
    pending = list(enumerate(args))
    live = {}
    out = {}
    while pending or live:
        while pending and len(live) < njobs:
            k, a = pending.pop(0)
            r, w = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_entry, args=(w, a))
            p.start()
            w.close()
            live[k] = (p, r)
        done = []
        for k, (p, r) in live.items():
            if r.poll(0.02):
                try:
                    out[k] = r.recv()
                except EOFError:
                    out[k] = None
                done.append(k)
            elif not p.is_alive():
                out[k] = r.recv() if r.poll(0.1) else None
                done.append(k)
        for k in done:
            p, r = live.pop(k)
            p.join(5)
            if p.is_alive():
                p.kill()
            r.close()
        if time.time() > hard_deadline:
            for k, (p, r) in live.items():
                p.kill()
                out[k] = None
            break
    res = []
    for k, a in enumerate(args):
        r = out.get(k)
        if r is None:
            r = {'evals': 0, 'counts': {}, 'sigs': [], 'fails': [], 'nfails': 0,
                 'findings': {}, 'samples': [],
                 'notes': {'skipped': len(a[3]),
                           'harness_errors': [[a[3][:1], 'worker for shard %d died or hung' % k]]}}
        res.append(r)
    return res


def _entry(w, a):
    try:
        r = _worker(a)
    except BaseException:
        r = {'evals': 0, 'counts': {}, 'sigs': [], 'fails': [], 'nfails': 0,
             'findings': {}, 'samples': [],
             'notes': {'skipped': len(a[3]),
                       'harness_errors': [[a[3][:1], traceback.format_exc()[-3000:]]]}}
    try:
        w.send(r)
        w.close()
    finally:
        sys.stdout.flush()
        # run atexit handlers (ahkab removes its temp files there)
        try:
            import atexit
            with quiet():
                atexit._run_exitfuncs()
        except BaseException:
            pass
        os._exit(0)
