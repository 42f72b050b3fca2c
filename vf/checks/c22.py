"""C22  simulations are repeatable and do not influence one another."""
import contextlib
import copy
import os
import pickle
import resource
import select
import signal
import time

import numpy as np

from .. import core
from .. import gen as G
from .. import ref, sim
from . import c02, c07

PROP = 'C22'
RULE = ('random histories of up to 14 steps over 2-3 circuits (linear, nonlinear, with hysteresis, with shared models, decks) in one process: analyses of every kind run directly, in lists, from '
        'the queue and from decks, repeated, interleaved, interrupted by failing analyses, by temperature changes and option changes that are undone; the outcome of every step must be what the '
        'same step gives alone in a fresh process, and after every step the circuits, the models, the options and the analysis descriptions must be as before; '
        'distinct = distinct history signatures')
CASES = {'quick': 260, 'thorough': 6000}
MIN_OK = {'quick': 5000, 'thorough': 115000}
NEED = ['step:' + s for s in ('direct', 'list', 'queue', 'deck', 'fail', 'fault', 'temp', 'options', 'handed')] + ['an:' + a for a in ('op', 'dc', 'ac', 'tran', 'pz', 'symbolic')] + \
       ['repeated', 'compared', 'same failure', 'x0 op', 'circuit:lin', 'circuit:nl', 'circuit:hyst', 'state kept', 'ic deck', 'deck without op', 'shared model', 'two of a type in a list', 'circuit with ics'] + ['handed:' + u for u in ('icmod', 'tran', 'ac', 'op', 'tran array', 'op array')]
CASE_LIMIT = 100.0
ASSUMPTIONS = ['a fresh process is a fork of a process that has only imported the simulator',
               'agreement is to 1e-9 of the largest value of a result (repeated floating point work may differ in the last bits with memory alignment)',
               'steps that need more than their share of CPU time are not judged']


# ---------------------------------------------------------------- generation
def circuits(rng):
    out = []
    n = rng.choice([2, 2, 3])
    for k in range(n):
        kind = rng.choice(['lin', 'nl', 'nl', 'hyst']) if k else 'lin'
        c = {'kind': kind, 'm': []}
        if kind == 'lin':
            d, w = c07.scaled(rng, need1=False, damped=True, nmax=4, ctrl=rng.random() < .5)
            a = np.abs(w)
            T = float('%.3g' % (rng.uniform(1, 4) / a.min())) if len(a) else 1e-3
            if len(a):
                T = min(T, float('%.3g' % (100. / a.max())))
            for e in d:
                if e[0] in 'VI' and rng.random() < .5:
                    e[6] = c07.src_fn(rng, T, e[0])
                    e[4] = ref.eval_fn(e[6], 0.)
                if e[0] in 'VI' and isinstance(e[5], list):
                    e[5] = e[5][0]
                if e[0] in 'CL' and rng.random() < .25:
                    e[5] = G.rnd3(rng.uniform(-2, 2) * (1. if e[0] == 'C' else 1e-3))
        else:
            fam = 'sw' if kind == 'hyst' else rng.choice([f for f in c02.EASY if f != 'sw'])
            d, c['m'] = c02.easy(rng, fam)
            nodes = sorted(set(x for e in d for x in ref.elem_nodes(e) if x != '0'))
            T = float('%.3g' % G.logu(rng, 1e-6, 1e-3))
            for j in range(rng.randint(1, 2)):
                d.append(['C', 'Cx%d' % j, rng.choice(nodes), '0', float('%.3g' % (T * rng.uniform(1e-6, 1e-3))), None])
            src = [e for e in d if e[0] == 'V']
            if src and rng.random() < .7:
                e = rng.choice(src)
                v = e[4]
                e[6] = ['pulse', {'v1': v, 'v2': float('%.3g' % (v * rng.uniform(.2, .9))), 'td': T * .1, 'tr': T * .1, 'tf': T * .1, 'pw': T * .3, 'per': T * .9}]
        c['T'] = T
        c['d'] = d
        out.append(c)
    nl = [c for c in out if c['m'] and c['kind'] == 'nl']
    if nl and rng.random() < .4:
        # several circuits with the same model objects
        o = copy.deepcopy(nl[0])
        for e in o['d']:
            if e[0] == 'R':
                e[4] = G.rnd3(e[4] * rng.uniform(.5, 2))
        out.append(o)
    return out


def analysis(rng, c, kind=None):
    d = c['d']
    src = [e[1] for e in d if e[0] in 'VI']
    a = kind or rng.choice(['op', 'op', 'dc', 'ac', 'tran', 'tran', 'pz'] + (['symbolic'] if c['kind'] == 'lin' and len(d) < 9 else []))
    if a == 'op':
        return ['op', {}]
    if a == 'dc':
        # (points counts steps)
        return ['dc', {'start': round(rng.uniform(-2, 1), 3), 'stop': round(rng.uniform(1.1, 3), 3), 'points': rng.randint(2, 5), 'source': rng.choice(src)}]
    if a == 'ac':
        f = 1. / c['T']
        return ['ac', {'start': float('%.3g' % (f * rng.uniform(.1, 1))), 'stop': float('%.3g' % (f * rng.uniform(2, 50))), 'points': rng.randint(2, 6), 'x0': rng.choice([None, 'op'])}]
    if a == 'tran':
        return ['tran', {'tstart': 0., 'tstop': c['T'], 'tstep': c['T'] / rng.choice([20, 40]), 'x0': rng.choice([None, 'op']),
                         'method': rng.choice(['TRAP', 'IMPLICIT_EULER', 'GEAR2', 'GEAR4']), 'use_step_control': rng.random() < .3}]
    if a == 'pz':
        return ['pz', {}]
    if a == 'symbolic':
        return ['symbolic', {'source': None, 'ac_enable': rng.random() < .5}]


def deck(rng, c, k):
    T = c['T']
    lines = []
    have_op = rng.random() < .75
    if have_op:
        lines.append('.op')
    for _ in range(rng.randint(1, 2)):
        a = rng.choice(['ac', 'tran', 'tran', 'dc'])
        if any(l.startswith('.' + a) for l in lines):
            continue
        if a == 'ac':
            lines.append('.ac LOG 4 %g %g' % (.3 / T, 20 / T) if 0 else '.ac start=%g stop=%g nsteps=4 sweep_type=LOG' % (.3 / T, 20 / T))
        elif a == 'dc':
            lines.append('.dc %s start=0 stop=1 step=0.25' % rng.choice([e[1] for e in c['d'] if e[0] in 'VI']))
        else:
            uic = rng.choice([0, 1, 2, 3])
            line = '.tran tstep=%g tstop=%g uic=%d' % (T / 20, T, uic)
            if uic == 3:
                nm = rng.choice(['ic_a', 'ic_b'])
                line += ' ic_label=%s' % nm
                if rng.random() < .6:
                    nodes = [x for e in c['d'] for x in ref.elem_nodes(e) if x != '0']
                    lines.append('.ic name=%s V(%s)=%g' % (nm, rng.choice(nodes), rng.uniform(.1, 1)))
            lines.append(line)
    return lines


def gen(rng, i, tier):
    cs = circuits(rng)
    steps = []
    n = rng.randint(5, 14)
    for _ in range(n):
        r = rng.random()
        k = rng.randrange(len(cs))
        c = cs[k]
        if steps and r < .22:
            prev = [s for s in steps if s[0] in ('direct', 'list', 'queue', 'deck')]
            if prev:
                s = rng.choice(prev)
                steps.append([s[0]] + list(s[1:]))
                continue
        if r < .45:
            steps.append(['direct', k, [analysis(rng, c)]])
        elif r < .62:
            ans = [analysis(rng, c, 'op')] + [analysis(rng, c) for _ in range(rng.randint(1, 2))]
            if rng.random() < .3:
                ans.append(analysis(rng, c, 'op'))
            steps.append(['list', k, ans])
        elif r < .74:
            ans = [analysis(rng, c) for _ in range(rng.randint(1, 3))]
            if rng.random() < .6:
                ans.insert(0, analysis(rng, c, 'op'))
            steps.append(['queue', k, ans])
        elif r < .78 and c['kind'] != 'hyst':
            steps.append(['handed', k, [rng.choice(['icmod', 'tran', 'ac', 'op', 'tran array', 'op array']) for _ in range(rng.randint(2, 4))],
                          analysis(rng, c, 'tran'), analysis(rng, c, 'ac'), rng.uniform(-1, 1)])
        elif r < .84 and c['kind'] != 'hyst':
            steps.append(['deck', k, deck(rng, c, k)])
        elif r < .87:
            steps.append(['fault', k, rng.choice([1, 2, 3, 5, 8]), analysis(rng, c, rng.choice(['op', 'dc', 'dc', 'ac', 'tran', 'pz']))])
        elif r < .91:
            steps.append(['fail', k, rng.choice(['source', 'singular', 'method', 'maxit', 'badnet'])])
        elif r < .95:
            steps.append(['temp', k, rng.choice([-20., 60., 90.]), analysis(rng, c, rng.choice(['op', 'tran', 'ac', 'dc']))])
        else:
            steps.append(['options', k, rng.choice([{'ver': 1e-2}, {'gmin': 1e-9}, {'dc_use_guess': False}, {'nr_damp_first_iters': True}, {'ac_log_step': 'LOG', 'iea': 1e-6}]),
                          analysis(rng, c, rng.choice(['op', 'tran', 'ac', 'dc']))])
    return {'c': cs, 'steps': steps}


# ---------------------------------------------------------------- execution (always in a child)
@contextlib.contextmanager
def interrupted(n):
    saved = np.linalg.solve, np.linalg.eig, np.linalg.eigvals
    left = [n]

    def wrap(f):
        def g(*a, **k):
            left[0] -= 1
            if left[0] <= 0:
                raise KeyboardInterrupt('injected')
            return f(*a, **k)
        return g
    np.linalg.solve, np.linalg.eig, np.linalg.eigvals = [wrap(f) for f in saved]
    try:
        yield
    finally:
        np.linalg.solve, np.linalg.eig, np.linalg.eigvals = saved


def make(A, ans):
    kind, p = ans
    o = sim.outname('c22')
    p = dict(p)
    f = {'op': A.new_op, 'dc': A.new_dc, 'ac': A.new_ac, 'tran': A.new_tran, 'pz': A.new_pz, 'symbolic': A.new_symbolic}[kind]
    return f(outfile=o, **p), o


def values(r):
    if r is None:
        return None
    if isinstance(r, tuple):                      # symbolic: (results, transfer functions)
        return {'symbolic': [str(sorted((str(k), str(v)) for k, v in x.items())) if hasattr(x, 'items') else str(x) for x in r]}
    out = {}
    for k in r.keys():
        v = r[k]
        out[str(k)] = np.array(v, dtype=complex).ravel()
    return out


def do(step, cs, objs, env):
    """one step -> outcome: list of (label, values) or ['exception', text]"""
    A = sim.api()
    outs = []
    what, k = step[0], step[1]
    c = cs[k]
    try:
        if what in ('direct', 'list', 'queue', 'temp', 'options'):
            specs = []
            for a in (step[2] if what in ('direct', 'list', 'queue') else [step[3]]):
                s, o = make(A, a)
                outs.append(o)
                specs.append(s)
            keep = repr([sorted((x, repr(y)) for x, y in s.items()) for s in specs])
            if what == 'queue':
                A.queue(*specs)
                res = A.run(objs[k])
            elif what == 'direct':
                res = A.run(objs[k], specs[0])
            elif what == 'list':
                res = A.run(objs[k], specs)
            elif what == 'temp':
                A.set_temperature(step[2])
                try:
                    res = A.run(objs[k], specs)
                finally:
                    A.set_temperature(env['T0'])
            else:
                with c02.options(dict((x, y) for x, y in step[2].items() if x != 'ac_log_step')):
                    res = A.run(objs[k], specs)
            if repr([sorted((x, repr(y)) for x, y in s.items()) for s in specs]) != keep:
                return ['descriptions changed', keep[:300]]
            env['kept'] += [(what + ' ' + t, res[t], values(res[t])) for t in sorted(res) if t in ('op', 'pz', 'symbolic')]
            return [(t, values(res[t])) for t in sorted(res)]
        if what == 'handed':
            # objects given to the simulator remain the user's
            res = A.run(objs[k], A.new_op())
            r = res['op']
            if r is None:
                return ['no operating point']
            first = [x for e in c['d'] for x in ref.elem_nodes(e) if x != '0'][0]
            arr = A.new_x0(objs[k], {'V(%s)' % first: step[5]})
            keep = (values(r), np.array(r.asarray(), copy=True), arr.copy())
            got = [('op', values(r))]
            for n, use in enumerate(step[2]):
                given = arr if use.endswith('array') else r
                if use == 'icmod':
                    got.append((use + str(n), values(A.icmodified_x0(objs[k], r))))
                else:
                    a = {'t': step[3], 'a': step[4], 'o': ['op', {}]}[use[0]]
                    s, o = make(A, [a[0], dict(a[1], x0=given)])
                    outs.append(o)
                    got.append((use + str(n), values(A.run(objs[k], s)[a[0]])))
                now = (values(r), np.array(r.asarray(), copy=True), arr)
                if same([('x', keep[0])], [('x', now[0])]) or keep[1].tobytes() != now[1].tobytes() or keep[2].tobytes() != now[2].tobytes():
                    return ['handed in object changed', use, str(keep)[:300], str(now)[:300]]
            return got
        if what == 'deck':
            o = sim.outname('c22d')
            outs.append(o)
            with open(o + '.sp', 'w') as f:
                f.write(G.to_text(c['d'], 'deck', c['m'], step[2]))
            res = A.main(o + '.sp', outfile=o, verbose=0)
            return [(t, values(res[t])) for t in sorted(res)]
        if what == 'fault':
            # the user interrupts the analysis, or memory runs out, in the n-th linear solution
            s, o = make(A, step[3])
            outs.append(o)
            with interrupted(step[2]):
                A.run(objs[k], s)
            return ['not interrupted']
        if what == 'fail':
            if step[2] == 'source':
                A.run(objs[k], A.new_dc(0, 1, 2, 'Vnotthere'))
            elif step[2] == 'method':
                A.run(objs[k], A.new_tran(0, c['T'], c['T'] / 10, x0=None, method='NOSUCH'))
            elif step[2] == 'maxit':
                with c02.options({'dc_max_nr_iter': 1}):
                    A.run(objs[k], [A.new_op(), A.new_tran(0, c['T'], c['T'] / 10, x0='op')])
            elif step[2] == 'badnet':
                o = sim.outname('c22d')
                outs.append(o)
                with open(o + '.sp', 'w') as f:
                    f.write(G.to_text(c['d'], 'deck', c['m'], ['.op', 'rbad 1']))
                A.main(o + '.sp', outfile=o, verbose=0)
            else:
                bad = A.Circuit('bad')
                g = bad.get_ground_node()
                bad.add_vsource('V1', 'a', g, 1.)
                bad.add_vsource('V2', 'a', g, 2.)
                bad.add_resistor('R1', 'a', g, 1.)
                A.run(bad, [A.new_op(), A.new_tran(0, 1e-3, 1e-4, x0='op')])
            return ['nothing failed']
    except (Exception, SystemExit, KeyboardInterrupt) as e:
        return ['exception', '%s: %s' % (type(e).__name__, str(e).replace(outs[-1] if outs else '\0', 'OUT'))]
    finally:
        for o in outs:
            sim.cleanup(o)


def state(A, objs, env, cs):
    """everything a user can see of circuits, models and options"""
    from ahkab import constants, options
    s = {'options': dict((k, repr(v)) for k, v in vars(options).items() if not k.startswith('_') and not callable(v) and type(v).__name__ != 'module'),
         'T': constants.T}
    for k, c in enumerate(objs):
        s['text %d' % k] = str(c)
        s['nodes %d' % k] = repr(sorted((str(a), str(b)) for a, b in c.nodes_dict.items()))
        s['elements %d' % k] = [(e.part_id, type(e).__name__, getattr(e, 'n1', None), getattr(e, 'n2', None)) for e in c]
        s['values %d' % k] = [(e.part_id, sorted((n, repr(getattr(e, n, None))) for n in ('value', 'dc_value', 'abs_ac', 'arg_ac', 'alpha', 'ic', 'is_nonlinear', 'is_timedependent')))
                              for e in c]
    s['queue'] = len(getattr(A, '_queue', ()))
    return s


def child(cs, steps, cpu):
    """-> list of outcomes, state differences; run in a fork of the clean worker"""
    A = sim.api()
    from ahkab import constants
    env = {'T0': constants.T - 273.15, 'kept': []}
    objs = [None] * len(cs)
    used = sorted(set(s[1] for s in steps))
    sub = [cs[k] for k in used]
    built = build_shared(sub)
    for k, o in zip(used, built):
        objs[k] = o
    live = [o for o in objs if o is not None]
    out, diffs = [], []
    s0 = state(A, live, env, cs)
    for n, st in enumerate(steps):
        out.append(do(st, cs, objs, env))
        s1 = state(A, live, env, cs)
        for k in s0:
            if s1[k] != s0[k]:
                diffs.append([n, k, small_diff(s0[k], s1[k])])
        s0 = s1
    for t, r, v in env['kept']:
        bad = same([(t, v)], [(t, values(r))])
        if bad:
            diffs.append([len(steps) - 1, 'earlier results', bad])
    return out, diffs


def build_shared(cs):
    """circuits with equal model cards get the same model objects"""
    objs = []
    pool = {}
    for c in cs:
        key = repr(c['m'])
        o = G.to_api(c['d'], models=c['m'])
        if c['m'] and key in pool:
            src = pool[key]
            for e in o:
                for a in ('model', 'ekv_model', 'mosq_model'):
                    mdl = getattr(e, a, None)
                    if mdl is not None and getattr(mdl, 'name', None) in src.models:
                        setattr(e, a, src.models[mdl.name])
            o.models = src.models
        elif c['m']:
            pool[key] = o
        objs.append(o)
    return objs


def small_diff(a, b):
    if isinstance(a, dict):
        return repr([(k, a.get(k), b.get(k)) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)])[:300]
    if isinstance(a, list):
        return repr([(x, y) for x, y in zip(a, b) if x != y])[:300] + (' lengths %d, %d' % (len(a), len(b)))
    la, lb = str(a).split('\n'), str(b).split('\n')
    return repr([(x, y) for x, y in zip(la, lb) if x != y])[:300]


def forked(f, cpu, wall=90):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGPROF, signal.SIG_DFL)
            used = resource.getrusage(resource.RUSAGE_SELF)
            resource.setrlimit(resource.RLIMIT_CPU, (int(cpu + 1), int(cpu + 2)))
            os.close(r)
            try:
                data = pickle.dumps(('ok', f()))
            except BaseException as e:
                import traceback
                data = pickle.dumps(('error', traceback.format_exc()[-1500:]))
            with os.fdopen(w, 'wb') as fp:
                fp.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    buf = []
    end = time.time() + wall
    while True:
        ready, _, _ = select.select([r], [], [], max(0, end - time.time()))
        if not ready:
            os.kill(pid, signal.SIGKILL)
            break
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf.append(b)
    os.close(r)
    os.waitpid(pid, 0)
    try:
        return pickle.loads(b''.join(buf))
    except Exception:
        return ('slow', None)


def same(a, b):
    """-> None when the outcomes agree, else a description"""
    if bool(a and a[0] == 'exception') != bool(b and b[0] == 'exception') or (a and isinstance(a[0], str)):
        return None if a == b else 'alone: %s; in the history: %s' % (str(a)[:250], str(b)[:250])
    if [x[0] for x in a] != [x[0] for x in b]:
        return 'analyses %s, alone %s' % ([x[0] for x in b], [x[0] for x in a])
    for (t, u), (_, v) in zip(a, b):
        if (u is None) != (v is None):
            return '%s: alone %s, in the history %s' % (t, 'no result' if u is None else 'a result', 'no result' if v is None else 'a result')
        if u is None:
            continue
        if sorted(u) != sorted(v):
            return '%s: variables %s, alone %s' % (t, sorted(v), sorted(u))
        for k in u:
            if isinstance(u[k], list):
                if u[k] != v[k]:
                    return '%s: %s, alone %s' % (t, str(v[k])[:200], str(u[k])[:200])
                continue
            if u[k].shape != v[k].shape:
                return '%s: %s has %s values, alone %s' % (t, k, v[k].shape, u[k].shape)
            if u[k].tobytes() != v[k].tobytes():
                sc = max(np.abs(u[k][np.isfinite(u[k])]).max(), 1e-3 if k.lower().startswith('v') else 1e-6) if np.isfinite(u[k]).any() else 1.
                with np.errstate(all='ignore'):
                    ok = np.all((u[k] == v[k]) | (np.abs(u[k] - v[k]) <= 1e-9 * sc))
                if not ok:
                    j = int(np.nanargmax(np.abs(u[k] - v[k])))
                    return '%s: %s[%d] is %r, alone %r' % (t, k, j, v[k][j], u[k][j])
    return None


def run(case, mon):
    sim.api()
    cs, steps = case['c'], case['steps']
    keys, base = [], {}
    for s in steps:
        key = repr(s)
        keys.append(key)
        if key in base:
            continue
        base[key] = forked(lambda: child(cs, [s], 6), 6)
    for c in cs:
        mon.event('circuit:' + c['kind'])
    if len(set(repr(c['m']) for c in cs if c['m'])) < len([c for c in cs if c['m']]):
        mon.event('shared model')
    slow = set(k for k in base if base[k][0] == 'slow')
    err = [base[k][1] for k in base if base[k][0] == 'error']
    if err:
        raise RuntimeError('child: ' + err[0])
    hist = [s for s, k in zip(steps, keys) if k not in slow]
    if not hist:
        mon.event('too slow')
        return
    st, got = forked(lambda: child(cs, hist, 40), 40)
    if st == 'slow':
        mon.event('too slow')
        return
    if st == 'error':
        raise RuntimeError('child: ' + got)
    outs, diffs = got
    done = set()
    text = lambda n: '%s (step %d of %r)' % (str(hist[n])[:200], n + 1, [h[0] + ':' + '+'.join(a[0] for a in h[2]) if h[0] in ('direct', 'list', 'queue') else h[0] for h in hist])
    for n, (s, o) in enumerate(zip(hist, outs)):
        key = repr(s)
        b, bd = base[key][1]
        mon.event('step:' + s[0])
        if key in done:
            mon.event('repeated')
        done.add(key)
        if s[0] in ('direct', 'list', 'queue'):
            for a in s[2]:
                mon.event('an:' + a[0])
                if a[1].get('x0') == 'op' and s[2][0][0] == 'op':
                    mon.event('x0 op')
            if len(set(a[0] for a in s[2])) < len(s[2]):
                mon.event('two of a type in a list')
        if s[0] == 'deck':
            if any(l.startswith('.ic') for l in s[2]):
                mon.event('ic deck')
            if '.op' not in s[2]:
                mon.event('deck without op')
        bad = same(b[0], o)
        mon.check(bad is None, 'independent', lambda: '%s: %s' % (text(n), bad))
        mon.check(not (o and o[0] == 'descriptions changed'), 'descriptions', lambda: 'running changed the analysis description: %s' % (o[1],))
        mon.check(not (o and o[0] == 'handed in object changed'), 'handed in object', lambda: '%s: the %s changed the object it was given: %s, then %s' % ((text(n),) + tuple(o[1:])))
        if s[0] == 'handed' and o and isinstance(o[0], tuple):
            for u in s[2]:
                mon.event('handed:' + u)
        if any(isinstance(y, list) and y[0] in 'CL' and y[5] is not None for y in cs[s[1]]['d']):
            mon.event('circuit with ics')
        mon.event('same failure' if o and o[0] == 'exception' else 'compared')
        for x in o or []:
            if isinstance(x, tuple) and x[1]:
                for k in x[1]:
                    mon.ok('values')
    for n, k, d in diffs:
        mon.fail('side effect', '%s changed %s: %s' % (text(n), k, d))
    mon.check(not diffs, 'state', 'state changed')
    mon.event('state kept')
    mon.seen(tuple((s[0], s[1], str(s[2])[:60]) for s in hist))
