"""C08  transient time axis."""
import math

import numpy as np

from .. import gen as G
from .. import ref, sim
from . import c02, c07

PROP = 'C08'
RULE = ('random linear and nonlinear circuits with every waveform (steep pulses included), start times zero and positive, steps from far below to '
        'above the interval, every method, fixed and adaptive step, through the API and .tran lines; the reported time axis is checked for order, '
        'first point, largest step, reach of the stop time, even spacing; the voltage of a source must be the waveform at the reported time; '
        'aborted runs must report no result; distinct = distinct (method, mode, route, start, step/interval decade, source) signature')
CASES = {'quick': 480, 'thorough': 8000}
MIN_OK = {'quick': 2500, 'thorough': 40000}
NEED = ['order', 'first', 'maxstep', 'reach', 'even', 'labels', 'aborted', 'netlist', 'tstart', 'longstep'] + c07.METHODS
CASE_LIMIT = 120.0
ASSUMPTIONS = ['the initial state itself is not part of the reported points: the first one lies at most one step after the start',
               'a run that stops with the documented "step size too small" failure (steep pulses, adaptive step) reports no result',
               'the last point may lie beyond the stop time by less than one step']


def gen(rng, i, tier):
    r3 = G.rnd3
    c = {'m': [], 'method': c07.METHODS[i % 8], 'route': rng.choice(['api', 'api', 'net']), 'x0': rng.choice(['op', 'zero'])}
    c['kind'] = 'abort' if i % 12 == 5 else ('nl' if i % 6 == 3 else 'lin')
    c['adaptive'] = rng.random() < .6
    if c['kind'] == 'nl':
        fam = rng.choice(['dres', 'mosamp', 'invq', 'inve', 'mirror', 'bridge', 'diodeconn'])
        d, c['m'] = c02.easy(rng, fam)
        T = float('%.3g' % G.logu(rng, 1e-7, 1e-3))
        nodes = sorted(set(n for e in d for n in ref.elem_nodes(e) if n != '0'))
        vn = set(n for e in d if e[0] == 'V' for n in e[2:4])
        free = [n for n in nodes if n not in vn]
        if free:
            d.append(['C', 'Cx', rng.choice(free), '0', r3(T / 1e4 * rng.uniform(.05, 2)), None])
        e = rng.choice([e for e in d if e[0] in 'VI'])
        b = e[4]
        e[6] = rng.choice([['sin', {'vo': b, 'va': r3(b * rng.uniform(.02, .5)), 'freq': r3(rng.uniform(.5, 3) / T), 'td': 0., 'theta': 0., 'phi': 0.}],
                           ['pulse', {'v1': b, 'v2': r3(b * rng.uniform(.3, 1.1)), 'td': r3(T * .1), 'tr': r3(T * .05), 'tf': r3(T * .05), 'pw': r3(T * .2), 'per': r3(T * .9)}]])
        c['x0'] = 'op'
        c['route'] = 'api'
        n = rng.randint(12, 60)
        start = 0.
        if c['method'] in ('GEAR3', 'GEAR4', 'GEAR5', 'GEAR6'):
            c['adaptive'] = False       # high-order step control follows Newton noise: very many steps
        c['cap'] = 4000 if c['adaptive'] else 0
    else:
        d, w = c07.scaled(rng, need1=True, nmax=5, ctrl=rng.random() < .4)
        # no couplings/controlled sources are needed here
        a = np.abs(w)
        T = float('%.3g' % (rng.uniform(.5, 8) / math.exp(rng.uniform(math.log(a.min()), math.log(a.max())))))
        for e in d:
            if e[0] in 'VI' and rng.random() < .8:
                e[6] = c07.src_fn(rng, T, e[0])
                if rng.random() < .3:
                    q = r3(T * G.logu(rng, 1e-4, 1e-1))
                    k = 1. if e[0] == 'V' else 1e-3
                    c['steep'] = True
                    e[6] = ['pulse', {'v1': r3(rng.uniform(-2, 2) * k), 'v2': r3(rng.uniform(-2, 2) * k), 'td': r3(T * rng.random() * .5), 'tr': q, 'tf': q,
                                      'pw': r3(T * rng.uniform(.05, .3)), 'per': r3(T * rng.uniform(.6, 2))}]
                e[4] = ref.eval_fn(e[6], 0.)
        n = G.logu(rng, .3, 40 if c['adaptive'] else 120)
        if rng.random() < .3:
            n = float(max(1, int(n)))
        start = 0. if rng.random() < .4 else r3(T * G.logu(rng, .05, 50))
    # a source whose voltage is known at all times, with a strong trend
    f = rng.choice([['sin', {'vo': 0., 'va': 2., 'freq': r3(rng.uniform(.3, 3) / T), 'td': 0., 'theta': 0., 'phi': 0.}],
                    ['pwl', {'x': [0., r3(100 * T + 2 * start)], 'y': [0., 100.]}]])
    if c['route'] == 'net' and f[0] == 'pwl':
        f = ['exp', {'v1': 0., 'v2': 5., 'td1': 0., 'tau1': r3(T + start), 'td2': r3(50 * (T + start)), 'tau2': r3(T)}]
    if c['route'] == 'net':
        for e in d:
            if e[0] in 'VI' and e[6] and e[6][0] == 'pwl':
                e[6] = None
                e[4] = 1.
    d += [['V', 'Vprobe', 'prb', '0', ref.eval_fn(f, 0.), 0, f], ['R', 'Rprobe', 'prb', '0', 1000.]]
    c['start'], c['stop'] = start, r3(start + T) if rng.random() < .5 else start + T
    if c['stop'] <= start:
        c['stop'] = start + T
    c['step'] = r3((c['stop'] - start) / n) if rng.random() < .6 else (c['stop'] - start) / n
    if c['kind'] == 'abort':
        c['adaptive'] = rng.random() < .5
        c['maxiter'] = rng.randint(1, 6)
        c['step'] = (c['stop'] - start) / rng.randint(8, 20)
        c['abort'] = rng.choice(['iter', 'iter', 'order', 'neg'])
    c['d'], c['T'] = d, T
    return c


def run(c, mon):
    o = sim.outname('tran')
    try:
        run_(c, mon, o)
    finally:
        sim.cleanup(o)


def simulate(c, o, start, stop, step):
    A = sim.api()
    from ahkab import netlist_parser
    d = c['d']
    circ = G.to_api(d, models=c['m'])
    x0 = sim.op(circ) if c['x0'] == 'op' else None
    if c['x0'] == 'op' and x0 is None:
        return 'noop'
    if c['route'] == 'api':
        an = A.new_tran(start, stop, step, x0=x0, method=c['method'], use_step_control=c['adaptive'], outfile=o, verbose=0)
    else:
        line = '.tran tstep=%r tstop=%r %smethod=%s' % (step, stop, 'tstart=%r ' % start if start else '', c['method'].lower())
        an = netlist_parser.parse_analysis(circ, [(line, 1)])[0]
        an['x0'] = x0
        an['outfile'] = o + '.tran'
        an['verbose'] = 0
    with c02.options({'transient_no_step_control': c['route'] == 'net' and not c['adaptive'],
                      'transient_max_time_iter': c.get('maxiter', 0) if c.get('abort') == 'iter' else c.get('cap', 0)}):
        try:
            return A.run(circ, [an]).get('tran')
        except ValueError as e:
            if 'Step size too small' not in str(e):
                raise
            return None


def run_(c, mon, o):
    start, stop, step = c['start'], c['stop'], c['step']
    if c['kind'] == 'abort' and c['abort'] in ('order', 'neg'):
        if c['abort'] == 'order':
            start, stop = stop, start
        else:
            step = -step
        try:
            r = simulate(c, o, start, stop, step)
        except (SystemExit, ValueError) as e:
            mon.check(not isinstance(e, SystemExit) or e.code not in (0, None), 'aborted', 'refusal exits with status 0')
            return
        mon.check(r is None, 'aborted', lambda: 'a transient analysis from %r to %r with step %r returned a result' % (start, stop, step))
        return
    r = simulate(c, o, start, stop, step)
    if isinstance(r, str):
        mon.event('op_failed')
        return
    if c['kind'] == 'abort':
        if r is None:
            mon.ok('aborted')
        else:
            ts = np.asarray(r.get_x(), dtype=float).reshape(-1)
            mon.check(len(ts) <= c['maxiter'] and ts[-1] >= stop * (1 - 1e-12), 'aborted',
                      lambda: 'run limited to %d points returned a result with %d points up to %r (stop %r)' % (c['maxiter'], len(ts), ts[-1], stop))
        return
    if r is None:
        mon.event('failed_run')
        if c['kind'] == 'lin' and not (c.get('steep') and c['adaptive']):
            mon.fail('reach', 'the transient analysis of a regular circuit returned no result (%s, adaptive=%s)' % (c['method'], c['adaptive']))
        return
    ts = np.asarray(r.get_x(), dtype=float).reshape(-1)
    t2 = np.asarray(r['T'], dtype=float).reshape(-1)
    mon.check(ts.shape == t2.shape and bool(np.all(ts == t2)), 'order', 'get_x() and the T variable differ')
    if not mon.check(len(ts) > 0 and bool(np.all(np.isfinite(ts))), 'order', 'empty or non-finite time axis'):
        return
    eps = 4e-13 * max(abs(start), abs(stop)) * math.sqrt(len(ts)) + 1e-9 * step
    mon.seen((c['kind'], c['method'], c['adaptive'], c['route'], start > 0, int(math.floor(math.log10((stop - start) / step))), c['x0']))
    mon.event(c['method'])
    if c['route'] == 'net':
        mon.event('netlist')
    if start:
        mon.event('tstart')
    if step > stop - start:
        mon.event('longstep')
    df = np.diff(ts)
    mon.check(bool(np.all(df > 0)), 'order', lambda: 'time points not strictly increasing: %r' % ts[max(0, int(np.argmin(df)) - 1):][:4])
    mon.check(start <= ts[0] <= start + step + eps and ts[0] > start - eps and (ts[0] > start or len(ts) > 1), 'first',
              lambda: 'first point %r, start %r, step %r' % (ts[0], start, step))
    if len(df):
        mon.check(df.max() <= step + eps, 'maxstep', lambda: 'points %r and %r are further apart than the step %r' % (ts[int(np.argmax(df))], ts[int(np.argmax(df)) + 1], step))
    mon.check(ts[-1] >= stop - eps * .1 and ts[-1] < stop + step + eps, 'reach', lambda: 'last point %r, stop %r, step %r' % (ts[-1], stop, step))
    if len(ts) > 1:
        mon.check(ts[-2] < stop + 1e-12 * abs(stop), 'reach', lambda: 'goes on after the stop time %r: %r' % (stop, ts[-3:]))
    if not c['adaptive']:
        ex = start + step * np.arange(1, len(ts) + 1)
        err = np.abs(ts - ex).max()
        mon.check(err <= eps, 'even', lambda: 'fixed step %r: points deviate by %r from even spacing (%r)' % (step, err, ts[:4]))
        n = math.ceil((stop - start) / step)
        mon.check(abs(len(ts) - n) <= 1, 'even', lambda: 'fixed step: %d points, expected %d' % (len(ts), n))
    # the values belong to the reported times
    f = [e for e in c['d'] if e[1] == 'Vprobe'][0][6]
    v = np.asarray(r['Vprb'], dtype=float).reshape(-1)
    if mon.check(len(v) == len(ts), 'labels', 'lengths differ'):
        ex = np.array([ref.eval_fn(f, t) for t in ts])
        p = f[1]
        slope = {'sin': lambda: 2 * math.pi * p['freq'] * 2, 'pwl': lambda: 100. / p['x'][1], 'exp': lambda: 5 / p['tau1']}[f[0]]()
        e = np.abs(v - ex)
        k = int(np.argmax(e))
        mon.check(e[k] <= 1e-9 * 100 + 1e-9 * abs(ex[k]) + slope * eps * 10, 'labels', lambda: 'at t=%r the source voltage is %r, its waveform %r' % (ts[k], v[k], ex[k]))
    mon.sample({'points': float(len(ts))})


def finalize(counts, evals, tier):
    n = CASES[tier]
    f = counts.get('failed_run', 0)
    if f > .1 * n:
        yield 'reach', '%d of %d runs stopped before the requested stop time' % (f, n)
