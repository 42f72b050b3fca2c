"""C04  DC sweeps."""
import math

import numpy as np

from .. import gen as G
from .. import nl, ref, sim
from . import c02

PROP = 'C04'
RULE = ('random sweeps (source kind, direction, linear/logarithmic, point counts, steps that do or do not divide the interval, '
        'API and netlist) over random linear circuits and nonlinear families; every sweep point is compared with the '
        'reference solution (linear) or re-balanced with independent device equations and compared with an independent operating '
        'point (nonlinear); distinct = distinct (topology, sweep kind) signature')
CASES = {'quick': 900, 'thorough': 14000}
MIN_OK = {'quick': 4000, 'thorough': 50000}
NEED = ['axis', 'linear_point', 'nl_point', 'independent_op', 'restored', 'again']
CASE_LIMIT = 200.0
ASSUMPTIONS = ['points the solver could not solve are documented to be skipped: they are counted, and only required for the easily solved families']


def gen(rng, i, tier):
    r3 = G.rnd3
    if i % 2 == 0:
        d, m, kind = G.linear_circuit(rng, reactive=rng.random() < .3), [], 'lin'
    elif i % 4 == 1:
        fam = c02.EASY[(i // 4) % len(c02.EASY)]
        d, m = c02.easy(rng, fam)
        kind = 'easy:' + fam
    else:
        kind = 'rand'
        d = G.linear_circuit(rng, nn=rng.randint(1, 5), rlo=100, rhi=5e4, alpha=2., neg=0, ctrl=rng.random() < .3)
        nodes = sorted(set(n for e in d for n in ref.elem_nodes(e) if n != '0'))
        e, m = G.nl_devices(rng, nodes, rng.choice(['d', 'm', 'e', 's', 'dmes']), rng.randint(1, 3))
        d = d + e
    # the label of the swept variable must not collide with a node voltage
    src = [e for e in d if e[0] in 'VI']
    nodes = set(n.lower() for e in d for n in ref.elem_nodes(e))
    # (names that contain one another)
    alike = ['sw', 'sw1', 'sw10', 'sw11', 'sw100', '1sw', 'asw1', 'swa', 'sw_']
    rng.shuffle(alike)
    for k, e in enumerate(src):
        old, new = e[1], '%s%s' % (e[0], alike[k] if k < len(alike) else 'sx%d' % k)
        for x in d:
            if x[0] in 'FH' and x[4].lower() == old.lower():
                x[4] = new
        e[1] = new
    if src and rng.random() < .3:
        rng.choice(src)[6] = ['sin', {'vo': 1., 'va': 2., 'freq': 1e3, 'td': 0., 'theta': 0., 'phi': 0.}]
    s = rng.choice(src)[1] if rng.random() < .5 else min((e[1] for e in src), key=len)
    sc = 1. if s[0] == 'V' else 1e-3
    typ = 'LOG' if rng.random() < .3 else 'LIN'
    if typ == 'LOG':
        start = r3(G.logu(rng, 1e-2, 1.) * sc)
        stop = r3(start * G.logu(rng, 1.5, 100))
    else:
        start, stop = r3(rng.uniform(-5, 5) * sc), r3(rng.uniform(-5, 5) * sc)
        if kind.startswith('easy') and kind != 'easy:dres':
            e = [x for x in d if x[1] == s][0]
            a, b = r3(e[4] * rng.uniform(0, 1)), r3(e[4] * rng.uniform(.2, 1.2))
            start, stop = (a, b) if rng.random() < .5 else (b, a)
    if start == stop:
        stop = start + sc
    how = rng.choice(['points', 'points', 'step', 'netstep', 'divide'])
    n = rng.choice([2, 3, 5, 7, 11, 12, 20, 21, 33, rng.randint(2, 60)])
    if kind != 'lin':
        n = min(n, 14)
    step = None
    if how == 'points':
        step = n
    elif how == 'divide':
        # a step that divides the interval exactly in decimal arithmetic, not in binary
        k = rng.choice([1, 2, 3, 5, 7])
        u = 10. ** rng.randint(-2, 0) * sc
        a = rng.randint(-20, 20)
        start, step = float('%.12g' % (a * u)), float('%.12g' % (k * u * rng.choice([-1, 1])))
        stop = float('%.12g' % ((a + k * (n - 1) * (1 if step > 0 else -1)) * u))
        typ = 'LIN'
    elif typ == 'LOG':
        step = float('%.6g' % (1 + rng.uniform(.05, 1)))
        if kind != 'lin':
            step = float('%.6g' % (1.5 + rng.uniform(.05, 1)))
    else:
        step = float('%.6g' % ((stop - start) / (n - 1 + rng.choice([0, .2, .5, .9]))))
    return {'kind': kind, 'd': d, 'm': m, 'src': s, 'typ': typ, 'start': start, 'stop': stop, 'how': how, 'step': step,
            'case': rng.random(), 'guess': rng.random() < .8, 'word': rng.random()}


def axis(c):
    """the requested points"""
    a, b, s = c['start'], c['stop'], c['step']
    if c['how'] == 'points':
        n = int(s)
        if c['typ'] == 'LOG':
            return [a * (b / a) ** (k / (n - 1.)) for k in range(n)]
        return [a + (b - a) * k / (n - 1.) for k in range(n)]
    out = []
    k = 0
    while True:
        v = a * s ** k if c['typ'] == 'LOG' else a + s * k
        if abs(v - a) > abs(b - a) * (1 + 1e-9):
            break
        out.append(v)
        k += 1
    return out


def run_sweep(A, circ, c, o):
    src = c['src'].upper() if c['case'] < .3 else (c['src'].lower() if c['case'] < .6 else c['src'])
    typ = c['typ'] if c['word'] < .5 else {'LOG': 'LOGARITHMIC', 'LIN': 'LINEAR'}[c['typ']].lower()
    if c['how'] == 'points':
        an = A.new_dc(c['start'], c['stop'], c['step'], src, sweep_type=typ, guess=c['guess'], outfile=o)
    else:
        from ahkab import netlist_parser as NP
        line = '.dc source=%s start=%s stop=%s step=%s' % (src, repr(c['start']), repr(c['stop']), repr(c['step']))
        if c['typ'] == 'LOG' or c['word'] < .5:
            line += ' type=%s' % c['typ'].lower()
        if c['how'] == 'step':
            an = A.new_dc(c['start'], c['stop'], 2, src, sweep_type=typ, guess=c['guess'], outfile=o)
            an['step'] = c['step']
        else:
            an = NP.parse_analysis(circ, [(line, 1)])[0]
            an = dict(an)
            an.update({'outfile': o + '.dc', 'verbose': 0})
    return A.run(circ, an)['dc']


def run(case, mon):
    o = sim.outname('dc')
    try:
        run_(case, mon, o)
    finally:
        sim.cleanup(o)


def run_(case, mon, o):
    d, m = case['d'], case['m']
    A = sim.api()
    circ = G.to_api(d, models=m)
    pts = axis(case)
    N = nl.NL(d, m)
    S = N.S
    el = [e for e in circ if e.part_id.lower() == case['src'].lower()][0]
    before = [(e.part_id, getattr(e, 'dc_value', None)) for e in circ if e.part_id[0].upper() in 'VI']
    opt = {'dc_max_nr_iter': 1000} if m else {}
    with c02.options(opt):
        r = run_sweep(A, circ, case, o)
    after = [(e.part_id, getattr(e, 'dc_value', None)) for e in circ if e.part_id[0].upper() in 'VI']
    mon.check(before == after, 'restored', lambda: 'source values changed by the sweep: %s -> %s' % (before, after))
    mon.seen(case['kind'], G.shape_sig(d), case['typ'], case['how'], case['src'][0], case['stop'] > case['start'])
    mon.sample({'sweep': [case['src'], case['start'], case['stop'], case['step'], case['typ'], case['how']], 'elements': d[:6]})
    lin = case['kind'] == 'lin'
    easy = case['kind'].startswith('easy')
    if r is None:
        mon.event('no_sweep')
        if lin or easy:
            if lin:
                mon.fail('linear_point', 'no result for the sweep of a linear circuit')
            else:
                mon.event('easy_nosweep')
        return
    x = np.real(np.asarray(r.get_x())).reshape(-1)
    sc = max(abs(case['start']), abs(case['stop']))
    if lin or easy:
        if easy:
            mon.event('easy_points', len(pts))
        if easy and len(x) < len(pts):
            mon.event('easy_skipped_points', len(pts) - len(x))
        else:
            mon.check(len(x) == len(pts) and np.allclose(x, pts, rtol=1e-8, atol=1e-10 * sc), 'axis',
                      lambda: 'sweep axis %s, requested %s' % (x.tolist()[:40], pts[:40]))
    # skipped points: the visited ones must be a subsequence of the requested ones
    idx = []
    for v in x:
        k = int(np.argmin(np.abs(np.array(pts) - v)))
        if abs(pts[k] - v) > 1e-7 * abs(pts[k]) + 1e-9 * sc:
            mon.fail('axis', 'swept value %r was not requested (%s)' % (float(v), pts[:40]))
            return
        idx.append(k)
    if not mon.check(idx == sorted(set(idx)), 'axis', 'sweep points out of order or repeated: %s' % idx):
        return
    if len(x) < len(pts):
        mon.event('skipped_points', len(pts) - len(x))
    X = np.zeros((S.N, len(x)))
    for k, i in S.ix.items():
        v = sim.get(r, k)
        if not mon.check(v is not None and np.size(v) == len(x), 'present', 'variable %s missing from the sweep' % sim.label(k)):
            return
        X[i] = np.real(np.asarray(v)).reshape(-1)
    if not mon.check(bool(np.all(np.isfinite(X))), 'finite', 'non-finite values in the sweep result'):
        return
    cond = np.linalg.cond(S.A0) if lin else None
    pick = range(len(x)) if lin or len(x) <= 8 else sorted(set([0, 1, len(x) // 2, len(x) - 2, len(x) - 1]))
    for k in pick:
        val = lambda e: x[k] if e[1] == case['src'] else ref.dc_value(e)
        b = S.rhs(val).real
        if lin:
            rr, s0 = N.residual(X[:, k], b)
            nv = len(S.nodes)
            t = 1e-9 * s0 + 1e-13
            t[:nv] += 4e-12 * np.abs(X[:, k]).max()
            q = np.abs(rr) / t
            mon.check(q.max() <= 1, 'linear_point', lambda: 'point %d (%s=%g) leaves a residual %g at %s'
                      % (k, case['src'], x[k], rr[int(q.argmax())], S.names[int(q.argmax())]))
            continue
        skip = False
        for e, D in N.dev:
            vd = N.volt(X[:, k], e[2]) - N.volt(X[:, k], e[3]) if e[0] == 'D' else 0.
            if e[0] == 'D' and not -D.BV - 60 * D.NBV * D.VT - 100 * D.RS < vd < D.vmax() + 100 * D.RS:
                mon.event('not_judged_overdriven_junction')
                skip = True
        if skip:
            continue

        def tol(s):
            nv = len(S.nodes)
            t = np.maximum(3e-9, 1e-5 * s)
            t[nv:] = 3e-9 + 1e-9 * s[nv:]
            t[:nv] += 4e-12 * np.abs(X[:, k]).max()
            return t
        best = N.best(X[:, k], b, tol)
        mon.check(best[0] <= 1, 'nl_point', lambda: 'point %d (%s=%g) leaves a residual of %g at %s (scale %g)'
                  % (k, case['src'], x[k], best[2], best[1], best[3]))
    # independent operating points of freshly built circuits
    if easy and case['kind'] != 'easy:sw' and len(x):
        for k in sorted(set([0, len(x) - 1, len(x) // 2])):
            d2 = [list(e) for e in d]
            for e in d2:
                if e[1] == case['src']:
                    e[4] = float(x[k])
            with c02.options(opt):
                q = sim.op(G.to_api(d2, models=m))
            if q is None:
                mon.event('op_failed')
                continue
            y, _ = nl.vector(S, q, sim)
            # same residual tolerance on both sides: compare through the local stiffness
            cur = np.abs(N.residual(X[:, k], S.rhs(ref.dc_value).real)[1])
            dr = np.full(S.N, 6e-9) + 2e-5 * cur
            lim = 2e-3 * np.abs(y) + 1e-5
            try:
                for z in (X[:, k], y, .5 * (X[:, k] + y)):
                    lim = lim + np.abs(np.linalg.inv(N.jac(z))).dot(dr)
            except np.linalg.LinAlgError:
                continue
            mon.check(bool(np.all(np.abs(X[:, k] - y) <= lim)), 'independent_op',
                      lambda: 'sweep point %s=%g: %s, independent operating point %s' % (
                          case['src'], x[k], X[:, k].tolist(), y.tolist()))
    # the circuit is as before: its operating point is the reference one
    if lin:
        q = sim.op(circ)
        y, _ = nl.vector(S, q, sim)
        z = S.op()
        mon.check(np.allclose(y, z, rtol=1e-6, atol=1e-6 * np.abs(z).max() + 1e-12), 'again',
                  lambda: 'operating point after the sweep %s, expected %s' % (y.tolist(), z.tolist()))


def finalize(counts, evals, tier):
    n, f = counts.get('easy_points', 0), counts.get('easy_skipped_points', 0)
    if n >= 300 and f > .05 * n:
        yield 'points_skipped', '%d of the %d points of easily solved sweeps were skipped' % (f, n)
