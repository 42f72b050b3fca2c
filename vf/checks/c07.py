"""C07  transient waveforms."""
import math

import numpy as np
import scipy.linalg

from .. import gen as G
from .. import nl, ref, sim
from . import c02

PROP = 'C07'
RULE = ('random linear circuits (R, C, L, couplings, controlled sources, every waveform), and nonlinear families with capacitors, run with every '
        'integration method, fixed and adaptive step, from zero, the operating point or random initial values; at every accepted point the circuit equations '
        'and the integration formula of the method are re-evaluated from the reported values with independent matrices and device equations; '
        'adaptive runs of damped linear circuits are compared with a reference integration; distinct = distinct (topology, method, step mode, start) signature')
CASES = {'quick': 420, 'thorough': 6000}
MIN_OK = {'quick': 15000, 'thorough': 200000}
METHODS = ['TRAP', 'IMPLICIT_EULER', 'GEAR1', 'GEAR2', 'GEAR3', 'GEAR4', 'GEAR5', 'GEAR6']
NEED = ['formula', 'nl_formula', 'accuracy', 'completed', 'from_op', 'from_user', 'coupled'] + METHODS
CASE_LIMIT = 120.0
ASSUMPTIONS = ['the first point after the start (the first n points for Gear of order n) is an implicit Euler step, as the formula needs past derivatives or points',
               'the documented minimum conductance (gmin) and capacitance (cmin) to ground are part of the circuit',
               'nonlinear solutions are accepted within the Newton tolerances (residual iea, relative ier)',
               'the accuracy comparison uses a global bound derived from the tolerances (the step control is local): 20 times the per-step tolerance plus 1 %']


def src_fn(rng, T, el, zero=False):
    """waveform with features on the time scale T"""
    r3 = G.rnd3
    a = 1. if el == 'V' else 1e-3
    v = lambda: r3(rng.uniform(-5, 5) * a)
    k = rng.choice(['sin', 'sin', 'exp', 'pulse', 'pulse', 'sffm', 'am', 'pwl'])
    td = 0. if rng.random() < .4 else r3(T * rng.uniform(.01, .4))
    if k == 'sin':
        return [k, {'vo': 0. if zero else v(), 'va': v(), 'freq': r3(rng.uniform(.5, 5) / T), 'td': td,
                    'theta': 0. if rng.random() < .5 else r3(rng.uniform(0, 3) / T), 'phi': 0. if zero else r3(rng.uniform(-90, 90))}]
    if k == 'exp':
        return [k, {'v1': 0. if zero else v(), 'v2': v(), 'td1': td, 'tau1': r3(T * rng.uniform(.05, .5)),
                    'td2': r3(td + T * rng.uniform(.1, .5)), 'tau2': r3(T * rng.uniform(.05, .5))}]
    if k == 'pulse':
        return [k, {'v1': 0. if zero else v(), 'v2': v(), 'td': td, 'tr': r3(T * rng.uniform(.02, .1)), 'tf': r3(T * rng.uniform(.02, .1)),
                    'pw': r3(T * rng.uniform(.1, .3)), 'per': r3(T * rng.uniform(.55, 1.5))}]
    if k == 'sffm':
        return [k, {'vo': 0. if zero else v(), 'va': v(), 'fc': r3(rng.uniform(2, 5) / T), 'mdi': r3(rng.uniform(0, 3)), 'fs': r3(rng.uniform(.5, 1) / T), 'td': td}]
    if k == 'am':
        return [k, {'sa': v(), 'oc': r3(rng.uniform(0, 2)), 'fm': r3(rng.uniform(.5, 1) / T), 'fc': r3(rng.uniform(2, 5) / T), 'td': td}]
    x = [0.] + sorted(set(r3(T * rng.uniform(.05, .95)) for _ in range(rng.randint(1, 4)))) + [r3(T * 30)]
    return [k, {'x': x, 'y': [0. if zero else v()] + [v() for _ in x[1:]]}]


def modes(S):
    """finite natural frequencies (rad/s) of the circuit"""
    w = scipy.linalg.eigvals(S.A0, -S.A1)
    w = w[np.isfinite(w)]
    m = np.abs(w)
    return w[m < 1e14]


def regular(d):
    """no loop of capacitors and voltage-defined elements and no cut-set of inductors and current
    sources (there branch currents follow derivatives of the sources)"""
    from ..gen import UF
    uf = UF()
    for e in d:
        if e[0] in 'VEHC' and not uf.union(e[2], e[3]):
            return False
    try:
        # every node must be reached without inductors
        nodes = set(n for e in d for n in ref.elem_nodes(e)) | set(['0'])
        uf = UF()
        for e in d:
            if e[0] in 'RCVEH':
                uf.union(e[2], e[3])
        return len(set(uf.find(n) for n in nodes)) == 1
    except np.linalg.LinAlgError:
        return False


def stable_cmin(d):
    """stable with the minimum capacitance at every node, too"""
    S = ref.System(d, gmin=1e-12)
    A1 = S.A1.copy()
    for n in S.nodes:
        A1[S.ix[('v', n)], S.ix[('v', n)]] += 1e-18
    w = scipy.linalg.eigvals(S.A0, -A1)
    w = w[np.isfinite(w)]
    return not np.any(w.real > 1e-6 * np.abs(w))


def scaled(rng, need1=False, damped=False, **kw):
    """linear circuit with sane time constants: (description, natural frequencies)"""
    for _ in range(300):
        d = G.linear_circuit(rng, reactive=True, couplings=True, rlo=100, rhi=2e4, clo=1e-9, chi=1e-7, llo=1e-4, lhi=1e-1, neg=0, maxcond=1e8, **kw)
        w = modes(ref.System(d, gmin=1e-12))
        if need1 and not regular(d):
            continue
        w = w[np.abs(w) > 1.]
        if not len(w):
            continue
        if np.any(w.real > 1e-6 * np.abs(w)) or not stable_cmin(d):
            continue            # unstable
        if damped and np.any(np.abs(w.imag) > 1.5 * np.abs(w.real)):
            continue
        if np.abs(w).max() > 3e3 * np.abs(w).min():
            continue
        return d, w
    raise RuntimeError('no circuit')


def gen(rng, i, tier):
    r3 = G.rnd3
    kind = ['lin', 'lin', 'acc', 'nl', 'lin', 'acc'][i % 6]
    c = {'kind': kind, 'method': METHODS[(i // 6) % 8] if kind != 'acc' else ['TRAP', 'TRAP', 'GEAR2', 'IMPLICIT_EULER', 'GEAR1', 'TRAP', 'GEAR3', 'GEAR4'][(i // 6) % 8],
         'x0': 'zero', 'm': []}
    if kind == 'acc' and i == 2:
        # known deviations of the step control (deterministic)
        c['kind'] = 'special'
    if kind in ('lin', 'acc'):
        c['adaptive'] = kind == 'acc' or rng.random() < .5
        d, w = scaled(rng, need1=c['adaptive'], damped=kind == 'acc', nmax=6 if kind == 'lin' else 5, ctrl=rng.random() < .6)
        if kind == 'acc' and c['method'] in ('GEAR3', 'GEAR4') and np.any(np.abs(w.imag) > .5 * np.abs(w.real)):
            c['method'] = 'GEAR2'
        a = np.abs(w)
        T = float('%.3g' % (rng.uniform(.5, 4) / math.exp(rng.uniform(math.log(a.min()), math.log(a.max())))))
        if kind == 'acc':
            T = max(T, float('%.3g' % (3. / a.max())))
            T = min(T, float('%.3g' % (60. / a.max())))
        zero = kind == 'acc' and rng.random() < .5
        for e in d:
            if e[0] in 'VI':
                if rng.random() < .7 or zero:
                    e[6] = src_fn(rng, T, e[0], zero or kind == 'acc')
                    e[4] = ref.eval_fn(e[6], 0.)
        c['x0'] = 'zero' if zero else ('op' if kind == 'acc' else rng.choice(['zero', 'op', 'user', 'user']))
        if not c['adaptive']:
            n = rng.randint(12, 60)
        else:
            n = rng.randint(2, 40) if kind == 'lin' else rng.randint(2, 6)
        c['T'], c['step'] = T, r3(T / n)
        if c['x0'] == 'user':
            S = ref.System(d)
            c['user'] = [r3(rng.uniform(-3, 3) * (1 if k[0] == 'v' else 1e-3)) for k in S.names]
    else:
        fam = c02.EASY[(i // 6) % len(c02.EASY)]
        d, m = c02.easy(rng, fam)
        c['m'], c['fam'] = m, fam
        c['adaptive'] = rng.random() < .5 and c['method'] not in ('GEAR3', 'GEAR4', 'GEAR5', 'GEAR6')
        c['cap'] = 4000 if c['adaptive'] else 0     # (step control may follow Newton noise)
        nodes = sorted(set(n for e in d for n in ref.elem_nodes(e) if n != '0'))
        T = float('%.3g' % G.logu(rng, 1e-7, 1e-3))
        for k in range(rng.randint(1, 3)):
            a = rng.choice(nodes)
            b = rng.choice(['0'] + [n for n in nodes if n != a])
            if c['adaptive']:
                uf = G.UF()
                for e in d:
                    if e[0] in 'VC':
                        uf.union(e[2], e[3])
                if not uf.union(a, b):
                    continue
            d.append(['C', 'Cx%d' % k, a, b, r3(T / 1e4 * rng.uniform(.05, 2)), None])
        if rng.random() < .3:
            a = rng.choice(nodes)
            d += [['L', 'Lx', a, 'lxx', r3(T * 1e2 * rng.uniform(.1, 2)), None], ['R', 'RLx', 'lxx', '0', r3(rng.uniform(500, 5e3))]]
        vs = [e for e in d if e[0] in 'VI']
        e = rng.choice(vs)
        base = e[4]
        if rng.random() < .6:
            e[6] = ['sin', {'vo': base, 'va': r3(base * rng.uniform(.02, .5)), 'freq': r3(rng.uniform(.5, 3) / T), 'td': 0., 'theta': 0., 'phi': 0.}]
        else:
            e[6] = ['pulse', {'v1': base, 'v2': r3(base * rng.uniform(.3, 1.1)), 'td': r3(T * .1), 'tr': r3(T * .1), 'tf': r3(T * .1), 'pw': r3(T * .2), 'per': r3(T * .9)}]
        c['x0'] = 'op'
        c['T'], c['step'] = T, r3(T / rng.randint(15, 60))
    c['d'] = d
    return c


def bdf(ts):
    """weights of the derivative at ts[0] of the polynomial through ts"""
    t0 = ts[0]
    h = ts[0] - ts[1]
    u = [(t - t0) / h for t in ts]
    n = len(u)
    w = []
    for j in range(n):
        s = 0.
        if j == 0:
            s = sum(1. / (u[0] - u[m]) for m in range(1, n))
        else:
            p = 1. / (u[j] - u[0])
            for m in range(1, n):
                if m != j:
                    p *= (u[0] - u[m]) / (u[j] - u[m])
            s = p
        w.append(s / h)
    return w


def check_formula(mon, c, N, ts, X, kind):
    """re-evaluate the discretised circuit equations at every accepted point"""
    S = N.S
    A1 = S.A1.copy()
    for n in S.nodes:
        k = S.ix[('v', n)]
        A1[k, k] += 1e-18          # options.cmin
    meth = c['method']
    order = int(meth[4]) if meth.startswith('GEAR') else 1
    lin = kind == 'formula'

    def p(t, x, st=None):
        b = S.rhs(lambda e: ref.tran_value(e, t)).real
        r, sc = N.residual(x, b, st)
        return -r, sc
    prev = None
    bad = 0
    floor = np.array([1e-12 if q[0] == 'i' else 1e-14 for q in S.names])
    eps0 = 1e-13 * abs(ts[-1])
    for k in range(1, len(ts)):
        h = ts[k] - ts[k - 1]
        first = k <= (order if meth.startswith('GEAR') else (1 if meth == 'TRAP' else 0))
        if first or meth == 'IMPLICIT_EULER' or order == 1 and meth != 'TRAP':
            w = bdf([ts[k], ts[k - 1]])
            xs = [X[k], X[k - 1]]
        elif meth == 'TRAP':
            w, xs = [2. / h, -2. / h], [X[k], X[k - 1]]
        else:
            w = bdf([ts[k - j] for j in range(order + 1)])
            xs = [X[k - j] for j in range(order + 1)]
        dd = sum(a * A1.dot(x) for a, x in zip(w, xs))
        ds = sum(abs(a) * np.abs(A1).dot(np.abs(x)) for a, x in zip(w, xs))
        # the step is known to the resolution of the time values only
        ds_t = np.abs(dd) * (eps0 / h)
        best = None
        for st in N.switch_states(X[k]):
            pk, sk = p(ts[k], X[k], st)
            if meth == 'TRAP' and not first:
                cands = [p(ts[k - 1], X[k - 1], s0) for s0 in N.switch_states(X[k - 1])]
            else:
                cands = [(0., 0.)]
            for p0, s0 in cands:
                r = dd - pk - p0
                sc = ds + sk + s0
                # sources are evaluated at times rounded like the reported ones
                tol = floor + 1e-15 * sc.max() + ds_t + (3e-8 * sc if lin else 1e-5 * sc + 4e-9 + 1e-6 * np.array([1. if q[0] == 'i' else 0. for q in S.names]))
                q = np.abs(r) / tol
                j = int(np.argmax(q))
                if best is None or q[j] < best[0]:
                    best = (q[j], S.names[j], r[j], sc[j])
        ok = mon.check(best[0] <= 1, kind, lambda: '%s, point %d (t=%r, step %r): equation of %s is off by %r (terms add up to %r)'
                       % (meth, k, ts[k], h, best[1], best[2], best[3]))
        if not ok:
            bad += 1
            if bad > 2:
                break


def run(case, mon):
    o = sim.outname('tran')
    try:
        run_(case, mon, o)
    finally:
        sim.cleanup(o)


def tran(A, circ, c, x0, o, **kw):
    return A.run(circ, [A.new_tran(0., c['T'], c['step'], x0=x0, method=c['method'], use_step_control=c['adaptive'], outfile=o, verbose=0, **kw)]).get('tran')


def data(S, r, mon):
    ts = np.asarray(r.get_x(), dtype=float).reshape(-1)
    X = np.zeros((len(ts), S.N))
    for k, i in S.ix.items():
        v = r[sim.label(k)]
        X[:, i] = np.asarray(v, dtype=float).reshape(-1)
    return ts, X


def run_(c, mon, o):
    if c['kind'] == 'special':
        return special(mon, o)
    A = sim.api()
    d = c['d']
    N = nl.NL(d, c['m'], gmin=1e-12)
    S = N.S
    circ = G.to_api(d, models=c['m'])
    x0, xv = None, np.zeros(S.N)
    if c['x0'] == 'op':
        x0 = sim.op(circ)
        if x0 is None:
            mon.event('op_failed')
            return
        xv, miss = nl.vector(S, x0, sim)
        mon.event('from_op')
    elif c['x0'] == 'user':
        xv = np.array(c['user'])
        x0 = A.new_x0(circ, dict(('%s(%s)' % (k[0].upper(), k[1]), v) for k, v in zip(S.names, c['user'])))
        mon.event('from_user')
    try:
        with c02.options({'transient_max_time_iter': c.get('cap', 0)}):
            r = tran(A, circ, c, x0, o)
    except ValueError as e:
        if 'Step size too small' not in str(e):
            raise
        r = None
    lin = c['kind'] != 'nl'
    if r is None:
        mon.event('failed_run')
        if lin:
            mon.fail('completed', 'the transient analysis of a regular circuit returned no result (%s, adaptive=%s)' % (c['method'], c['adaptive']))
        return
    mon.ok('completed')
    mon.event(c['method'])
    if any(e[0] == 'K' for e in d):
        mon.event('coupled')
    ts, X = data(S, r, mon)
    ts = np.concatenate(([0.], ts))
    X = np.vstack((xv, X))
    if not mon.check(bool(np.all(np.isfinite(X)) and np.all(np.diff(ts) > 0)), 'formula' if lin else 'nl_formula', 'non-finite values or unordered times'):
        return
    mon.seen((G.shape_sig(d), c['method'], c['adaptive'], c['x0']))
    check_formula(mon, c, N, ts, X, 'formula' if lin else 'nl_formula')
    if c['kind'] == 'acc':
        accuracy(mon, c, S, ts, X, xv)


def accuracy(mon, c, S, ts, X, xv):
    brk = sorted(set(b for e in c['d'] if e[0] in 'VI' and e[6] for b in ref.fn_breaks(e[6], ts[-1])))
    src = lambda t: S.rhs(lambda e: ref.tran_value(e, t)).real
    grid = list(ts[1:])
    w = modes(S)
    fast = np.abs(w).max() if len(w) else 1. / c['T']
    big = max(np.diff(ts))
    nsub = int(min(60, max(4, math.ceil(big * fast))))
    ex = np.array(ref.integrate(S, src, 0., xv, grid, nsub, brk))
    got = X[1:]
    # voltages together, currents together (a waveform may cross zero)
    for grp, aerr in (('v', 1e-6), ('i', 1e-6)):
        ix = [i for k, i in S.ix.items() if k[0] == grp]
        if not ix:
            continue
        err = np.abs(got[:, ix] - ex[:, ix])
        peak = np.maximum(np.abs(ex[:, ix]).max(axis=0), np.abs(xv[ix]))
        # (first order methods accumulate more)
        tol = (20 * (aerr + 1e-3 * peak) + 1e-2 * peak.max()) * (2.5 if c['method'] in ('GEAR1', 'IMPLICIT_EULER') else 1.)
        q = err.max(axis=0) / tol
        j = int(np.argmax(q))
        mon.sample({'err_ratio': float(q[j])})
        k = S.names[ix[j]]
        mon.check(q[j] <= 1, 'accuracy', lambda: '%s (%d points, largest step %g of %g): %s is off by up to %g (peak %g)' % (
            c['method'], len(ts), big, c['T'], sim.label(k), err[:, j].max(), peak[j]))


def special(mon, o):
    """deterministic histories of two known deviations of the step control"""
    A = sim.api()
    from ahkab import options
    errs = []
    for tau in (1e-3, 1e4):
        d = [['V', 'V1', 'a', '0', 0., 0, ['sin', {'vo': 0., 'va': 1., 'freq': 1. / (6 * tau), 'td': 0., 'theta': 0., 'phi': 0.}]],
             ['R', 'R1', 'a', 'b', 1e3], ['C', 'C1', 'b', '0', tau / 1e3, None]]
        c = {'d': d, 'method': 'IMPLICIT_EULER', 'T': 6 * tau, 'step': 3 * tau, 'adaptive': True}
        r = tran(A, G.to_api(d), c, None, o)
        S = ref.System(d, gmin=1e-12)
        ts, X = data(S, r, mon)
        ex = np.array(ref.integrate(S, lambda t: S.rhs(lambda e: ref.tran_value(e, t)).real, 0., np.zeros(S.N), list(ts), 8))
        k = S.ix[('v', 'b')]
        errs.append(np.abs(X[:, k] - ex[:, k]).max())
        sim.cleanup(o)
    if errs[1] > 5 * errs[0] and errs[0] < 3e-2:
        mon.finding('KF4', 'error %.2g with a 1 ms time constant, %.2g with 10000 s' % tuple(errs))
    else:
        mon.check(max(errs) < 3e-2, 'accuracy', lambda: 'implicit Euler on an RC circuit: errors %r' % errs)
    n = []
    old = options.iea
    try:
        for iea in (1e-9, 1e-12):
            options.iea = iea
            d = [['I', 'I1', '0', 'a', 0., 0, ['sin', {'vo': 0., 'va': 1e-8, 'freq': 1e3, 'td': 0., 'theta': 0., 'phi': 0.}]],
                 ['R', 'R1', 'a', '0', 1e-3], ['L', 'L1', 'a', '0', 1e-6, None]]
            c = {'d': d, 'method': 'TRAP', 'T': 1e-3, 'step': 5e-4, 'adaptive': True}
            r = tran(A, G.to_api(d), c, None, o)
            S = ref.System(d, gmin=1e-12)
            ts, X = data(S, r, mon)
            ex = np.array(ref.integrate(S, lambda t: S.rhs(lambda e: ref.tran_value(e, t)).real, 0., np.zeros(S.N), list(ts), 8))
            k = S.ix[('i', 'L1')]
            n.append(np.abs(X[:, k] - ex[:, k]).max() / np.abs(ex[:, k]).max())
            sim.cleanup(o)
    finally:
        options.iea = old
    if n[1] > .2:
        mon.finding('KF5', 'relative error of a 10 nA inductor current %.2g with iea=1e-9 and %.2g with iea=1e-12' % tuple(n))
    else:
        mon.ok('accuracy')
