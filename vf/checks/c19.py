"""C19: periodic steady state.

Truth: the implicit Euler discretisation (the documented one) of the circuit equations of an independent
model over one period, closed on itself: linear circuits against the solution of the periodic system,
nonlinear ones by the size of the Newton correction the returned waveform still needs, computed with the
independent device models; plus ahkab's own transient analysis started from the returned state."""
import numpy as np

from .. import gen as G
from .. import nl, ref, sim
from . import c02, c07

PROP = 'C19'
RULE = 'one period, first and last point equal, every step satisfies the circuit equations; agrees with a transient analysis continued from it'
CASES = {'quick': 320, 'thorough': 6000}
MIN_OK = {'quick': 1200, 'thorough': 22000}
NEED = ['lin', 'nl', 'brute-force', 'shooting', 'api', 'net', 'direct', 'step given', 'points given', 'defaults', 'dense', 'sparse', 'x0', 'diode', 'ekv', 'mosq', 'periodic', 'solution',
        'correction', 'transient', 'time axis', 'current source', 'voltage source', 'inductor', 'coupled', 'saved']
CASE_LIMIT = 120.0
ASSUMPTIONS = ['the time step of the analysis is the only discretisation (implicit Euler, as documented)',
               'shooting: the step taken from the last point to the first is the one observed (known finding KF9)',
               'nonlinear circuits that the simulator reports as not converged are only counted']


def gen(rng, i, tier):
    for _ in range(200):
        c = gen_(rng, i, tier)
        if c:
            return c
    raise RuntimeError('no circuit')


def gen_(rng, i, tier):
    r3 = G.rnd3
    c = {'m': [], 'method': rng.choice(['brute-force', 'shooting']), 'kind': rng.choice(['lin', 'lin', 'nl']), 'route': rng.choice(['api', 'api', 'net', 'direct'])}
    if c['kind'] == 'lin':
        d, w = c07.scaled(rng, need1=rng.random() < .7, nmax=4, ctrl=rng.random() < .5)
        a = np.abs(w)
        T = float('%.3g' % (rng.uniform(.5, 30) / float(np.exp(rng.uniform(np.log(a.min()), np.log(a.max()))))))
    else:
        fam = rng.choice(['dres', 'dres', 'mosamp', 'invq', 'inve', 'mirror', 'diodeconn', 'bridge'])
        d, c['m'] = c02.easy(rng, fam)
        T = float('%.3g' % G.logu(rng, 1e-6, 1e-3))
        nodes = sorted(set(n for e in d for n in ref.elem_nodes(e) if n != '0'))
        free = [n for n in nodes if n not in set(n for e in d if e[0] == 'V' for n in e[2:4])]
        if free and rng.random() < .8:
            d.append(['C', 'Cx', rng.choice(free), '0', r3(T / 1e4 * rng.uniform(.05, 2)), None])
    T = c['T'] = r3(T)
    timed = 0
    for e in d:
        if e[0] in 'VI' and (rng.random() < .8 or not timed):
            k = 1. if e[0] == 'V' else 1e-3
            if c['kind'] == 'nl':
                if timed:
                    break
                k = abs(e[4]) or k
                b = e[4]
                fr = rng.uniform(.05, .6)
            else:
                b, fr = r3(rng.uniform(-5, 5) * k), rng.uniform(.2, 5)
            f = rng.choice(['sin', 'sin', 'pulse', 'am', 'sffm'])
            if f == 'sin':
                e[6] = [f, {'vo': b, 'va': r3(k * fr), 'freq': rng.choice([1, 1, 2, 3]) / T, 'td': 0., 'theta': 0., 'phi': r3(rng.uniform(-90, 90))}]
            elif f == 'pulse':
                e[6] = [f, {'v1': b, 'v2': r3(b + k * fr * rng.choice([1, -1])), 'td': 0., 'tr': r3(T * rng.uniform(.05, .2)), 'tf': r3(T * rng.uniform(.05, .2)),
                            'pw': r3(T * rng.uniform(.1, .4)), 'per': T}]
            elif f == 'am':
                if c['kind'] == 'nl':
                    continue
                e[6] = [f, {'sa': r3(k * fr), 'oc': r3(rng.uniform(.5, 2)), 'fm': 1. / T, 'fc': rng.choice([2, 3]) / T, 'td': 0.}]
            else:
                e[6] = [f, {'vo': b, 'va': r3(k * fr), 'fc': rng.choice([1, 2]) / T, 'mdi': r3(rng.uniform(0, 2)), 'fs': 1. / T, 'td': 0.}]
            e[4] = ref.eval_fn(e[6], 0.)
            timed += 1
    if not timed:
        return None
    n = rng.choice([rng.randint(3, 12), rng.randint(12, 50), rng.randint(50, 130)])
    c['set'] = rng.choice(['points', 'points', 'points', 'step', 'none'])
    if c['route'] == 'api' and c['set'] == 'step':
        c['set'] = 'points'
    c['points'] = n if c['set'] != 'none' else 100
    if c['method'] == 'shooting' and c['kind'] == 'nl':
        c['points'] = min(c['points'], 40) if c['set'] != 'none' else 100
    c['step'] = T / (c['points'] - 1)
    if c['set'] == 'step' and rng.random() < .4:
        c['step'] *= rng.uniform(1., 1.2)           # adapted
        c['points'] = int(T / c['step']) + 1
        if abs(T / c['step'] - round(T / c['step'])) < 1e-3:
            return None
    c['x0'] = rng.random() < .25 and c['route'] == 'api' and c['method'] == 'brute-force'
    c['d'] = d
    c['slow_ok'] = 90
    if c['kind'] == 'lin':
        try:
            x, q = periodic(ref.System(d), c, c['method'] == 'shooting')
        except np.linalg.LinAlgError:
            return None
        if q > 1e9 or not np.all(np.isfinite(x)):
            return None
    return c


def src(S, t):
    return S.rhs(lambda e: ref.tran_value(e, t)).real


def grid(c):
    h = c['T'] / (c['points'] - 1)
    return h, np.arange(c['points']) * h


def periodic(S, c, wrap):
    """implicit Euler solution closed over the period: (points x N array, conditioning)

    wrap: x[0] follows x[-1] by one step (as the shooting method does), otherwise x[0] = x[-1]"""
    h, ts = grid(c)
    n = len(ts)
    M = S.A0 + S.A1 / h
    B = S.A1 / h
    # scaled to unit rows
    Mi = np.linalg.inv(M)
    P = Mi.dot(B)
    b = [Mi.dot(src(S, t)) for t in ts]
    first = 0 if wrap else 1
    # x_last = Phi x_last + g
    Phi = np.eye(S.N)
    g = np.zeros(S.N)
    mag = np.zeros(S.N)
    for k in range(first, n):
        Phi = P.dot(Phi)
        g = P.dot(g) + b[k]
        mag = np.maximum(mag, np.abs(b[k]))
    Q = np.eye(S.N) - Phi
    r = np.abs(np.linalg.inv(Q)).max() * max(1., np.abs(Phi).max())
    xl = np.linalg.solve(Q, g)
    X = np.zeros((n, S.N))
    x = xl
    if not wrap:
        X[0] = xl
    for k in range(first, n):
        x = P.dot(x) + b[k]
        X[k] = x
    A = S.A0 + S.A1 / h
    s = 1. / np.maximum(np.abs(A).max(axis=1), 1e-300)
    A = (A.T * s).T
    A = A / np.maximum(np.abs(A).max(axis=0), 1e-300)
    return X, max(np.linalg.cond(A), 1.) * max(1., r / 1e3)


def run(c, mon):
    o = sim.outname('pss')
    mon.data = {'deck': G.to_text(c['d'], models=c['m'])}
    try:
        run_(c, mon, o)
    finally:
        sim.cleanup(o)


def simulate(c, circ, o, mon):
    A = sim.api()
    from ahkab import bfpss, netlist_parser, shooting
    m, T = c['method'], c['T']
    if c['route'] == 'direct':
        f = bfpss.bfpss if m == 'brute-force' else shooting.shooting_analysis
        kw = {} if c['set'] == 'none' else {c['set']: c[c['set']]}
        return f(circ, T, outfile=o + '.pss', verbose=0, **kw)
    if c['route'] == 'net':
        line = '.pss period=%r%s method=%s' % (T, '' if c['set'] == 'none' else ' %s=%r' % (c['set'], c[c['set']]), m)
        an = netlist_parser.parse_analysis(circ, [(line, 1)])[0]
        an['outfile'] = o + '.pss'
        an['verbose'] = 0
    else:
        x0 = None
        if c['x0']:
            x0 = sim.op(circ)
            if x0 is not None:
                mon.event('x0')
        an = A.new_pss(T, x0=x0, points=None if c['set'] == 'none' else c['points'], method=m, outfile=o, verbose=0)
    return A.run(circ, [an]).get('pss')


def run_(c, mon, o):
    d = c['d']
    N = nl.NL(d, c['m'])
    S = N.S
    circ = G.to_api(d, models=c['m'])
    r = simulate(c, circ, o, mon)
    for k in ('kind', 'method', 'route'):
        mon.event(c[k])
    mon.event({'step': 'step given', 'points': 'points given', 'none': 'defaults'}[c['set']])
    mon.event('programs')
    if r is None:
        mon.event('failed run')
        if c['kind'] == 'lin':
            mon.fail('completed', 'the %s analysis of a linear circuit with a unique periodic solution returned nothing' % c['method'])
        return
    mon.ok('completed')
    ts, X = c07.data(S, r, mon)
    h, want = grid(c)
    if not mon.check(len(ts) == len(want) and np.allclose(ts, want, rtol=1e-9, atol=1e-9 * h), 'time axis', lambda: 'times %r ... %r (%d points), expected %d points over %g s' % (
            ts[:3], ts[-2:], len(ts), len(want), c['T'])):
        return
    mon.check(r.method == c['method'] and abs(r.period - c['T']) <= 1e-12 * c['T'], 'attributes', lambda: 'method %r period %r' % (r.method, r.period))
    if not mon.check(bool(np.all(np.isfinite(X))), 'finite', 'non finite values'):
        return
    mon.seen((G.shape_sig(d), c['method'], c['points'] // 10, c['set']))
    mon.event('sparse' if S.N * len(ts) > 400 else 'dense')
    for e in d:
        for t, nm in (('D', 'diode'), ('L', 'inductor'), ('K', 'coupled')):
            if e[0] == t:
                mon.event(nm)
        if e[0] == 'M':
            mon.event([m[0] for m in c['m'] if m[1] == e[6]][0])
        if e[0] in 'VI' and e[6]:
            mon.event('voltage source' if e[0] == 'V' else 'current source')
    # the file holds the same
    F = np.asarray(r.asarray(), dtype=float)
    mon.check(F.shape[1] == len(ts) and np.allclose(F[0], ts, rtol=1e-9), 'saved', lambda: 'the array of the results is %r' % (F.shape,))
    v = np.array([k[0] == 'v' for k in S.names])
    sc = np.ones(S.N) * 1e-15
    for q in (v, ~v):
        if q.any():
            sc[q] = max(np.abs(X[:, q]).max(), 1e-15)
    wrap = c['method'] == 'shooting'
    lin = c['kind'] == 'lin'
    # first = last
    gap = np.abs(X[0] - X[-1]) / sc
    k = int(np.argmax(gap))
    if wrap:
        if gap[k] > 1e-3:
            mon.finding('KF9', 'shooting: the first and the last point of the period differ (a step is taken from t=T to t=0)')
    else:
        mon.check(gap[k] <= (1e-9 if lin else 1e-3), 'periodic', lambda: '%s: %r at the start, %r at the end of the period' % (sim.label(S.names[k]), X[0, k], X[-1, k]))
    if lin:
        Y, q = periodic(S, c, wrap)
        mag = np.ones(S.N) * 1e-15
        hM = np.abs(np.linalg.inv(S.A0 + S.A1 / h)).dot(np.max([np.abs(src(S, t)) for t in ts], axis=0))
        for w in (v, ~v):
            if w.any():
                mag[w] = max(np.abs(Y[:, w]).max(), 1e-3 * hM[w].max(), 1e-15)
        e = np.abs(X - Y) / mag
        i, j = np.unravel_index(np.argmax(e), e.shape)
        mon.check(e[i, j] <= 1e-6 + 1e-14 * q, 'solution', lambda: '%s at point %d (t=%g): %r, periodic solution %r' % (sim.label(S.names[j]), i, ts[i], X[i, j], Y[i, j]))
    else:
        if not correction(c, mon, N, X, h, ts, wrap, sc):
            return
    if not wrap:
        continued(c, mon, circ, S, X, ts, h, sc, o)


def correction(c, mon, N, X, h, ts, wrap, sc):
    """Newton correction that the waveform still needs"""
    S = N.S
    n = len(ts)
    # eliminate step by step: J_k dx_k = -r_k + B dx_(k-1)
    B = S.A1 / h
    Phi = np.eye(S.N)
    g = np.zeros(S.N)
    lu = []
    first = 0 if wrap else 1
    for k in range(first, n):
        r, s = N.residual(X[k], src(S, ts[k]))
        r = r + B.dot(X[k] - X[k - 1])
        J = N.jac(X[k]) + B
        try:
            Ji = np.linalg.inv(J)
        except np.linalg.LinAlgError:
            mon.event('singular')
            return False
        if np.abs(Ji[:len(S.nodes), :len(S.nodes)]).max() > 1e8:
            mon.event('not judged (floating node)')
            return False
        P = Ji.dot(B)
        q = Ji.dot(-r)
        Phi = P.dot(Phi)
        g = P.dot(g) + q
        lu.append((P, q))
    d0 = (X[-1] - X[0]) if not wrap else 0.
    # dx_first = dx_last (+ mismatch)
    try:
        Q = np.eye(S.N) - Phi
        if np.abs(np.linalg.inv(Q)).max() > 1e7:
            mon.event('not judged (quasi-neutral)')
            return False
        dl = np.linalg.solve(Q, g + (Phi.dot(d0) if not wrap else 0.))
    except np.linalg.LinAlgError:
        mon.event('singular')
        return False
    x = dl + d0
    worst = (0., 0, 0)
    for k, (P, q) in zip(range(first, n), lu):
        x = P.dot(x) + q
        e = np.abs(x)
        v = np.array([a[0] == 'v' for a in S.names])
        # the convergence criterion of the analysis (the Newton iteration with the inexact conductances
        # of the EKV model, known finding KF2 of C10, converges only linearly)
        tol = np.where(v, 1e-3 * sc + 1e-6, 1e-3 * sc + 1e-8) * (30 if any(m[0] == 'ekv' for m in c['m']) else 2)
        z = e / tol
        i = int(np.argmax(z))
        if not np.isfinite(z).all():
            i = 0
            z = np.array([1e300])
        if z[i] > worst[0]:
            worst = (z[i], k, i)
    mon.check(worst[0] <= 1, 'correction', lambda: '%s at point %d (t=%g) is %g times the tolerance away from satisfying the circuit equations' % (
        sim.label(S.names[worst[2]]), worst[1], ts[worst[1]], worst[0]))
    return True


def continued(c, mon, circ, S, X, ts, h, sc, o):
    """one more period with the transient analysis (implicit Euler, same fixed step)"""
    A = sim.api()
    x0 = A.new_x0(circ, dict(('%s(%s)' % (k[0].upper(), k[1]), float(X[-1, i])) for k, i in S.ix.items()))
    r = A.run(circ, [A.new_tran(0., c['T'], h, x0=x0, method='implicit_euler', use_step_control=False, outfile=o + 'x', verbose=0)]).get('tran')
    if r is None:
        mon.event('transient failed')
        sim.cleanup(o + 'x')
        return
    t, Y = c07.data(S, r, mon)
    sim.cleanup(o + 'x')
    k = np.rint(t / h).astype(int)
    ok = (np.abs(t - k * h) < 1e-6 * h) & (k >= 1) & (k < len(ts))
    if not ok.any():
        mon.event('no common times')
        return
    e = np.abs(Y[ok] - X[k[ok]]) / (sc + 1e-9)
    i, j = np.unravel_index(np.argmax(e), e.shape)
    lim = 1e-3 if c['kind'] == 'lin' else (5e-2 if any(m[0] == 'ekv' for m in c['m']) else 1e-2)
    mon.check(e[i, j] <= lim, 'transient', lambda: '%s: %r in the periodic solution, %r in the transient analysis continued from it (t=%g)' % (
        sim.label(S.names[j]), X[k[ok]][i, j], Y[ok][i, j], t[ok][i]))
