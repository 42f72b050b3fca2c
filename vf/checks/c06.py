"""C06  AC analysis of nonlinear circuits."""
import math

import numpy as np

from .. import dev, nl, ref, sim
from .. import gen as G
from . import c02

PROP = 'C06'
RULE = ('nonlinear circuits (easily biased families and random networks with diodes, square-law/EKV transistors, switches, plus R, L, '
        'C, couplings, AC sources), every way of supplying the linearisation point; at each frequency the complex equations with the '
        'small-signal derivatives of the independent device equations at the reported bias are re-evaluated with the reported '
        'phasors; the low-frequency response is compared with differences of simulated operating points; distinct = distinct '
        '(topology, models, x0 kind) signature')
CASES = {'quick': 900, 'thorough': 16000}
MIN_OK = {'quick': 2500, 'thorough': 40000}
NEED = ['smallsignal', 'derivative', 'axis', 'x0:op', 'x0:none', 'x0:res', 'x0:arr', 'netlist']
CASE_LIMIT = 120.0
ASSUMPTIONS = ['conductances of the EKV model are the charge-based expressions the code documents (pinned by C10); the other devices '
               'are differentiated numerically, with the one-sided difference at kinks added to the tolerance']


def gen(rng, i, tier):
    r3 = G.rnd3
    fams = [f for f in c02.EASY]
    if i % 3:
        fam = fams[(i // 3) % len(fams)]
        d, m = c02.easy(rng, fam)
        kind = 'easy:' + fam
    else:
        kind = 'rand'
        d = G.linear_circuit(rng, nn=rng.randint(1, 6), rlo=100, rhi=5e4, alpha=2., neg=0, ctrl=rng.random() < .4,
                             reactive=rng.random() < .6, couplings=True, sources='ac', clo=1e-12, chi=1e-6, llo=1e-7, lhi=1e-2)
        nodes = sorted(set(n for e in d for n in ref.elem_nodes(e) if n != '0'))
        e, m = G.nl_devices(rng, nodes, rng.choice(['d', 'm', 'e', 's', 'dmes', 'dm', 'me']), rng.randint(1, 4))
        ks = [x for x in d if x[0] == 'K']
        d = [x for x in d if x[0] != 'K'] + e
        rng.shuffle(d)
        d += ks
    nodes = ['0'] + sorted(set(n for e in d for n in ref.elem_nodes(e) if n != '0'))
    if kind != 'rand':
        for k in range(rng.randint(0, 3)):
            a, b = rng.sample(nodes, 2)
            d.append(['C', 'Cq%d' % k, a, b, r3(G.logu(rng, 1e-12, 1e-6)), None])
        if rng.random() < .3:
            a, b = rng.sample(nodes, 2)
            d += [['R', 'Rlq', a, 'nlq', r3(G.logu(rng, 1e4, 1e6))], ['L', 'Lq', 'nlq', b, r3(G.logu(rng, 1e-6, 1e-1)), None]]
    src = [e for e in d if e[0] in 'VI']
    if not src:
        return gen(rng, i, tier)
    ex = rng.choice(src)
    for e in src:
        e[5] = 0
        if e is ex or rng.random() < .2:
            u = 1. if e[0] == 'V' else 1e-3
            e[5] = r3(rng.choice([-1, 1]) * rng.uniform(.2, 2)) * u
            if rng.random() < .2 and e is not ex:
                e[5] = [e[5], r3(rng.uniform(-1, 1) * u)]
    fa = r3(G.logu(rng, 1e-1, 1e7))
    return {'kind': kind, 'd': d, 'm': m, 'fa': fa, 'fb': r3(fa * G.logu(rng, 2, 1e3)), 'n': rng.choice([2, 3, 5]),
            'x0': rng.choice(['op', 'op', 'none', 'res', 'arr']), 'net': rng.random() < .2,
            'typ': rng.choice(['LOG', 'LIN']), 'ex': ex[1], 'diff': kind != 'rand'}


def run(case, mon):
    o = sim.outname('ac')
    try:
        run_(case, mon, o)
    finally:
        sim.cleanup(o)


def linearise(circ, N, x, st):
    """small-signal matrix at x and its uncertainty (None: a switch is between its states)"""
    S = N.S
    J = S.A0.copy()
    U = np.zeros_like(J)
    elems = dict((e.part_id.lower(), e) for e in circ)
    for k, (e, D) in enumerate(N.dev):
        t = nl.terminals(e)
        v = [N.volt(x, q) for q in t]
        p, q = nl.out_nodes(e)
        if p == q:
            continue
        on = st.get(k)
        if e[0] == 'M' and isinstance(D, dev.Ekv):
            vb = v[3]
            pv = tuple(np.float64(a - vb) for a in v[:3])
            gs = [float(elems[e[1].lower()].g(0, pv, j)) for j in range(3)]     # ports d-b, g-b, s-b
            gs.append(-sum(gs))
            un = [2e-4 * max(abs(a) for a in gs) + 1e-12] * 4
        else:
            gs, un = [], []
            # the linearisation point is a solution within the convergence tolerances
            h = {'D': 1e-6, 'M': 2e-5, 'S': 1e-6}[e[0]]
            for j in range(len(t)):
                a = list(v)
                i0 = nl.dcurrent(e, D, a, on)
                a[j] = v[j] + h
                hi = nl.dcurrent(e, D, a, on)
                a[j] = v[j] - h
                lo = nl.dcurrent(e, D, a, on)
                gs.append((hi - lo) / (2 * h))
                un.append(abs(hi - 2 * i0 + lo) / h)
            big = max(abs(a) for a in gs)
            rel = 1.5e-3 if e[0] == 'D' and D.RS else 3e-4
            un = [a + rel * big + {'D': 2e-9 if e[0] == 'D' and D.RS else 1e-10, 'M': 2e-9, 'S': 1e-11}[e[0]] for a in un]     # gmin, finite-difference steps of the code
            if e[0] == 'S' and max(abs(a) for a in gs[2:]) > 1e-9 * max(abs(gs[0]), 1e-30):
                return None
        for j, nd in enumerate(t):
            if nd == '0':
                continue
            c = S.ix[('v', nd)]
            for node, sg in ((p, 1.), (q, -1.)):
                if node != '0':
                    J[S.ix[('v', node)], c] += sg * gs[j]
                    U[S.ix[('v', node)], c] += un[j]
    return J, U


def mismatch(S, J, U, w, y, x, bac):
    nv = len(S.nodes)
    M = J + 1j * w * S.A1
    rr = M.dot(y) - bac
    t = 1e-8 * (np.abs(S.A0 + 1j * w * S.A1).dot(np.abs(y)) + np.abs(bac)) + U.dot(np.abs(y)) + 1e-13
    t[:nv] += (4e-12 + 4e-18 * w) * np.abs(y[:nv]).max()
    t += 2e-15 * np.abs(M).max() * (np.abs(y).max() + np.abs(x).max())
    q = np.abs(rr) / t
    j = int(q.argmax())
    return q[j], j, rr[j], t[j]


def run_(case, mon, o):
    d, m = case['d'], case['m']
    A = sim.api()
    net = case['net'] and all(not isinstance(e[5], list) for e in d if e[0] in 'VI')
    if net:
        from ahkab import netlist_parser as NP
        p = o + '.deck.sp'
        with open(p, 'w') as f:
            f.write(G.to_text([(e[:9] + [{}] if e[0] == 'M' and not e[9] else e) for e in d], models=m, extra=['.end']))
        circ, _, _ = NP.parse_circuit(p)
        mon.event('netlist')
        # (the initial state of a switch has no netlist form in this generator)
    else:
        circ = G.to_api(d, models=m)
    N = nl.NL(d, m)
    S = N.S
    with c02.options({'dc_max_nr_iter': 1000}):
        res = A.run(circ, A.new_op(outfile=o))
        op = res.get('op')
        if op is None:
            mon.event('no_bias')
            return
        x0 = {'op': 'op', 'none': None, 'res': op, 'arr': op.asarray()}[case['x0']]
        an = A.new_ac(case['fa'], case['fb'], case['n'], x0=x0, sweep_type=case['typ'], outfile=o)
        if case['x0'] == 'op':
            res = A.run(circ, [A.new_op(outfile=o + 'b'), an])
            op = res.get('op')
        else:
            res = A.run(circ, an)
    mon.event('x0:' + case['x0'])
    mon.seen(G.shape_sig(d), case['x0'], tuple(sorted(x[0] for x in m)))
    mon.sample({'elements': d[:8], 'models': m[:2], 'f': [case['fa'], case['fb']]})
    r = res.get('ac')
    x, miss = nl.vector(S, op, sim)
    b = S.rhs(ref.dc_value).real
    for e, D in N.dev:
        vd = N.volt(x, e[2]) - N.volt(x, e[3]) if e[0] == 'D' else 0.
        if e[0] == 'D' and not -D.BV - 20 * D.NBV * D.VT < vd < D.vmax() + 10 * D.RS:
            mon.event('not_judged_overdriven_junction')
            return
    # (next to the conductance of an overdriven junction the others are lost: the equations may be singular)
    if not mon.check(r is not None, 'smallsignal', 'no AC result although the operating point was found'):
        return
    nv = len(S.nodes)

    def tol(s):
        t = np.maximum(3e-9, 1e-5 * s)
        t[nv:] = 3e-9 + 1e-9 * s[nv:]
        t[:nv] += 4e-12 * np.abs(x[:nv]).max()
        return t
    best = N.best(x, b, tol)
    if not best[0] <= 1:
        mon.event('bias_off')       # C02's business
        return
    sts = []
    for st in N.switch_states(x):
        rr, sc = N.residual(x, b, st)
        if np.all(np.abs(rr) <= tol(sc)):
            sts.append(st)
    f = np.asarray(r.get_x()).reshape(-1)
    fa, fb, n = case['fa'], case['fb'], case['n']
    pts = [fa + (fb - fa) * k / (n - 1.) if case['typ'] == 'LIN' else fa * (fb / fa) ** (k / (n - 1.)) for k in range(n)]
    mon.check(len(f) == n and np.allclose(f, pts, rtol=1e-9, atol=0), 'axis', lambda: 'frequencies %s, requested %s' % (f.tolist(), pts))
    X = np.zeros((S.N, len(f)), dtype=complex)
    for k, i in S.ix.items():
        v = r.get(sim.label(k))
        if not mon.check(v is not None and np.size(v) == len(f), 'present', 'variable %s missing' % sim.label(k)):
            return
        X[i] = v
    if not mon.check(bool(np.all(np.isfinite(X))), 'smallsignal', 'non-finite phasors'):
        return
    lin = [linearise(circ, N, x, st) for st in sts]
    if not lin or any(q is None for q in lin):
        mon.event('switch_in_transition')
        return
    bac = S.rhs(ref.ac_value)
    for k in range(len(f)):
        w = 2 * math.pi * f[k]
        y = X[:, k]
        cand = []
        for J, U in lin:
            cand.append(mismatch(S, J, U, w, y, x, bac))
        q, j, rr, t = min(cand, key=lambda z: z[0])
        mon.check(q <= 1, 'smallsignal', lambda: 'at %g Hz the linearised equation of %s is off by %s (tolerance %g)'
                  % (f[k], S.names[j], rr, t))
    if case['diff'] and not any(e[0] in 'CL' for e in d) and not any(isinstance(e[5], list) for e in d if e[0] in 'VI'):
        # resistive circuit: the response at any frequency is the derivative of the DC solution
        h = 1e-3
        sols = []
        for s in (1., -1.):
            d2 = [list(e) for e in d]
            for e in d2:
                if e[0] in 'VI':
                    e[4] = e[4] + s * h * e[5]
            with c02.options({'dc_max_nr_iter': 1000, 'ver': 1e-9, 'vea': 1e-11, 'iea': 1e-13, 'ier': 1e-9}):
                qq = sim.op(G.to_api(d2, models=m))
            if qq is None:
                mon.event('no_bias_diff')
                return
            sols.append(nl.vector(S, qq, sim)[0])
        if len(lin) > 1:
            return
        sc = np.abs(np.linalg.inv(lin[0][0]))
        num = (sols[0] - sols[1]) / (2 * h)
        curv = np.abs(sols[0] - 2 * x + sols[1]) / h
        y = X[:, 0]
        ekv = any(a[0] == 'ekv' for a in m)
        lim = 2e-2 * np.abs(num).max() + curv + sc.dot(np.full(S.N, 1e-12)) / h + 1e-9
        if ekv and not np.all(np.abs(y - num) <= lim):
            mon.finding('KF3', 'EKV circuit: AC response %s, derivative of the operating point %s' % (y.real.tolist(), num.tolist()))
            return
        mon.check(bool(np.all(np.abs(y - num) <= lim)), 'derivative', lambda: 'AC response %s, difference of operating points %s'
                  % (y.real.tolist(), num.tolist()))
