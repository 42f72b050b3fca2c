"""C05  AC analysis of linear circuits."""
import math

import numpy as np

from .. import gen as G
from .. import ref, sim
from . import c02

PROP = 'C05'
RULE = ('random linear circuits (R, L, C, mutual inductances, AC/DC sources with magnitude and phase, all controlled sources) and '
        'random sweeps (LOG/LIN/default, one point, descending refused), dense and sparse solver; at every frequency the complex '
        'tableau equations are re-evaluated with the reported phasors; distinct = distinct (topology, sweep) signature')
CASES = {'quick': 900, 'thorough': 20000}
MIN_OK = {'quick': 10000, 'thorough': 200000}
NEED = ['axis', 'phasor', 'solution', 'netlist', 'degrees', 'sparse', 'dc_only']
CASE_LIMIT = 120.0
ASSUMPTIONS = ['the documented gmin (1e-12 S) and cmin (1e-18 F) to ground of every node are inside the residual tolerance']


def gen(rng, i, tier):
    r3 = G.rnd3
    big = i % 25 == 7
    d = G.linear_circuit(rng, nn=rng.randint(20, 60) if big else None, reactive=rng.random() < .95, sources='ac', couplings=True,
                         clo=1e-12, chi=1e-5, llo=1e-9, lhi=1e-1, maxcond=1e9)
    ks = [e for e in d if e[0] == 'K']
    typ = rng.choice(['LOG', 'LIN', None])
    fa = r3(G.logu(rng, 1e-1, 1e8))
    fb = r3(min(1e9, fa * G.logu(rng, 1.01, 1e5))) if rng.random() < .85 else fa
    n = rng.choice([2, 3, 5, 8, 10, 13, 21])
    if fb == fa:
        n = rng.choice([1, 1, 2])
    return {'d': d, 'typ': typ, 'fa': fa, 'fb': fb, 'n': n, 'big': big, 'nk': len(ks),
            'net': rng.random() < .35, 'deg': rng.random() < .15, 'zero': rng.random() < .06,
            'sparse': rng.random() < .1, 'x0': rng.choice(['op', None, 'res']), 'low': rng.random() < .3}


def axis(c):
    a, b, n = c['fa'], c['fb'], c['n']
    if n == 1:
        return [a]
    if c['typ'] == 'LIN':
        return [a + (b - a) * k / (n - 1.) for k in range(n)]
    return [a * (b / a) ** (k / (n - 1.)) for k in range(n)]


def run(case, mon):
    o = sim.outname('ac')
    try:
        run_(case, mon, o)
    finally:
        sim.cleanup(o)


def run_(case, mon, o):
    d = case['d']
    if case['zero']:
        for e in d:
            if e[0] in 'VI':
                e[5] = 0
    A = sim.api()
    S = ref.System(d)
    opt = {}
    if case['deg']:
        opt['ac_phase_in_deg'] = True
    if case['sparse'] or case['big']:
        opt['dense_matrix_limit'] = 1
    with c02.options(opt):
        net = case['net'] and all(not isinstance(e[5], list) for e in d if e[0] in 'VI')
        typ = case['typ']
        if net:
            from ahkab import netlist_parser as NP
            p = o + '.deck.sp'
            with open(p, 'w') as f:
                t = (' ' + typ.lower() if case['low'] else ' type=' + typ) if typ else ''
                body = ' %s %r %r' if (typ and case['low']) else ' nsteps=%s start=%r stop=%r'
                f.write(G.to_text(d, extra=['.ac' + t + body % (case['n'], case['fa'], case['fb']), '.end']))
            circ, dirs, _ = NP.parse_circuit(p)
            ans = NP.parse_analysis(circ, dirs)
            an = dict(ans[0])
            an.update({'outfile': o + '.ac', 'verbose': 0})
            mon.event('netlist')
        else:
            circ = G.to_api(d)
            kw = {} if typ is None else {'sweep_type': typ.lower() if case['low'] else typ}
            x0 = case['x0']
            if x0 == 'res':
                x0 = sim.op(circ)
            an = A.new_ac(case['fa'], case['fb'], case['n'], x0=x0, outfile=o, **kw)
        r = A.run(circ, an)['ac']
        mon.seen(G.shape_sig(d), typ, case['n'], net, case['sparse'])
        mon.sample({'elements': d[:8], 'sweep': [typ, case['fa'], case['fb'], case['n']]})
        if not mon.check(r is not None, 'phasor', 'no result for a well-posed linear circuit'):
            return
        f = np.asarray(r.get_x()).reshape(-1)
        pts = axis(case)
        mon.check(len(f) == len(pts) and np.allclose(f, pts, rtol=1e-9, atol=0), 'axis',
                  lambda: 'frequencies %s, requested %s' % (f.tolist(), pts))
        if len(f) == 0:
            return
        X = np.zeros((S.N, len(f)), dtype=complex)
        for k, i in S.ix.items():
            v = r.get(sim.label(k))
            if not mon.check(v is not None and np.size(v) == len(f), 'phasor', 'variable %s missing' % sim.label(k)):
                return
            X[i] = v
        arr = np.asarray(r.asarray())
        if case['deg']:
            mon.event('degrees')
        # the matrix form holds the same phasors
        cols = [n_.lower() for n_ in r.keys()]
        for k, i in S.ix.items():
            row = arr[cols.index(sim.label(k).lower())]
            mon.check(np.allclose(row, X[i], rtol=1e-12, atol=0), 'asarray', lambda: 'asarray() disagrees with [%s]' % sim.label(k))
    if not mon.check(bool(np.all(np.isfinite(X))), 'phasor', 'non-finite phasors'):
        return
    if case['sparse'] or case['big']:
        mon.event('sparse')
    b = S.rhs(ref.ac_value)
    nv = len(S.nodes)
    # the linearisation point handed over is the starting guess: its roundoff stays in the solution
    g = np.abs(S.op()) if case['x0'] == 'res' and not net else np.zeros(S.N)
    if not np.abs(b).max():
        mon.check(bool(np.all(np.abs(X).max(axis=1) <= 1e-5 * g.max())), 'dc_only', lambda: 'sources without an AC value give a response of %g' % np.abs(X).max())
        return
    for k in range(len(f)):
        w = 2 * math.pi * f[k]
        M = S.A0 + 1j * w * S.A1
        x = X[:, k]
        rr = M.dot(x) - b
        t = 1e-8 * (np.abs(M).dot(np.abs(x)) + np.abs(b)) + 1e-14 + 1e-12 * np.abs(M).dot(g) + 1e-13 * np.abs(M).sum(axis=1) * np.abs(x).max()
        t += 2e-15 * np.abs(M).max() * (np.abs(x).max() + g.max())       # backward error of a dense LU
        t[:nv] += (4e-12 + 4e-18 * w) * np.abs(x[:nv]).max()
        q = np.abs(rr) / t
        j = int(q.argmax())
        mon.check(q[j] <= 1, 'phasor', lambda: 'at %g Hz the equation of %s is off by %s (scale %g)' % (f[k], S.names[j], rr[j], t[j] * 1e8))
        try:
            iv = np.linalg.inv(M)
        except np.linalg.LinAlgError:
            continue
        e = np.abs(iv).dot(t)
        z = iv.dot(b)
        big = np.abs(z) + 1e-30
        good = e < 1e-2 * big
        if good.any():
            mon.check(bool(np.all(np.abs(x - z)[good] <= 2 * e[good] + 1e-7 * big[good])), 'solution', lambda: 'at %g Hz: %s, expected %s' % (f[k], x.tolist(), z.tolist()))
