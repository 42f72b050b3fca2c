"""C02  Nonlinear operating points are genuine solutions."""
import math

import numpy as np

from .. import gen as G
from .. import nl, ref, sim

PROP = 'C02'
RULE = ('random linear networks loaded with diodes, square-law/EKV transistors and switches, with all subsets of the '
        'convergence aids, damping options, tolerances and initial guesses, plus families with a unique, easily reached '
        'solution; every reported OP is checked against KCL/KVL with independent device equations; distinct = distinct '
        '(topology, options) signature')
CASES = {'quick': 1600, 'thorough': 24000}
MIN_OK = {'quick': 2500, 'thorough': 40000}
NEED = ['kcl', 'solved', 'finite', 'aid', 'damped_linear', 'status', 'switch:on', 'switch:off', 'switch:outside', 'shared switch model, different states']
CASE_LIMIT = 120.0
ASSUMPTIONS = ['residual tolerance: the configured absolute current tolerance (iea) plus 1e-5 of the currents meeting at the node']

EASY = ('dres', 'mosamp', 'invq', 'inve', 'mirror', 'bridge', 'sw', 'diodeconn')
EASY2 = EASY + ('sw2',)
AIDS = ('use_standard_solve_method', 'use_gmin_stepping', 'use_source_stepping')


def V(i, a, b, dc):
    return ['V', i, a, b, dc, 0, None]


def easy(rng, fam):
    r3 = G.rnd3

    def R(lo=200, hi=5e4):
        return r3(G.logu(rng, lo, hi))
    if fam == 'dres':      # resistors, independent sources and diodes only: monotone -> unique solution
        nn = rng.randint(1, 6)
        d = G.linear_circuit(rng, nn=nn, ctrl=False, neg=0, rlo=100, rhi=2e4)
        nodes = sorted(set(n for e in d for n in e[2:4] if n != '0'))
        e, m = G.nl_devices(rng, nodes, 'd', rng.randint(1, 4), cards='simple')
        ser = []
        for k, x in enumerate(e):          # no ideal source straight across a junction
            ser.append(['R', 'Rser%d' % k, x[2], 'ser%d' % k, R()])
            x[2] = 'ser%d' % k
        return d + e + ser, m
    n = G.node_names(rng, 6)
    if fam == 'bridge':
        m = [('diode', 'dd', G.simple_diode(rng))]
        d = [V('V1', n[0], n[1], r3(rng.uniform(-12, 12))), ['R', 'R0', n[1], n[3], R(1e4, 1e6)],
             ['D', 'D1', n[0], n[2], 'dd', {}], ['D', 'D2', n[1], n[2], 'dd', {}],
             ['D', 'D3', n[3], n[0], 'dd', {}], ['D', 'D4', n[3], n[1], 'dd', {}],
             ['R', 'RL', n[2], n[3], R()], ['R', 'Rg', n[3], '0', R()]]
        return d, m
    kind = rng.choice(['mosq', 'ekv'])
    vdd = r3(rng.uniform(1.5, 4))
    if fam == 'mosamp':
        ty = rng.choice('np')
        s = 1 if ty == 'n' else -1
        m = [(kind, 'mm', G.card_mos(rng, kind, ty))]
        d = [V('Vdd', n[0], '0', s * vdd), V('Vg', n[1], '0', s * r3(rng.uniform(0, vdd))),
             ['R', 'RD', n[0], n[2], R(500, 5e4)], ['R', 'RS', n[3], '0', R(10, 2e3)],
             ['M', 'M1', n[2], n[1], n[3], rng.choice(['0', n[3]]), 'mm', r3(G.logu(rng, 2e-6, 5e-5)),
              r3(G.logu(rng, 1e-6, 5e-6)), {}]]
        return d, m
    if fam in ('invq', 'inve'):
        kind = 'mosq' if fam == 'invq' else 'ekv'
        m = [(kind, 'mn', {'TYPE': 'n', 'VTO': .5, 'KP': 1e-4, 'LAMBDA': .05 if kind == 'mosq' else .3}),
             (kind, 'mp', {'TYPE': 'p', 'VTO': -.5, 'KP': 4e-5, 'LAMBDA': .05 if kind == 'mosq' else .3})]
        st = rng.randint(1, 3)
        d = [V('Vdd', n[0], '0', vdd), V('Vin', n[1], '0', r3(rng.uniform(0, vdd)))]
        for k in range(st):
            i, o = n[1 + k], n[2 + k]
            d += [['M', 'MN%d' % k, o, i, '0', '0', 'mn', 1e-5, 1e-6, {}],
                  ['M', 'MP%d' % k, o, i, n[0], n[0], 'mp', 2.5e-5, 1e-6, {}],
                  ['R', 'RL%d' % k, o, '0', R(1e5, 1e7)]]
        return d, m
    if fam == 'mirror':
        m = [(kind, 'mn', G.card_mos(rng, kind, 'n'))]
        d = [['I', 'Ib', '0', n[1], r3(G.logu(rng, 1e-6, 1e-4)), 0, None], V('Vdd', n[0], '0', vdd),
             ['M', 'M1', n[1], n[1], '0', '0', 'mn', 2e-5, 2e-6, {}],
             ['M', 'M2', n[2], n[1], '0', '0', 'mn', 2e-5, 2e-6, {'m': rng.choice([1, 2, 4])}],
             ['R', 'RL', n[0], n[2], R(1e3, 2e4)], ['R', 'Rb', n[1], '0', 1e6]]
        return d, m
    if fam == 'diodeconn':
        ty = rng.choice('np')
        s = 1 if ty == 'n' else -1
        m = [(kind, 'mn', G.card_mos(rng, kind, ty))]
        d = [V('Vdd', n[0], '0', s * vdd), ['R', 'R1', n[0], n[1], R(1e3, 1e5)],
             ['M', 'M1', n[1], n[1], '0', '0', 'mn', 2e-5, 2e-6, {}]]
        if rng.random() < .5:
            d[2:] = [['M', 'M1', n[1], n[1], n[2], rng.choice(['0', n[2]]), 'mn', 2e-5, 2e-6, {}],
                     ['M', 'M2', n[2], n[2], '0', '0', 'mn', 3e-5, 1e-6, {}]]
        return d, m
    if fam == 'sw':
        vt = r3(rng.uniform(-2, 2))
        vh = 0 if rng.random() < .5 else r3(rng.uniform(.2, .6))
        m = [('sw', 'ss', {'VT': vt, 'VH': vh, 'RON': r3(G.logu(rng, 1, 50)), 'ROFF': r3(G.logu(rng, 1e5, 1e7))})]
        vin = r3(vt + rng.choice([-1, 1]) * (vh + rng.uniform(.4, 2)))
        d = [V('V1', n[0], '0', r3(rng.uniform(1, 10))), V('Vc', n[1], '0', vin), ['R', 'R1', n[0], n[2], R(100, 1e4)],
             ['S', 'S1', n[2], '0', n[1], '0', 'ss', rng.random() < .5], ['R', 'R2', n[2], '0', R(1e3, 1e5)]]
        return d, m
    if fam == 'sw2':       # switches of one model in different states, controls inside and outside of the hysteresis
        vt, vh = r3(rng.uniform(-2, 2)), r3(rng.uniform(.2, .9))
        m = [('sw', 'ss', {'VT': vt, 'VH': vh, 'RON': r3(G.logu(rng, 1, 50)), 'ROFF': r3(G.logu(rng, 1e4, 1e7))})]
        d = [V('V1', n[0], '0', r3(rng.uniform(1, 10)))]
        for k in range(rng.randint(1, 2)):
            d.append(V('Vc%d' % k, 'ct%d' % k, '0', r3(vt + vh * rng.uniform(-.7, .7) if rng.random() < .75 else vt + rng.choice([-1, 1]) * (vh + rng.uniform(.4, 2)))))
        nc = len(d) - 1
        for k in range(rng.randint(2, 4)):
            d += [['R', 'RS%d' % k, n[0], 'so%d' % k, R(100, 1e4)],
                  ['S', 'S%d' % k, 'so%d' % k, '0', 'ct%d' % rng.randrange(nc), '0', 'ss', rng.random() < .5]]
        return d, m


def gen(rng, i, tier):
    o = {}
    if i % 10 == 9:
        # linear circuits under the same options: damping and aids must not touch the solution
        o['nr_damp_first_iters'] = True
        return {'kind': 'lin', 'd': G.linear_circuit(rng), 'm': [], 'o': o, 'x0': None}
    if i % 2:
        fam = EASY2[(i // 2) % len(EASY2)]
        d, m = easy(rng, fam)
        rng.shuffle(d)
        kind = 'easy:' + fam
    else:
        kind = 'rand'
        d = G.linear_circuit(rng, nn=rng.randint(1, 6), rlo=100, rhi=5e4, alpha=2., neg=0, ctrl=rng.random() < .3,
                             reactive=rng.random() < .2)
        nodes = sorted(set(n for e in d for n in ref.elem_nodes(e) if n != '0'))
        e, m = G.nl_devices(rng, nodes, rng.choice(['d', 'm', 'e', 's', 'dmes', 'dm', 'me']), rng.randint(1, 4))
        pos = rng.random()
        d = d + e
        if pos < .5:
            ks = [x for x in d if x[0] == 'K']
            d = [x for x in d if x[0] != 'K']
            rng.shuffle(d)
            d += ks
    r = rng.random()
    if r < .35:
        k = rng.randrange(1, 7)
        for b, a in enumerate(AIDS):
            o[a] = bool(k >> b & 1)
    if rng.random() < .12:
        o['nr_damp_first_iters'] = True
    if rng.random() < .1:
        o['nl_voltages_lock'] = False
    if rng.random() < .1:
        o['dc_use_guess'] = False
    if rng.random() < .1:
        o['dc_max_nr_iter'] = rng.choice([2, 5, 10, 30])
    if kind == 'rand' and 'dc_max_nr_iter' not in o:
        o['dc_max_nr_iter'] = 1000
    if rng.random() < .1:
        o['iea'] = 1e-11
        o['ver'] = 1e-5
    x0 = rng.randrange(10 ** 6) if rng.random() < .15 else None
    return {'kind': kind, 'd': d, 'm': m, 'o': o, 'x0': x0}


class options(object):
    def __init__(self, o):
        self.o = o

    def __enter__(self):
        from ahkab import options as O
        self.old = dict((k, getattr(O, k)) for k in self.o)
        for k, v in self.o.items():
            setattr(O, k, v)
        return O

    def __exit__(self, *a):
        from ahkab import options as O
        for k, v in self.old.items():
            setattr(O, k, v)


def run(case, mon):
    d, m, o = case['d'], case['m'], case['o']
    circ = G.to_api(d, models=m)
    N = nl.NL(d, m)
    S = N.S
    kw = {}
    if case['x0'] is not None:
        import random
        rr = random.Random(case['x0'])
        kw['x0'] = np.array([[rr.uniform(-5, 5)] for _ in range(S.N)])
    with options(o):
        r = sim.op(circ, **kw)
    mon.seen(case['kind'], G.shape_sig(d), tuple(sorted(o.items())), case['x0'] is not None)
    mon.sample({'elements': d[:8], 'models': m[:2], 'options': o})
    fresh = (case['x0'] is None and o.get('dc_max_nr_iter', 1000) >= 1000 and o.get('use_standard_solve_method', True) and
             o.get('nl_voltages_lock', True))
    aidonly = case['kind'].startswith('easy') and case['x0'] is None and o.get('dc_max_nr_iter', 1000) >= 1000 and \
        o.get('use_standard_solve_method') is False and o.get('nl_voltages_lock', True)
    if aidonly:
        mon.event('aid_only_easy')
    if r is None:
        mon.event('reported_failure')
        if aidonly:
            mon.event('aid_only_easy_failed')
        if case['kind'].startswith('easy') and case['x0'] is None and o.get('dc_max_nr_iter', 1000) >= 1000:
            mon.event('easy_failed:%s:%s' % (case['kind'], sorted(k for k in o.items())))
        if case['kind'].startswith('easy') and fresh or case['kind'] == 'lin':
            mon.fail('solved', 'no operating point reported for a circuit of the easily solved family %s' % case['kind'], d=d, m=m, o=o)
        return
    if case['kind'].startswith('easy') and fresh:
        mon.ok('solved')
    x, miss = nl.vector(S, r, sim)
    if not mon.check(not miss, 'present', 'unknowns missing: %s' % miss):
        return
    if not mon.check(bool(np.all(np.isfinite(x))), 'finite', 'operating point reported with non-finite values', x=x):
        return
    for e, D in N.dev:
        vd = N.volt(x, e[2]) - N.volt(x, e[3]) if e[0] == 'D' else 0.
        if e[0] == 'D' and not -D.BV - 60 * D.NBV * D.VT - 100 * D.RS < vd < D.vmax() + 100 * D.RS:
            mon.event('not_judged_overdriven_junction')
            return
    b = S.rhs(ref.dc_value).real
    nv = len(S.nodes)

    def tol(sc):
        t = np.maximum(3e-9, 1e-5 * sc)
        t[nv:] = 3e-9 + 1e-9 * sc[nv:]
        t[:nv] += 4e-12 * np.abs(x[:nv]).max()      # gmin
        return t
    best = N.best(x, b, tol)
    if case['kind'] == 'easy:sw2':
        # the solution is that of the states the switches report
        st = {}
        for k in N.nsw:
            e, D = N.dev[k]
            el = [y for y in circ if y.part_id == e[1]][0]
            vin = N.volt(x, e[4])
            keys, info = el.get_op_info(((N.volt(x, e[2]), vin),))
            st[k] = dict(zip(keys, info))['STATUS'] == 'ON'
            mon.event('switch:' + ('outside' if abs(vin - D.VT) > D.VH else 'on' if st[k] else 'off'))
            mon.check(abs(vin - D.VT) <= D.VH or st[k] == (vin > D.VT), 'status', lambda: '%s reports %s with a control of %g V, VT %g, VH %g'
                      % (e[1], 'ON' if st[k] else 'OFF', vin, D.VT, D.VH))
        if len(set(st.values())) > 1:
            mon.event('shared switch model, different states')
        rs, sc = N.residual(x, b, st)
        q = np.abs(rs) / tol(sc)
        j = int(np.argmax(q))
        best = (q[j], S.names[j], rs[j], sc[j])
    name = 'damped_linear' if case['kind'] == 'lin' else 'kcl'
    mon.check(best[0] <= 1, name, lambda: 'reported operating point leaves a residual of %g at %s (currents/voltages there: %g)'
              % (best[2], best[1], best[3]), x=dict((str(k), x[i]) for k, i in S.ix.items()), o=o)
    if o.get('use_standard_solve_method') is False:
        mon.ok('aid')


def finalize(counts, evals, tier):
    """the convergence aids on their own solve the easy families (about 1% fail on the pinned tree)"""
    n, f = counts.get('aid_only_easy', 0), counts.get('aid_only_easy_failed', 0)
    if n >= 40 and f > .25 * n:
        yield 'aids_ineffective', 'gmin/source stepping alone failed on %d of %d easily solved circuits' % (f, n)
