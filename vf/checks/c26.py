"""C26  temperature: histories of temperature changes against the documented laws."""
import numpy as np

from .. import dev
from .. import gen as G
from .. import nl, ref, sim
from . import c02, c06, c10, c12

PROP = 'C26'
RULE = ('random histories of temperature changes interleaved with direct device evaluations at repeated bias points, operating points, '
        'DC sweeps, AC and transient analyses of several circuits sharing device models: each current, conductance and reported solution is compared with the documented equations evaluated at the '
        'temperature in force (or at the own temperature of the device); distinct = (circuit family, history of temperatures and analyses)')
CASES = {'quick': 700, 'thorough': 14000}
MIN_OK = {'quick': 9000, 'thorough': 200000}
NEED = ['diode', 'mosq', 'ekv', 'own temperature', 'same bias, other temperature', 'back to an earlier temperature', 'shared model', 'op', 'dc', 'ac', 'tran', 
        'built before', 'built after', 'hot', 'cold', 'printed T', 'model temperature']
CASE_LIMIT = 90.0
ASSUMPTIONS = ['temperatures between -40 and 120 Celsius, where the model cards used are within their ranges',
               'the documented temperature laws are those of VTO, KP, PHI (MOS), the thermal voltage, IS, BV and RS (diode)']
EASY = ('dres', 'mosamp', 'invq', 'inve', 'mirror', 'bridge', 'diodeconn')


def temps(rng):
    out = []
    for _ in range(rng.randint(2, 5)):
        if out and rng.random() < .3:
            out.append(rng.choice(out))
        else:
            out.append(rng.choice([26.85, -40., 120., round(rng.uniform(-40, 120), 2), rng.randint(-30, 110)]))
    return out


def own(rng, d):
    for e in d:
        if e[0] == 'D' and rng.random() < .3:
            e[5] = dict(e[5] or {}, T=G.rnd3(rng.uniform(250, 390)))


def gen(rng, i, tier):
    c = {'seed': rng.randrange(1 << 40), 'T': temps(rng), 'kind': ['direct', 'circ', 'circ'][i % 3]}
    if c['kind'] == 'direct':
        kind = c['dev'] = ['diode', 'mosq', 'ekv'][(i // 3) % 3]
        n = rng.choice([1, 2, 3])
        if kind == 'diode':
            p = G.card_diode(rng)
            p.update((k, v) for k, v in (('XTI', 2.), ('TBV', 1e-3), ('TRS', 2e-3)) if rng.random() < .3)
            c['inst'] = [{'area': G.rnd3(G.logu(rng, .3, 5)), 'T': G.rnd3(rng.uniform(250, 390)) if rng.random() < .35 else None} for _ in range(n)]
            c['v'] = [[rng.uniform(.2, .75) * p.get('N', 1.)] for _ in range(3)] + [[-rng.uniform(0, 3)]]
        else:
            ty = rng.choice('np')
            p = G.card_mos(rng, kind, ty)
            p.update((k, v) for k, v in (('TCV', G.rnd3(rng.uniform(-2e-3, 2e-3))), ('BEX', G.rnd3(rng.uniform(-2, 0)))) if rng.random() < .6)
            s = 1 if ty == 'n' else -1
            c['inst'] = [{'w': G.rnd3(G.logu(rng, 1e-6, 1e-4)), 'l': G.rnd3(G.logu(rng, 5e-7, 1e-5)), 'm': rng.choice([1, 2]), 'n': rng.choice([1, 2])} for _ in range(n)]
            c['v'] = [[s * rng.uniform(0, 3.5), s * rng.uniform(-.2, 3.5), s * rng.choice([0., rng.uniform(0, 1)]), 0.] for _ in range(4)]
        c['p'] = p
        return c
    fam = EASY[(i // 3) % len(EASY)]
    c['fam'] = fam
    c['d'], c['m'] = c02.easy(rng, fam)
    own(rng, c['d'])
    c['an'] = []
    for _ in c['T']:
        c['an'].append(rng.sample(['op', 'dc', 'ac', 'tran'], rng.choice([1, 1, 2])))
    vs = [e for e in c['d'] if e[0] in 'VI']
    c['src'] = rng.choice(vs)[1]
    for e in vs:
        if e[1] == c['src']:
            # KF7: not to be taken for a node
            c['src'] = e[1] = e[0] + '_swept'
            e[5] = 1. if e[0] == 'V' else 1e-6
    c['late'] = rng.randint(0, len(c['T']) - 1) if rng.random() < .5 else None
    return c


def run(c, mon):
    import random
    from ahkab import constants
    T0 = constants.T
    rng = random.Random(c['seed'])
    mon.sample({k: c[k] for k in c if k not in ('d', 'v')})
    try:
        {'direct': direct, 'circ': circ}[c['kind']](c, mon, rng)
    finally:
        constants.T = T0


def note(mon, c, k):
    T = c['T']
    if T[k] > 60:
        mon.event('hot')
    if T[k] < 0:
        mon.event('cold')
    if k and T[k] in T[:k] and T[k] != T[k - 1]:
        mon.event('back to an earlier temperature')


def close(a, b, rt, at):
    return abs(a - b) <= rt * max(abs(a), abs(b)) + at


def direct(c, mon, rng):
    from ahkab import circuit
    A = sim.api()
    kind, p = c['dev'], c['p']
    cc = circuit.Circuit('dev')
    cc.get_ground_node()
    cc.add_model(kind, 'mm', dict(p))
    els = []

    def add(j):
        o = c['inst'][j]
        if kind == 'diode':
            kw = {} if o['T'] is None else {'T': o['T']}
            cc.add_diode('D%d' % j, 'a', 'k', 'mm', Area=o['area'], **kw)
            if o['T'] is not None:
                mon.event('own temperature')
        else:
            cc.add_mos('M%d' % j, 'd', 'g', 's', 'b', o['w'], o['l'], 'mm', m=o['m'], n=o['n'])
        els.append((o, list(cc)[-1]))
    late = len(c['inst']) - 1 if len(c['inst']) > 1 and rng.random() < .5 else len(c['inst'])
    for j in range(late):
        add(j)
    mon.seen(kind, tuple(c['T']), len(c['inst']))
    for k, t in enumerate(c['T']):
        A.set_temperature(t)
        note(mon, c, k)
        if k == 1:
            for j in range(late, len(c['inst'])):
                add(j)
                mon.event('built after')
        if k:
            mon.event('same bias, other temperature')
        if len(els) > 1:
            mon.event('shared model')
        TK = t + 273.15
        for o, el in rng.sample(els, len(els)):
            for v in c['v']:
                one(mon, c, kind, p, o, el, v, TK)
        mon.event(kind)


def one(mon, c, kind, p, o, el, v, TK):
    what = lambda: '%s at %g K%s (history of Celsius temperatures %r), %r' % (kind, TK, ' with its own T=%g' % o['T'] if o.get('T') else '', c['T'], v)
    if kind == 'diode':
        D = dev.Diode(p, o['area'], o['T'] or TK)
        if v[0] > D.vmax() or v[0] < -D.BV + .3:
            return
        i, g = D.ig(v[0])
        got = c10.cur(el, v)[0]
        at = 1e-18 + (o['area'] * 4e-8 / D.RS if D.RS else 0.) + 1e-13 * D.IS * o['area']
        mon.check(close(got, i, 4e-6, at), 'current', lambda: 'the current is %g, should be %g: %s' % (got, i, what()))
        if abs(g) > 1e-12:
            gg = float(el.g(0, tuple(v), 0))
            mon.check(close(gg, g, 1e-4 if not D.RS else 2e-3, 4e-12 * max(1, o['area'])), 'conductance', lambda: 'the conductance is %g, should be %g: %s' % (gg, g, what()))
        k, inf = el.get_op_info(((v[0],),))
        mon.event('printed T')
        mon.check(abs(inf[-1] - (o['T'] or TK)) < 1e-6, 'reported', lambda: 'the report says %r K: %s' % (inf[-1], what()))
        return
    d, g, s, b = v
    if kind == 'mosq':
        D = dev.Mosq(p, o['w'], o['l'], o['m'], o['n'], TK)
        pv = (d - s, g - s, b - s)
        i = D.i(*pv)
        got = c10.cur(el, pv)[0]
        mn = float(o['m']) / o['n']
        mon.check(close(got, i, 1e-7, 4e-10 * mn), 'current', lambda: 'the current is %g, should be %g: %s' % (got, i, what()))
        if D.region(*pv)[1] > 1e-3:
            G4 = np.asarray(el.gstamp(tuple(np.float64(x) for x in pv), reduced=False)[1], dtype=float)
            h = 2e-5
            num = [(D.i(pv[0], pv[1] + h, pv[2]) - D.i(pv[0], pv[1] - h, pv[2])) / (2 * h), (D.i(pv[0] + h, pv[1], pv[2]) - D.i(pv[0] - h, pv[1], pv[2])) / (2 * h)]
            sc = max(abs(x) for x in num)
            mon.check(close(G4[0, 1], num[0], 1e-4, 1e-4 * sc + 1e-9 * mn) and close(G4[0, 0], num[1], 1e-4, 1e-4 * sc + 1e-9 * mn), 'conductance',
                      lambda: 'gm, gds are %g, %g, should be %g, %g: %s' % (G4[0, 1], G4[0, 0], num[0], num[1], what()))
        return
    D = dev.Ekv(p, o['w'], o['l'], o['m'], o['n'], TK)
    pv = (d - b, g - b, s - b)
    i = D.i(*pv)
    got = c10.cur(el, pv)[0]
    mon.check(close(got, i, 2e-5, 2e-15 * o['m']), 'current', lambda: 'the current is %g, should be %g: %s' % (got, i, what()))
    mon.check(abs(el.ekv_model.get_device_temperature() - TK) < 1e-6 if hasattr(el, 'ekv_model') else True, 'model temperature', lambda: 'the model says %r' % el.ekv_model.get_device_temperature())
    mon.event('model temperature')


def analysis(A, c, an, o):
    e = [x for x in c['d'] if x[1] == c['src']][0]
    if an == 'op':
        return A.new_op(outfile=o, verbose=0)
    if an == 'dc':
        return A.new_dc(start=e[4] * .9, stop=e[4] * 1.1 + (1e-3 if e[0] == 'V' else 1e-6), points=3, source=e[1], outfile=o, verbose=0)
    if an == 'ac':
        return A.new_ac(start=1e3, stop=1e5, points=2, sweep_type='LOG', outfile=o, verbose=0)
    return A.new_tran(tstart=0., tstop=1e-5, tstep=5e-6, x0='op', method='IMPLICIT_EULER', use_step_control=False, outfile=o, verbose=0)


def overdriven(N, x):
    for e, D in N.dev:
        if e[0] == 'D':
            vd = N.volt(x, e[2]) - N.volt(x, e[3])
            if not -D.BV - 60 * D.NBV * D.VT - 100 * D.RS < vd < D.vmax() + 100 * D.RS:
                return True
    return False


def judge(mon, c, N, an, r, ci, what):
    S = N.S
    nv = len(S.nodes)

    def tolf(x):
        def tol(sc):
            t = np.maximum(3e-9, 1e-5 * sc)
            t[nv:] = 3e-9 + 1e-9 * sc[nv:]
            t[:nv] += 4e-12 * np.abs(x[:nv]).max()
            return t
        return tol

    def point(x, b, w):
        if overdriven(N, x):
            mon.event('not judged: overdriven')
            return
        best = N.best(x, b, tolf(x))
        mon.check(best[0] <= 1, 'balance', lambda: '%s%s: a residual of %g remains at %s (currents there: %g)' % (what, w, best[2], best[1], best[3]))
    mon.event(an)
    if an == 'op':
        x, miss = nl.vector(S, r, sim)
        point(x, S.rhs(ref.dc_value).real, '')
        return
    if an == 'ac':
        # linearised at the operating point
        return
    cols = dict((k, np.atleast_1d(np.real(sim.get(r, k)))) for k in S.ix)
    n = min(len(v) for v in cols.values())
    ax = np.atleast_1d(np.real(r.get_x()))
    for j in range(n):
        x = np.zeros(S.N)
        for k, q in S.ix.items():
            x[q] = cols[k][j]
        val = ref.dc_value
        if an == 'dc':
            def val(e, _v=ax[j]):
                return _v if e[1].lower() == c['src'].lower() else ref.dc_value(e)
        point(x, S.rhs(val).real, ' at %g' % ax[j])


def judge_ac(mon, c, N, circ_, rop, r, what):
    S = N.S
    x, miss = nl.vector(S, rop, sim)
    if overdriven(N, x):
        return
    L = c06.linearise(circ_, N, x, {})
    if L is None:
        return
    J, U = L
    f = np.atleast_1d(np.real(r.get_x()))
    bac = S.rhs(ref.ac_value)
    for j in range(len(f)):
        y = np.zeros(S.N, dtype=complex)
        for k, q in S.ix.items():
            y[q] = np.atleast_1d(sim.get(r, k))[j]
        q, jj, rr, t = c06.mismatch(S, J, U, 2 * np.pi * f[j], y, x, bac)
        mon.check(q <= 1, 'small signal', lambda: '%s: at %g Hz a residual of %g remains at %s (tolerated %g)' % (what, f[j], abs(rr), S.names[jj], t))
        mon.event('ac')


def circ(c, mon, rng):
    from ahkab import constants
    A = sim.api()
    d, m = c['d'], c['m']
    cc = G.to_api(d, models=m)
    twin = None
    mon.event('built before')
    mon.seen(c['fam'], tuple(c['T']), tuple(map(tuple, c['an'])))
    if any(e[0] == 'D' and (e[5] or {}).get('T') for e in d):
        mon.event('own temperature')
    for k, t in enumerate(c['T']):
        note(mon, c, k)
        A.set_temperature(t)
        TK = t + 273.15
        mon.check(abs(constants.T - TK) < 1e-9, 'set', lambda: 'the temperature is %r K after setting %r C' % (constants.T, t))
        if c['late'] == k:
            # another circuit with the very same device models
            twin = G.to_api([e for e in d if e[0] not in 'DMS'], models=[])
            twin.models.update(cc.models)
            for e in d:
                if e[0] in 'DMS':
                    add_dev(twin, e)
            mon.event('built after')
            mon.event('shared model')
        for ci in [cc] + ([twin] if twin is not None else []):
            N = nl.NL(d, m, T=TK)
            o = sim.outname('t')
            try:
                ans = sorted(c['an'][k], key=lambda a: ['op', 'dc', 'ac', 'tran'].index(a))
                if 'op' not in ans and ('ac' in ans or 'tran' in ans):
                    ans = ['op'] + ans
                try:
                    rs = A.run(ci, [analysis(A, c, a, o + a) for a in ans])
                except Exception as e:
                    if type(e).__name__ not in ('RuntimeError', 'NoConvergenceError', 'OverflowError'):
                        raise
                    mon.event('failed')
                    continue
                for a in ans:
                    r = rs.get(a)
                    if r is None:
                        mon.event('failed')
                        continue
                    what = '%s at %g C (temperatures so far: %r, %s)' % (a, t, c['T'][:k + 1], c['fam'])
                    if hasattr(r, 'temp'):
                        mon.check(abs(r.temp - TK) < 1e-9, 'recorded', lambda: 'the results say %r K: %s' % (r.temp, what))
                    if a == 'ac':
                        if rs.get('op') is not None:
                            judge_ac(mon, c, N, ci, rs['op'], r, what)
                    else:
                        judge(mon, c, N, a, r, ci, what)
            finally:
                sim.cleanup(o)
                for a in ('op', 'dc', 'ac', 'tran'):
                    sim.cleanup(o + a)


def add_dev(circ_, e):
    if e[0] == 'D':
        circ_.add_diode(e[1], e[2], e[3], e[4], **(e[5] or {}))
    elif e[0] == 'M':
        circ_.add_mos(e[1], e[2], e[3], e[4], e[5], e[7], e[8], e[6], **(e[9] or {}))

