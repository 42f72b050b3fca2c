"""C10  Device models: documented currents, conductance = derivative, symmetry, scaling, memory."""
import math

import numpy as np

from .. import dev
from .. import gen as G

PROP = 'C10'
RULE = ('random model cards/geometries/temperatures; every device is driven with a random voltage history; currents, '
        'conductances and full/reduced stamps are compared at every point with an independent evaluation of the '
        'documented equations; distinct = (device, type, region, card shape) signature')
CASES = {'quick': 1600, 'thorough': 40000}
MIN_OK = {'quick': 50000, 'thorough': 500000}
NEED = ['diode_i', 'diode_g', 'diode_passive', 'mosq_i', 'mosq_stamp', 'ekv_i', 'ekv_g', 'switch_i', 'switch_g',
        'history', 'swap', 'mirror', 'mult', 'reduced', 'hyst']
ASSUMPTIONS = ['EKV transconductances are documented as charge-based approximations: compared with the derivative of the '
               'documented current within a stated band (see DESIGN.md)',
               'junction voltages beyond 65 N*VT (where the code linearises the exponential) are not judged']


def gen(rng, i, tier):
    kind = ['diode', 'mosq', 'ekv', 'switch'][i % 4]
    c = {'kind': kind, 'np': 14}
    if kind == 'diode':
        c['p'] = G.card_diode(rng)
        c['area'] = G.rnd3(G.logu(rng, .1, 20)) if rng.random() < .6 else 1.0
        c['T'] = None if rng.random() < .6 else G.rnd3(rng.uniform(250, 400))
        D = dev.Diode(c['p'], c['area'], c['T'] or 300.)
        lo = -(D.BV + 10 * D.NBV * D.VT) if math.isfinite(D.BV) else -30.
        vm = D.vmax()
        vs = []
        for _ in range(c['np']):
            r = rng.random()
            if r < .1:
                v = 0.
            elif r < .6:
                v = rng.uniform(-.2, min(vm, 1.2))
            elif r < .8:
                v = rng.uniform(lo, 0)
            elif math.isfinite(D.BV) and r < .9:
                v = rng.uniform(lo, -D.BV + .3)
            else:
                v = rng.uniform(0, vm) if not D.RS else rng.uniform(0, 8)
            vs.append(v)
        c['v'] = vs
    elif kind in ('mosq', 'ekv'):
        ty = rng.choice('np')
        c['p'] = G.card_mos(rng, kind, ty)
        c['w'] = G.rnd3(G.logu(rng, 1e-6, 1e-4))
        c['l'] = G.rnd3(G.logu(rng, 3e-7, 2e-5))
        c['m'] = rng.choice([1, 1, 2, 5])
        c['n'] = rng.choice([1, 1, 2, 3])
        s = 1 if ty == 'n' else -1
        vs = []
        for _ in range(c['np']):
            # node voltages d, g, s, b
            b = rng.uniform(-.5, .5)
            vs.append([s * (rng.uniform(0, 3.5) + b), s * (rng.uniform(-.5, 3.5) + b),
                       s * (rng.uniform(0, 3) * rng.choice([0, .3, 1]) + b), s * b])
        c['v'] = vs
    else:
        p = {}
        if rng.random() < .5:
            von = G.rnd3(rng.uniform(.2, 3))
            p['VON'], p['VOFF'] = von, G.rnd3(von * rng.uniform(.1, .9))
        else:
            p['VT'] = G.rnd3(rng.uniform(-2, 2))
            if rng.random() < .7:
                p['VH'] = G.rnd3(rng.choice([rng.uniform(.01, .05), rng.uniform(.3, 2)]))
        p['RON'] = G.rnd3(G.logu(rng, .1, 100))
        p['ROFF'] = G.rnd3(G.logu(rng, 1e3, 1e7))
        c['p'] = p
        c['on'] = rng.random() < .5
        S = dev.Switch(p)
        c['v'] = []
        for _ in range(c['np']):
            r = rng.random()
            if r < .4:
                vin = S.VT + rng.uniform(-1, 1) * (abs(S.VH) + .05)
            elif r < .7:
                vin = S.VT + rng.choice([-1, 1]) * (abs(S.VH) * rng.uniform(.9, 1.1) + rng.uniform(-.05, .05))
            else:
                vin = S.VT + rng.uniform(-4, 4)
            c['v'].append([rng.uniform(-5, 5), vin])
    return c


def close(a, b, rtol, atol):
    return abs(a - b) <= rtol * max(abs(a), abs(b)) + atol


def cur(el, pv):
    """current of the device's output port through whichever device interface it offers"""
    pv = tuple(np.float64(x) for x in pv)
    if hasattr(el, 'istamp'):
        idx, st = el.istamp(pv, reduced=False)
        st = np.asarray(st, dtype=float).reshape(-1)
        return float(st[0]), st, idx
    return float(el.i(0, pv)), None, None


def fold(idx, st, n):
    M = np.zeros((n, n))
    st = np.asarray(st, dtype=float).reshape(-1)
    for (r, c), v in zip(zip(*idx), st):
        M[r, c] += v
    return M


def run(case, mon):
    from ahkab import circuit
    mon.sample({k: case[k] for k in case if k != 'v'})
    {'diode': diode, 'mosq': mosq, 'ekv': ekv, 'switch': switch}[case['kind']](case, mon, circuit)


def mk(circuit, fn):
    c = circuit.Circuit('dev')
    c.get_ground_node()
    fn(c)
    return list(c)[-1], c


def diode(case, mon, circuit):
    p, area, T = case['p'], case['area'], case['T']

    def add(c):
        c.add_model('diode', 'dm', dict(p))
        kw = {'Area': area}
        if T is not None:
            kw['T'] = T
        c.add_diode('D1', 'a', 'k', 'dm', **kw)
    el, c0 = mk(circuit, add)
    ref = dev.Diode(p, area, T or 300.)
    got = {}
    RS = ref.RS
    for v in case['v']:
        i, st, idx = cur(el, (v,))
        ri, rg = ref.ig(v)
        # series-resistance drop is solved within the voltage tolerance (1e-6 V), quadratic Newton
        at = 1e-18 + (area * 2e-8 / RS if RS else 0.) + 1e-13 * ref.IS * area
        mon.check(close(i, ri, 2e-6, at), 'diode_i',
                  'diode current %g differs from the Shockley equation %g at v=%g' % (i, ri, v), p=p, T=T, area=area)
        if abs(rg) > 1e-12 * area:
            g = float(el.g(0, (v,), 0))
            mon.check(close(g, rg, 1e-4 if not RS else 1e-3, 4e-12 * max(area, 1)), 'diode_g',
                      'diode conductance %g is not the derivative %g of the current at v=%g' % (g, rg, v),
                      p=p, T=T, area=area)
        if st is not None:
            mon.check(len(st) == 2 and st[0] == -st[1] and list(idx[0]) == [el.n1, el.n2], 'stamp',
                      'diode current stamp %s at %s' % (st, idx))
        mon.check(v * i >= -1e-9 * abs(v) * area * max(ref.IS, 1e-14) - abs(v) * at, 'diode_passive',
                  'diode delivers power: v=%g i=%g' % (v, i), p=p)
        got[v] = i
        mon.seen('diode', tuple(sorted(p)), T is not None,
                 'f' if v > 0 else ('b' if v < -ref.BV + .2 else 'r'))
    vs = sorted(got)
    for a, b in zip(vs[:-1], vs[1:]):
        if b - a > 1e-6:
            mon.check(got[b] >= got[a] - 1e-6 * abs(got[a]) - 1e-15 - (4e-8 * area / RS if RS else 0), 'monotone',
                      'diode current decreases: i(%g)=%g, i(%g)=%g' % (a, got[a], b, got[b]), p=p)
    # a fresh device of the same model, visited in reverse: no memory
    c0.add_diode('D2', 'a', 'k', 'dm', **({'Area': area} if T is None else {'Area': area, 'T': T}))
    c0.add_diode('D3', 'a', 'k', 'dm', **({'Area': 2 * area} if T is None else {'Area': 2 * area, 'T': T}))
    d2, d3 = list(c0)[-2:]
    for v in reversed(case['v']):
        at = 1e-18 + (area * 4e-8 / RS if RS else 0.)
        mon.check(close(cur(d2, (v,))[0], got[v], 4e-6, at), 'history',
                  'diode current at v=%g depends on the evaluation history' % v, p=p)
        mon.check(close(cur(d3, (v,))[0], 2 * got[v], 4e-6, 2 * at), 'area',
                  'diode current is not proportional to AREA at v=%g' % v, p=p)
    # reduced stamps, with grounded/shared nodes
    for n1, n2 in ((1, 2), (0, 2), (1, 0)):
        check_reduced(el, (n1, n2), (case['v'][0],), mon, ('n1', 'n2'))


def check_reduced(el, nodes, pv, mon, attrs):
    """The reduced stamps are the full ones, summed per node, without ground."""
    import copy
    pv = tuple(np.float64(x) for x in pv)
    e = copy.copy(el)
    for a, n in zip(attrs, nodes):
        setattr(e, a, n)
    if not hasattr(e, 'gstamp'):
        return
    n = 6
    fi, fs = el.gstamp(pv, reduced=False)
    fs = np.asarray(fs, dtype=float)
    k = len(attrs)
    order = list(nodes)
    F = np.zeros((n, n))
    for a in range(k):
        for b in range(k):
            F[order[a], order[b]] += fs[a, b]
    ri, rs = e.gstamp(pv, reduced=True)
    R = np.zeros((n, n))
    if len(ri):
        R[1:, 1:] = fold(ri, rs, n)[:n - 1, :n - 1]
    F[0, :] = 0
    F[:, 0] = 0
    mon.check(np.allclose(F, R, rtol=1e-9, atol=1e-9 * np.abs(fs).max() + 5e-12), 'reduced',
              'reduced conductance stamp with nodes %s does not match the full one' % (nodes,),
              full=F, reduced=R)
    fi, fs = el.istamp(pv, reduced=False)
    ii, st = e.istamp(pv, reduced=True)
    v = np.zeros(n)
    st = np.asarray(st, dtype=float).reshape(-1)
    if len(ii):
        for r, x in zip(ii[0], st):
            v[r + 1] += x
    w = np.zeros(n)
    fs = np.asarray(fs, dtype=float).reshape(-1)
    w[e.n1] += fs[0]
    w[e.n2] += fs[1]
    w[0] = 0
    mon.check(np.allclose(v, w, rtol=1e-9, atol=1e-18), 'reduced',
              'reduced current stamp with nodes %s does not match the full one' % (nodes,))


def mosq(case, mon, circuit):
    p, w, l, m, n = (case[k] for k in 'pwlmn')

    def add(c):
        c.add_model('mosq', 'mm', dict(p))
        c.add_mos('M1', 'd', 'g', 's', 'b', w, l, 'mm', m=m, n=n)
    el, c0 = mk(circuit, add)
    ref = dev.Mosq(p, w, l, m, n)
    mn = float(m) / n
    small = 2e-11 * mn * 20      # documented: no subthreshold conduction; code adds ~iea/100
    got = []
    q = dict(p)
    q['TYPE'] = 'p' if p['TYPE'] == 'n' else 'n'
    for k in ('VTO', 'VFB', 'TCV'):
        if k in q:
            q[k] = -q[k]
    if 'TCV' not in q:
        q['TCV'] = 0.  # the documented default is not mirrored
    p0 = dict(p)
    if 'TCV' not in p0:
        p0['TCV'] = 0.
    mir = mk(circuit, lambda c: (c.add_model('mosq', 'mm', dict(q)),
                                 c.add_mos('M1', 'd', 'g', 's', 'b', w, l, 'mm', m=m, n=n)))[0]
    base = mk(circuit, lambda c: (c.add_model('mosq', 'mm', dict(p0)),
                                  c.add_mos('M1', 'd', 'g', 's', 'b', w, l, 'mm', m=m, n=n)))[0]
    one = mk(circuit, lambda c: (c.add_model('mosq', 'mm', dict(p)),
                                 c.add_mos('M1', 'd', 'g', 's', 'b', w, l, 'mm')))[0]
    for d, g, s, b in case['v']:
        pv = (d - s, g - s, b - s)
        i, st, idx = cur(el, pv)
        ri = ref.i(*pv)
        reg, dist = ref.region(*pv)
        mon.check(close(i, ri, 1e-7, small), 'mosq_i',
                  'square-law current %g differs from the documented one %g (%s) at %s' % (i, ri, reg, pv),
                  p=p, w=w, l=l, m=m, n=n)
        mon.check(len(st) == 2 and close(st[1], -st[0], 1e-12, 0) and list(idx[0]) == [el.n1, el.n2], 'stamp',
                  'MOS current stamp %s at %s' % (st, idx))
        mon.check(i * pv[0] >= -small * abs(pv[0]) - 1e-15, 'mosq_passive', 'MOS channel delivers power: vds=%g ids=%g' % (pv[0], i))
        sw = cur(el, (s - d, g - d, b - d))[0]
        mon.check(close(sw, -i, 1e-7, small), 'swap', 'exchange of drain and source: %g vs %g at %s' % (i, sw, pv), p=p)
        mi = cur(mir, tuple(-x for x in pv))[0]
        bi = cur(base, pv)[0]
        mon.check(close(mi, -bi, 1e-7, small), 'mirror', 'N/P mirror: %g vs %g at %s' % (bi, mi, pv), p=p)
        o = cur(one, pv)[0]
        mon.check(close(i, o * mn, 1e-7, 1e-18), 'mult', 'm=%g n=%g: %g, single device %g' % (m, n, i, o))
        got.append(i)
        mon.seen('mosq', p['TYPE'], reg, pv[0] * ref.c.s < 0, tuple(sorted(p)))
        if dist > 2e-4:
            _, G4 = el.gstamp(tuple(np.float64(x) for x in pv), reduced=False)
            G4 = np.asarray(G4, dtype=float)
            h = 2e-5
            num = []
            for k in range(4):
                x = [d, g, s, b]
                x[k] += h
                hi = ref.i(x[0] - x[2], x[1] - x[2], x[3] - x[2])
                x[k] -= 2 * h
                lo = ref.i(x[0] - x[2], x[1] - x[2], x[3] - x[2])
                num.append((hi - lo) / (2 * h))
            gsc = max(np.abs(num))
            at = 1e-4 * gsc + 1e-9 * mn
            ok = all(abs(G4[0, k] - num[k]) <= at for k in range(4)) and \
                all(abs(G4[2, k] + num[k]) <= at for k in range(4)) and np.all(G4[1] == 0) and np.all(G4[3] == 0)
            mon.check(ok, 'mosq_stamp', 'conductance stamp %s, derivative of the current wrt d,g,s,b: %s (%s, pv=%s)'
                      % (G4[0].tolist(), num, reg, pv), p=p, m=m, n=n)
    d2 = mk(circuit, add)[0]
    for (d, g, s, b), i in reversed(list(zip(case['v'], got))):
        mon.check(close(cur(d2, (d - s, g - s, b - s))[0], i, 1e-9, 1e-20), 'history', 'MOS current depends on history')
    d, g, s, b = case['v'][0]
    for nodes in ((1, 2, 3, 4), (1, 1, 0, 0), (1, 2, 0, 0), (0, 2, 3, 3), (1, 2, 3, 3), (1, 1, 3, 0)):
        check_reduced(el, nodes, (d - s, g - s, b - s), mon, ('n1', 'ng', 'n2', 'nb'))


def ekv(case, mon, circuit):
    p, w, l, m, n = (case[k] for k in 'pwlmn')

    def add(c):
        c.add_model('ekv', 'mm', dict(p))
        c.add_mos('M1', 'd', 'g', 's', 'b', w, l, 'mm', m=m, n=n)
    el, c0 = mk(circuit, add)
    ref = dev.Ekv(p, w, l, m, n)
    q = dict(p)
    q['TYPE'] = 'p' if p['TYPE'] == 'n' else 'n'
    for k in ('VTO', 'VFB', 'TCV'):
        if k in q:
            q[k] = -q[k]
    q.setdefault('TCV', 0.)
    p0 = dict(p)
    p0.setdefault('TCV', 0.)
    mir = mk(circuit, lambda c: (c.add_model('ekv', 'mm', dict(q)),
                                 c.add_mos('M1', 'd', 'g', 's', 'b', w, l, 'mm', m=m, n=n)))[0]
    base = mk(circuit, lambda c: (c.add_model('ekv', 'mm', dict(p0)),
                                  c.add_mos('M1', 'd', 'g', 's', 'b', w, l, 'mm', m=m, n=n)))[0]
    one = mk(circuit, lambda c: (c.add_model('ekv', 'mm', dict(p)),
                                 c.add_mos('M1', 'd', 'g', 's', 'b', w, l, 'mm')))[0]
    two = mk(circuit, lambda c: (c.add_model('ekv', 'mm', dict(p)),
                                 c.add_mos('M1', 'd', 'g', 's', 'b', 2 * w, l, 'mm', m=m, n=n)))[0]
    mone = mk(circuit, lambda c: (c.add_model('ekv', 'mm', dict(p)),
                                  c.add_mos('M1', 'd', 'g', 's', 'b', w, l, 'mm', m=1, n=n)))[0]
    got = []
    for d, g, s, b in case['v']:
        pv = (d - b, g - b, s - b)
        i = cur(el, pv)[0]
        ri = ref.i(*pv)
        at = 1e-15 * m
        mon.check(close(i, ri, 1e-5, at), 'ekv_i', 'EKV current %g, model equations %g at %s' % (i, ri, pv), p=p, w=w, l=l, m=m, n=n)
        mon.check(i * (d - s) >= -at * abs(d - s), 'ekv_passive', 'EKV channel delivers power')
        sw = cur(el, (s - b, g - b, d - b))[0]
        mon.check(close(sw, -i, 1e-6, at), 'swap', 'EKV exchange of drain and source: %g vs %g at %s' % (i, sw, pv), p=p)
        mon.check(close(cur(mir, tuple(-x for x in pv))[0], -cur(base, pv)[0], 1e-6, at), 'mirror', 'EKV N/P mirror at %s' % (pv,), p=p)
        mon.check(close(cur(two, pv)[0], 2 * i, 1e-6, at), 'mult', 'EKV current not proportional to W')
        mon.check(close(i, m * cur(mone, pv)[0], 1e-6, at), 'mult', 'EKV current not proportional to M')
        got.append(i)
        # charge-based transconductances: within a band of the derivative of the model equations
        h = 1e-5
        num = []
        for k in range(3):
            x = list(pv)
            x[k] += h
            hi = ref.i(*x)
            x[k] -= 2 * h
            num.append((hi - ref.i(*x)) / (2 * h))
        gs = [float(el.g(0, pv, k)) for k in range(3)]
        rev = (d - s) * ref.c.s < 0
        cs = 0 if rev else 2       # conductance of the terminal acting as the source
        sign = [1., -1. if rev else 1., -1.]
        mon.check(all(a * b >= -1e-11 * m for a, b in zip(gs, sign)), 'ekv_g',
                  'EKV conductance signs wrong: gd, gg, gs = %s at %s' % (gs, pv))
        if abs(num[cs]) > 1e-9 and abs(i) > 1e-10 and abs(d - s) > .05 and ref.l * n >= 2e-6 and ref.c.LAMBDA < .2:
            mon.event('ekvratio:%d' % round(10 * gs[cs] / num[cs]))
            mon.event('ekvgratio:%d' % round(10 * gs[1] / num[1]))
            for k in (cs, 1):
                if abs(gs[k] - num[k]) > .05 * abs(num[k]):
                    mon.finding('KF2', 'EKV conductance %d is %g, derivative of the current %g' % (k, gs[k], num[k]))
                mon.check(.55 * abs(num[k]) < abs(gs[k]) < 2.2 * abs(num[k]) and gs[k] * num[k] > 0, 'ekv_g',
                          'EKV conductance %d: %g, derivative of the model current %g at %s' % (k, gs[k], num[k], pv), p=p, l=l, m=m, n=n)
        mon.seen('ekv', p['TYPE'], rev, tuple(sorted(p)), int(math.log10(abs(i) + 1e-16)))
    d2 = mk(circuit, add)[0]
    for (d, g, s, b), i in reversed(list(zip(case['v'], got))):
        mon.check(close(cur(d2, (d - b, g - b, s - b))[0], i, 1e-6, 1e-15 * m), 'history', 'EKV current depends on the evaluation history: %g' % i, p=p)


def switch(case, mon, circuit):
    p = case['p']

    def add(c):
        c.add_model('sw', 'sm', dict(p))
        c.add_switch('S1', 'o1', 'o2', 's1', 's2', ic=case['on'], model_label='sm')
    el, c0 = mk(circuit, add)
    ref = dev.Switch(p)
    on = case['on']
    c0.add_switch('S2', 'o1', 'o2', 's1', 's2', ic=not on, model_label='sm')
    other = list(c0)[-1]
    deep = 25. / ref.SLOPE     # beyond this the tanh is saturated on both branches
    k = 0
    for vo, vin in case['v']:
        # the other switch (same model) is driven elsewhere in between: no cross-talk
        k += 1
        cur(other, (1., ref.VT + (-1) ** k * 3.))
        i = cur(el, (vo, vin))[0]
        hi, lo = ref.VT + abs(ref.VH), ref.VT - abs(ref.VH)
        Rs = [ref.R(vin, b) for b in ((on,) if on is not None else (True, False))]
        if vin > hi + deep:
            nxt, known = True, True
        elif vin < lo - deep:
            nxt, known = False, True
        else:
            known = (lo + deep < vin < hi - deep) and on is not None
            nxt = on
        if nxt != on or not known:
            Rs = [ref.R(vin, b) for b in (True, False)]
        tol = 1e-9 + 4e-16 * ref.ROFF / ref.RON
        mon.check(any(close(i, vo / R, tol + 1e-7, 1e-18) for R in Rs), 'switch_i',
                  'switch current %g at vo=%g vin=%g; expected R in %s' % (i, vo, vin, Rs), p=p)
        if known:
            R = ref.R(vin, nxt)
            mon.check(close(i, vo / R, tol + 1e-7, 1e-18), 'hyst', 'switch state after vin=%g (was %s): R=%g, expected %g'
                      % (vin, on, vo / i if i else 0, R), p=p)
        g = float(el.g(0, (vo, vin), 0))
        mon.check(vo == 0 or close(g, i / vo, 1e-6, 1e-15), 'switch_g', 'switch conductance %g, I/V %g' % (g, i / vo if vo else 0))
        # transconductance on the branch the switch is on
        gm = float(el.g(0, (vo, vin), 1))
        ok, exp = False, []
        for b in ([nxt] if known else [True, False]):
            R = ref.R(vin, b)
            if close(i, vo / R, tol + 1e-6, 1e-18):
                e = -vo / R ** 2 * ref.dR(vin, b)
                exp.append(e)
                # roundoff: tanh(x)**2 - 1 and the A*tanh(x) + B cancellation near RON
                at = 1e-11 + 1e-8 * abs(i) + abs(vo) * ref.ROFF * ref.SLOPE * 2e-15 / R ** 2
                ok = ok or close(gm, e, 1e-4 + 1e-14 * ref.ROFF / R, at)
        mon.check(ok, 'switch_g', 'switch transconductance %g, derivative of the current %s at vo=%g vin=%g' % (gm, exp, vo, vin), p=p)
        if known:
            on = nxt
        else:
            fit = [b for b in (True, False) if close(i, vo / ref.R(vin, b), tol + 1e-6, 1e-18)]
            on = fit[0] if len(fit) == 1 else None
        mon.seen('switch', 'VON' in p, bool(ref.VH), on, known, vin > ref.VT)
