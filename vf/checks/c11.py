"""C11  source waveforms."""
import math

import numpy as np

from .. import gen as G
from .. import ref, sim

PROP = 'C11'
RULE = ('random parameter sets of every waveform (delays before, inside and beyond the period, zero rise/fall times, omitted optional '
        'parameters), evaluated at random times, breakpoints and many periods away, in random order, on the function object, on the source element '
        'built through the API and from netlist lines in positional, labelled and mixed syntax, and in transient runs; compared with the '
        'documented formula; distinct = distinct (waveform, syntax, regime) signature')
CASES = {'quick': 1500, 'thorough': 30000}
MIN_OK = {'quick': 20000, 'thorough': 300000}
NEED = ['object', 'element', 'netlist', 'transient', 'sin', 'exp', 'pulse', 'sffm', 'am', 'pwl']
CASE_LIMIT = 60.0
ASSUMPTIONS = ['at a jump either one-sided value is accepted within time roundoff',
               'the AM waveform before its delay is 0 and the sine before its delay is VO+VA*sin(PHASE) (class documentation; the netlist page differs and leaves O undefined)',
               'PWL is only evaluated where the points or the repetition define it']

DEF = {'sin': {'td': 0., 'theta': 0., 'phi': 0.}, 'exp': {'td1': 0., 'td2': float('inf'), 'tau2': float('inf')},
       'pulse': {'td': 0.}, 'sffm': {'td': 0.}, 'am': {'td': 0.}}
ORDER = {'sin': ['vo', 'va', 'freq', 'td', 'theta', 'phi'], 'exp': ['v1', 'v2', 'td1', 'tau1', 'td2', 'tau2'],
         'pulse': ['v1', 'v2', 'td', 'tr', 'tf', 'pw', 'per'], 'sffm': ['vo', 'va', 'fc', 'mdi', 'fs', 'td'],
         'am': ['sa', 'oc', 'fm', 'fc', 'td']}


def make(rng, k):
    r3 = G.rnd3
    T = r3(G.logu(rng, 1e-9, 1e-2))
    v = lambda: r3(rng.uniform(-10, 10)) if rng.random() < .9 else 0.
    td = lambda: 0. if rng.random() < .25 else r3(T * G.logu(rng, .01, 20))
    if k == 'sin':
        p = {'vo': v(), 'va': v(), 'freq': r3(1 / T), 'td': td(), 'theta': 0. if rng.random() < .4 else r3(rng.uniform(0, 2) / T),
             'phi': 0. if rng.random() < .4 else r3(rng.uniform(-180, 180))}
    elif k == 'exp':
        t1 = td()
        p = {'v1': v(), 'v2': v(), 'td1': t1, 'tau1': r3(T * rng.uniform(.1, 3)), 'td2': r3(t1 + T * rng.uniform(.1, 5)),
             'tau2': r3(T * rng.uniform(.1, 3))}
    elif k == 'pulse':
        w = [rng.random() + .02 for _ in range(4)]
        s = sum(w)
        tr, pw, tf = [r3(T * x / s) for x in w[:3]]
        if rng.random() < .1:
            tr = 0.
        if rng.random() < .1:
            tf = 0.
        p = {'v1': v(), 'v2': v(), 'td': td(), 'tr': tr, 'tf': tf, 'pw': pw, 'per': T}
    elif k == 'sffm':
        p = {'vo': v(), 'va': v(), 'fc': r3(20 / T), 'mdi': r3(rng.uniform(0, 10)), 'fs': r3(1 / T), 'td': td()}
    elif k == 'am':
        p = {'sa': v(), 'oc': r3(rng.uniform(-3, 3)), 'fm': r3(1 / T), 'fc': r3(rng.uniform(3, 30) / T), 'td': td()}
    else:
        n = rng.randint(2, 8)
        x = sorted(set([0.] + [r3(T * rng.random() * 2) for _ in range(n)]))
        if len(x) < 3:
            x = [0., r3(T * .3), r3(T)]
        p = {'x': x, 'y': [v() for _ in x], 'td': td()}
        if rng.random() < .6:
            p['repeat'] = True
            p['repeat_time'] = rng.choice(x + [r3(x[-1] * rng.random())])
    return k, p, T


def times(rng, k, p, T):
    td = p.get('td', p.get('td1', 0.))
    out = [0., td]
    for _ in range(10):
        out.append(rng.uniform(0, td + 3 * T))
    for _ in range(4):
        out.append(td + T * rng.uniform(0, 60))
    if k == 'pulse':
        for _ in range(6):
            e = td + rng.randint(0, 6) * p['per'] + rng.choice([0, p['tr'], p['tr'] + p['pw'], p['tr'] + p['pw'] + p['tf']])
            out += [e, e + T * 1e-4, max(0, e - T * 1e-4)]
    elif k == 'exp':
        out += [p['td2'], p['td2'] + T * .01, max(0., p['td2'] - T * .01), p['td2'] + 5 * T]
    elif k == 'pwl':
        out += [td + x for x in p['x']]
        if not p.get('repeat'):
            out = [t for t in out if t <= td + p['x'][-1]]
    out += [td * .5, max(0., td - T * 1e-3), td + T * 1e-3 if k != 'pwl' else td]
    rng.shuffle(out)
    return out


def gen(rng, i, tier):
    k = ['sin', 'exp', 'pulse', 'sffm', 'am', 'pwl', 'pulse'][i % 7]
    k, p, T = make(rng, k)
    c = {'k': k, 'p': p, 'T': T, 't': times(rng, k, p, T), 'el': rng.choice('VI')}
    full = dict(p)
    if k != 'pwl' and rng.random() < .5:
        # leave optional parameters at their defaults
        opts = sorted(DEF[k])
        for o in opts:
            if rng.random() < .5 or (o == 'tau2' and 'td2' not in full):
                full.pop(o, None)
        if k == 'exp' and ('td2' in full) != ('tau2' in full):
            full.pop('td2', None)
            full.pop('tau2', None)
    c['given'] = full
    if k != 'pwl':
        c['net'] = netline(rng, k, full, c['el'])
    if i % 10 == 3 or (k == 'pwl' and i % 3 == 0):
        c['tran'] = rng.randint(5, 40)
    return c


def netline(rng, k, given, el):
    """a documented netlist line"""
    u = el.lower()
    order = ORDER[k]
    npos = 0
    if rng.random() < .6:
        npos = 0
        while npos < len(order) and order[npos] in given:
            npos += 1
        if rng.random() < .3:
            npos = rng.randint(0, npos)
    lab = [o for o in order[npos:] if o in given]
    rng.shuffle(lab)

    def name(o):
        if o == 'phi':
            return 'phase'
        if u == 'i' and o in ('vo', 'va', 'v1', 'v2'):
            return 'i' + o[1:]
        return o
    f = 'type=%s ' % (k if rng.random() < .6 else k.upper())
    f += ' '.join([repr(given[o]) for o in order[:npos]] + ['%s=%r' % (name(o), given[o]) for o in lab])
    opts = [f]
    if rng.random() < .6:
        opts.append('type=%sdc %sdc=%r' % (u, u, .25))
    if rng.random() < .4:
        opts.append('%sac=1' % u)
    rng.shuffle(opts)
    return ' '.join(opts) + (' *a comment' if rng.random() < .1 else '')


def judge(mon, kind, c, f, p):
    k = c['k']
    full = dict(DEF.get(k, {}))
    full.update(p)
    amp = 1e-12 + sum(abs(x) for x in ([full[q] for q in ('vo', 'va', 'v1', 'v2') if q in full] or
                                       (full.get('y') or [full.get('sa', 0.) * (1 + abs(full.get('oc', 0.)))])))
    for t in c['t']:
        got = np.asarray(f(t))
        if not mon.check(got.size == 1 and np.isrealobj(got), kind, lambda: '%s(%r) is not a number: %r' % (k, t, got)):
            return
        got = float(got.reshape(-1)[0])
        eps = 1e-13 * (abs(t) + c['T'] + full.get('td', full.get('td1', 0.)))
        ws = [ref.eval_fn([k, full], x) for x in (max(0., t - eps), t, t + eps)]
        lo, hi = min(ws), max(ws)
        tol = 1e-9 * amp
        mon.check(lo - tol <= got <= hi + tol, kind,
                  lambda: '%s %r at t=%r: value %r, formula %r (%s)' % (k, full, t, got, ws[1], c.get('net') if kind == 'netlist' else 'API'))
    regime = ('late' if full.get('td', 0) > full.get('per', 1e9) else '', len(p), full.get('tr') == 0, full.get('tf') == 0)
    mon.seen((k, kind, regime, c['el']))


def run(c, mon):
    o = sim.outname('tr')
    try:
        run_(c, mon, o)
    finally:
        sim.cleanup(o)


def run_(c, mon, o):
    from ahkab import circuit
    A = sim.api()
    k, p = c['k'], c['p']
    mon.event(k)
    fn = G.make_fn([k, p])
    judge(mon, 'object', c, fn, p)
    circ = circuit.Circuit('w')
    if c['el'] == 'V':
        circ.add_vsource('V1', 'a', circ.gnd, .25, function=fn)
    else:
        circ.add_isource('I1', circ.gnd, 'a', .25, function=fn)
    circ.add_resistor('R1', 'a', circ.gnd, 1.)
    el = [e for e in circ if e.part_id.lower() in ('v1', 'i1')][0]
    judge(mon, 'element', c, el.V if c['el'] == 'V' else el.I, p)
    if c.get('net'):
        from ahkab import netlist_parser as NP
        c2 = circuit.Circuit('w')
        line = '%s1 a 0 %s' % (c['el'], c['net'])
        es = (NP.parse_elem_vsource if c['el'] == 'V' else NP.parse_elem_isource)(line.lower(), c2)
        judge(mon, 'netlist', c, es[0].V if c['el'] == 'V' else es[0].I, c['given'])
    if c.get('tran'):
        td = p.get('td', p.get('td1', 0.))
        stop = td + 2.5 * c['T']
        if k == 'pwl' and not p.get('repeat'):
            stop = td + p['x'][-1] * .999
        r = A.run(circ, [A.new_tran(0., stop, stop / c['tran'], x0=None, use_step_control=False, method='TRAP', outfile=o, verbose=0)])
        r = r.get('tran')
        if not mon.check(r is not None, 'transient', 'no transient result for a source across a resistor'):
            return
        ts = np.asarray(r.get_x()).reshape(-1)
        va = np.asarray(r['Va']).reshape(-1)
        if k == 'pwl' and not p.get('repeat'):
            keep = ts <= td + p['x'][-1]
            ts, va = ts[keep], va[keep]
        it = dict(zip(ts.tolist(), va.tolist()))
        c = dict(c)
        # result files keep a limited number of digits of the time; a jump may be seen on either side
        c['t'] = ts.tolist()
        full = dict(p)
        amp = 1e-9 + max(abs(x) for x in va)
        for t in c['t']:
            eps = 1e-11 * stop
            ws = [ref.eval_fn([k, full], x) for x in (max(0., t - eps), t, t + eps)]
            lo, hi = min(ws), max(ws)
            mon.check(lo - 1e-7 * amp <= it[t] <= hi + 1e-7 * amp, 'transient',
                      lambda: '%s %r in a transient at t=%r: %r, formula %r' % (k, full, t, it[t], ws[1]))
