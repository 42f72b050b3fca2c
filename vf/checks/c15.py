"""C15  printing a circuit as a netlist and parsing it back preserves it."""
import contextlib
import io

import numpy as np

from .. import gen as G
from .. import ref, sim
from . import c02, c07, c12, c27

PROP = 'C15'
RULE = ('random circuits of every element type with full-precision values, initial conditions, AC magnitudes, every waveform that has a netlist form and every device model: the text of the circuit, '
        'completed with its model lines, is parsed back and every element, terminal, value, waveform, device current and simulation result compared with the original; the text of the parsed '
        'circuit must be the same text again; distinct = distinct circuit texts')
CASES = {'quick': 900, 'thorough': 30000}
MIN_OK = {'quick': 60000, 'thorough': 1500000}
NEED = ['el:' + t for t in 'RCLKVIEGFHDMS'] + ['fn:' + k for k in ('sin', 'exp', 'pulse', 'sffm', 'am')] + \
       ['ic', 'ac', 'negative ac', 'waveform and dc', 'reparsed', 'simulated', 'subcircuit', 'diode model line', 'off', 'device multiplicity', 'from netlist']
CASE_LIMIT = 60.0
ASSUMPTIONS = ['netlists have no form for AC phases other than 0 and 180 degrees nor for piecewise linear sources, nor for switches that start closed, so circuits with those are left out',
               'netlists do not distinguish case: names are compared ignoring it']


def gen(rng, i, tier):
    if i % 6 == 5:
        c = c27.gen(rng, i, tier)
        return {'seed': rng.randrange(1 << 40), 'deck': c27.text(c), 'm': c['m'], 'd': []}
    c = {'seed': rng.randrange(1 << 40), 'm': []}
    d = G.linear_circuit(rng, reactive=rng.random() < .8, sources='dc', couplings=True, neg=.1, nmax=6, clo=1e-13, chi=1e-3, llo=1e-9, lhi=1e-1)

    def full(x):
        # as many digits as there are
        return x * (1 + rng.uniform(-.01, .01)) if rng.random() < .7 else x
    T = G.logu(rng, 1e-6, 1e-3)
    for e in d:
        if e[0] in 'RCL':
            e[4] = full(e[4])
        if e[0] in 'CL' and rng.random() < .5:
            e[5] = rng.choice([0., full(rng.uniform(-5, 5)), 1])
        if e[0] in 'EGFHK':
            e[-1] = full(e[-1])
        if e[0] in 'VI':
            e[4] = full(e[4])
            r = rng.random()
            if r < .5:
                e[5] = full(rng.uniform(0, 2)) * rng.choice([1, 1, -1])
            if rng.random() < .45:
                f = c07.src_fn(rng, T, e[0])
                while f[0] == 'pwl':
                    f = c07.src_fn(rng, T, e[0])
                f[1] = dict((k, full(v)) for k, v in f[1].items())
                if f[0] == 'pulse':
                    # the parts of a pulse must fit its period
                    f[1]['per'] = max(f[1]['per'], 1.05 * (f[1]['tr'] + f[1]['tf'] + f[1]['pw']))
                e[6] = f
                if rng.random() < .4:
                    e[4] = None
    if i % 2:
        nodes = sorted(set(n for e in d if e[0] != 'K' for n in ref.elem_nodes(e)) - {'0'})
        es, c['m'] = G.nl_devices(rng, nodes, rng.choice(['d', 'm', 'e', 's', 'dmes']), rng.randint(1, 4), cards='full')
        for e in es:
            if e[0] == 'D' and rng.random() < .3:
                e[5]['off'] = True
            if e[0] == 'D' and rng.random() < .3:
                e[5]['ic'] = full(.5)
            if e[0] == 'S':
                e[7] = None
            if e[0] == 'M' and rng.random() < .4:
                e[9] = dict(e[9], m=rng.choice([1, 2, 3]), n=rng.choice([1, 2]))
                c['mult'] = 1
        d += es
    c['d'] = d
    c['net'] = i % 4 >= 2
    return c


def run(c, mon):
    import random
    from ahkab import netlist_parser as NP
    rng = random.Random(c['seed'])
    o = sim.outname('txt')
    try:
        run_(c, mon, o, rng, NP)
    finally:
        sim.cleanup(o)


def parse(NP, o, text, mlines):
    with open(o + '.ckt', 'w') as f:
        f.write(text + '\n' + '\n'.join(mlines) + '\n.end\n')
    return NP.parse_circuit(o + '.ckt')[0]


def plain(d):
    return [e for e in d if not (e[0] in 'VI' and e[4] is None)]


def run_(c, mon, o, rng, NP):
    d = c['d']
    if 'deck' in c:
        with open(o + '.ckt', 'w') as f:
            f.write(c['deck'])
        circ = NP.parse_circuit(o + '.ckt')[0]
        mon.event('subcircuit')
    else:
        circ = G.to_api(d, models=c['m'])
    ml = c12.model_lines(rng, c['m'], [])
    if c['m'] and rng.random() < .5:
        ml = own_lines(mon, circ, ml, c['m'])
    if c.get('net') and all(not isinstance(n, str) or n == n.lower() for n in circ.nodes_dict):
        # the original comes from a netlist itself
        circ = parse(NP, o, str(circ), ml)
        mon.event('from netlist')
    text = str(circ)
    mon.seen(text)
    mon.sample({'text': text})
    mon.check(text.split('\n')[0].strip('* ') == circ.title.strip('* '), 'title', lambda: 'the first line is %r, the title %r' % (text.split('\n')[0], circ.title))
    try:
        back = parse(NP, o, text, ml)
    except NP.NetlistParseError as e:
        mon.fail('parse', 'the text of the circuit is refused (%s): %s' % (e, text))
        return
    mon.event('reparsed')
    for e in d:
        mon.event('el:' + e[0])
        if e[0] in 'VI':
            if e[6]:
                mon.event('fn:' + e[6][0])
                if e[4] is not None:
                    mon.event('waveform and dc')
            if e[5]:
                mon.event('negative ac' if e[5] < 0 else 'ac')
        if e[0] in 'CL' and e[5] is not None:
            mon.event('ic')
        if e[0] == 'D' and e[5].get('off'):
            mon.event('off')
    if c.get('mult'):
        mon.event('device multiplicity')
    if [type(x) for x in back] != [type(x) for x in circ]:
        mon.fail('elements', 'the elements are %r, should be %r' % ([x.part_id for x in back], [x.part_id for x in circ]))
        return
    c12.compare_circuits(mon, back, circ, 'element')
    for x, y in zip(back, circ):
        exact(mon, x, y)
    again = str(back)
    mon.check(tokens(again) == tokens(text), 'stable', lambda: 'printed again it is %r, before %r' % (again, text))
    # the simulations agree
    A = sim.api()
    if rng.random() < .5:
        T = 1e-5
        for x in (back, circ):
            x.title = 'same'
        res = []
        for k, x in enumerate((back, circ)):
            q = o + '.r%d' % k
            with c02.options({'dc_max_nr_iter': 300}):
                try:
                    r = A.run(x, [A.new_op(outfile=q + 'o', verbose=0), A.new_ac(start=1e3, stop=1e6, points=3, sweep_type='LOG', outfile=q + 'a', verbose=0),
                                  A.new_tran(0., T, T / 10, x0=None, use_step_control=False, outfile=q + 't', verbose=0)])
                except Exception as e:
                    r = {'failed': type(e).__name__}
            res.append(r)
        if 'failed' in res[0] or 'failed' in res[1]:
            mon.check(res[0] == res[1] or ('failed' in res[0] and 'failed' in res[1]), 'simulation', lambda: 'one simulation fails: %r' % (res,))
        else:
            mon.event('simulated')
            c12.compare_results(mon, res[0], res[1], 'simulation', 1e-7)


def tokens(text):
    out = []
    for l in text.lower().split('\n')[1:]:
        for t in l.replace('=', ' = ').split():
            if t in ('i1', 'i2', 'io', 'ia'):
                t = 'v' + t[1:]
            try:
                t = float(t)
            except ValueError:
                pass
            out.append(t)
        out.append('\n')
    return out


def exact(mon, x, y):
    """numbers come back digit by digit"""
    for at in ('value', 'ic', 'dc_value', 'abs_ac', 'alpha', 'K'):
        u, v = getattr(x, at, None), getattr(y, at, None)
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            mon.check(u is not None and abs(u - v) <= 4e-16 * abs(v), 'digits', lambda: '%s of %s is %r, was %r' % (at, y.part_id, u, v))
    f, g = getattr(x, '_time_function', None), getattr(y, '_time_function', None)
    mon.check((f is None) == (g is None) and type(f) is type(g), 'waveform', lambda: 'waveform of %s is %r, was %r' % (y.part_id, f, g))
    if g is not None and type(f) is type(g):
        for t in [0.] + [10. ** k * m for k in range(-8, -2) for m in (1., 2.3, 4.7)]:
            u, v = f(t), g(t)
            if not mon.check(abs(u - v) <= 1e-9 * abs(v) + 1e-12, 'waveform', lambda: '%s at %r is %r, was %r' % (y.part_id, t, u, v)):
                break


def own_lines(mon, circ, ml, models):
    """model lines as the models print them, where that is a netlist line"""
    out = []
    for (ty, lab, p), l in zip(models, ml):
        b = io.StringIO()
        with contextlib.redirect_stdout(b):
            circ.models[lab].print_model()
        t = b.getvalue().strip()
        if t.lower().startswith('.model '):
            mon.event('diode model line')
            out.append(t)
        else:
            out.append(l)
    return out

