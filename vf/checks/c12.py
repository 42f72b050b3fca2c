"""C12  a netlist describes the same circuit as the equivalent API calls."""
import random

import numpy as np

from .. import gen as G
from .. import nl, ref, sim
from . import c02, c07

PROP = 'C12'
RULE = ('random circuits of every documented element type, with all waveforms, model cards and element options, written as a netlist in a random legal form (positional or '
        'labelled time functions, any option order, optional fields present or not) together with random analysis lines, run through the netlist entry point and compared '
        'with the same circuit built and simulated through the API: element by element (kind, nodes, text form, device currents at random drives) and result by result; '
        'distinct = distinct (element kinds with options, analysis forms) signature')
CASES = {'quick': 600, 'thorough': 10000}
MIN_OK = {'quick': 9000, 'thorough': 150000}
NEED = ['el:' + t for t in 'RCLKVIEGFHDMS'] + ['fn:' + f for f in ('sin', 'exp', 'pulse', 'sffm', 'am')] + \
       ['fn:positional', 'fn:labelled', 'opt:ic', 'opt:area', 'opt:t', 'opt:off', 'opt:m', 'opt:n', 'k=', 'an:op', 'an:op guess', 'an:ac', 'an:ac positional', 'an:dc', 'an:dc log',
        'an:tran', 'an:tran uic', 'an:pz', 'an:pz positional', 'an:symbolic', 'model:diode', 'model:ekv', 'model:mosq', 'model:sw', 'results']
CASE_LIMIT = 60.0
ASSUMPTIONS = ['the API is the reference: what its analyses compute is judged by the other properties',
               'the sweep type of .ac and the ac flag of .symbolic are always written out (their documented defaults are ambiguous)']


# ------------------------------------------------------------------ generation
def lower(d):
    out = []
    for e in d:
        e = list(e)
        e[1] = e[1].lower()
        t = e[0]
        for k in range(2, 6 if t in 'EGSM' else 4):
            e[k] = e[k].lower()
        if t in 'FH':
            e[4] = e[4].lower()
        out.append(e)
    return out


def rfn(rng, T, t):
    f = c07.src_fn(rng, T, t)
    while f[0] == 'pwl':
        f = c07.src_fn(rng, T, t)
    f = [f[0], dict(f[1])]
    if f[0] == 'sin' and rng.random() < .5:
        f[1]['phi'] = G.rnd3(rng.uniform(-180, 180))
    return f


ORDER = {'sin': ['vo', 'va', 'freq', 'td', 'theta', 'phi'], 'exp': ['v1', 'v2', 'td1', 'tau1', 'td2', 'tau2'],
         'pulse': ['v1', 'v2', 'td', 'tr', 'tf', 'pw', 'per'], 'sffm': ['vo', 'va', 'fc', 'mdi', 'fs', 'td'], 'am': ['sa', 'oc', 'fm', 'fc', 'td']}
DEFAULTED = {'sin': {'td': 0., 'theta': 0., 'phi': 0.}, 'exp': {'td1': 0.}, 'pulse': {'td': 0.}, 'sffm': {'td': 0.}, 'am': {'td': 0.}}


def fn_text(rng, fn, t, tags):
    k, p = fn
    names = ORDER[k]
    vals = [p.get(n, 0.) for n in names]
    lab = [('phase' if n == 'phi' else n) for n in names]
    if t == 'I':
        lab = [('i' + n[1:] if n in ('vo', 'va', 'v1', 'v2') and rng.random() < .8 else n) for n in lab]
    tags.append('fn:' + k)
    if rng.random() < .4:
        tags.append('fn:positional')
        n = len(names)
        # trailing fields with a documented default may be left out
        while n and vals[n - 1] == DEFAULTED[k].get(names[n - 1], None) and rng.random() < .5:
            n -= 1
        return 'type=%s ' % k + ' '.join(repr(v) for v in vals[:n])
    tags.append('fn:labelled')
    f = ['%s=%r' % (l, v) for l, v, n in zip(lab, vals, names) if not (v == DEFAULTED[k].get(n, None) and rng.random() < .6)]
    if rng.random() < .6:
        rng.shuffle(f)
    return 'type=%s ' % k + ' '.join(f)


def line(rng, e, tags):
    t = e[0]
    tags.append('el:' + t)
    s = None
    if t == 'K':
        s = '%s %s %s ' % tuple(e[1:4])
        if rng.random() < .5:
            tags.append('k=')
            s += 'k='
        s += repr(e[4])
    elif t in 'VI':
        u = t.lower()
        parts = []
        if e[4] is not None:
            parts.append(('type=%sdc ' % u if rng.random() < .6 else '') + '%sdc=%r' % (u, e[4]))
        if e[5]:
            parts.append(('type=%sac ' % u if rng.random() < .6 else '') + '%sac=%r' % (u, e[5]))
        if e[6] is not None:
            parts.append(fn_text(rng, e[6], t, tags))
        rng.shuffle(parts)
        s = ' '.join([e[1], e[2], e[3]] + parts)
    elif t == 'D':
        parts = []
        for k, v in (e[5] or {}).items():
            tags.append('opt:' + k.lower())
            if k == 'off':
                parts.append(rng.choice(['off=%d', 'off=%s', 'off=%s']) % v if rng.random() < .6 or not v else 'off')
            else:
                parts.append('%s=%r' % (k.lower(), v))
        rng.shuffle(parts)
        s = ' '.join([e[1], e[2], e[3], e[4]] + parts)
    elif t == 'M':
        parts = ['w=%r' % e[7], 'l=%r' % e[8]]
        for k, v in (e[9] or {}).items():
            tags.append('opt:' + k)
            parts.append('%s=%r' % (k, v))
        rng.shuffle(parts)
        s = ' '.join(e[1:7] + parts)
    else:
        if t in 'CL' and e[5] is not None:
            tags.append('opt:ic')
        s = G.elem_text(e)
    if rng.random() < .1:
        s += ' * %s 12 ic=5' % rng.choice(['comment', 'x=1', ''])
    return s.lower()


def model_lines(rng, models, tags):
    out = []
    for ty, lab, p in models:
        tags.append('model:' + ty)
        parts = ['%s=%s' % (k, v if isinstance(v, str) else repr(float(v))) for k, v in p.items()]
        rng.shuffle(parts)
        if rng.random() < .1 and parts:
            parts[0] = '(' + parts[0]
            parts[-1] += ')'
        out.append('.model %s %s %s' % (ty if ty != 'diode' or rng.random() < .7 else 'd', lab, ' '.join(parts)))
    return [l.lower() for l in out]


def gen(rng, i, tier):
    r3 = G.rnd3
    fam = i % 5
    models = []
    tags = []
    T = None
    if fam in (0, 1, 2):
        small = fam == 2
        for _ in range(50):
            d = G.linear_circuit(rng, nn=rng.randint(1, 3) if small else None, reactive=True, sources='ac', couplings=True, neg=0, nmax=6,
                                 clo=1e-9, chi=1e-7, llo=1e-6, lhi=1e-4, rlo=100, rhi=1e4, alpha=2.)
            if len(d) < (9 if small else 99):
                break
        T = 1e-4
    else:
        d, models = c02.easy(rng, rng.choice(c02.EASY))
        d, models = [list(e) for e in d], [tuple(m) for m in models]
        T = 1e-5
        nodes = sorted(set(n for e in d for n in ref.elem_nodes(e) if n != '0'))
        for k in range(rng.randint(0, 3)):
            d.append(['C', 'Cx%d' % k, rng.choice(nodes), '0', r3(G.logu(rng, 1e-11, 1e-9)), None])
        for k in range(rng.randint(0, 2)):
            ty = rng.choice('dems')
            a, b = rng.choice(nodes), 'zz%d' % k
            lab = 'mod%d' % k
            if ty == 'd':
                models.append(('diode', lab, dict(G.card_diode(rng), **({'TEMP': r3(rng.uniform(10, 60))} if rng.random() < .2 else {}))))
                d += [['D', 'Dy%d' % k, a, b, lab, {}], ['R', 'Ry%d' % k, b, '0', r3(G.logu(rng, 1e4, 1e5))]]
            elif ty == 's':
                vt = r3(rng.uniform(.1, 3))
                p = {'VT': vt, 'VH': r3(rng.uniform(.1, .5))} if rng.random() < .5 else {'VON': r3(vt + rng.uniform(.1, 1)), 'VOFF': vt}
                p.update({'RON': r3(G.logu(rng, 1, 100)), 'ROFF': r3(G.logu(rng, 1e5, 1e8))})
                models.append(('sw', lab, p))
                d += [['S', 'Sy%d' % k, a, b, rng.choice(nodes), '0', lab, None], ['R', 'Ry%d' % k, b, '0', r3(G.logu(rng, 1e4, 1e5))]]
            else:
                kind = 'mosq' if ty == 'm' else 'ekv'
                models.append((kind, lab, G.card_mos(rng, kind, rng.choice('np'))))
                d += [['M', 'My%d' % k, b, rng.choice(nodes), '0', '0', lab, r3(G.logu(rng, 2e-6, 2e-5)), r3(G.logu(rng, 1e-6, 5e-6)), {}],
                      ['R', 'Ry%d' % k, b, a, r3(G.logu(rng, 1e4, 1e5))]]
        for e in d:
            if e[0] == 'S':
                e[7] = None
            if e[0] == 'D':
                o = dict(e[5] or {})
                if rng.random() < .3:
                    o['Area'] = r3(G.logu(rng, .3, 10))
                if rng.random() < .25:
                    o['T'] = r3(rng.uniform(270, 400))
                if rng.random() < .15:
                    o['ic'] = r3(rng.uniform(-1, .8))
                if rng.random() < .15:
                    o['off'] = rng.random() < .8
                e[5] = o
            if e[0] == 'M' and rng.random() < .4:
                e[9] = {'m': rng.choice([1, 2, 3]), 'n': rng.choice([1, 2])}
        if rng.random() < .7:
            d = [e for e in d if e[0] not in 'FHK'] + [e for e in d if e[0] in 'FHK']
    for e in d:
        if e[0] in 'VI':
            if isinstance(e[5], (list, tuple)):
                e[5] = abs(complex(*e[5]))
            if fam > 2 and e[0] == 'V' and rng.random() < .4:
                e[5] = 1.
            if rng.random() < .4:
                e[6] = rfn(rng, T, e[0])
                r = rng.random()
                if r < .4:
                    e[4] = None
        if e[0] in 'CL' and rng.random() < .25:
            e[5] = 0. if rng.random() < .15 else r3(rng.uniform(-3, 3) * (1 if e[0] == 'C' else 1e-3))
    d = lower(d)
    models = [(a, b.lower(), p) for a, b, p in models]
    for e in d:
        if e[0] in 'DMS':
            k = {'D': 4, 'M': 6, 'S': 6}[e[0]]
            e[k] = e[k].lower()
    els = [line(rng, e, tags) for e in d]
    mods = model_lines(rng, models, tags)
    ans, ics = analyses(rng, d, models, T, fam, tags)
    rest = mods + ics
    body = []
    if rng.random() < .5:
        body = els + rest
    else:                # directives may come anywhere; element and analysis order is significant
        n = [rng.randint(0, len(els)) for _ in rest]
        for k, l in enumerate(els + [None]):
            body += [r for r, p in zip(rest, n) if p == k]
            if l:
                body.append(l)
    body += [a[0] for a in ans]
    if rng.random() < .3:
        body += ['.end', 'garbage after the end', 'r9zz 1 2 3 4']
    rows = ['title of %s deck' % i] + body
    return {'d': d, 'm': [list(m) for m in models], 'rows': rows, 'an': [a[1] for a in ans], 'tags': sorted(set(tags))}


def analyses(rng, d, models, T, fam, tags):
    r3 = G.rnd3
    out, ics = [], []
    S = nl.NL(d, models, gmin=1e-12).S
    nodes = sorted(S.nodes if not isinstance(S.nodes, dict) else S.nodes)
    nodes = [n for n in nodes if n != '0']

    def opts(pairs):
        pairs = ['%s=%s' % (k, v if isinstance(v, str) else repr(v)) for k, v in pairs]
        rng.shuffle(pairs)
        return ' '.join(pairs)

    def iclab(scale=1.):
        lab = rng.choice(['start', 'ic1', 'osc_a']) + str(len(ics))
        u = {}
        for k in S.names:
            if rng.random() < .6:
                u['%s(%s)' % (k[0], k[1])] = r3(rng.uniform(0, 3) * scale * (1 if k[0] == 'v' else 1e-3))
        ics.append('.ic name=%s %s' % (lab, ' '.join('%s=%r' % kv for kv in u.items())))
        return lab, u
    r = rng.random()
    if r < .75:
        tags.append('an:op')
        out.append(('.op', {'type': 'op'}))
    else:
        tags.append('an:op guess')
        lab, u = iclab()
        out.append(('.op guess=%s' % lab, {'type': 'op', 'x0': u}))
    later = []
    if rng.random() < .6:
        f0, n = r3(G.logu(rng, 10, 1e5)), rng.randint(2, 12)
        f1 = r3(f0 * G.logu(rng, 2, 1e3))
        ty = rng.choice(['lin', 'log'])
        if rng.random() < .5:
            tags.append('an:ac positional')
            l = '.ac %s %d %r %r' % (ty, n, f0, f1)
        else:
            tags.append('an:ac')
            l = '.ac ' + opts([(rng.choice(['type', 'sweep_type']), ty), ('nsteps', str(n)), ('start', f0), ('stop', f1)])
        later.append((l, {'type': 'ac', 'start': f0, 'stop': f1, 'points': n, 'sweep_type': ty.upper()}))
    srcs = [e for e in d if e[0] in 'VI']
    if rng.random() < .5 and srcs:
        e = rng.choice(srcs)
        sc = 1. if e[0] == 'V' else 1e-3
        n = rng.randint(1, 9)
        lk = rng.choice(['src', 'source'])
        if rng.random() < .6:
            tags.append('an:dc')
            st, h = r3(rng.uniform(-2, 2) * sc), r3(rng.uniform(.05, .5) * sc)
            if rng.random() < .3:
                h = -h
            sp = float('%.12g' % (st + n * h))
            ty = [('type', 'lin')]
            a = {'sweep_type': 'LINEAR'}
        else:
            tags.append('an:dc log')
            st, h = r3(rng.uniform(.1, 1) * sc), r3(rng.uniform(1.1, 2))
            sp = float('%.12g' % (st * h ** n))
            ty = [('type', 'log')]
            a = {'sweep_type': 'LOG'}
        a.update({'type': 'dc', 'start': st, 'stop': sp, 'points': n + 1, 'source': e[1]})
        later.append(('.dc ' + opts([(lk, e[1]), ('start', st), ('stop', sp), ('step', h)] + ty), a))
    if rng.random() < .6:
        h = r3(T / rng.uniform(20, 100))
        t1 = h * rng.randint(3, 25)
        t0 = 0. if rng.random() < .7 else r3(t1 * rng.uniform(.1, .5))
        p = [('tstep', h), ('tstop', float('%.12g' % t1))]
        a = {'type': 'tran', 'tstart': t0, 'tstop': float('%.12g' % t1), 'tstep': h, 'fixed': rng.random() < .5 or fam > 2, 'x0': None}
        if t0 or rng.random() < .1:
            p.append(('tstart', t0))
        uic = rng.choice([None, 0, 1, 1, 2, 3])
        if fam > 2 and uic in (0, None):
            uic = 1
        if uic is not None:
            tags.append('an:tran uic')
            p.append(('uic', str(uic)))
            a['x0'] = {0: None, 1: 'op', 2: 'op+ic'}.get(uic)
            if uic == 3:
                lab, a['x0'] = iclab()
                p.append(('ic_label', lab))
        tags.append('an:tran')
        if rng.random() < .6:
            a['method'] = rng.choice(c07.METHODS)
            p.append(('method', a['method'].lower()))
        later.append(('.tran ' + opts(p), a))
    if rng.random() < .4 and fam < 3:
        a = {'type': 'pz', 'input_source': None, 'output_port': None, 'shift': 0.}
        p = []
        if rng.random() < .7:
            n1 = rng.choice(nodes)
            n2 = rng.choice(nodes + ['0'])
            o = 'v(%s)' % n1 if n2 in ('0', n1) and rng.random() < .6 else 'v(%s,%s)' % (n1, n2 if n2 != n1 else '0')
            a['output_port'] = [n1, n2 if n2 != n1 else '0']
            a['input_source'] = rng.choice(srcs)[1]
            p = [('output', o), (rng.choice(['source', 'input']), a['input_source'])]
        if rng.random() < .4:
            a['shift'] = r3(rng.uniform(1e2, 1e4))
        if p and rng.random() < .4:
            tags.append('an:pz positional')
            l = '.pz %s %s' % (p[0][1], p[1][1]) + (rng.choice([' zeros=1 shift=%r', ' shift=%r']) % a['shift'] if a['shift'] else '')
        else:
            tags.append('an:pz')
            if a['shift']:
                p.append(('shift', a['shift']))
            l = '.pz ' + opts(p)
        later.append((l, a))
    if fam == 2 and len(d) < 9 and not any(e[0] == 'K' for e in d) and rng.random() < .7:
        a = {'type': 'symbolic', 'ac_enable': rng.random() < .5 and len(d) < 7, 'source': None}
        p = [('ac', rng.choice(['yes', '1', 'true'] if a['ac_enable'] else ['no', '0', 'false']))]
        if len(d) < 6 and rng.random() < .5:
            a['source'] = rng.choice(srcs)[1]
            p.append(('tf', a['source']))
        tags.append('an:symbolic')
        later.append(('.symbolic ' + opts(p), a))
    rng.shuffle(later)
    return out + later, ics


# ------------------------------------------------------------------ monitors
def run(c, mon):
    o1, o2 = sim.outname('net'), sim.outname('api')
    try:
        run_(c, mon, o1, o2)
    finally:
        sim.cleanup(o1)
        sim.cleanup(o2)


def build_api(c):
    d = []
    for e in c['d']:
        e = list(e)
        if e[0] == 'D':
            e[5] = dict(e[5] or {})
        d.append(e)
    return G.to_api(d, models=c['m'])


def run_(c, mon, o1, o2):
    from ahkab import netlist_parser
    A = sim.api()
    f = o1 + '.ckt'
    open(f, 'w').write('\n'.join(c['rows']) + '\n')
    for t in c['tags']:
        mon.event(t)
    mon.seen((tuple(c['tags']), G.shape_sig(c['d'])))
    circ = build_api(c)
    nets = netlist_parser.parse_circuit(f)[0]
    compare_circuits(mon, nets, circ, 'element')
    circ = build_api(c)          # the comparison above evaluated the devices
    fixed = any(a.get('fixed') for a in c['an'])
    with c02.options({'transient_no_step_control': fixed, 'dc_max_nr_iter': 400}):
        np.random.seed(0)
        r1 = e1 = r2 = e2 = None
        try:
            r1 = A.main(f, outfile=o1, verbose=0)
        except Exception as e:
            e1 = e
        np.random.seed(0)
        try:
            r2 = api_run(A, circ, c['an'], o2)
        except Exception as e:
            e2 = e
        if e2 is not None and e1 is None:
            raise e2
        if e1 is not None:
            # the other properties judge failures of the analyses themselves
            mon.check(e2 is not None and type(e1) == type(e2), 'same failure',
                      lambda: 'the deck stops with %s: %s, the API calls %s' % (type(e1).__name__, str(e1)[:200], 'with %r' % e2 if e2 else 'succeed'))
            return
    compare_results(mon, r1, r2, 'results')


def api_run(A, circ, ans, o):
    opr = None
    res = {}
    for a in ans:
        a = dict(a)
        ty = a.pop('type')
        kw = dict(outfile=o + '.' + ty, verbose=0)
        x0 = a.pop('x0', None)
        if isinstance(x0, dict):
            x0 = A.new_x0(circ, x0)
        if ty == 'op':
            an = A.new_op(x0=x0, **kw)
        elif ty == 'ac':
            an = A.new_ac(x0=None, **dict(a, **kw))    # .ac finds its own operating point
        elif ty == 'dc':
            an = A.new_dc(**dict(a, **kw))
        elif ty == 'tran':
            fixed = a.pop('fixed')
            if x0 is not None and isinstance(x0, str):
                x0 = opr if x0 == 'op' else (A.icmodified_x0(circ, opr) if opr is not None else None)
            an = A.new_tran(x0=x0, use_step_control=not fixed, **dict(a, **kw))
        elif ty == 'pz':
            if a['output_port'] is not None:
                a['output_port'] = tuple(a['output_port'])
            an = A.new_pz(x0=opr, **dict(a, **kw))
        elif ty == 'pss':
            an = A.new_pss(**dict(a, **kw))
        else:
            an = A.new_symbolic(**dict(a, **kw))
        r = A.run(circ, an)
        res.update(r)
        if ty == 'op':
            opr = r['op']
    return res


def ext(circ, n):
    return str(circ.nodes_dict[n]).lower()


def describe(circ, e):
    return ' '.join(str(e.get_netlist_elem_line(circ.nodes_dict)).lower().split())


def compare_circuits(mon, a, b, kind):
    la, lb = list(a), list(b)
    mon.check(len(la) == len(lb), kind, lambda: '%d elements in the netlist circuit, %d in the API one' % (len(la), len(lb)))
    na = sorted(str(k).lower() for k in a.nodes_dict if isinstance(k, str))
    nb = sorted(str(k).lower() for k in b.nodes_dict if isinstance(k, str))
    mon.check(na == nb, kind, lambda: 'nodes %r in the netlist circuit, %r in the API one' % (na, nb))
    for x, y in zip(la, lb):
        mon.check(type(x) is type(y) and x.part_id.lower() == y.part_id.lower(), kind,
                  lambda: 'element %s %s instead of %s %s' % (type(x).__name__, x.part_id, type(y).__name__, y.part_id))
        if type(x) is type(y):
            compare_elem(mon, a, x, b, y, kind)


def compare_elem(mon, a, x, b, y, kind):
    """x of circuit a against the reference y of circuit b"""
    timed = getattr(y, 'is_timedependent', False) or getattr(x, 'is_timedependent', False)
    if hasattr(x, 'get_netlist_elem_line') and not timed:
        s, t = describe(a, x), describe(b, y)
        mon.check(text_same(s, t), kind, lambda: 'the element is %r, not %r' % (s, t))
    for n in ('n1', 'n2', 'sn1', 'sn2', 'ng', 'nb'):
        if hasattr(x, n) and hasattr(y, n):
            u, v = ext(a, getattr(x, n)), ext(b, getattr(y, n))
            mon.check(u == v, kind, lambda: 'terminal %s of %s is at %s, not %s' % (n, x.part_id, u, v))
    for at in ('value', 'ic', 'dc_value', 'abs_ac', 'arg_ac', 'alpha', 'source_id', 'off'):
        if hasattr(x, at) or hasattr(y, at):
            u, v = getattr(x, at, None), getattr(y, at, None)
            mon.check(same(u, v), kind, lambda: '%s of %s is %r, not %r' % (at, x.part_id, u, v))
    if timed:
        for t in (0., 1e-9, 3.3e-7, 1.23e-6, 1e-5, 7.7e-5, 1e-4, 3e-4):
            u, v = x.V(t) if hasattr(x, 'V') else x.I(t), y.V(t) if hasattr(y, 'V') else y.I(t)
            if not mon.check(same(u, v, 1e-9), kind, lambda: '%s at t = %r is %r, not %r' % (x.part_id, t, u, v)):
                break
    if y.is_nonlinear:
        rg = random.Random(y.part_id.lower())
        for _ in range(4):
            v = [rg.uniform(-1.5, 1.5) for _ in x.get_drive_ports(0)]
            p, q = current(x, v), current(y, v)
            mon.check(same(p, q, 1e-9), kind, lambda: 'current of %s at %r is %r, not %r' % (x.part_id, v, p, q))


def current(e, v):
    """current of the first port of a non-linear element"""
    if hasattr(e, 'i'):
        return float(e.i(0, v))
    return float(np.ravel(e.istamp(v, reduced=False)[1])[0])


def text_same(s, t):
    """equal up to rounding of the numbers"""
    if s == t:
        return True
    s, t = s.split(), t.split()
    if len(s) != len(t):
        return False
    for x, y in zip(s, t):
        if x != y:
            kx, _, x = x.rpartition('=')
            ky, _, y = y.rpartition('=')
            try:
                x, y = float(x), float(y)
            except ValueError:
                return False
            if kx != ky or not same(x, y):
                return False
    return True


def same(a, b, tol=1e-12):
    if a is None or b is None:
        # an omitted AC value is no AC excitation
        return a is b or (not a and not b and not (a is False or b is False))
    if isinstance(a, (int, float, complex, np.number)) and isinstance(b, (int, float, complex, np.number)):
        return a == b or abs(a - b) <= tol * max(abs(a), abs(b)) or abs(a - b) < 1e-30
    return str(a).lower() == str(b).lower()


def compare_results(mon, r1, r2, kind, rtol=1e-9):
    mon.check(sorted(r1) == sorted(r2), kind, lambda: 'results %r and %r' % (sorted(r1), sorted(r2)))
    for ty in r1:
        if ty in r2:
            compare_result(mon, ty, r1[ty], r2[ty], kind, rtol)


def compare_result(mon, ty, a, b, kind, rtol=1e-9):
    if a is None or b is None:
        mon.check(a is None and b is None, kind, lambda: '%s: one failed, the other gave a result (%r, %r)' % (ty, type(a).__name__, type(b).__name__))
        return
    if ty == 'symbolic':
        for x, y, nm in ((a[0], b[0], 'solution'), (a[1], b[1], 'transfer functions')):
            s, t = flat(x), flat(y)
            mon.check(s == t, kind, lambda: 'symbolic %s: %r, API %r' % (nm, s, t))
        return
    if ty == 'pz':
        for nm in ('poles', 'zeros'):
            x, y = np.sort_complex(np.atleast_1d(getattr(a, nm))), np.sort_complex(np.atleast_1d(getattr(b, nm)))
            mon.check(len(x) == len(y) and (len(x) == 0 or np.allclose(x, y, rtol=1e-6)), kind, lambda: 'pz %s %r, API %r' % (nm, x, y))
        return
    ka, kb = [str(k).lower() for k in a.keys()], [str(k).lower() for k in b.keys()]
    mon.check(ka == kb, kind, lambda: '%s: variables %r, API %r' % (ty, ka, kb))
    top = {}
    for k in b.keys():
        u = kind_of(k)
        top[u] = max(top.get(u, 0.), float(np.abs(np.atleast_1d(np.asarray(b[k]))).max()))
    for k in a.keys():
        if str(k).lower() not in kb:
            continue
        x, y = np.atleast_1d(np.asarray(a[k])).ravel(), np.atleast_1d(np.asarray(b[k])).ravel()
        if not mon.check(len(x) == len(y), kind, lambda: '%s: %s has %d values, API %d' % (ty, k, len(x), len(y))):
            continue
        sc = max(top[kind_of(k)], 1e-6)
        dv = np.abs(x - y)
        k0 = int(np.argmax(dv)) if len(y) else 0
        mon.check(len(y) == 0 or bool(np.all(dv <= rtol * sc)), kind, lambda: '%s: %s[%d] is %r, API %r' % (ty, k, k0, x[k0], y[k0]))


def kind_of(k):
    k = str(k).lower().strip('|')
    return k if k in ('t', 'f', 'w') or k.startswith('arg') else k[:2] if k.startswith('i(') else k[:1]


def flat(x):
    if x is None:
        return None
    if hasattr(x, 'items'):
        return sorted((str(k).lower(), flat(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return [flat(v) for v in x]
    return str(x).lower()
