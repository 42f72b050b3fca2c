"""C16  result objects and saved files report the computed values faithfully."""
import os

import numpy as np

from .. import gen as G
from .. import nl, ref, sim
from . import c02, c07

PROP = 'C16'
RULE = ('(a) every analysis run on random circuits with a recorder on the methods through which the analyses store their values (the event log), then every access path of the result object and '
        'the data file, read by our own parser, compared with the log; (b) result objects filled directly with random extreme values, read between appends; (c) the data file functions with random '
        'matrices, headers, selections, offsets and sample limits; distinct = distinct (analysis, names, points, access order) signatures')
CASES = {'quick': 2100, 'thorough': 80000}
MIN_OK = {'quick': 150000, 'thorough': 6000000}
NEED = ['op', 'ac', 'dc', 'tran', 'pss', 'pz', 'symbolic', 'symbolic tf', 'direct:op', 'direct:ac', 'direct:dc', 'direct:tran', 'direct:pss', 'direct:pz', 'one point', 'one variable', 'read between appends',
        'nested iteration', 'abandoned iteration', 'absent', 'locked', 'file', 'csv', 'csv skip', 'csv nsamples', 'csv select', 'csv append', 'csv missing header', 'csv headers', 'no poles', 'info file', 'cycle saved', 'phase in degrees', 'phase in radians']
CASE_LIMIT = 60.0
ASSUMPTIONS = ['variable names are compared ignoring case (node and element names of a circuit differ in more than case)', 'saved numbers are compared to the printed 18 decimals',
               'element names of swept sources and node names that would give the same label twice are a listed finding']


def gen(rng, i, tier):
    k = i % 7
    if k >= 5:
        return {'kind': 'csv', 'seed': rng.randrange(1 << 40)}
    if k >= 3:
        return {'kind': 'direct', 'an': ['op', 'ac', 'dc', 'tran', 'pss', 'pz'][(i // 7 * 2 + k) % 6], 'seed': rng.randrange(1 << 40)}
    an = ['op', 'ac', 'dc', 'tran', 'pz', 'symbolic', 'pss', 'tran', 'dc', 'ac'][(i // 7 * 3 + k) % 10]
    m = []
    if an == 'symbolic':
        d = small(rng)
    elif an == 'pss':
        r3 = G.rnd3
        f = r3(G.logu(rng, 1e3, 1e6))
        d = [['V', 'V1', 'a', '0', 0., 0, ['sin', {'vo': r3(rng.uniform(-1, 1)), 'va': 1., 'freq': f, 'td': 0., 'theta': 0.}]],
             ['R', 'R1', 'a', 'b', r3(G.logu(rng, 10, 1e4))], ['C', 'C1', 'b', '0', r3(G.logu(rng, 1e-9, 1e-6)), None]]
        if rng.random() < .5:
            d += [['L', 'L1', 'b', 'c', r3(G.logu(rng, 1e-6, 1e-3)), None], ['R', 'R2', 'c', '0', 50.]]
    elif rng.random() < .75:
        d = G.linear_circuit(rng, reactive=an != 'dc', sources='ac' if an == 'ac' else 'dc', couplings=True, neg=0, nmax=6, clo=1e-9, chi=1e-7, llo=1e-6, lhi=1e-4, rlo=100, rhi=1e4, alpha=2.)
        if an == 'op' and rng.random() < .2:
            d = [['I', 'I1', '0', 'a', 1e-3, 0, None], ['R', 'R1', 'a', '0', 500.]]
    else:
        d, m = c02.easy(rng, rng.choice(c02.EASY))
        if an in ('tran', 'ac', 'pz'):
            d.append(['C', 'Cx', d[0][2] if d[0][2] != '0' else d[0][3], '0', 1e-10, None])
    return {'kind': 'run', 'an': an, 'd': d, 'm': m, 'seed': rng.randrange(1 << 40)}


def small(rng):
    r3 = G.rnd3
    d = [['V', 'V1', 'in', '0', 1., 1., None], ['R', 'R1', 'in', 'out', r3(G.logu(rng, 10, 1e4))]]
    d.append(rng.choice([['R', 'R2', 'out', '0', 50.], ['C', 'C1', 'out', '0', 1e-9, None], ['L', 'L1', 'out', '0', 1e-6, None]]))
    return d


class Recorder(object):
    """event log of the values handed to the result objects"""

    def __init__(self):
        from ahkab import results as R
        self.R = R
        self.log = []
        self.old = []

    def hook(self, cls, name, f):
        old = getattr(cls, name)
        self.old.append((cls, name, old))

        def wrapped(obj, *a, **kw):
            f(obj, *a, **kw)
            return old(obj, *a, **kw)
        setattr(cls, name, wrapped)

    def __enter__(self):
        R = self.R
        put = lambda o, v: self.log.append((o, np.array(v, dtype=complex)))
        self.hook(R.tran_solution, 'add_line', lambda o, t, x: put(o, np.vstack(([[t]], x))))
        self.hook(R.ac_solution, 'add_line', lambda o, f, x: put(o, np.vstack(([[f]], x))))
        self.hook(R.dc_solution, 'add_op', lambda o, s, op: put(o, np.vstack(([[s]], op.asarray()))))
        self.hook(R.pss_solution, 'set_results', lambda o, t, x: put(o, np.vstack((np.asarray(t).reshape((1, -1)), x))))
        return self

    def __exit__(self, *a):
        for cls, name, old in reversed(self.old):
            setattr(cls, name, old)

    def data(self, obj):
        return np.hstack([v for o, v in self.log if o is obj])


def run(c, mon):
    import random
    rng = random.Random(c['seed'])
    if c['kind'] == 'csv':
        return csv(rng, mon)
    o = sim.outname('res')
    deg = rng.random() < .5
    mon.event('phase in degrees' if deg else 'phase in radians')
    try:
        with c02.options({'ac_phase_in_deg': deg}):
            if c['kind'] == 'direct':
                direct(c, rng, mon, o)
            else:
                analyse(c, rng, mon, o)
    finally:
        sim.cleanup(o)


def names_units(circ, an, sweep=None):
    nv = sorted(k for k in circ.nodes_dict if isinstance(k, int) and k)
    names = ['V' + circ.nodes_dict[k] for k in nv]
    units = ['V'] * len(nv)
    for e in circ:
        if e.part_id[0].upper() in 'VLEH':
            names.append('I(%s)' % e.part_id)
            units.append('A')
    if an == 'op':
        return names, units
    x = {'ac': ('f', 'Hz'), 'tran': ('T', 's'), 'pss': ('T', 's')}.get(an)
    if an == 'dc':
        x = (sweep, 'V' if sweep[0].upper() == 'V' else 'A')
    return [x[0]] + names, [x[1]] + units


def analyse(c, rng, mon, o):
    A = sim.api()
    an = c['an']
    circ = G.to_api(c['d'], models=c['m'])
    kw = dict(outfile=o, verbose=0)
    lab = None
    if an == 'op':
        spec = A.new_op(**kw)
    elif an == 'ac':
        n = rng.choice([2, 3, 10])
        spec = A.new_ac(start=1e3, stop=1e6, points=n, sweep_type=rng.choice(['LIN', 'LOG']), **kw)
    elif an == 'dc':
        lab = rng.choice([e[1] for e in c['d'] if e[0] in 'VI'])
        lab = rng.choice([lab, lab.lower(), lab.upper()])
        n = rng.choice([2, 3, 7])
        sc = 1. if lab[0] in 'Vv' else 1e-4
        a = rng.uniform(-1, 1) * sc
        spec = A.new_dc(a, a + rng.uniform(.1, 1) * sc, n, lab, 'LINEAR', **kw)
    elif an == 'tran':
        h = 1e-6
        spec = A.new_tran(0., h * rng.randint(2, 20), h, x0=rng.choice([None, 'op']), use_step_control=False, **kw)
    elif an == 'pz':
        lin = rng.choice([e for e in c['d'] if e[0] in 'VI'])
        n1 = rng.choice(sorted(set(n for e in c['d'] if e[0] != 'K' for n in ref.elem_nodes(e)) - {'0'}))
        if any(e[0] in 'CL' for e in c['d']) and rng.random() < .9:
            spec = A.new_pz(input_source=lin[1], output_port=(n1, '0'), **kw)
        else:
            spec = A.new_pz(**kw)
    elif an == 'symbolic':
        spec = A.new_symbolic(ac_enable=rng.random() < .5, source=rng.choice([None, 'V1']), **kw)
    else:
        f = c['d'][0][6][1]['freq']
        spec = A.new_pss(1. / f, points=rng.choice([11, 30, 51]), method=rng.choice(['shooting', 'brute-force']), **kw)
    with c02.options({'dc_max_nr_iter': 300, 'transient_no_step_control': an == 'tran'}):
        with Recorder() as rec:
            try:
                r = A.run(circ, spec)[an]
            except Exception as e:
                # whether analyses succeed is judged elsewhere
                if an in ('pz', 'symbolic', 'pss', 'tran', 'ac') and not isinstance(e, (KeyError, AttributeError)):
                    mon.event('failed ' + an)
                    return
                raise
    if r is None:
        mon.event('failed ' + an)
        return
    mon.event(an)
    mon.seen((an, G.shape_sig(c['d'])))
    if an != 'symbolic':
        if not mon.check(r.filename == o or r.filename.startswith(o + '.'), 'file', lambda: '%s: the data file is %r, %r was asked for' % (an, r.filename, o)):
            return
        o = r.filename
    if an == 'symbolic':
        return symbolic(mon, r, o)
    if an == 'pz':
        return pz(mon, rng, r, o, None, None)
    if an == 'op':
        data = np.array(r.asarray(), dtype=complex)
        info(mon, o, r)
    else:
        data = rec.data(r)
    names, units = names_units(circ, an, lab)
    low = [n.lower() for n in names]
    if len(set(low)) < len(low):
        mon.finding('KF7', 'the swept source %s and node %s have the same label in the result' % (lab, lab[1:]))
        return
    inspect(mon, rng, r, names, units, data, an, o)


def direct(c, rng, mon, o):
    """fill result objects by hand"""
    from ahkab import results as R
    an = c['an']
    nn, nb = rng.randint(1, 6), rng.randint(0, 4)
    d = []
    pool = G.node_names(rng, nn)
    if len(set(n.lower() for n in pool)) < nn:
        pool = ['n%d' % k for k in range(nn)]
    for k, n in enumerate(pool):
        d.append(['R', 'Rs%d' % k, n, '0', 1.])
    for k in range(nb):
        d.append([rng.choice('VL'), 'q%d' % k, rng.choice(pool), '0', 1.] + [None])
        d[-1] = ['V', 'Vq%d' % k, d[-1][2], '0', 1., 0, None] if d[-1][0] == 'V' else ['L', 'Lq%d' % k, d[-1][2], '0', 1., None]
    circ = G.to_api(d)
    mon.event('direct:' + an)
    n = nn + nb
    npt = rng.choice([1, 1, 2, 3, 8]) if an != 'op' else 1

    def val():
        r = rng.random()
        if r < .1:
            return 0.
        return rng.choice([-1, 1]) * (rng.uniform(0, 10) if r < .6 else G.logu(rng, 1e-30, 1e30))
    cp = an == 'ac'
    X = np.array([[complex(val(), val()) if cp else val() for _ in range(npt)] for _ in range(n)], dtype=complex if cp else float)
    sw = np.array([[rng.uniform(0, 1) * 10. ** (k % 12) for k in range(npt)]])
    mon.seen((an, n, npt, tuple(pool)))
    if npt == 1:
        mon.event('one point')
    if n == 1:
        mon.event('one variable')
    lab = 'Vsweep'
    names, units = names_units(circ, an, lab) if an != 'pz' else (None, None)
    if an == 'op':
        err = np.zeros((n, 1))
        r = R.op_solution(X, err, circ, outfile=o)
        r.write_to_file()
        info(mon, o, r)
        inspect(mon, rng, r, names, units, X.astype(complex), an, o)
        return
    if an == 'pz':
        ps = [complex(-abs(val()), val()) for _ in range(rng.randint(0, 5))]
        zs = [complex(val(), val()) for _ in range(rng.randint(0, 4))]
        if rng.random() < .5:
            ps = [p for x in ps for p in (x, x.conjugate())]
        r = R.pz_solution(circ, ps, zs, o)
        if not ps:
            mon.event('no poles')
        return pz(mon, rng, r, o, ps, zs)
    if an == 'ac':
        r = R.ac_solution(circ, 1., 10., npt, 'LOG', None, o)
    elif an == 'dc':
        r = R.dc_solution(circ, 0., 1., lab, 'LIN', o)
    elif an == 'tran':
        r = R.tran_solution(circ, 0., 1., None, 'TRAP', o)
    else:
        r = R.pss_solution(circ, 'shooting', 1., o)
        r.set_results(sw, X)
    full = np.vstack((sw.astype(complex), X))
    if an != 'pss':
        for k in range(npt):
            x = X[:, k:k + 1]
            if an == 'dc':
                r.add_op(sw[0, k], R.op_solution(x, np.zeros((n, 1)), circ, outfile=None))
            else:
                r.add_line(sw[0, k], x)
            if rng.random() < .4:
                mon.event('read between appends')
                v = rng.randrange(n + 1)
                value(mon, r[names[v]], full[v, :k + 1], an, '%s after %d points' % (names[v], k + 1))
    if an == 'tran':
        r.lock()
        try:
            r.add_line(5., X[:, :1])
        except RuntimeError:
            mon.event('locked')
        else:
            mon.fail('locked', 'values are accepted after the result was locked')
            return
    inspect(mon, rng, r, names, units, full, an, o)


def value(mon, got, want, an, what):
    g = np.ravel(np.asarray(got))
    w = np.ravel(want)
    if not mon.check(g.shape == w.shape, 'value', lambda: '%s: %s has %d values, %d computed' % (an, what, g.size, w.size)):
        return
    # magnitude and phase of complex numbers go through one more rounding
    tol = 4e-15 * np.abs(w) if an == 'ac' else 2e-16 * np.abs(w)
    bad = np.abs(g - w) > tol
    k = int(np.argmax(bad)) if bad.size else 0
    mon.check(not bad.any() and not np.isnan(g).any(), 'value', lambda: '%s: %s is %r, computed %r' % (an, what, g[k], w[k]))


def inspect(mon, rng, r, names, units, data, an, o):
    low = [n.lower() for n in names]
    keys = [str(k).lower() for k in r.keys()]
    if not mon.check(keys == low, 'names', lambda: '%s: variables %r, should be %r' % (an, keys, low)):
        return
    mon.check(len(r) == len(names), 'names', lambda: '%s: len() is %d for %d variables' % (an, len(r), len(names)))
    steps = ['items', 'values', 'asarray', 'iter', 'nested', 'abandoned', 'absent', 'str', 'x'] + ['get'] * len(names)
    rng.shuffle(steps)
    js = list(range(len(names)))
    rng.shuffle(js)
    bump = lambda s: rng.choice([s, s.lower(), s.upper(), s.swapcase()])
    for st in steps:
        if st == 'get':
            j = js.pop()
            for nm in (names[j], bump(names[j])):
                value(mon, r[nm], data[j], an, '[%r]' % nm)
                value(mon, r.get(nm), data[j], an, 'get(%r)' % nm)
                mon.check(nm in r and r.has_key(nm), 'membership', lambda: '%s: %r is not found in the result' % (an, nm))
                mon.check(r.units[nm] == units[j], 'units', lambda: '%s: the unit of %s is %r, should be %r' % (an, nm, r.units[nm], units[j]))
        elif st == 'absent':
            mon.event('absent')
            for nm in ('Vnot_there', 'I(Vnone)', '', 'T0'):
                if nm.lower() in low:
                    continue
                mon.check(nm not in r and not r.has_key(nm), 'membership', lambda: '%s: absent %r is said to be in the result' % (an, nm))
                mon.check(r.get(nm) is None and r.get(nm, 'dflt') == 'dflt', 'absent', lambda: '%s: get(%r) of an absent variable is %r' % (an, nm, r.get(nm)))
                try:
                    v = r[nm]
                except KeyError:
                    mon.ok('absent')
                else:
                    mon.fail('absent', '%s: [%r] of an absent variable is %r' % (an, nm, v))
        elif st == 'items':
            pairs(mon, list(r.items()), low, data, an, 'items()')
        elif st == 'values':
            v = list(r.values()) if isinstance(r.values(), list) else r.values()
            if mon.check(isinstance(v, (list, tuple, np.ndarray)) and len(v) == len(names), 'values', lambda: '%s: values() is %r for %d variables' % (an, v, len(names))):
                for j in range(len(names)):
                    value(mon, v[j], data[j], an, 'values()[%d]' % j)
        elif st == 'asarray':
            M = np.asarray(r.asarray())
            if mon.check(M.shape == data.shape, 'asarray', lambda: '%s: asarray() has shape %r, should be %r' % (an, M.shape, data.shape)):
                for j in range(len(names)):
                    value(mon, M[j], data[j], an, 'asarray() row %s' % names[j])
        elif st == 'iter':
            pairs(mon, take(r, len(names) + 3), low, data, an, 'iteration')
        elif st == 'nested':
            mon.event('nested iteration')
            out, inner = [], 0
            for kv in r:
                out.append(kv)
                inner += len(take(r, len(names) + 3))
                if len(out) > len(names) + 3:
                    break
            pairs(mon, out, low, data, an, 'iteration with another one inside')
            mon.check(inner == len(names) ** 2, 'iteration', lambda: '%s: the inner iterations gave %d pairs instead of %d' % (an, inner, len(names) ** 2))
        elif st == 'abandoned':
            mon.event('abandoned iteration')
            for kv in r:
                break
            pairs(mon, take(r, len(names) + 3), low, data, an, 'iteration after an abandoned one')
        elif st == 'str':
            s = str(r)
            mon.check('vf circuit' in s, 'str', lambda: '%s: str() is %r' % (an, s))
        elif st == 'x' and an != 'op':
            mon.check(r.get_xlabel().lower() == low[0], 'axis', lambda: '%s: get_xlabel() is %r' % (an, r.get_xlabel()))
            value(mon, r.get_x(), data[0], an, 'get_x()')
    the_file(mon, o, low, data, an)


def take(r, n):
    out = []
    for kv in r:
        out.append(kv)
        if len(out) >= n:
            break
    return out


def pairs(mon, kv, low, data, an, what):
    kv = list(kv)
    if not mon.check([str(k).lower() for k, _ in kv] == low, 'iteration', lambda: '%s: %s gives %r, should be %r' % (an, what, [k for k, _ in kv], low)):
        return
    for j, (k, v) in enumerate(kv):
        value(mon, v, data[j], an, '%s: %s' % (what, k))


def read(fn):
    with open(fn, encoding='utf-8') as f:
        rows = f.read().split('\n')
    hd = rows[0].lstrip('#').strip().split('\t')
    M = [[float(x) for x in l.split('\t')] for l in rows[1:] if l.strip()]
    return hd, np.array(M).T


def the_file(mon, fn, low, data, an):
    from ahkab import options
    mon.event('file')
    hd, M = read(fn)
    hd = [h.lower() for h in hd]
    if an == 'ac':
        want = [low[0]] + [s % n for n in low[1:] for s in ('|%s|', 'arg(%s)')]
        rows = [data[0].real]
        for j in range(1, len(low)):
            rows += [np.abs(data[j]), np.angle(data[j], deg=options.ac_phase_in_deg)]
        rows = np.array(rows)
    else:
        want, rows = low, data.real
    mon.check(hd == want, 'file', lambda: '%s: columns of the file are %r, should be %r' % (an, hd, want))
    if mon.check(M.shape == rows.shape, 'file', lambda: '%s: the file holds %r, %r computed' % (an, M.shape, rows.shape)):
        bad = np.abs(M - rows) > 1e-15 * np.maximum(np.abs(rows), 1e-300) + (1e-12 if an == 'ac' else 0)
        if an == 'ac':
            bad[::2] = np.abs(M - rows)[::2] > 2e-15 * np.abs(rows[::2])
        k = np.argwhere(bad)
        mon.check(not bad.any(), 'file', lambda: '%s: %s[%d] in the file is %r, computed %r' % (an, want[k[0][0]], k[0][1], M[tuple(k[0])], rows[tuple(k[0])]))


def info(mon, o, r):
    """the operating point table of the info file"""
    mon.event('info file')
    with open(o + 'info', encoding='utf-8') as f:
        t = f.read()
    tab = {}
    for l in t.split('ELEMENTS OP')[0].split('\n'):
        w = [x.strip() for x in l.replace('|', ' ').split()]
        if len(w) >= 4 and w[1] in ('V', 'A'):
            tab[w[0].lower()] = (float(w[2]), w[1])
    for k, v in r.items():
        g = tab.get(k.lower())
        x = float(np.ravel(v)[0])
        mon.check(g is not None and abs(g[0] - x) <= 1e-5 * abs(x), 'info', lambda: 'the info file has %r for %s = %r' % (g, k, x))


def pz(mon, rng, r, o, ps, zs):
    if ps is None:
        ps, zs = list(r.poles), list(r.zeros)
    so = lambda v: sorted(v, key=lambda z: (complex(z).real, complex(z).imag))
    ps, zs = so(ps), so(zs)
    names = ['p%d' % k for k in range(len(ps))] + ['z%d' % k for k in range(len(zs))]
    vals = ps + zs
    mon.check(so(r.poles) == ps and so(r.zeros) == zs, 'pz', lambda: 'poles %r zeros %r, should be %r, %r' % (r.poles, r.zeros, ps, zs))
    mon.check([k.lower() for k in r.keys()] == names and len(r) == len(names), 'names', lambda: 'pz: variables %r, should be %r' % (list(r.keys()), names))
    for n, v in zip(names, vals):
        for nm in (n, n.upper()):
            mon.check(nm in r and r.has_key(nm) and complex(r[nm]) == v and complex(r.get(nm)) == v, 'pz', lambda: 'pz: %s is %r, should be %r' % (nm, r.get(nm), v))
        mon.check(r.units[n] == 'Hz', 'units', lambda: 'pz: the unit of %s is %r' % (n, r.units[n]))
    for what, it in (('items()', list(r.items())), ('iteration', take(r, len(names) + 3)), ('values()', list(zip(names, r.values())))):
        mon.check([(k.lower(), complex(v)) for k, v in it] == list(zip(names, vals)), 'pz', lambda: 'pz: %s gives %r, should be %r' % (what, it, list(zip(names, vals))))
    mon.check(r.get('p99', 'd') == 'd' and 'p99' not in r, 'absent', 'pz: absent pole found')
    mon.check('vf circuit' in str(r), 'str', lambda: 'str() is %r' % str(r))
    if names:
        mon.event('file')
        hd, M = read(o)
        rows = [x for v in vals for x in (complex(v).real, complex(v).imag)]
        want = [s % n for n in names for s in ('re(%s)', 'im(%s)')]
        mon.check([h.lower() for h in hd] == want, 'file', lambda: 'pz: columns of the file are %r, should be %r' % (hd, want))
        mon.check(M.shape == (len(rows), 1) and np.allclose(M[:, 0], rows, rtol=1e-15, atol=0), 'file', lambda: 'pz: the file holds %r, should be %r' % (M, rows))


def symbolic(mon, r, o):
    from ahkab import results as R
    sol, tfs = r
    if tfs is not None:
        mon.event('symbolic tf')
    for s in (sol, tfs):
        if s is None:
            continue
        ks = list(s.keys())
        it = dict((str(k), v) for k, v in take(s, len(ks) + 3))
        mon.check(len(s) == len(ks) and sorted(it) == sorted(map(str, ks)), 'iteration', lambda: 'symbolic: iteration gives %r, the variables are %r' % (sorted(it), ks))
        for k, v in s.items():
            for nm in (str(k), str(k).lower(), str(k).upper()):
                mon.check(nm in s and s.has_key(nm) and s[nm] == v and s.get(nm) == v and it.get(str(k)) == v, 'value', lambda: 'symbolic: %s is not the same through every access' % nm)
        mon.check(list(s.values()) == [s[k] for k in ks], 'values', 'symbolic: values() does not follow keys()')
        mon.check(s.get('none there', 'd') == 'd' and 'none there' not in s, 'absent', 'symbolic: an absent variable is found')
        mon.check('vf circuit' in str(s), 'str', 'symbolic: str() has no title')
        sys = set(y for x in s.values() for y in getattr(x['gain'] if isinstance(x, dict) else x, 'free_symbols', ()))
        for sy in sys:
            for nm in (sy.name, sy.name.lower(), sy.name.upper()):
                same = len([y for y in sys if y.name.lower() == nm.lower()]) > 1
                mon.check(same or s.as_symbol(nm) == sy, 'symbol', lambda: 'as_symbol(%r) is %r' % (nm, s.as_symbol(nm)))
        nms = [sy.name for sy in sys]
        mon.check([y.name.lower() for y in s.as_symbols(' '.join(nms))] == [n.lower() for n in nms], 'symbol', lambda: 'as_symbols(%r) is %r' % (nms, s.as_symbols(' '.join(nms))))
        try:
            s.as_symbol('Rnone')
        except ValueError:
            mon.ok('symbol')
        else:
            mon.fail('symbol', 'as_symbol of an unknown symbol does not fail')
        if s.filename and os.path.exists(s.filename):
            q = R.symbolic_solution.load(s.filename)
            mon.check([(str(a), str(b)) for a, b in q.items()] == [(str(a), str(b)) for a, b in s.items()], 'file', 'symbolic: the saved solution differs')
            mon.event('cycle saved')


# ------------------------------------------------------------------ csv files
def csv(rng, mon):
    from ahkab import csvlib
    fn = sim.outname('csv')
    nv, ns = rng.randint(1, 7), rng.choice([1, 1, 2, 3, 10, 30])
    hs = []
    while len(hs) < nv:
        h = rng.choice(['V%d', 'I(V%d)', '|V%d|', 'T%d', 'x y%d', 'vn-%d+', '%d', 'V%d#']) % rng.randint(0, 40)
        if h.lower() not in [x.lower() for x in hs]:
            hs.append(h)
    M = np.array([[rng.choice([-1, 1, 0]) * G.logu(rng, 1e-40, 1e40) for _ in range(ns)] for _ in range(nv)]).reshape((nv, ns))
    mon.event('csv')
    mon.seen((nv, ns, tuple(hs)))
    try:
        k = rng.randint(1, ns)
        csvlib.write_csv(fn, M[:, :k], list(hs), append=False)
        while k < ns:
            mon.event('csv append')
            j = rng.randint(k + 1, ns)
            csvlib.write_csv(fn, M[:, k:j], list(hs), append=True)
            k = j
        mon.check(csvlib.get_headers(fn) == hs, 'csv', lambda: 'get_headers gives %r, written %r' % (csvlib.get_headers(fn), hs))
        for _ in range(6):
            sel = rng.choice([None, [], 'some'])
            if sel == 'some':
                sel = rng.sample(hs, rng.randint(1, nv))
                mon.event('csv select')
            skip = rng.randint(0, ns - 1) if rng.random() < .6 else 0
            lim = None if rng.random() < .4 else rng.randint(1, ns + 3)
            if skip:
                mon.event('csv skip')
            if lim is not None:
                mon.event('csv nsamples')
            ask = sel if not sel else [rng.choice([h, h.lower(), h.upper()]) for h in sel]
            D, H, pos, EOF = csvlib.load_csv(fn, load_headers=ask, nsamples=lim, skip=skip, verbose=0)
            ws = sel if sel else hs
            W = M[[hs.index(h) for h in ws], skip:][:, :lim]
            what = lambda: 'load_csv of %d samples, skip=%r nsamples=%r signals %r' % (ns, skip, lim, ask)
            mon.check(H == ws, 'csv', lambda: '%s: signals %r' % (what(), H))
            mon.check(D.shape == W.shape and bool(np.all(np.abs(D - W) <= 2e-16 * np.abs(W))), 'csv', lambda: '%s: data %r, should be %r' % (what(), D, W))
            mon.check(pos == skip + W.shape[1], 'csv', lambda: '%s: pos is %r, should be %r' % (what(), pos, skip + W.shape[1]))
            mon.check(bool(EOF) == (skip + W.shape[1] == ns), 'csv', lambda: '%s: EOF is %r' % (what(), EOF))
        mon.event('csv missing header')
        try:
            csvlib.load_csv(fn, load_headers=[hs[0], 'nowhere'], verbose=0)
        except ValueError:
            mon.ok('csv')
        else:
            mon.fail('csv', 'load_csv of an unknown signal does not fail')
        if rng.random() < .3:
            mon.event('csv headers')
            csvlib.write_headers(fn, list(hs))
            mon.check(csvlib.get_headers(fn) == hs, 'csv', lambda: 'write_headers: %r read back as %r' % (hs, csvlib.get_headers(fn)))
    finally:
        if os.path.exists(fn):
            os.remove(fn)
