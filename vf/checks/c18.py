"""C18: symbolic solutions and transfer functions against the numeric solution of the same circuit.

Truth: an independent tableau model of the circuit with random numbers given to every symbolic element.
The symbolic expressions are evaluated with 40 digits with the same numbers; poles and zeros are compared
with the roots of the reduced rational function obtained from the reported gain."""
import random

import numpy as np

from .. import gen as G
from .. import ref, sim
from . import c02
from .c22 import forked

PROP = 'C18'
RULE = 'symbols replaced by numbers: solution = numeric operating point / AC phasors; gain = response to a unit input; gain0, poles and zeros are those of the gain'
CASES = {'quick': 420, 'thorough': 9000}
MIN_OK = {'quick': 5000, 'thorough': 150000}
NEED = ['ac', 'dc', 'subs', 'subs source', 'tf', 'tf V', 'tf I', 'poles', 'zeros', 'no poles', 'complex poles', 'gain0', 'null gain', 'conductances', 'manual', 'coupling',
        'numeric coupling', 'mos', 'r0s', 'no r0s', 'diode', 'name clash', 'same node', 'deck', 'saved', 'cli run', 'E', 'F', 'G', 'H',
        'numeric E', 'numeric F', 'numeric G', 'numeric H', 'numeric L', 'numeric C', 'numeric R', 'numeric source']
CASE_LIMIT = 120.0
ASSUMPTIONS = ['the symbol of a mutual inductor stands for the mutual inductance M',
               'symbols of the transistors: gm and (with r0s) r0 between drain and source; of the diodes: conductance; the bulk is not part of the symbolic model',
               'circuits whose symbolic solution takes more than 20 CPU s are not judged (counted as slow)',
               'CCVS: the sign the simulator uses in the numeric analyses (known finding KF1 of C01)']
DEV = {'M': 'nm', 'D': 'dd'}
MODELS = [('ekv', 'nm', {'TYPE': 'n', 'VTO': .4, 'KP': 1e-4}), ('mosq', 'nq', {'TYPE': 'n', 'VTO': .4, 'KP': 1e-4}),
          ('diode', 'dd', {'IS': 1e-14})]


def gen(rng, i, tier):
    for _ in range(300):
        c = gen_(rng)
        try:
            ok = True
            for k in range(3):
                s = system(c, values(c, k))
                if np.linalg.cond(s.A0 if not c['ac'] else s.A0 + 1j * s.A1) > 1e7:
                    ok = False
            if ok:
                return c
        except np.linalg.LinAlgError:
            pass
    raise RuntimeError('no circuit')


def gen_(rng):
    c = {'ac': rng.random() < .6, 'tf': None, 'seed': rng.randrange(2 ** 31), 'r0s': rng.random() < .5}
    nn = rng.choice([1, 2, 2, 3, 3, 4])
    names = G.node_names(rng, nn)
    if rng.random() < .3:
        names[0] = rng.choice(['in', 'OUT', 'x', '1'])
        names = list(dict.fromkeys(names))
        nn = len(names)
    alln = ['0'] + names
    d = []
    cnt = {}
    react = 3 if c['ac'] else 1

    def nm(t):
        cnt[t] = cnt.get(t, 0) + 1
        return t + rng.choice(['%d', '%d', '%d', 'x%d', 'a%d']) % cnt[t]

    def val(t):
        u = 1. if not big else {'R': 1e3, 'C': 1e-9, 'L': 1e-3, 'G': 1e-3, 'H': 1e3}.get(t, 1.)
        return G.rnd3(rng.uniform(.2, 5.) * u * (1 if t in 'RLC' else rng.choice([1, 1, -1])))
    big = c['big'] = rng.random() < .4
    seen = ['0']
    for n in rng.sample(names, nn):
        o = rng.choice(seen)
        a, b = (n, o) if rng.random() < .5 else (o, n)
        t = rng.choice('RRRRCL' if react > 1 else 'RRRR')
        react -= t != 'R'
        d.append([t, nm(t), a, b, val(t)] + ([None] if t != 'R' else []))
        seen.append(n)

    def two(same=.3):
        a = rng.choice(alln)
        b = rng.choice(alln)
        while b == a and rng.random() > same:
            b = rng.choice(alln)
        return a, b
    kinds = 'RRRCLVIIEGFHMD'
    t0 = rng.choice('VVI')
    a, b = two(0)
    clash = rng.random() < .35
    src = nm(t0)
    if clash:
        t0 = 'V'
        src = rng.choice(['V', 'v']) + rng.choice(names)
        if any(ch in src for ch in '-+'):
            src = 'V1'
    d.append([t0, src, a, b, G.rnd3(rng.uniform(-9, 9)), 1., None])
    for k in range(rng.choice([1, 2, 3, 4] if nn < 4 else [1, 2, 3])):
        t = rng.choice(kinds)
        a, b = two()
        if t in 'CL':
            if react <= 0:
                continue
            react -= 1
            d.append([t, nm(t), a, b, val(t), None])
        elif t == 'R':
            d.append([t, nm(t), a, b, val(t)])
        elif t in 'VI':
            d.append([t, nm(t), a, b, G.rnd3(rng.uniform(-9, 9)), 1., None])
        elif t in 'EG':
            s1, s2 = two()
            d.append([t, nm(t), a, b, s1, s2, val(t)])
        elif t in 'FH':
            v = [e[1] for e in d if e[0] in 'VE' or (e[0] == 'V')]
            if v:
                d.append([t, nm(t), a, b, rng.choice(v), val(t)])
        elif t == 'M' and not any(e[0] == 'M' for e in d):
            g, s = rng.choice(alln), b
            if a != b:
                d.append(['M', nm('M'), a, g, s, rng.choice(alln), rng.choice(['nm', 'nq']), 1e-5, 1e-6, {}])
        elif t == 'D' and a != b:
            d.append(['D', nm('D'), a, b, 'dd', {}])
    ls = [e for e in d if e[0] == 'L']
    if len(ls) >= 2 and rng.random() < .7:
        x, y = rng.sample(ls, 2)
        d.append(['K', nm('K'), x[1], y[1], round(rng.uniform(.1, .9), 2)])
    ids = set(e[1].lower() for e in d)
    if len(ids) < len(d):
        return gen_(rng)
    # elements whose symbols are not used
    c['num'] = [e[1] for e in d if e[0] not in 'MDVI' and rng.random() < rng.choice([0, .3, .6])]
    if not c['ac'] or rng.random() < .15:
        c['num'] += [e[1] for e in d if e[0] in 'VI' and rng.random() < .15] if not c['ac'] else []
    wanttf = rng.random() < .55
    if wanttf and rng.random() < .6:
        c['num'] = []
    c['d'] = d
    c['subs'] = {}
    if rng.random() < .35:
        byt = {}
        for e in d:
            if e[1] not in c['num']:
                byt.setdefault(e[0], []).append(e[1])
        byt = dict((t, v) for t, v in byt.items() if len(v) >= 2 and t not in 'KMD')
        if byt:
            t = rng.choice(sorted(byt) + [q for q in 'VI' if q in byt])
            x, y = rng.sample(byt[t], 2)
            c['subs'] = {x: y}
            if rng.random() < .3 and len(byt[t]) > 2:
                z = [q for q in byt[t] if q not in (x, y)][0]
                c['subs'][z] = y
    srcs = [e[1] for e in d if e[0] in 'VI' and e[1] not in c['num'] and e[1] not in c['subs']]
    if srcs and wanttf:
        c['tf'] = rng.choice(srcs)
    c['gs'] = rng.random() < .25
    c['manual'] = rng.random() < .2
    c['clash'] = any(e[0] == 'V' and e[1][1:].lower() == n.lower() for e in d for n in names)
    c['how'] = rng.choice(['api', 'api', 'run', 'deck']) if not c['num'] else rng.choice(['api', 'run'])
    if c['subs'] and c['how'] == 'deck':
        c['how'] = 'run'
    c['file'] = rng.random() < .15
    return c


def sym(e):
    return e[1].upper() if e[0] not in 'D' else 'G' + e[1].upper()


def values(c, k):
    """symbol name -> number, for trial k"""
    r = random.Random(c['seed'] + k)
    v = {}
    subs = dict((a.lower(), b.lower()) for a, b in c['subs'].items())
    byid = dict((e[1].lower(), e) for e in c['d'])
    for e in c['d']:
        t = e[0]
        if e[1] in c['num']:
            continue
        u = 1. if not c['big'] else {'R': 1e3, 'C': 1e-9, 'L': 1e-3, 'G': 1e-3, 'H': 1e3}.get(t, 1.)
        x = r.uniform(.2, 5.)
        if t in 'RLC':
            v[sym(e)] = x * u
        elif t == 'D':
            v[sym(e)] = x * (1e-3 if c['big'] else 1.)
        elif t == 'M':
            v['GM_' + e[1].upper()] = x * (1e-3 if c['big'] else 1.)
            v['R0_' + e[1].upper()] = r.uniform(.2, 5.) * (1e3 if c['big'] else 1.)
        elif t == 'K':
            v[sym(e)] = None
        else:
            v[sym(e)] = x * u * r.choice([1, -1])
    for e in c['d']:
        if e[0] == 'K' and e[1] not in c['num']:
            l = [v[n.upper()] if n.upper() in v else byid[n.lower()][4] for n in e[2:4]]
            v[sym(e)] = r.uniform(.1, .9) * (l[0] * l[1]) ** .5
    for a, b in subs.items():
        ea, eb = byid[a], byid[b]
        v[sym(ea)] = v[sym(eb)]
    return v


def system(c, v, unit=None):
    """the reference system with the numbers v"""
    d = []
    byid = dict((e[1].lower(), e) for e in c['d'])
    for e in c['d']:
        e = list(e)
        t = e[0]
        if t == 'M':
            M = e[1].upper()
            d.append(['G', 'gm' + e[1], e[2], e[4], e[3], e[4], v['GM_' + M]])
            if c['r0s']:
                d.append(['R', 'r0' + e[1], e[2], e[4], v['R0_' + M]])
            continue
        if t == 'D':
            d.append(['R', 'gd' + e[1], e[2], e[3], 1 / v[sym(e)]])
            continue
        if t == 'K':
            l = []
            for n in e[2:4]:
                x = byid[n.lower()]
                l.append(x[4] if x[1] in c['num'] else v[sym(x)])
            if e[1] in c['num']:
                l0 = [byid[n.lower()][4] for n in e[2:4]]
                m = e[4] * (l0[0] * l0[1]) ** .5
            else:
                m = v[sym(e)]
            e[4] = m / (l[0] * l[1]) ** .5
        elif e[1] not in c['num']:
            e[{'R': 4, 'C': 4, 'L': 4, 'V': 4, 'I': 4, 'E': 6, 'G': 6, 'F': 5, 'H': 5}[t]] = v[sym(e)]
        d.append(e)
    return ref.System(d, dtype=float)


def compute(c, mon_dir):
    """in the child: run the simulator, evaluate -> plain data"""
    import mpmath as mp
    import sympy
    A = sim.api()
    from ahkab import symbolic
    mp.mp.dps = 40
    kw = {'ac_enable': c['ac'], 'r0s': c['r0s'], 'source': c['tf']}
    subs = c['subs'] or None
    out = sim.outname() if c['file'] else None
    if c['how'] == 'deck':
        from ahkab import netlist_parser
        import io
        extra = ['.symbolic%s ac=%d r0s=%d' % (' tf=' + c['tf'] if c['tf'] else '', c['ac'], c['r0s'])]
        fn = sim.outname()
        with open(fn, 'w') as fp:
            fp.write(G.to_text(c['d'], models=MODELS, extra=extra))
        circ, dirs, _ = netlist_parser.parse_circuit(fn)
        an = netlist_parser.parse_analysis(circ, dirs)
        an[0]['verbose'] = 0
    else:
        circ = G.to_api(c['d'], models=MODELS)
        num = set(x.lower() for x in c['num'])
        for e in circ:
            if e.part_id.lower() in num:
                e.is_symbolic = False
    with c02.options({'symb_formulate_with_gs': c['gs'], 'symb_sympy_manual_solver': c['manual']}):
        if c['how'] == 'api':
            sol, tfs = symbolic.symbolic_analysis(circ, subs=subs, outfile=out, verbose=0, **kw)
        else:
            if c['how'] == 'run':
                an = [A.new_symbolic(subs=subs, outfile=out, verbose=0, **kw)]
            r = A.run(circ, an)['symbolic']
            sol, tfs = r
    if out and c['how'] == 'api':
        from ahkab import results
        sol2 = results.symbolic_solution.load(out)
        if tfs is not None:
            tf2 = results.symbolic_solution.load(out + '.tfs')
            tfs = tf2
        if sorted(map(str, sol2.keys())) != sorted(map(str, sol.keys())) or \
                any(sympy.sstr(sol2[k]) != sympy.sstr(sol[k]) for k in sol.keys()):
            return {'reload': 'the solution loaded from disk differs'}
        sol = sol2
        sim.cleanup(out)
    s = symbolic.s

    def ev(x, v, sv):
        """evaluate with the numbers v and s = sv"""
        x = sympy.sympify(x)
        fs = sorted(x.free_symbols, key=str)
        a = []
        for q in fs:
            if q == s:
                a.append(mp.mpc(sv))
            elif q.name in v:
                a.append(mp.mpf(v[q.name]))
            else:
                raise KeyError(q.name)
        return complex(sympy.lambdify(fs, x, modules='mpmath')(*a))

    res = {'keys': [str(k) for k in sol.keys()], 'names': {}, 'val': [], 'tf': None, 'str': len(str(sol))}
    for k in sol.keys():
        res['names'][str(k)] = sorted(str(q) for q in sympy.sympify(sol[k]).free_symbols)
    try:
        for k in range(3):
            v = values(c, k)
            w = freq(c, k)
            res['val'].append(dict((str(n), ev(sol[n], v, 1j * w)) for n in sol.keys()))
        if c['tf']:
            res['tf'] = {}
            if tfs is None:
                return res
            res['tfstr'] = len(str(tfs))
            v = values(c, 0)
            w = freq(c, 0)
            for n in tfs.keys():
                t = tfs[n]
                o = {'fields': sorted(t.keys())}
                o['gain'] = [ev(t['gain'], values(c, k), 1j * freq(c, k)) for k in range(3)]
                try:
                    o['gain0'] = ev(t['gain0'], v, 0) if not t['gain0'].has(sympy.zoo, sympy.nan, sympy.oo) else None
                except (ZeroDivisionError, TypeError):
                    o['gain0'] = None
                for q in ('poles', 'zeros'):
                    try:
                        o[q] = [ev(x, v, float('nan')) for x in t[q]]
                    except (ZeroDivisionError, TypeError, NotImplementedError):
                        o[q] = None
                # the rational function with the numbers in place
                g = sympy.nsimplify(t['gain'], rational=True).xreplace(
                    dict((x, sympy.Rational(v[x.name])) for x in t['gain'].free_symbols if x != s))
                nume, den = sympy.fraction(sympy.cancel(sympy.together(g)))
                o['tp'] = rootsof(sympy, mp, den, s)
                o['tz'] = rootsof(sympy, mp, nume, s) if nume != 0 else None
                res['tf'][str(n)] = o
    except KeyError as e:
        res['unknown'] = str(e)
    return res


def rootsof(sympy, mp, p, s):
    p = sympy.Poly(p, s)
    if p.degree() < 1:
        return []
    p = sympy.Poly(sympy.prod([f[0].as_expr() for f in sympy.sqf_list(p)[1]]), s)
    return [complex(x) for x in mp.polyroots([mp.mpf(q.p) / q.q for q in p.all_coeffs()], maxsteps=500, extraprec=400)]


def freq(c, k):
    """the angular frequency of trial k"""
    r = random.Random(c['seed'] + 77 + k)
    return 10 ** r.uniform(-1, 1) * (1e6 if c['big'] else 1.) if c['ac'] else 0.


def label(k):
    return ('V' + k[1] if k[0] == 'v' else 'I[' + k[1] + ']').upper()


def run(c, mon):
    d = c['d']
    mon.data = {'deck': G.to_text(d)}
    st, r = forked(lambda: compute(c, None), 20, wall=100)
    mon.event('programs')
    mon.seen(G.shape_sig(d))
    if st == 'slow':
        mon.event('slow')
        mon.event('not judged (slow)')
        return
    if st == 'error':
        mon.check(False, 'run', lambda: 'the symbolic analysis of a well-posed circuit failed: %s' % r[-400:])
        return
    if r.get('reload'):
        mon.check(False, 'saved', r['reload'])
        return
    if c['manual'] and c['num'] and not r['keys']:
        # sympy's equation by equation solver verifies its solutions and is misled by round-off
        mon.event('manual solver: no solution with floats')
        return
    S0 = system(c, values(c, 0))
    want = sorted(label(k) for k in S0.names)
    if not mon.check(sorted(x.upper() for x in r['keys']) == want, 'variables', lambda: 'variables %s, expected %s' % (r['keys'], want)):
        return
    if not mon.check('unknown' not in r, 'symbols', lambda: 'unknown symbol in the results: %s (%s)' % (r.get('unknown'), r['names'])):
        return
    for k, fs in r['names'].items():
        byid = dict((e[1].lower(), e) for e in d)
        bad = [a for a in c['subs'] if sym(byid[a.lower()]) in fs]
        mon.check(not bad, 'substituted symbols', lambda: '%s still holds %s' % (k, bad))
        bad = [x for x in c['num'] if x.upper() in fs]
        mon.check(not bad, 'numeric elements', lambda: '%s holds the symbol of the non-symbolic %s' % (k, bad))
    for k in range(3):
        v = values(c, k)
        w = freq(c, k)
        S = system(c, v)
        b = S.rhs(lambda e: e[4])
        x = solve(S, w, b, c['ac'])
        if x is None:
            mon.event('singular')
            continue
        sc = scales(S, w, b, c['ac'])
        for q in S.names:
            g = [r['val'][k][n] for n in r['keys'] if n.upper() == label(q)][0]
            y = x[S.ix[q]]
            mon.check(abs(g - y) <= 1e-6 * sc[q[0]], 'value', lambda: '%s: %r evaluated with numbers, %r expected (trial %d)' % (
                label(q), g, y, k))
    for t in d:
        n = t[1] in c['num']
        if t[0] in 'EFGHRCL' and (c['ac'] or t[0] not in 'CL'):
            mon.event('numeric ' + t[0] if n else t[0])
        if t[0] in 'VI' and n:
            mon.event('numeric source')
        if t[0] == 'K' and c['ac']:
            mon.event('numeric coupling' if n else 'coupling')
        if t[0] == 'M':
            mon.event('mos')
            mon.event('r0s' if c['r0s'] else 'no r0s')
        if t[0] == 'D':
            mon.event('diode')
        if t[0] in 'VEHL' and t[2] == t[3]:
            mon.event('same node')
    mon.event('ac' if c['ac'] else 'dc')
    for k, f in (('gs', 'conductances'), ('manual', 'manual'), ('clash', 'name clash'), ('subs', 'subs')):
        if c[k]:
            mon.event(f)
    if any(a[0] in 'VI' for a in c['subs']):
        mon.event('subs source')
    if c['how'] == 'deck':
        mon.event('deck')
    if c['how'] == 'run':
        mon.event('cli run')
    if c['file'] and c['how'] == 'api':
        mon.event('saved')
    if c['tf']:
        transfer(c, mon, r)
    else:
        mon.check(r['tf'] is None, 'no tf', 'transfer functions without a source')


def solve(S, w, b, ac):
    M = S.A0 + 1j * w * S.A1 if ac else S.A0
    try:
        if np.linalg.cond(M) > 1e9:
            return None
        return np.linalg.solve(M, b)
    except np.linalg.LinAlgError:
        return None


def scales(S, w, b, ac):
    M = S.A0 + 1j * w * S.A1 if ac else S.A0
    inv = np.abs(np.linalg.inv(M))
    m = inv.dot(np.abs(b)) + 1e-6 * inv.max(axis=1) * np.abs(b).max()
    sc = {'v': 1e-12, 'i': 1e-12}
    for q in S.names:
        sc[q[0]] = max(sc[q[0]], m[S.ix[q]])
    return sc


def transfer(c, mon, r):
    mon.event('tf')
    src = [e for e in c['d'] if e[1] == c['tf']][0]
    mon.event('tf ' + src[0])
    if not mon.check(bool(r['tf']), 'tf', 'no transfer functions returned'):
        return
    S0 = system(c, values(c, 0))
    want = sorted(label(k) + '/' + c['tf'].upper() for k in S0.names)
    if not mon.check(sorted(x.upper() for x in r['tf']) == want, 'tf names', lambda: '%s, expected %s' % (sorted(r['tf']), want)):
        return
    t = dict((k.upper(), v) for k, v in r['tf'].items())
    same = [src[1].lower()] + [a.lower() for a, b in c['subs'].items() if b == src[1]]
    for k in range(3):
        S = system(c, values(c, k))
        b = S.rhs(lambda e: 1. if e[1].lower() in same else 0.)
        x = solve(S, freq(c, k), b, c['ac'])
        if x is None:
            continue
        sc = scales(S, freq(c, k), b, c['ac'])
        for q in S.names:
            g = t[label(q) + '/' + c['tf'].upper()]['gain'][k]
            y = x[S.ix[q]]
            mon.check(abs(g - y) <= 1e-6 * sc[q[0]], 'gain', lambda: '%s/%s: gain %r, response to a unit input %r' % (label(q), c['tf'], g, y))
    S = system(c, values(c, 0))
    b = S.rhs(lambda e: 1. if e[1].lower() in same else 0.)
    x = solve(S, 0., b, False)
    for q in S.names:
        o = t[label(q) + '/' + c['tf'].upper()]
        nm = label(q) + '/' + c['tf']
        mon.check(o['fields'] == ['gain', 'gain0', 'poles', 'zeros'], 'tf fields', lambda: str(o['fields']))
        if x is not None and o['gain0'] is not None:
            sc = scales(S, 0., b, False)
            mon.event('gain0')
            mon.check(abs(o['gain0'] - x[S.ix[q]]) <= 1e-6 * sc[q[0]], 'gain0', lambda: '%s: gain0 %r, expected %r' % (nm, o['gain0'], x[S.ix[q]]))
        elif x is not None and 0 not in o['tp']:
            # a common factor s that was not cancelled: 0/0
            mon.event('gain0 indeterminate')
        if c['num']:
            # round-off of the floating point coefficients moves the roots by any amount (degree included)
            mon.event('roots with floats: not judged')
        else:
            judge(mon, nm, o)



def judge(mon, nm, o):
    if o['tz'] is None:
        mon.event('null gain')
        return
    if o['poles'] is None or o['zeros'] is None:
        mon.event('roots not evaluated')
        return
    P, Z, p, z = o['tp'], o['tz'], o['poles'], o['zeros']
    big = max([abs(x) for x in P + Z] + [1e-300])

    def close(x, ys):
        return any(abs(x - y) <= 1e-5 * max(abs(x), abs(y)) + 1e-9 * big for y in ys)
    for what, true, got, other in (('pole', P, p, z), ('zero', Z, z, p)):
        for x in true:
            mon.check(close(x, got), what + 's complete', lambda: '%s: %s %r of the gain is not among the reported %ss %r' % (nm, what, x, what, got))
        for x in got:
            mon.check(close(x, true) or close(x, other), what + 's sound', lambda: '%s: reported %s %r is not one of the gain (%r)' % (nm, what, x, true))
    mon.event('poles' if P else 'no poles')
    if Z:
        mon.event('zeros')
    if any(abs(x.imag) > 1e-6 * abs(x) for x in P):
        mon.event('complex poles')


if __name__ == '__main__':
    pass
