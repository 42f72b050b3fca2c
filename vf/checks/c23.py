"""C23  results are invariant under transformations of the description."""
import copy

import numpy as np
import scipy.linalg

from .. import gen as G
from .. import nl, ref, sim
from . import c02, c07

PROP = 'C23'
RULE = ('random linear and nonlinear circuits and random chains of transformations that keep the physics (renaming nodes and elements, reordering elements, exchanging terminals of passive '
        'elements, reversing sources and ports, series/parallel splitting, zero-volt sources, dense or sparse solver), and superposition/scaling of the sources of linear circuits; '
        'every analysis of both descriptions is run and each voltage and current compared; distinct = distinct (topology, transformation chain, analysis) signatures')
CASES = {'quick': 1000, 'thorough': 24000}
MIN_OK = {'quick': 20000, 'thorough': 400000}
TR = ['nodes', 'elements', 'order', 'swap', 'reverse', 'ports', 'series', 'parallel', 'zero', 'solver']
NEED = TR + ['superposition', 'scaling', 'op', 'ac', 'tran', 'dc', 'nonlinear', 'adaptive', 'tran waveform', 'coupled']
CASE_LIMIT = 90.0
ASSUMPTIONS = ['linear results agree to 1e-6 of the largest voltage/current (rounding of differently ordered eliminations), nonlinear ones to the Newton tolerances',
               'the documented gmin and cmin at additional nodes stay below that']


def gen(rng, i, tier):
    c = {'seed': rng.randrange(1 << 40), 'm': []}
    r3 = G.rnd3
    if i % 5 == 4:
        c['kind'] = 'nl'
        fam = c02.EASY[(i // 5) % len(c02.EASY)]
        c['d'], c['m'] = c02.easy(rng, fam)
        c['an'] = rng.choice(['op', 'op', 'dc', 'ac', 'tran'])
        if c['an'] in ('ac', 'tran'):
            ns = sorted(set(n for e in c['d'] for n in ref.elem_nodes(e)) - {'0'})
            c['d'].append(['C', 'Cnl', rng.choice(ns), '0', 1e-9, None])
            if c['an'] == 'ac':
                v = rng.choice([e for e in c['d'] if e[0] in 'VI'])
                v[5] = 1. if v[0] == 'V' else 1e-6
        return c
    c['kind'] = 'sum' if i % 5 == 3 else 'lin'
    c['an'] = ['op', 'ac', 'tran', 'dc', 'ac', 'tran'][i % 6]
    re = c['an'] in ('ac', 'tran') or rng.random() < .4
    if c['an'] == 'tran':
        c['T'] = r3(G.logu(rng, 1e-5, 1e-3))
    while True:
        circuit(rng, c, re)
        # circuits that amplify the last bit beyond measure have no reproducible transient
        if c['an'] != 'tran' or growth(c['d']) * c['T'] < 4:
            break
    if c['an'] == 'tran':
        for e in c['d']:
            if e[0] in 'VI' and rng.random() < .6:
                e[6] = c07.src_fn(rng, c['T'], e[0])
        c['method'] = rng.choice(['TRAP', 'IMPLICIT_EULER', 'GEAR2', 'GEAR4'])
        c['x0'] = rng.choice(['op', None]) if c['kind'] == 'lin' else None
        c['adapt'] = c['x0'] == 'op' and rng.random() < .3
        if c['adapt']:
            c['slow_ok'] = 6.
            # variable steps from a state the sources contradict are very many
            for e in c['d']:
                if e[0] in 'VI' and e[6]:
                    e[4] = ref.eval_fn(e[6], 0.)
    if c['an'] == 'dc':
        c['src'] = rng.choice([e[1] for e in c['d'] if e[0] in 'VI'])
    return c


def growth(d):
    S = ref.System(d)
    w = scipy.linalg.eigvals(S.A0, -S.A1)
    w = w[np.isfinite(w)]
    w = w[abs(w) < 1e13]
    return max([0.] + list(w.real))


def circuit(rng, c, re):
    c['d'] = G.linear_circuit(rng, reactive=re, sources='ac' if c['an'] == 'ac' else 'dc', couplings=True, neg=0, rlo=100, rhi=1e4, alpha=2., clo=1e-10, chi=1e-7, llo=1e-6, lhi=1e-2,
                              maxcond=1e7)


# ----------------------------------------------------------- transformations
class Map(object):
    """where each quantity of the original description is in the new one"""

    def __init__(self, d):
        S = ref.System([e for e in d if e[0] not in 'DMS'])
        ns = sorted(set(n for e in d if e[0] != 'K' for n in ref.elem_nodes(e)) - {'0'})
        self.keys = [('v', n) for n in ns] + [('i', e[1]) for e in d if e[0] in ref.BR]
        self.to = dict((k, (k, 1.)) for k in self.keys)
        self.src = dict((e[1], (e[1], 1.)) for e in d if e[0] in 'VI')

    def ren(self, f):
        for k, (q, s) in self.to.items():
            self.to[k] = (f(q), s)

    def flip(self, q):
        for k, (p, s) in self.to.items():
            if p == q:
                self.to[k] = (p, -s)


def mapnodes(e, f):
    if e[0] != 'K':
        ks = [2, 3, 4, 5] if e[0] in 'EGMS' else [2, 3]
        for k in ks:
            e[k] = f(e[k])


def negfn(fn, s):
    if fn is None:
        return None
    fn = copy.deepcopy(fn)
    for k in ('vo', 'va', 'v1', 'v2', 'sa', 'y'):
        if k in fn[1]:
            fn[1][k] = [s * y for y in fn[1][k]] if k == 'y' else s * fn[1][k]
    return fn


def scale(e, s):
    e[4] = s * e[4]
    e[5] = [s * x for x in e[5]] if isinstance(e[5], list) else s * e[5]
    e[6] = negfn(e[6], s)


def transform(rng, d, M, t):
    ids = set(e[1] for e in d)
    if t == 'nodes':
        ns = sorted(set(n for e in d if e[0] != 'K' for n in ref.elem_nodes(e)) - {'0'})
        style = rng.choice(['n%d', '%d', 'net%d_', 'N%dx', 'a-%d', 'x%d'])
        new = rng.sample(range(1, 5 * len(ns) + 5), len(ns))
        mp = {'0': '0'}
        for n, k in zip(ns, new):
            mp[n] = style % k
        for e in d:
            mapnodes(e, lambda n: mp[n])
        M.ren(lambda q: (q[0], mp[q[1]]) if q[0] == 'v' else q)
    elif t == 'elements':
        mp = {}
        new = rng.sample(range(1, 5 * len(d) + 5), len(d))
        style = rng.choice(['%d', 'new%d', '_%d_', 'Q%dx'])
        for e, k in zip(d, new):
            mp[e[1]] = e[0] + style % k
        for e in d:
            e[1] = mp[e[1]]
            if e[0] in 'FH':
                e[4] = mp[e[4]]
            if e[0] == 'K':
                e[2], e[3] = mp[e[2]], mp[e[3]]
        M.ren(lambda q: (q[0], mp[q[1]]) if q[0] == 'i' else q)
        for k, (q, s) in M.src.items():
            M.src[k] = (mp[q], s)
    elif t == 'order':
        ks = [e for e in d if e[0] == 'K']
        rest = [e for e in d if e[0] != 'K']
        rng.shuffle(rest)
        rng.shuffle(ks)
        d[:] = rest + ks
    elif t == 'swap':
        coupled = set(x for e in d if e[0] == 'K' for x in e[2:4])
        for e in d:
            if rng.random() < .6:
                if e[0] in 'RC':
                    e[2], e[3] = e[3], e[2]
                elif e[0] == 'L' and e[1] not in coupled:
                    e[2], e[3] = e[3], e[2]
                    M.flip(('i', e[1]))
        for e in d:
            if e[0] == 'K' and rng.random() < .5:
                e[2], e[3] = e[3], e[2]
    elif t == 'reverse':
        for e in d:
            if e[0] in 'VI' and rng.random() < .6:
                e[2], e[3] = e[3], e[2]
                scale(e, -1.)
                for k, (q, s) in M.src.items():
                    if q == e[1]:
                        M.src[k] = (q, -s)
                if e[0] == 'V':
                    M.flip(('i', e[1]))
                    for x in d:
                        if x[0] in 'FH' and x[4] == e[1]:
                            x[5] = -x[5]
    elif t == 'ports':
        for e in d:
            if e[0] in 'EG' and rng.random() < .7:
                r = rng.randrange(3)
                if r != 1:
                    e[2], e[3] = e[3], e[2]
                    if e[0] == 'E':
                        M.flip(('i', e[1]))
                if r != 0:
                    e[4], e[5] = e[5], e[4]
                if r != 2:
                    e[6] = -e[6]
            elif e[0] in 'FH' and rng.random() < .7:
                e[2], e[3] = e[3], e[2]
                e[5] = -e[5]
                if e[0] == 'H':
                    M.flip(('i', e[1]))
    elif t in ('series', 'parallel'):
        coupled = set(x for e in d if e[0] == 'K' for x in e[2:4])
        cand = [e for e in d if e[0] in 'RC' or (e[0] == 'L' and e[1] not in coupled and t == 'series')]
        if not cand:
            return False
        e = rng.choice(cand)
        f = list(e)
        f[1] = fresh(e[0], ids)
        k = rng.uniform(.2, .8)
        if (e[0] == 'C') == (t == 'parallel') or e[0] == 'L':
            if e[0] == 'C' and t == 'series':
                return False
            e[4], f[4] = e[4] * k, f[4] * (1 - k)
        else:
            if e[0] == 'C':
                return False       # an inner node without a path to ground
            e[4], f[4] = e[4] / k, f[4] / (1 - k)
        if t == 'series':
            x = 'mid%d' % len(d)
            e[3] = x
            f[2] = x
        d.insert(rng.randrange(len([q for q in d if q[0] != 'K']) + 1), f)
    elif t == 'zero':
        cand = [e for e in d if e[0] in 'RCDVI']
        e = rng.choice(cand)
        x = 'zv%d' % len(d)
        v = ['V', fresh('V', ids), e[2], x, 0., 0, None]
        e[2] = x
        if rng.random() < .5:
            v[2], v[3] = v[3], v[2]
        d.insert(0, v)
    return True


def fresh(t, ids):
    k = 1
    while t + 'new%d' % k in ids or t + 'new%d' % k in [x for x in ids]:
        k += 1
    ids.add(t + 'new%d' % k)
    return t + 'new%d' % k


# ------------------------------------------------------------------ analyses
def simulate(d, m, c, opt, M=None, sweep=None):
    A = sim.api()
    circ = G.to_api(d, models=m)
    o = sim.outname('meta')
    an = c['an']
    kw = dict(outfile=o, verbose=0)
    try:
        if an == 'op':
            spec = A.new_op(**kw)
        elif an == 'ac':
            spec = A.new_ac(start=1e2, stop=1e6, points=5, sweep_type='LOG', **kw)
        elif an == 'dc':
            q, s, a, b = sweep
            spec = A.new_dc(s * a, s * b, 4, q, 'LINEAR', **kw)
        elif c['kind'] == 'nl':
            spec = A.new_tran(0., 2e-6, 1e-7, x0=None, use_step_control=False, **kw)
        else:
            T = c['T']
            spec = A.new_tran(0., T, T / 40, x0=c['x0'], use_step_control=c['adapt'], method=c['method'], **kw)
        with c02.options(opt):
            try:
                r = A.run(circ, spec).get(an)
            except (RuntimeError, ValueError) as e:
                # a reported failure: judged elsewhere
                return None
        if r is None:
            return None
        out = {}
        for e in d:
            if e[0] in ref.BR:
                out[('i', e[1])] = np.ravel(np.asarray(r['I(%s)' % e[1]]))
            if e[0] != 'K':
                for n in ref.elem_nodes(e):
                    if n != '0':
                        out[('v', n)] = np.ravel(np.asarray(r['V' + n])) if ('v', n) not in out else out[('v', n)]
        if an in ('tran', 'ac', 'dc'):
            out['x'] = np.ravel(np.asarray(r.get_x()))
        return out
    finally:
        sim.cleanup(o)


def run(c, mon):
    import random
    rng = random.Random(c['seed'])
    d, m = c['d'], c['m']
    opt = {}
    if c['kind'] == 'nl':
        opt = {'dc_max_nr_iter': 400, 'ver': 1e-5, 'vea': 1e-7, 'ier': 1e-5, 'iea': 1e-10, 'transient_max_nr_iter': 60}
    sweep = None
    if c['an'] == 'dc':
        src = c.get('src') or rng.choice([e[1] for e in d if e[0] in 'VI'])
        t = [e for e in d if e[1] == src][0][0]
        if c['kind'] == 'nl':
            v = [e for e in d if e[1] == src][0][4]
            a, b = v, v * 1.2 + (0 if v else .1)
            if not v and t == 'I':
                a, b = 0., 1e-5
        else:
            a, b = rng.uniform(-2, 0) * (1 if t == 'V' else 1e-3), rng.uniform(0, 2) * (1 if t == 'V' else 1e-3)
        sweep = (src, 1., a, b)
        if any(k.lower() == src[1:].lower() for e in d if e[0] != 'K' for k in ref.elem_nodes(e)):
            sweep = None
            c['an'] = 'op'
    base = simulate(d, m, c, opt, sweep=sweep)
    if base is None:
        mon.event('failed')
        return
    if any(e[0] == 'K' for e in d):
        mon.event('coupled')
    mon.event(c['an'])
    if c['an'] == 'tran' and any(e[0] in 'VI' and e[6] for e in d):
        mon.event('tran waveform')
    if c['kind'] == 'nl':
        mon.event('nonlinear')
    if c['kind'] == 'sum':
        return sums(rng, c, d, opt, base, sweep, mon)
    for rep in range(3):
        e = copy.deepcopy(d)
        M = Map(d)
        op2 = dict(opt)
        chain = [t for t in rng.sample(TR, rng.choice([1, 1, 2, 4]))]
        if c['kind'] == 'nl':
            # a device may need its nodes as they are
            chain = [t for t in chain if t not in ('series', 'parallel')] or ['order']
        done = []
        for t in chain:
            if t == 'solver':
                op2['dense_matrix_limit'] = 1
                done.append(t)
            elif transform(rng, e, M, t):
                done.append(t)
        if not done:
            continue
        sw = None
        if sweep:
            q, s = M.src[sweep[0]]
            sw = (q, s, sweep[2], sweep[3])
            if any(k.lower() == q[1:].lower() for x in e if x[0] != 'K' for k in ref.elem_nodes(x)):
                continue
        got = simulate(e, m, c, op2, sweep=sw)
        if got is None:
            if c['kind'] == 'nl' or c['an'] == 'tran':
                mon.event('failed')
            else:
                mon.fail('failed', '%s fails after %s' % (c['an'], done))
            continue
        for t in done:
            mon.event(t)
        mon.seen((G.shape_sig(d), tuple(done), c['an']))
        compare(mon, c, base, got, M, sw[1] if sw else 1., '%s after %s' % (c['an'], '+'.join(done)))


def compare(mon, c, base, got, M, sweepsign, what):
    if c['an'] in ('tran', 'ac', 'dc'):
        x, y = base['x'], got['x'] * sweepsign
        same = x.shape == y.shape and np.allclose(x, y, rtol=1e-6, atol=1e-12 * np.abs(x).max())
        if c.get('adapt') and not same:
            # rounding moved an adaptive step: other points
            mon.event('other steps')
            return
        if c.get('adapt'):
            mon.event('adaptive')
        if not mon.check(same, 'axis', lambda: '%s: the axis changes' % what):
            return
    for kind in 'vi':
        ks = [k for k in M.keys if k[0] == kind]
        if not ks:
            continue
        sc = max(np.abs(base[k]).max() for k in ks)
        for k in ks:
            q, s = M.to[k]
            w, g = base[k], s * got[q]
            if c.get('adapt'):
                tol = 1e-4 * sc + (1e-9 if kind == 'v' else 1e-12)
            elif c['kind'] == 'nl':
                tol = 2e-4 * sc + (1e-5 if kind == 'v' else 1e-8)
            else:
                tol = 1e-6 * sc + (1e-9 if kind == 'v' else 1e-12)
            err = np.abs(w - g).max()
            mon.check(err <= tol, 'invariance', lambda: '%s: %s(%s) was %r and is %r (largest difference %g, tolerated %g)' % (what, k[0], k[1], w[:5], g[:5], err, tol))


def sums(rng, c, d, opt, base, sweep, mon):
    """superposition and scaling"""
    srcs = [e[1] for e in d if e[0] in 'VI']
    keys = [k for k in base if k != 'x']
    M = Map(d)
    if c.get('adapt'):
        c['adapt'] = False
        base = simulate(d, [], c, opt, sweep=sweep)
    k = rng.choice([-1., 2., -3.5, .1])
    e = copy.deepcopy(d)
    for x in e:
        if x[0] in 'VI':
            scale(x, k)
    got = simulate(e, [], c, opt, sweep=(sweep[0], k) + sweep[2:] if sweep else None)
    if base is None or got is None:
        mon.event('failed')
        return
    mon.event('scaling')
    mon.seen((G.shape_sig(d), 'scale', c['an'], k))
    compare(mon, c, base, dict((q, v / k if q != 'x' else v) for q, v in got.items()), M, 1. / k if sweep else 1., '%s with all sources scaled by %g' % (c['an'], k))
    if len(srcs) < 2:
        return
    part = rng.sample(srcs, rng.randint(1, len(srcs) - 1))
    tot = None
    for grp in (part, [s for s in srcs if s not in part]):
        e = copy.deepcopy(d)
        for x in e:
            if x[0] in 'VI' and x[1] not in grp:
                scale(x, 0.)
                x[6] = None
        sw = sweep
        if sweep and sweep[0] not in grp:
            sw = (sweep[0], 0., 0., 0.)
            c2 = dict(c, an='op')
            got = simulate(e, [], c2, opt)
        else:
            got = simulate(e, [], c, opt, sweep=sw)
        if got is None:
            mon.event('failed')
            return
        if tot is None:
            tot = dict(got)
        else:
            for q in keys:
                tot[q] = tot[q] + got[q]
            if 'x' in got:
                tot['x'] = got['x']
    mon.event('superposition')
    mon.seen((G.shape_sig(d), 'sup', c['an'], tuple(sorted(part))))
    compare(mon, c, base, tot, M, 1., '%s as the sum of those of %s and of the other sources' % (c['an'], part))
