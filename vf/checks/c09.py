"""C09  transient initial conditions."""
import math
import os

import numpy as np

from .. import gen as G
from .. import nl, ref, sim
from . import c02, c07

PROP = 'C09'
RULE = ('random linear and nonlinear circuits with capacitors and inductors, started from zero, the operating point, the operating point adjusted by element '
        'initial conditions (compatible sets: grounded in either direction, chains, floating, zero values) and user-supplied voltages and currents, through objects, '
        'queued analyses and .tran/.ic lines; the first reported point must be one implicit Euler step away from exactly the expected state; '
        'distinct = distinct (topology, start mode, route, set of conditions) signature')
CASES = {'quick': 700, 'thorough': 12000}
MIN_OK = {'quick': 1400, 'thorough': 25000}
NEED = ['zero', 'op', 'opic', 'user', 'obj', 'list', 'queue', 'net', 'start', 'x0vector', 'capic', 'indic', 'chain', 'zeroic', 'nonlinear']
CASE_LIMIT = 60.0
ASSUMPTIONS = ['the element initial conditions of a case are compatible with each other, and no capacitor without one shares a node (ground excepted) with one that has one: '
               'only then does the documentation define the start state',
               'the first transient step is an implicit Euler step']

MODES = ['zero', 'op', 'opic', 'user', 'opic', 'user']


def gen(rng, i, tier):
    r3 = G.rnd3
    mode = MODES[i % 6]
    route = rng.choice({'zero': ['obj', 'net', 'net'], 'op': ['obj', 'list', 'queue', 'net'], 'opic': ['obj', 'arr', 'list', 'queue', 'net'],
                        'user': ['obj', 'obj', 'net']}[mode])
    c = {'mode': mode, 'route': route, 'm': [], 'method': rng.choice(['TRAP', 'IMPLICIT_EULER', 'GEAR2', 'GEAR4'])}
    c['nl'] = i % 4 == 3
    if c['nl']:
        fam = rng.choice(['dres', 'mosamp', 'invq', 'inve', 'mirror', 'bridge', 'diodeconn'])
        d, c['m'] = c02.easy(rng, fam)
        if route == 'net':
            c['route'] = route = 'obj'
        T = float('%.3g' % G.logu(rng, 1e-7, 1e-3))
        nodes = sorted(set(n for e in d for n in ref.elem_nodes(e) if n != '0'))
        for k in range(rng.randint(1, 3)):
            a = rng.choice(nodes)
            b = rng.choice(['0'] + [n for n in nodes if n != a])
            if rng.random() < .5:
                a, b = b, a
            d.append(['C', 'Cx%d' % k, a, b, r3(T / 1e4 * rng.uniform(.05, 2)), None])
        a = rng.choice(nodes)
        d += [['L', 'Lx', a, 'lxx', r3(T * 1e2 * rng.uniform(.1, 2)), None], ['R', 'RLx', 'lxx', '0', r3(rng.uniform(500, 5e3))]]
        h = T / 20
    else:
        d, w = c07.scaled(rng, need1=False, nmax=7)
        h = 1. / math.exp(rng.uniform(math.log(np.abs(w).min()), math.log(np.abs(w).max()))) * rng.uniform(.03, .5)
        nodes = sorted(set(n for e in d for n in ref.elem_nodes(e) if n != '0'))
        if mode == 'opic' and rng.random() < .7:
            # series chains and grounded capacitors in both directions
            a = '0' if rng.random() < .7 else rng.choice(nodes)
            for k in range(rng.randint(1, 3)):
                b = 'chn%d' % k
                n1, n2 = (a, b) if rng.random() < .5 else (b, a)
                d.append(['C', 'Cchn%d' % k, n1, n2, r3(G.logu(rng, 1e-9, 1e-7)), None])
                d.append(['R', 'Rchn%d' % k, b, rng.choice(nodes + ['0']), r3(G.logu(rng, 100, 1e4))])
                a = b
            rng.shuffle(d)
            d = [e for e in d if e[0] != 'K'] + [e for e in d if e[0] == 'K']
        for e in d:
            if e[0] in 'VI' and rng.random() < .5:
                e[6] = c07.src_fn(rng, h * 20, e[0])
                if route == 'net' and e[6][0] == 'pwl':
                    e[6] = None
                else:
                    e[4] = ref.eval_fn(e[6], 0.)
    h = r3(h)
    c['h'], c['n'] = h, rng.randint(1, 3)
    c['t0'] = 0. if c['nl'] or rng.random() < .7 else r3(h * rng.uniform(1, 300))
    c['adaptive'] = not c['nl'] and mode in ('zero', 'op') and c07.regular(d) and rng.random() < .5
    if mode == 'opic' or rng.random() < .3:
        # element initial conditions (must be ignored in the other modes)
        uf = G.UF()
        for e in d:
            if e[0] == 'C' and e[2] != '0' and e[3] != '0':
                uf.union(e[2], e[3])
        has = {}
        loop = G.UF()
        for e in d:
            if e[0] != 'C':
                continue
            g = uf.find(e[2] if e[2] != '0' else e[3])
            has.setdefault(g, rng.random() < .7)
            if has[g]:
                e[5] = None if not loop.union(e[2], e[3]) else (0. if rng.random() < .12 else r3(rng.uniform(-5, 5)))
                if e[5] is None:
                    has[g] = 'loop'
        for e in d:       # components with loops of capacitors: only consistent without conditions
            if e[0] == 'C' and has.get(uf.find(e[2] if e[2] != '0' else e[3])) == 'loop':
                e[5] = None
        for e in d:
            if e[0] == 'L' and rng.random() < .6:
                e[5] = 0. if rng.random() < .12 else r3(rng.uniform(-1, 1) * 1e-2)
    S = ref.System(d, models=c['m']) if False else None
    if mode == 'user':
        names = nl.NL(d, c['m'], gmin=1e-12).S.names
        full = rng.random() < .3
        c['user'] = [[k[0], k[1], r3(rng.uniform(-4, 4) * (1 if k[0] == 'v' else 1e-3))] for k in names if full or rng.random() < .5]
        rng.shuffle(c['user'])
        c['label'] = rng.choice(['ic1', 'start', 'osc_1'])
    c['d'] = d
    return c


def run(c, mon):
    o = sim.outname('tran')
    try:
        run_(c, mon, o)
    finally:
        sim.cleanup(o)


def key(k, v):
    return '%s(%s)' % (k[0].upper(), k[1])


def run_(c, mon, o):
    A = sim.api()
    d, h = c['d'], c['h']
    N = nl.NL(d, c['m'], gmin=1e-12)
    S = N.S
    mode, route = c['mode'], c['route']
    circ = G.to_api(d, models=c['m'])
    xv = np.zeros(S.N)
    opx = None
    if mode in ('op', 'opic'):
        opr = sim.op(circ)
        if opr is None:
            mon.event('op_failed')
            return
        opx, miss = nl.vector(S, opr, sim)
        xv = opx.copy()
    user = {}
    if mode == 'user':
        for a, b, v in c['user']:
            user['%s(%s)' % (a.upper(), b)] = v
            xv[S.ix[(a, b)]] = v
    t0, t1 = c['t0'], c['t0'] + c['n'] * h
    kw = dict(method=c['method'], use_step_control=c['adaptive'], outfile=o, verbose=0)
    if route == 'net':
        extra = []
        if mode in ('op', 'opic'):
            extra.append('.op')
        uic = {'zero': 0, 'op': 1, 'opic': 2, 'user': 3}[mode]
        line = '.tran tstep=%r tstop=%r' % (h, t1)
        if t0:
            line += ' tstart=%r' % t0
        if uic or len(d) % 2:
            line += ' uic=%d' % uic
        if mode == 'user':
            line += ' ic_label=%s' % c['label']
            extra.append('.ic name=%sx %s' % (c['label'], ' '.join('%s=%r' % (k, v + 1.) for k, v in user.items())))
            extra.append('.ic name=%s %s' % (c['label'], ' '.join('%s=%r' % (k, v) for k, v in user.items())))
        line += ' method=%s' % c['method'].lower()
        extra.append(line)
        f = o + '.ckt'
        open(f, 'w').write(G.to_text(d, models=c['m'], extra=extra))
        with c02.options({'transient_no_step_control': not c['adaptive']}):
            r = A.main(f, outfile=o, verbose=0).get('tran')
    else:
        x0 = None
        pre = []
        if mode == 'user':
            x0 = A.new_x0(circ, user)
            chk(mon, S, circ, x0, xv, 'new_x0', o)
        elif mode == 'op':
            if route == 'obj':
                x0 = A.get_op_x0(circ) if len(d) % 2 else opr
            else:
                x0 = 'op'
        elif mode == 'opic':
            if route == 'obj':
                x0 = A.icmodified_x0(circ, opr)
            elif route == 'arr':
                x0 = A.icmodified_x0(circ, np.array(opr.asarray(), dtype=float))
            else:
                x0 = 'op+ic'
        if route in ('list', 'queue'):
            pre = [A.new_op(outfile=o, verbose=0)]
        an = A.new_tran(t0, t1, h, x0=x0, **kw)
        if route == 'queue':
            A.queue(*(pre + [an]))
            r = A.run(circ).get('tran')
        else:
            r = A.run(circ, pre + [an]).get('tran')
    if r is None:
        if c['nl']:
            mon.event('failed_run')
            return
        mon.fail('start', 'the transient analysis of a regular circuit returned no result (start from %s, %s)' % (mode, route))
        return
    ts, X = c07.data(S, r, mon)
    if mode == 'opic':
        xv, n = adjust(d, S, xv, mon)
        if route in ('obj', 'arr'):
            y, _ = (nl.vector(S, x0, sim) if route == 'obj' else (None, None))
            if y is not None:
                states(mon, d, S, y, xv, 'icmodified_x0')
    for e in ('nonlinear',) if c['nl'] else ():
        mon.event(e)
    mon.event(mode)
    mon.event('obj' if route == 'arr' else route)
    mon.seen((G.shape_sig(d), mode, route, c['adaptive'], tuple(sorted((e[1], e[5] == 0) for e in d if e[0] in 'CL' and e[5] is not None))))
    ts = np.concatenate(([t0], ts))[:2]
    X = np.vstack((xv, X))[:2]
    if not mon.check(ts[1] > ts[0] and bool(np.all(np.isfinite(X))), 'start', 'bad first point'):
        return
    cc = {'method': 'IMPLICIT_EULER', 'm': c['m'], 'd': d}
    c07.check_formula(Tag(mon, '%s start via %s: ' % (mode, route)), cc, N, ts, X, 'nl_formula' if c['nl'] else 'formula')
    # user vectors are used as given: also visible as the first operating point of the result


class Tag(object):
    """renames the evaluations of the shared formula checker"""

    def __init__(self, mon, pre):
        self.m, self.p = mon, pre

    def check(self, cond, kind, msg):
        return self.m.check(cond, 'start', lambda: self.p + 'the first step does not start from the expected state: ' + (msg() if callable(msg) else msg))


def chk(mon, S, circ, x0, xv, what, o):
    """the vector handed to the analysis, through the public transient result object"""
    from ahkab import results
    r = results.op_solution(x=np.array(x0, dtype=float), error=np.zeros(x0.shape), circ=circ, outfile=o + '.x0')
    y, _ = nl.vector(S, r, sim)
    k = int(np.argmax(np.abs(y - xv)))
    mon.check(bool(np.all(y == xv)), 'x0vector', lambda: '%s: %s is %r, not %r' % (what, sim.label(S.names[k]), y[k], xv[k]))


def states(mon, d, S, y, xv, what):
    def v(x, n):
        return 0. if n == '0' else x[S.ix[('v', n)]]
    for e in d:
        if e[0] == 'C':
            a, b = v(y, e[2]) - v(y, e[3]), v(xv, e[2]) - v(xv, e[3])
        elif e[0] == 'L':
            a, b = y[S.ix[('i', e[1])]], xv[S.ix[('i', e[1])]]
        else:
            continue
        mon.check(abs(a - b) <= 1e-9 * (1 + abs(b)), 'x0vector', lambda: '%s: the state of %s is %r, expected %r' % (what, e[1], a, b))


def adjust(d, S, x, mon):
    """expected state: every condition holds, untouched components as in the operating point"""
    x = x.copy()
    caps = [e for e in d if e[0] == 'C' and e[5] is not None]
    done = set(['0'])
    v = lambda n: 0. if n == '0' else x[S.ix[('v', n)]]
    if any(sum(1 for f in caps if n in f[2:4]) > 1 for e in caps for n in e[2:4] if n != '0'):
        mon.event('chain')
    todo = list(caps)
    while todo:
        e = next((e for e in todo if e[2] in done or e[3] in done), todo[0])
        todo.remove(e)
        if e[2] not in done:
            x[S.ix[('v', e[2])]] = v(e[3]) + e[5]
        elif e[3] not in done:
            x[S.ix[('v', e[3])]] = v(e[2]) - e[5]
        done.update(e[2:4])
    for e in caps:
        mon.event('capic')
        if e[5] == 0:
            mon.event('zeroic')
        assert abs(v(e[2]) - v(e[3]) - e[5]) < 1e-9
    for e in d:
        if e[0] == 'L' and e[5] is not None:
            mon.event('indic')
            x[S.ix[('i', e[1])]] = e[5]
    return x, len(caps)
