"""C01  DC operating point of linear circuits."""
import numpy as np

from .. import gen as G
from .. import ref, sim

PROP = 'C01'
RULE = ('random well-posed linear circuits (R,V,I,E,G,F,H,C,L,K; 1..10 nodes, some ladder networks '
        'large enough for the sparse solver), OP through the public API; distinct = distinct '
        'topology/element-type signature')
CASES = {'quick': 1200, 'thorough': 16000}
MIN_OK = {'quick': 5000, 'thorough': 50000}
NEED = ['value', 'kcl', 'present', 'big', 'with initial conditions']
ASSUMPTIONS = ['reference: an independent tableau assembled from the element list, solved by LAPACK']


def gen(rng, i, tier):
    if i % 60 == 59:
        return {'kind': 'big', 'n': rng.choice([150, 260, 405, 450]), 's': rng.randrange(10 ** 9)}
    d = G.linear_circuit(rng, reactive=rng.random() < .4, couplings=True,
                         nmax=rng.choice([2, 4, 9, 14]))
    if rng.random() < .3:
        # initial conditions are for transients: they leave the operating point alone
        for e in d:
            if e[0] in 'CL' and rng.random() < .7:
                e[5] = G.rnd3(rng.uniform(-3, 3) * (1. if e[0] == 'C' else 1e-3))
    return {'kind': 'rand', 'd': d}


def big(case):
    import random
    rng = random.Random(case['s'])
    n = case['n']
    d = [['V', 'V1', 'n1', '0', 5.0, 0, None]]
    for k in range(1, n):
        d.append(['R', 'Ra%d' % k, 'n%d' % k, 'n%d' % (k + 1), G.rnd3(G.logu(rng, 10, 1e4))])
        d.append(['R', 'Rb%d' % k, 'n%d' % (k + 1), '0', G.rnd3(G.logu(rng, 1e3, 1e6))])
        if k % 40 == 7:
            d.append(['I', 'I%d' % k, 'n%d' % rng.randint(1, n), '0', G.rnd3(rng.uniform(-1e-3, 1e-3)), 0, None])
        if k % 50 == 11:
            d.append(['G', 'G%d' % k, 'n%d' % k, '0', 'n%d' % rng.randint(1, n), '0', 1e-5])
        if k % 60 == 13:
            d.append(['E', 'E%d' % k, 'e%d' % k, '0', 'n%d' % k, '0', 1.5])
            d.append(['R', 'Re%d' % k, 'e%d' % k, '0', 1e3])
        if k % 45 == 9:
            d.append(['L', 'L%d' % k, 'n%d' % k, 'l%d' % k, 1e-6, None])
            d.append(['R', 'Rl%d' % k, 'l%d' % k, '0', 1e5])
    rng.shuffle(d)
    return d


def run(case, mon):
    d = big(case) if case['kind'] == 'big' else case['d']
    mon.seen(case['kind'], G.shape_sig(d) if len(d) < 60 else case['n'])
    c = G.to_api(d)
    r = sim.op(c)
    mon.sample({'elements': d[:12], 'n': len(d)})
    if not mon.check(r is not None, 'solved', 'OP of a well-posed linear circuit returned no solution'):
        return
    if any(e[0] == 'H' for e in d):
        doc = Probe()
        try:
            S = ref.System(d, h_sign=1.0)
            check_op(d, S, S.op(), r, doc)
            bad = bool(doc.bad)
        except np.linalg.LinAlgError:
            bad = True
        if not bad:
            mon.ok('ccvs_documented_sign')
            return
        p = Probe()
        S = ref.System(d)
        check_op(d, S, S.op(), r, p)
        if not p.bad:
            mon.finding('KF1', 'CCVS: V(n1)-V(n2) = -alpha*I(source), documented +alpha*I(source)')
    S = ref.System(d)
    check_op(d, S, S.op(), r, mon)
    if any(e[0] in 'CL' and e[5] is not None for e in d):
        mon.event('with initial conditions')
    if case['kind'] == 'big':
        mon.ok('big')


class Probe(object):
    """A monitor that only remembers whether anything failed."""
    def __init__(self):
        self.bad = 0

    def ok(self, *a, **k):
        pass

    def fail(self, *a, **k):
        self.bad += 1

    def check(self, cond, *a, **k):
        if not cond:
            self.bad += 1
        return bool(cond)


def check_op(d, S, x, r, mon, pre='', rtol=1e-6):
    miss = []
    bad = []
    # error bound: conditioning of the system times roundoff, plus the gmin shunts
    Ainv = np.linalg.inv(S.A0)
    vmax = max(1e-12, max([abs(S.v(x, n)) for n in S.nodes] or [0.]))
    gerr = np.abs(Ainv[:, :len(S.nodes)]).sum(axis=1) * 1e-12 * vmax * 4
    got = np.zeros(S.N)
    for k, i in S.ix.items():
        v = sim.get(r, k)
        if v is None:
            miss.append(k)
            continue
        got[i] = v
        tol = rtol * abs(x[i]) + gerr[i] + 1e-9 * (vmax if k[0] == 'v' else np.abs(x[len(S.nodes):]).max()) + 1e-13
        if not abs(v - x[i]) <= tol:
            bad.append((k, v, x[i], tol))
    mon.check(not miss, pre + 'present', 'unknowns missing from the OP results: %s' % miss, d=d)
    if bad:
        mon.fail(pre + 'value', 'OP differs from the circuit equations: %s' % (bad[:4],), d=d)
        return
    mon.ok(pre + 'value', S.N)
    if not miss:
        b = S.rhs(ref.dc_value).real
        resid = np.abs(S.A0.dot(got) - b)
        lim = 1e-6 * (np.abs(S.A0).dot(np.abs(got)) + np.abs(b)) + 1e-11 * vmax + 1e-13
        w = int(np.argmax(resid / lim))
        mon.check((resid <= lim).all(), pre + 'kcl', 'KCL/KVL/element law violated at %s: residual %g'
                  % (S.names[w], resid[w]), d=d)
