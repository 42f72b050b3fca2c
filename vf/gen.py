"""Random circuit descriptions (see vf.ref) and builders (API / netlist text)."""
import math

from . import ref

GND = '0'


def logu(rng, lo, hi):
    return 10 ** rng.uniform(math.log10(lo), math.log10(hi))


def rnd3(x):
    """3-5 significant digits: exactly representable as netlist text."""
    return float('%.4g' % x)


class UF(object):
    def __init__(self):
        self.p = {}

    def find(self, a):
        self.p.setdefault(a, a)
        while self.p[a] != a:
            a = self.p[a]
        return a

    def union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a == b:
            return False
        self.p[a] = b
        return True


NAMES = ['n%d', '%d', 'net_%d', 'Out%d', 'x%dy', 'in%d-', 'b%d+', 'N%dA']


LOOKALIKE = ['1', '11', '10', '111', '1a', '01', 'a1', 'a', 'ab', '1_', '_1', '2', '12', '21']


def node_names(rng, n):
    style = rng.randrange(3)
    out = []
    for i in range(1, n + 1):
        f = NAMES[1] if style == 0 else (NAMES[0] if style == 1 else rng.choice(NAMES))
        nm = f % (i if style else i)
        if nm in out or nm == '0':
            nm = 'u%d' % i
        out.append(nm)
    return out


def linear_circuit(rng, nn=None, reactive=False, sources='dc', ctrl=True, couplings=False,
                   rlo=1e1, rhi=1e5, neg=0.05, extra=None, allow_self_ctrl=True, maxcond=1e10,
                   clo=1e-12, chi=1e-6, llo=1e-9, lhi=1e-3, alpha=5., nmax=9):
    """A random, well-posed linear circuit (list of element lists)."""
    for attempt in range(200):
        d = _linear(rng, nn or rng.randint(1, nmax), reactive, sources, ctrl, couplings, rlo, rhi,
                    neg, extra, allow_self_ctrl, clo, chi, llo, lhi, alpha)
        try:
            s = ref.System(d)
            # scale-equilibrated condition number of the DC system
            A = s.A0
            r = 1. / np.maximum(np.abs(A).max(axis=1), 1e-300)
            B = (A.T * r).T
            c = 1. / np.maximum(np.abs(B).max(axis=0), 1e-300)
            B = B * c
            if np.linalg.cond(B) < maxcond and len(d) >= 2:
                x = s.op()
                if np.all(np.isfinite(x)) and np.abs(x).max() < 1e7:
                    return d
        except np.linalg.LinAlgError:
            pass
    raise RuntimeError('no well-posed circuit found')


def _linear(rng, nn, reactive, sources, ctrl, couplings, rlo, rhi, neg, extra, selfc,
            clo, chi, llo, lhi, alpha):
    nodes = node_names(rng, nn)
    alln = [GND] + nodes
    els = []
    cnt = {}
    # in some circuits every name is a prefix or a suffix of others
    alike = LOOKALIKE[:] if rng.random() < .35 else None
    if alike:
        rng.shuffle(alike)

    def pid(t):
        cnt[t] = cnt.get(t, 0) + 1
        if alike and cnt[t] <= len(alike):
            return t + alike[cnt[t] - 1]
        if alike:
            return t + 'z%d' % cnt[t]
        s = rng.choice(['%d', '%d', 'x%d', '_%d', 'ab%d'])
        return t + s % cnt[t]

    def rv(lo, hi):
        return rnd3(logu(rng, lo, hi))

    def two():
        a = rng.choice(alln)
        b = rng.choice(alln)
        while b == a:
            b = rng.choice(alln)
        return a, b
    # resistive spanning tree
    seen = [GND]
    order = nodes[:]
    rng.shuffle(order)
    for n in order:
        o = rng.choice(seen)
        a, b = (n, o) if rng.random() < .5 else (o, n)
        els.append(['R', pid('R'), a, b, rv(rlo, rhi)])
        seen.append(n)
    for _ in range(rng.randint(0, nn + 1)):
        a, b = two()
        v = rv(rlo, rhi)
        if rng.random() < neg:
            v = -v
        els.append(['R', pid('R'), a, b, v])
    vuf = UF()

    def srcval(t):
        dc = rnd3(rng.uniform(-10, 10) * (1 if t == 'V' else 1e-3))
        if rng.random() < .1:
            dc = 0.0
        ac = 0
        if sources == 'ac':
            m = rnd3(rng.uniform(-3, 3)) * (1 if t == 'V' else 1e-3)
            r = rng.random()
            if r < .5:
                ac = m
            elif r < .75:
                ac = [rnd3(m), rnd3(rng.uniform(-2, 2) * (1 if t == 'V' else 1e-3))]
        return dc, ac
    vids = []
    for _ in range(rng.randint(1, max(1, nn // 2 + 1))):
        a, b = two()
        if vuf.union(a, b):
            dc, ac = srcval('V')
            i = pid('V')
            els.append(['V', i, a, b, dc, ac, None])
            vids.append(i)
    for _ in range(rng.randint(0, 2)):
        a, b = two()
        dc, ac = srcval('I')
        els.append(['I', pid('I'), a, b, dc, ac, None])
    if reactive:
        for _ in range(rng.randint(1, nn + 1)):
            a, b = two()
            els.append(['C', pid('C'), a, b, rv(clo, chi), None])
        lids = []
        for _ in range(rng.randint(0, max(1, nn // 2))):
            a, b = two()
            if vuf.union(a, b):
                i = pid('L')
                els.append(['L', i, a, b, rv(llo, lhi), None])
                lids.append(i)
        if couplings and len(lids) >= 2:
            pairs = [(p, q) for k, p in enumerate(lids) for q in lids[k + 1:]]
            rng.shuffle(pairs)
            for p, q in pairs[:rng.randint(0, min(3, len(pairs)))]:
                if rng.random() < .5:
                    p, q = q, p
                els.append(['K', pid('K'), p, q, rnd3(rng.uniform(.05, .45))])
    if ctrl:
        for _ in range(rng.randint(0, 3)):
            t = rng.choice('EGFH')
            a, b = two()
            al = rnd3(rng.uniform(-alpha, alpha))
            if t in 'EG':
                s1, s2 = two()
                if not selfc and t == 'E' and (set((s1, s2)) & set((a, b))):
                    continue
                if t == 'E' and not vuf.union(a, b):
                    continue
                els.append([t, pid(t), a, b, s1, s2, al if t == 'E' else rnd3(al * 1e-3)])
            elif vids:
                if t == 'H' and not vuf.union(a, b):
                    continue
                els.append([t, pid(t), a, b, rng.choice(vids),
                            al if t == 'F' else rnd3(al * 100)])
    # interleave: shuffle, keeping couplings after their inductors (documented) and
    # current-controlled sources after their sensing source half of the time
    if rng.random() < .8:
        ks = [e for e in els if e[0] == 'K']
        rest = [e for e in els if e[0] != 'K']
        rng.shuffle(rest)
        els = rest + ks
    return els


import numpy as np  # noqa: E402


def cval(v):
    return complex(v[0], v[1]) if isinstance(v, (list, tuple)) else v


def make_fn(fn):
    from ahkab import time_functions as tf
    k, p = fn
    p = dict(p)
    if k == 'sin':
        return tf.sin(**p)
    if k == 'exp':
        return tf.exp(**p)
    if k == 'pulse':
        return tf.pulse(**p)
    if k == 'sffm':
        return tf.sffm(**p)
    if k == 'am':
        return tf.am(**p)
    if k == 'pwl':
        return tf.pwl(**p)
    raise ValueError(k)


def to_api(desc, title='vf circuit', models=()):
    """Build through the public Circuit API."""
    from ahkab import circuit
    c = circuit.Circuit(title)
    gnd = c.get_ground_node()
    for m in models:
        c.add_model(m[0], m[1], dict(m[2]))

    def g(n):
        return gnd if n == GND else n
    for e in desc:
        add_api(c, e, g)
    return c


def add_api(c, e, g):
    t = e[0]
    if t == 'R':
        c.add_resistor(e[1], g(e[2]), g(e[3]), e[4])
    elif t == 'C':
        c.add_capacitor(e[1], g(e[2]), g(e[3]), e[4], ic=e[5])
    elif t == 'L':
        c.add_inductor(e[1], g(e[2]), g(e[3]), e[4], ic=e[5])
    elif t == 'K':
        c.add_inductor_coupling(e[1], e[2], e[3], e[4])
    elif t == 'V':
        c.add_vsource(e[1], g(e[2]), g(e[3]), dc_value=e[4], ac_value=cval(e[5]),
                      function=None if e[6] is None else make_fn(e[6]))
    elif t == 'I':
        c.add_isource(e[1], g(e[2]), g(e[3]), dc_value=e[4], ac_value=cval(e[5]),
                      function=None if e[6] is None else make_fn(e[6]))
    elif t == 'E':
        c.add_vcvs(e[1], g(e[2]), g(e[3]), g(e[4]), g(e[5]), e[6])
    elif t == 'G':
        c.add_vccs(e[1], g(e[2]), g(e[3]), g(e[4]), g(e[5]), e[6])
    elif t == 'F':
        c.add_cccs(e[1], g(e[2]), g(e[3]), e[4], e[5])
    elif t == 'H':
        c.add_ccvs(e[1], g(e[2]), g(e[3]), e[4], e[5])
    elif t == 'D':
        c.add_diode(e[1], g(e[2]), g(e[3]), e[4], **(e[5] or {}))
    elif t == 'M':
        # ['M', id, d, g, s, b, model, w, l, {m, n}]
        c.add_mos(e[1], g(e[2]), g(e[3]), g(e[4]), g(e[5]), e[7], e[8], e[6], **(e[9] or {}))
    elif t == 'S':
        # ['S', id, n1, n2, s1, s2, model, ic]
        c.add_switch(e[1], g(e[2]), g(e[3]), g(e[4]), g(e[5]), e[7], e[6])
    else:
        raise ValueError(t)


def fn_text(fn, t):
    k, p = fn
    u = 'v' if t == 'V' else 'i'
    if k == 'sin':
        return 'type=sin %so=%r %sa=%r freq=%r td=%r theta=%r' % (
            u, p['vo'], u, p['va'], p['freq'], p['td'], p['theta']) + \
            (' phase=%r' % p['phi'] if p.get('phi') else '')
    if k == 'exp':
        return 'type=exp %s1=%r %s2=%r td1=%r tau1=%r td2=%r tau2=%r' % (
            u, p['v1'], u, p['v2'], p['td1'], p['tau1'], p['td2'], p['tau2'])
    if k == 'pulse':
        return 'type=pulse %s1=%r %s2=%r td=%r tr=%r tf=%r pw=%r per=%r' % (
            u, p['v1'], u, p['v2'], p['td'], p['tr'], p['tf'], p['pw'], p['per'])
    if k == 'sffm':
        return 'type=sffm %so=%r %sa=%r fc=%r mdi=%r fs=%r td=%r' % (
            u, p['vo'], u, p['va'], p['fc'], p['mdi'], p['fs'], p['td'])
    if k == 'am':
        return 'type=am sa=%r oc=%r fm=%r fc=%r td=%r' % (
            p['sa'], p['oc'], p['fm'], p['fc'], p['td'])
    raise ValueError(k)


def num(v):
    return repr(float(v))


def elem_text(e, num=num):
    t = e[0]
    if t == 'R':
        return '%s %s %s %s' % (e[1], e[2], e[3], num(e[4]))
    if t in 'CL':
        return '%s %s %s %s' % (e[1], e[2], e[3], num(e[4])) + \
            ('' if e[5] is None else ' ic=%s' % num(e[5]))
    if t == 'K':
        return '%s %s %s %s' % (e[1], e[2], e[3], num(e[4]))
    if t in 'VI':
        u = 'v' if t == 'V' else 'i'
        s = '%s %s %s' % (e[1], e[2], e[3])
        if e[4] is not None:
            s += ' type=%sdc %sdc=%s' % (u, u, num(e[4]))
        if e[5]:
            a = e[5]
            s += ' type=%sac %sac=%s' % (u, u, num(a))
        if e[6] is not None:
            s += ' ' + fn_text(e[6], t)
        return s
    if t in 'EG':
        return '%s %s %s %s %s %s' % (e[1], e[2], e[3], e[4], e[5], num(e[6]))
    if t in 'FH':
        return '%s %s %s %s %s' % (e[1], e[2], e[3], e[4], num(e[5]))
    if t == 'D':
        s = '%s %s %s %s' % (e[1], e[2], e[3], e[4])
        for k, v in sorted((e[5] or {}).items()):
            s += ' %s=%s' % (k.upper(), num(v) if not isinstance(v, bool) else int(v))
        return s
    if t == 'M':
        s = '%s %s %s %s %s %s w=%s l=%s' % (e[1], e[2], e[3], e[4], e[5], e[6],
                                             num(e[7]), num(e[8]))
        for k, v in sorted((e[9] or {}).items()):
            s += ' %s=%s' % (k, num(v))
        return s
    if t == 'S':
        return '%s %s %s %s %s %s' % (e[1], e[2], e[3], e[4], e[5], e[6])
    raise ValueError(t)


def to_text(desc, title='vf deck', models=(), extra=()):
    out = [title]
    for e in desc:
        out.append(elem_text(e))
    for m in models:
        out.append('.model %s %s %s' % (m[0], m[1], ' '.join(
            '%s=%s' % (k, v if isinstance(v, str) else num(v)) for k, v in m[2].items())))
    out += list(extra)
    return '\n'.join(out) + '\n'


def shape_sig(desc):
    """Topology/type signature used to count distinct cases."""
    m = {GND: 0}
    s = []
    for e in desc:
        ns = []
        for n in ref.elem_nodes(e):
            ns.append(m.setdefault(n, len(m)))
        s.append((e[0],) + tuple(ns))
    return tuple(s)


# ---------------------------------------------------------------- device cards
def card_diode(rng):
    p = {'IS': rnd3(logu(rng, 1e-16, 1e-8))}
    if rng.random() < .6:
        p['N'] = rnd3(rng.uniform(.9, 2.2))
    if rng.random() < .4:
        p['ISR'] = rnd3(logu(rng, 1e-14, 1e-9))
        if rng.random() < .6:
            p['NR'] = rnd3(rng.uniform(1.5, 3))
    if rng.random() < .5:
        p['RS'] = rnd3(logu(rng, .01, 100))
    if rng.random() < .4:
        p['BV'] = rnd3(rng.uniform(3, 30))
        if rng.random() < .7:
            p['NBV'] = rnd3(rng.uniform(.8, 2.5))
    if rng.random() < .35:
        p['IKF'] = rnd3(logu(rng, 1e-4, 1))
    if rng.random() < .3:
        p['XTI'] = rnd3(rng.uniform(2, 4))
    if rng.random() < .2:
        p['TBV'] = rnd3(rng.uniform(-1e-3, 1e-3))
    if rng.random() < .2:
        p['TRS'] = rnd3(rng.uniform(-1e-3, 1e-3))
    return p


def card_mos(rng, kind, ty):
    s = 1 if ty == 'n' else -1
    p = {'TYPE': ty}
    if rng.random() < .7:
        p['VTO'] = s * rnd3(rng.uniform(.2, 1.))
    if rng.random() < .7:
        p['KP'] = rnd3(logu(rng, 1e-5, 1e-3))
    elif rng.random() < .4:
        p['U0'] = rnd3(rng.uniform(100, 800))
    if rng.random() < .6:
        p['GAMMA'] = rnd3(rng.uniform(.1, 1.2))
    if rng.random() < .6:
        p['PHI'] = rnd3(rng.uniform(.4, 1.))
    if 'GAMMA' not in p and 'PHI' not in p and rng.random() < .5:
        p['NSUB'] = rnd3(logu(rng, 5e15, 1e17))
    if rng.random() < .3:
        p['COX'] = rnd3(logu(rng, 1e-3, 1e-2))
    elif rng.random() < .3:
        p['TOX'] = rnd3(logu(rng, 5e-9, 3e-8))
    if 'VTO' not in p and 'NSUB' not in p and rng.random() < .4:
        p['VFB'] = s * rnd3(rng.uniform(-1., -.5))
    if kind == 'mosq':
        p['LAMBDA'] = rnd3(rng.uniform(0, .25))
    elif rng.random() < .6:
        p['LAMBDA'] = rnd3(rng.uniform(0, .5))
    if rng.random() < .15:
        p['TCV'] = s * rnd3(rng.uniform(5e-4, 2e-3))
        p['BEX'] = rnd3(rng.uniform(-2, -1))
        p['TNOM'] = rnd3(rng.uniform(280, 330))
    return p


def simple_diode(rng):
    p = {'IS': rnd3(logu(rng, 1e-15, 1e-11))}
    if rng.random() < .4:
        p['N'] = rnd3(rng.uniform(1., 2.))
    if rng.random() < .3:
        p['RS'] = rnd3(logu(rng, .1, 20))
    return p


def nl_devices(rng, nodes, kinds, n, cards='full', pre=''):
    """n random nonlinear devices between the given nodes -> (elements, models)"""
    els, models = [], []
    alln = [GND] + list(nodes)

    def two():
        a, b = rng.choice(alln), rng.choice(alln)
        while a == b:
            b = rng.choice(alln)
        return a, b
    for k in range(n):
        t = rng.choice(kinds)
        lab = '%sm%d' % (pre, k)
        a, b = two()
        reuse = [m for m in models if m[0] == {'d': 'diode', 'm': 'mosq', 'e': 'ekv', 's': 'sw'}[t]]
        if reuse and rng.random() < .4:
            lab = rng.choice(reuse)[1]
            new = False
        else:
            new = True
        if t == 'd':
            if new:
                models.append(('diode', lab, card_diode(rng) if cards == 'full' else simple_diode(rng)))
            o = {}
            if rng.random() < .3:
                o['Area'] = rnd3(logu(rng, .3, 10))
            els.append(['D', 'D%s%d' % (pre, k), a, b, lab, o])
        elif t in 'me':
            kind = 'mosq' if t == 'm' else 'ekv'
            if new:
                models.append((kind, lab, card_mos(rng, kind, rng.choice('np'))))
            g = rng.choice(alln) if rng.random() < .8 else a
            bulk = rng.choice([b, b, GND, rng.choice(alln)])
            o = {}
            if rng.random() < .3:
                o = {'m': rng.choice([1, 2, 3]), 'n': rng.choice([1, 2])}
            els.append(['M', 'M%s%d' % (pre, k), a, g, b, bulk, lab,
                        rnd3(logu(rng, 2e-6, 5e-5)), rnd3(logu(rng, 1e-6, 1e-5)), o])
        else:
            if new:
                p = {'VT': rnd3(rng.uniform(-2, 2)), 'RON': rnd3(logu(rng, 1, 100)),
                     'ROFF': rnd3(logu(rng, 1e4, 1e7))}
                if rng.random() < .5:
                    p['VH'] = rnd3(rng.uniform(.3, 1))
                models.append(('sw', lab, p))
            s1, s2 = two()
            els.append(['S', 'S%s%d' % (pre, k), a, b, s1, s2, lab, rng.random() < .5])
    return els, models
