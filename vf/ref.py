"""Independent reference model of linear(ised) circuits.

Works on a plain description, never on the simulator's own matrices.  A circuit
description is a list of element lists (JSON-able):

  ['R', id, n1, n2, ohm]            ['C', id, n1, n2, farad, ic|None]
  ['L', id, n1, n2, henry, ic|None] ['K', id, L1, L2, k]
  ['V', id, n1, n2, dc, ac, fn]     ['I', id, n1, n2, dc, ac, fn]
  ['E', id, n1, n2, s1, s2, a]      ['G', id, n1, n2, s1, s2, a]
  ['F', id, n1, n2, vid, a]         ['H', id, n1, n2, vid, a]

Unknowns are named ('v', node) and ('i', element id); every element current is
the passive-convention current flowing n1 -> n2 through the element.

Equations (tableau style, one KCL row per node, one constitutive row per branch
current kept as an unknown):   A0 x + A1 dx/dt = b
"""
import cmath
import math

import numpy as np

GND = '0'
BR = ('V', 'E', 'H', 'L')      # elements whose current is an unknown
# CCVS: the documentation states V(n1) - V(n2) = +alpha*I(source); the code (and the reference
# files of the stable tests) use -alpha.  Known finding KF1 of C01, where the documented sign is
# what is asserted; the other checks take the observed sign so as not to repeat the finding.
H_SIGN = -1.0


class System(object):
    def __init__(self, desc, gmin=0.0, h_sign=None, dtype=float):
        h_sign = H_SIGN if h_sign is None else h_sign
        self.desc = desc
        nodes = []
        for e in desc:
            for n in elem_nodes(e):
                if n != GND and n not in nodes:
                    nodes.append(n)
        self.nodes = nodes
        self.branches = [e[1] for e in desc if e[0] in BR]
        self.names = [('v', n) for n in nodes] + [('i', b) for b in self.branches]
        self.ix = dict((k, i) for i, k in enumerate(self.names))
        N = len(self.names)
        self.N = N
        self.A0 = np.zeros((N, N), dtype=dtype)
        self.A1 = np.zeros((N, N), dtype=dtype)
        self.by_id = dict((e[1].lower(), e) for e in desc)
        bid = dict((b.lower(), b) for b in self.branches)
        self.bid = bid
        for n in nodes:
            r = self.ix[('v', n)]
            self.A0[r, r] += gmin
        for e in desc:
            t, i = e[0], e[1]
            if t == 'R':
                self._adm(self.A0, e[2], e[3], e[2], e[3], 1. / e[4])
            elif t == 'C':
                self._adm(self.A1, e[2], e[3], e[2], e[3], e[4])
            elif t == 'G':
                self._adm(self.A0, e[2], e[3], e[4], e[5], e[6])
            elif t == 'F':
                c = self.ix[('i', bid[e[4].lower()])]
                if e[2] != GND:
                    self.A0[self.ix[('v', e[2])], c] += e[5]
                if e[3] != GND:
                    self.A0[self.ix[('v', e[3])], c] -= e[5]
            elif t in BR:
                r = self.ix[('i', i)]
                for n, sgn in ((e[2], 1.), (e[3], -1.)):
                    if n == GND:
                        continue
                    c = self.ix[('v', n)]
                    self.A0[c, r] += sgn        # KCL
                    self.A0[r, c] += sgn        # V(n1) - V(n2)
                if t == 'E':
                    for n, sgn in ((e[4], 1.), (e[5], -1.)):
                        if n != GND:
                            self.A0[r, self.ix[('v', n)]] -= sgn * e[6]
                elif t == 'H':
                    self.A0[r, self.ix[('i', bid[e[4].lower()])]] -= h_sign * e[5]
                elif t == 'L':
                    self.A1[r, r] -= e[4]
        for e in desc:
            if e[0] == 'K':
                l1 = self.by_id[e[2].lower()]
                l2 = self.by_id[e[3].lower()]
                m = e[4] * (l1[4] * l2[4]) ** .5
                a, b = self.ix[('i', l1[1])], self.ix[('i', l2[1])]
                self.A1[a, b] -= m
                self.A1[b, a] -= m

    def _adm(self, A, n1, n2, s1, s2, g):
        for n, sg in ((n1, 1.), (n2, -1.)):
            if n == GND:
                continue
            r = self.ix[('v', n)]
            for s, ss in ((s1, 1.), (s2, -1.)):
                if s != GND:
                    A[r, self.ix[('v', s)]] += sg * ss * g

    def rhs(self, val):
        """val(e) -> source value (number) of independent source element e."""
        v0 = None
        b = np.zeros(self.N, dtype=complex)
        for e in self.desc:
            if e[0] == 'V':
                b[self.ix[('i', e[1])]] += val(e)
            elif e[0] == 'I':
                v = val(e)
                if e[2] != GND:
                    b[self.ix[('v', e[2])]] -= v
                if e[3] != GND:
                    b[self.ix[('v', e[3])]] += v
        return b

    def cond0(self):
        return np.linalg.cond(self.A0)

    def op(self, val=None):
        b = self.rhs(val or dc_value).real
        return np.linalg.solve(self.A0, b)

    def ac(self, w, val=None):
        b = self.rhs(val or ac_value)
        return np.linalg.solve(self.A0 + 1j * w * self.A1, b)

    def scale(self, x):
        """Row-wise magnitude sum |A0||x| + |b| (for residual tolerances)."""
        return np.abs(self.A0).dot(np.abs(x))

    def as_dict(self, x):
        return dict((k, x[i]) for k, i in self.ix.items())

    def v(self, x, n):
        return 0.0 if n == GND else x[self.ix[('v', n)]]


def elem_nodes(e):
    t = e[0]
    if t in 'RCLVIFH':
        return e[2:4]
    if t in 'EG':
        return e[2:6]
    if t == 'D':
        return e[2:4]
    if t == 'M':
        return e[2:6]
    if t == 'S':
        return e[2:6]
    return []


def dc_value(e):
    return e[4] if e[4] is not None else 0.0


def ac_value(e):
    a = e[5]
    if a is None:
        return 0.0
    if isinstance(a, (list, tuple)):
        return complex(a[0], a[1])
    return a


# ---------------------------------------------------------------- transient
# Radau IIA, 3 stages, order 5 (stiffly accurate; fine on the index-1/2 DAEs of MNA)
_S6 = math.sqrt(6.)
_RA = np.array([[(88 - 7 * _S6) / 360., (296 - 169 * _S6) / 1800., (-2 + 3 * _S6) / 225.],
                [(296 + 169 * _S6) / 1800., (88 + 7 * _S6) / 360., (-2 - 3 * _S6) / 225.],
                [(16 - _S6) / 36., (16 + _S6) / 36., 1. / 9.]])
_RC = np.array([(4 - _S6) / 10., (4 + _S6) / 10., 1.])


class Radau(object):
    """Fixed-step Radau IIA integration of A0 x + A1 x' = b(t)."""

    def __init__(self, sysm, src, h):
        self.s, self.src, self.h = sysm, src, h
        N = sysm.N
        Ai = np.linalg.inv(_RA)
        big = np.zeros((3 * N, 3 * N))
        for i in range(3):
            for j in range(3):
                big[i * N:(i + 1) * N, j * N:(j + 1) * N] = Ai[i, j] / h * sysm.A1
            big[i * N:(i + 1) * N, i * N:(i + 1) * N] += sysm.A0
        self.Ai = Ai
        self.inv = np.linalg.inv(big)
        self.rs = Ai.sum(axis=1)

    def step(self, t, x):
        N, h = self.s.N, self.h
        rhs = np.zeros(3 * N)
        Mx = self.s.A1.dot(x) / h
        for i in range(3):
            rhs[i * N:(i + 1) * N] = self.src(t + _RC[i] * h) + self.rs[i] * Mx
        return self.inv.dot(rhs)[2 * N:]


def integrate(sysm, src, t0, x0, tgrid, nsub, breaks=()):
    """Reference waveform at every point of tgrid (sorted, > t0).  nsub Radau steps per
    smooth sub-interval (intervals are split at the source breakpoints)."""
    out = []
    t, x = t0, np.array(x0, dtype=float)
    brk = sorted(b for b in breaks if t0 < b < tgrid[-1])
    cache = {}
    for tn in tgrid:
        pts = [t] + [b for b in brk if t < b < tn] + [tn]
        for a, b in zip(pts[:-1], pts[1:]):
            if b - a <= 0:
                continue
            h = (b - a) / nsub
            key = h
            if key not in cache:
                if len(cache) > 64:
                    cache.clear()
                cache[key] = Radau(sysm, src, h)
            R = cache[key]
            eps = 1e-9 * (b - a)
            for k in range(nsub):
                lo = a + k * h

                # evaluate the sources strictly inside the smooth piece
                R.src = lambda tt, lo=a + eps, hi=b - eps: src(min(max(tt, lo), hi))
                x = R.step(lo, x)
        t = tn
        out.append(x.copy())
    return out


def tran_value(e, t):
    fn = e[6]
    if fn is None:
        return dc_value(e)
    return eval_fn(fn, t)


# ---------------------------------------------------------------- time functions
def eval_fn(fn, t):
    """Documented waveforms. fn = [name, {params}]."""
    k, p = fn[0], fn[1]
    if k == 'sin':
        ph = math.pi * p.get('phi', 0.) / 180.
        if t < p['td']:
            return p['vo'] + p['va'] * math.sin(ph)
        return p['vo'] + p['va'] * math.exp(-(t - p['td']) * p['theta']) * \
            math.sin(2 * math.pi * p['freq'] * (t - p['td']) + ph)
    if k == 'exp':
        r = p['v1']
        if t > p['td1']:
            r = p['v1'] + (p['v2'] - p['v1']) * (1 - math.exp(-(t - p['td1']) / p['tau1']))
        if t > p['td2']:
            r += (p['v1'] - p['v2']) * (1 - math.exp(-(t - p['td2']) / p['tau2']))
        return r
    if k == 'pulse':
        per = p['per']
        if t < p['td']:
            return p['v1']
        u = math.fmod(t - p['td'], per)
        if u < p['tr']:
            return p['v1'] + (p['v2'] - p['v1']) * u / p['tr']
        u -= p['tr']
        if u < p['pw']:
            return p['v2']
        u -= p['pw']
        if u < p['tf']:
            return p['v2'] + (p['v1'] - p['v2']) * u / p['tf']
        return p['v1']
    if k == 'sffm':
        if t <= p['td']:
            return p['vo']
        u = t - p['td']
        return p['vo'] + p['va'] * math.sin(2 * math.pi * p['fc'] * u +
                                            p['mdi'] * math.sin(2 * math.pi * p['fs'] * u))
    if k == 'am':
        if t <= p['td']:
            return 0.
        u = t - p['td']
        return p['sa'] * (p['oc'] + math.sin(2 * math.pi * p['fm'] * u)) * \
            math.sin(2 * math.pi * p['fc'] * u)
    if k == 'pwl':
        xs, ys = p['x'], p['y']
        if t <= p.get('td', 0.):
            u = 0.
        else:
            u = t - p.get('td', 0.)
            if p.get('repeat') and u > xs[-1]:
                rt = p.get('repeat_time', 0.)
                rt = 0. if rt == xs[-1] else rt
                u = rt + math.fmod(u - xs[-1], xs[-1] - rt)
        return _pwl(xs, ys, u)
    raise ValueError(k)


def _pwl(xs, ys, u):
    if u <= xs[0]:
        j = 0
    elif u >= xs[-1]:
        j = len(xs) - 2
    else:
        j = max(i for i in range(len(xs) - 1) if xs[i] <= u)
    return ys[j] + (ys[j + 1] - ys[j]) * (u - xs[j]) / (xs[j + 1] - xs[j])


def fn_breaks(fn, tstop):
    k, p = fn[0], fn[1]
    out = []
    if k == 'sin':
        out = [p['td']]
    elif k == 'exp':
        out = [p['td1'], p['td2']]
    elif k in ('sffm', 'am'):
        out = [p['td']]
    elif k == 'pulse':
        base = p['td']
        n = 0
        while base < tstop and n < 2000:
            for d in (0, p['tr'], p['tr'] + p['pw'], p['tr'] + p['pw'] + p['tf']):
                out.append(base + d)
            base += p['per']
            n += 1
    elif k == 'pwl':
        out = [x + p.get('td', 0.) for x in p['x']]
    return [b for b in out if math.isfinite(b)]
