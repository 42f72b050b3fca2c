"""Kirchhoff residual and small-signal linearisation of circuits with nonlinear devices, from the
independent device equations of vf.dev."""
import itertools
import math

import numpy as np

from . import dev, ref

GND = ref.GND


def models_dict(models):
    return dict((m[1].lower(), (m[0], m[2])) for m in models)


def device(e, md, T=300.):
    """(ports function, terminals, current function of the terminal voltages) of a device"""
    if e[0] == 'D':
        o = e[5] or {}
        D = dev.Diode(md[e[4].lower()][1], o.get('Area', 1.), o.get('T') or T)
        return D
    if e[0] == 'M':
        kind, p = md[e[6].lower()]
        o = e[9] or {}
        cls = dev.Mosq if kind == 'mosq' else dev.Ekv
        return cls(p, e[7], e[8], o.get('m', 1), o.get('n', 1), T)
    if e[0] == 'S':
        return dev.Switch(md[e[6].lower()][1])


def terminals(e):
    return e[2:4] if e[0] == 'D' else e[2:6]


def dcurrent(e, D, v, on=None):
    """current entering the first terminal of device e for terminal voltages v"""
    if e[0] == 'D':
        return D.ig(v[0] - v[1])[0]
    if e[0] == 'M':
        d, g, s, b = v
        if isinstance(D, dev.Mosq):
            return D.i(d - s, g - s, b - s)
        return D.i(d - b, g - b, s - b)
    return (v[0] - v[1]) / D.R(v[2] - v[3], on)


def out_nodes(e):
    """(node the current enters, node it leaves)"""
    return (e[2], e[3]) if e[0] in 'DS' else (e[2], e[4])


NLT = ('D', 'M', 'S')


class NL(object):
    def __init__(self, desc, models, T=300., gmin=0.):
        self.S = ref.System(desc, gmin=gmin)
        self.desc = desc
        md = models_dict(models)
        self.dev = [(e, device(e, md, T)) for e in desc if e[0] in NLT]
        self.nsw = [k for k, (e, D) in enumerate(self.dev) if e[0] == 'S']

    def volt(self, x, n):
        return 0. if n == GND else x[self.S.ix[('v', n)]]

    def residual(self, x, b, states=None):
        """(residual vector, scale vector): A0 x + devices - b"""
        S = self.S
        r = S.A0.dot(x) - b
        sc = np.abs(S.A0).dot(np.abs(x)) + np.abs(b)
        for k, (e, D) in enumerate(self.dev):
            v = [self.volt(x, n) for n in terminals(e)]
            i = dcurrent(e, D, v, (states or {}).get(k))
            p, q = out_nodes(e)
            if p == q:
                continue
            if p != GND:
                r[S.ix[('v', p)]] += i
                sc[S.ix[('v', p)]] += abs(i)
            if q != GND:
                r[S.ix[('v', q)]] -= i
                sc[S.ix[('v', q)]] += abs(i)
        return r, sc

    def switch_states(self, x, margin=0.25):
        """all switch state combinations compatible with x"""
        opts = []
        for k in self.nsw:
            e, D = self.dev[k]
            vin = self.volt(x, e[4]) - self.volt(x, e[5])
            if vin > D.VT + abs(D.VH) + margin:
                opts.append([True])
            elif vin < D.VT - abs(D.VH) - margin:
                opts.append([False])
            else:
                opts.append([True, False])
        for c in itertools.product(*opts):
            yield dict(zip(self.nsw, c))

    def best(self, x, b, tol):
        """smallest violation of tol(scale) over the compatible switch states: (ratio, row, residual)"""
        out = None
        for st in self.switch_states(x):
            r, sc = self.residual(x, b, st)
            t = tol(sc)
            q = np.abs(r) / t
            i = int(np.argmax(q))
            if not np.all(np.isfinite(q)):
                cand = (float('inf'), self.S.names[i], r[i], sc[i], st)
            else:
                cand = (q[i], self.S.names[i], r[i], sc[i], st)
            if out is None or cand[0] < out[0]:
                out = cand
        return out

    def jac(self, x, states=None, h=1e-6):
        """dI/dv matrix of the devices (numeric, central), added to A0"""
        S = self.S
        J = S.A0.copy()
        for k, (e, D) in enumerate(self.dev):
            t = terminals(e)
            v = [self.volt(x, n) for n in t]
            p, q = out_nodes(e)
            if p == q:
                continue
            on = (states or {}).get(k)
            for j, n in enumerate(t):
                if n == GND:
                    continue
                a = list(v)
                a[j] += h
                hi = dcurrent(e, D, a, on)
                a[j] -= 2 * h
                g = (hi - dcurrent(e, D, a, on)) / (2 * h)
                c = S.ix[('v', n)]
                if p != GND:
                    J[S.ix[('v', p)], c] += g
                if q != GND:
                    J[S.ix[('v', q)], c] -= g
        return J


def vector(S, r, sim):
    """results object -> vector in the order of S.names (None for missing)"""
    x = np.zeros(S.N)
    miss = []
    for k, i in S.ix.items():
        v = sim.get(r, k)
        if v is None:
            miss.append(k)
        else:
            x[i] = np.real(v)
    return x, miss
