"""Independent evaluation of the documented device equations (scalar, plain floats).

Nothing here calls the simulator.  T in kelvin; model cards are dictionaries with
the documented (netlist) names and defaults."""
import math

from scipy.special import wrightomega

Q = 1.60217646e-19
KB = 1.3806503e-23
T0 = 300.0
ESI = 104.5e-12
EOX = 34.5e-12


def vth(T=T0):
    return KB * T / Q


def eg_si(T):
    return 1.16 - 0.000702 * T * T / (1108. + T)


def ni_si(T):
    return 1.45e16 * (T / 300.) ** 1.5 * math.exp(eg_si(300.) / (2 * vth(300.)) - eg_si(T) / (2 * vth(T)))


# ---------------------------------------------------------------- diode
class Diode(object):
    def __init__(self, p, area=1.0, T=T0):
        g = lambda k, d: float(p[k]) if p.get(k) is not None else d
        self.N, self.NBV, self.NR = g('N', 1.), g('NBV', 1.), g('NR', 2.)
        IS, self.ISR = g('IS', 1e-14), g('ISR', 0.)
        RS, BV = g('RS', 0.), g('BV', float('inf'))
        self.IKF = g('IKF', float('inf'))
        dT = T - T0
        XTI = g('XTI', 3.)
        self.VT = vth(T)
        self.IS = IS * (T / T0) ** (XTI / self.N) * \
            math.exp(-eg_si(T0) / (self.N * vth(T)) * (1 - T / T0))
        self.BV = BV - g('TBV', 0.) * dT
        self.RS = RS * (1 + g('TRS', 0.) * dT)
        self.area = area

    def jun(self, v):
        """junction current per unit area and its derivative"""
        a, b, c = self.N * self.VT, self.NR * self.VT, self.NBV * self.VT
        f = self.IS * math.expm1(v / a)
        df = self.IS / a * math.exp(v / a)
        if math.isfinite(self.IKF) and self.IKF > 0 and f > 0:
            k = math.sqrt(self.IKF / (self.IKF + f))
            df = df * (k - .5 * f * k / (self.IKF + f))
            f = f * k
        r = self.ISR * math.expm1(v / b)
        dr = self.ISR / b * math.exp(v / b)
        z = 0.
        dz = 0.
        if math.isfinite(self.BV):
            z = -self.IS * math.exp(-(v + self.BV) / c)
            dz = -z / c
        return f + r + z, df + dr + dz

    def ig(self, v):
        if not self.RS:
            i, g = self.jun(v)
        else:
            # bisection on the junction voltage
            lo, hi = min(v, 0.) - 1., max(v, 0.) + 1.
            for _ in range(200):
                m = .5 * (lo + hi)
                try:
                    d = (v - m) / self.RS - self.jun(m)[0]
                except OverflowError:
                    d = -1. if m > 0 else 1.
                if d > 0:
                    lo = m
                else:
                    hi = m
            vj = .5 * (lo + hi)
            i, g = self.jun(vj)
            i = .5 * (i + (v - vj) / self.RS) if abs(g * self.RS) < 1 else (v - vj) / self.RS
            g = g / (1 + self.RS * g)
        return self.area * i, self.area * g

    def vmax(self):
        """largest voltage where the exponentials are the documented ones"""
        return 65. * min(self.N, self.NR if self.ISR else 1e9) * self.VT


# ---------------------------------------------------------------- MOS common
class MosCard(object):
    def __init__(self, p, T=T0):
        g = lambda k, d: float(p[k]) if p.get(k) is not None else d
        self.T = T
        self.s = 1. if str(p.get('TYPE', 'n')).lower() == 'n' else -1.
        TN = g('TNOM', 300.)
        if p.get('COX') is not None:
            self.COX = float(p['COX'])
        elif p.get('TOX') is not None:
            self.COX = EOX / float(p['TOX'])
        else:
            self.COX = .7e-3
        ns = p.get('NSUB')
        if p.get('GAMMA') is not None:
            self.GAMMA = float(p['GAMMA'])
        elif ns is not None:
            self.GAMMA = math.sqrt(2 * Q * ESI * ns * 1e6) / self.COX
        else:
            self.GAMMA = 1.
        if p.get('PHI') is not None:
            PHI = float(p['PHI'])
        elif ns is not None:
            PHI = 2 * vth(TN) * math.log(ns * 1e6 / ni_si(TN))
        else:
            PHI = .7
        if p.get('VTO') is not None:
            VTO = self.s * float(p['VTO'])
        elif p.get('VFB') is not None:
            VTO = self.s * float(p['VFB']) + PHI + self.GAMMA * math.sqrt(PHI)
        else:
            VTO = .5
        if p.get('KP') is not None:
            KP = float(p['KP'])
        elif p.get('U0') is not None:
            KP = float(p['U0']) * 1e-4 * self.COX
        else:
            KP = 50e-6
        self.LAMBDA = g('LAMBDA', .5)
        self.XJ = g('XJ', .1e-6)
        TCV = self.s * g('TCV', 1e-3)
        BEX = g('BEX', -1.5)
        self.VTO = VTO - TCV * (T - TN)
        self.KP = KP * (T / TN) ** BEX
        self.PHI = PHI * T / TN + 3 * vth(TN) * math.log(T / TN) - eg_si(TN) * T / TN + eg_si(T)


class Mosq(object):
    """ports: vds, vgs, vbs"""

    def __init__(self, p, w, l, m=1, n=1, T=T0):
        self.c = MosCard(p, T)
        self.f = float(m) / n * w / l
        self.mn = float(m) / n

    def vt(self, vbs):
        c = self.c
        return c.VTO + c.GAMMA * (math.sqrt(max(2 * c.PHI - vbs, 0.)) - math.sqrt(2 * c.PHI))

    def region(self, vds, vgs, vbs):
        """(region, distance from the nearest boundary [V])"""
        s = self.c.s
        a, b, d = vds * s, vgs * s, vbs * s
        if a < 0:
            a, b, d = -a, b - a, d - a
        u = b - self.vt(d)
        if u < 0:
            return 'off', -u
        vb = u - .5 * self.c.LAMBDA * u * u
        return ('ohm' if a < vb else 'sat'), min(u, abs(a - vb), abs(vds))

    def i(self, vds, vgs, vbs):
        """drain current (into drain)"""
        c = self.c
        a, b, d = vds * c.s, vgs * c.s, vbs * c.s
        sg = c.s
        if a < 0:
            a, b, d = -a, b - a, d - a
            sg = -sg
        u = b - self.vt(d)
        if u < 0:
            return 0.
        la = c.LAMBDA
        if a < u - .5 * la * u * u:
            i = u * a - .5 * a * a
        else:
            i = .5 * u * u * (1 + la * (a - u + .25 * la * u * u))
        return sg * c.KP * self.f * i


class Ekv(object):
    """ports: vdb, vgb, vsb"""
    UCRIT = 2e6

    def __init__(self, p, w, l, m=1, n=1, T=T0):
        self.c = MosCard(p, T)
        self.w, self.l, self.m, self.n = w, l, m, n

    def i(self, vd, vg, vs):
        c = self.c
        U = vth(self.c.T)
        d, g, s = vd * c.s, vg * c.s, vs * c.s
        sg = c.s
        if s > d:
            d, s = s, d
            sg = -sg
        sp = math.sqrt(c.PHI)
        x = g - c.VTO + (sp + .5 * c.GAMMA) ** 2
        if g - c.VTO + c.PHI + c.GAMMA * sp > 0 and x > 0:
            vp = g - c.VTO - c.GAMMA * (math.sqrt(x) - (sp + .5 * c.GAMMA))
        else:
            vp = -c.PHI
        nq = 1. + .5 * c.GAMMA / math.sqrt(c.PHI + .5 * vp)
        Is = 2 * nq * U * U * c.KP * self.w / self.l
        fi = ismall((vp - s) / U)
        Vc = self.UCRIT * self.n * self.l
        r = math.sqrt(fi)
        vdss = Vc * (math.sqrt(.25 + U / Vc * r) - .5)
        vdssp = Vc * (math.sqrt(.25 + U / Vc * (r - .75 * math.log(fi))) - .5) + \
            U * (math.log(.5 * Vc / U) - .6)
        vds = .5 * (d - s)
        dv = 4 * U * math.sqrt(c.LAMBDA * (r - vdss / U) + 1. / 64)
        vip = math.hypot(vdss, dv) - math.hypot(vds - vdss, dv)
        lc = math.sqrt(ESI * c.XJ / c.COX)
        dl = c.LAMBDA * lc * math.log(1 + (vds - vip) / (lc * self.UCRIT))
        lp = self.n * self.l - dl + (vds + vip) / self.UCRIT
        lmin = self.n * self.l / 10.
        leq = .5 * (lp + math.hypot(lp, lmin))
        ri = ismall((vp - vds - s - math.hypot(vdssp, dv) + math.hypot(vds - vdssp, dv)) / U)
        return sg * self.l / leq * self.m * Is * (fi - ri)


def ismall(v):
    """i such that v = ln(q) + 2q, q = sqrt(1/4 + i) - 1/2"""
    q = .5 * float(wrightomega(v + math.log(2.)).real)
    return max(q * q + q, 2.3e-15)


class Switch(object):
    SLOPE = 100.

    def __init__(self, p, on=False):
        if p.get('VON') is not None:
            von, voff = float(p['VON']), float(p['VOFF'])
            self.VT = (von - voff) / 2. + voff
            self.VH = 1e-3 * self.VT
        else:
            self.VT = float(p.get('VT', 0.) or 0.)
            self.VH = float(p.get('VH', 0.) or 0.)
        self.RON = float(p.get('RON', 1.))
        self.ROFF = float(p['ROFF']) if p.get('ROFF') is not None else 1e12

    def R(self, vin, on):
        """resistance on the branch the switch is on (hysteresis)"""
        v = self.VT + (-self.VH if on else self.VH)
        th = math.tanh((vin - v) * self.SLOPE)
        return .5 * (self.RON - self.ROFF) * th + .5 * (self.RON + self.ROFF)

    def dR(self, vin, on):
        v = self.VT + (-self.VH if on else self.VH)
        x = abs(vin - v) * self.SLOPE
        return .5 * (self.RON - self.ROFF) * self.SLOPE * (1. / math.cosh(x) ** 2 if x < 300 else 0.)
