"""C17: poles and zeros against the roots of the determinants of the circuit equations.

Truth: the circuit pencil A0 + s A1 of an independent tableau model, evaluated with 120 digits; poles
are the roots of det(A0 + s A1), zeros those of the determinant bordered with the input source and the
output; the roots' sensitivity to rounding-size changes of the element values sets the tolerance."""
import math
import random

import mpmath as mp
import numpy as np

from .. import gen as G
from .. import nl, ref, sim
from . import c02, c06

PROP = 'C17'
RULE = 'poles = finite natural frequencies, zeros = finite transmission zeros of the linearised circuit (multisets, in Hz)'
CASES = {'quick': 500, 'thorough': 8000}
MIN_OK = {'quick': 1500, 'thorough': 24000}
NEED = ['lin', 'ladder', 'struct', 'nonlinear', 'coupled', 'poles only', 'calculate_poles', 'zeros', 'no zeros', 'shift', 'src V', 'src I', 'out tuple', 'out node', 'out label',
        'source instance', 'deck', 'pole at origin', 'null transfer', 'complex poles', 'unstable', 'cancelled', 'saved']
CASE_LIMIT = 120.0
ASSUMPTIONS = ['singularities whose position is not determined to 1% by the element values are only counted within the group they belong to',
               'pole spread up to 1e7; nothing above options.pz_max (1e12 Hz)']


def gen(rng, i, tier):
    kind = rng.choice(['lin', 'lin', 'ladder', 'ladder', 'struct', 'nonlinear'])
    m = []
    if kind == 'nonlinear':
        fam = rng.choice(['dres', 'dres', 'bridge', 'mosamp', 'invq', 'mirror', 'diodeconn'])
        d, m = nonlinear(rng, fam)
    elif kind == 'lin':
        d = G.linear_circuit(rng, nn=rng.randint(1, 6), reactive=True, sources='dc', couplings=True, rlo=1e2, rhi=1e4,
                             clo=1e-9, chi=1e-7, llo=1e-5, lhi=1e-3)
        lim(rng, d)
    else:
        d = ladder(rng, kind == 'struct')
    for e in d:
        if e[0] in 'VI' and len(e) < 7:
            e += [0, None][:7 - len(e)]
    srcs = [e for e in d if e[0] in 'VI']
    nodes = sorted(set(n for e in d for n in ref.elem_nodes(e) if n != '0'))
    c = {'kind': kind, 'd': d, 'm': m, 'src': None, 'out': None, 'shift': 0.0}
    if rng.random() < .8 and srcs:
        c['src'] = rng.choice(srcs)[1]
        c['out'] = [rng.choice(nodes), '0']
        if rng.random() < .4:
            c['out'][1] = rng.choice(nodes)
        if rng.random() < .1:
            c['out'].reverse()
        if c['out'][0] == c['out'][1]:
            c['out'] = [c['out'][0], '0']
        c['form'] = rng.choice(['tuple', 'tuple', 'node', 'label'])
        c['inst'] = rng.random() < .2
    if rng.random() < .4:
        c['shift'] = G.rnd3(G.logu(rng, 1, 1e7))
    c['deck'] = rng.random() < .2 and kind != 'nonlinear'
    c['direct'] = rng.random() < .3
    c['case'] = rng.random() < .2
    c['pseed'] = rng.randrange(2 ** 31)
    return c


def lim(rng, d):
    """keep the order of the circuit moderate"""
    re_ = [e for e in d if e[0] in 'CL']
    rng.shuffle(re_)
    used = set(x.lower() for e in d if e[0] == 'K' for x in e[2:4])
    for e in re_[7:]:
        if e[1].lower() not in used and e[0] == 'C':
            d.remove(e)


def ladder(rng, struct):
    """ladders of mixed branches; with struct also C loops, L cutsets, nodes without DC path"""
    n = rng.randint(1, 5)
    names = G.node_names(rng, n + 1)
    d = []
    cnt = [0]

    def br(a, b, kinds):
        cnt[0] += 1
        t = rng.choice(kinds)
        v = {'R': (1e2, 1e4), 'C': (1e-9, 1e-7), 'L': (1e-5, 1e-3)}[t]
        d.append([t, '%s%d' % (t, cnt[0]), a, b, G.rnd3(G.logu(rng, *v))] + ([None] if t in 'CL' else []))
        return t
    if rng.random() < .6:
        d.append(['V', 'VIN', names[0], '0', 1., 0, None])
    else:
        a, b = names[0], '0'
        d.append(['I', 'IIN'] + ([a, b] if rng.random() < .5 else [b, a]) + [1e-3, 0, None])
        br(names[0], '0', 'R' if not struct else 'RCC')
    for k in range(n):
        a, b = names[k], names[k + 1]
        br(a, b, 'RRCL')
        if rng.random() < .4:
            br(a, b, 'RCL')
        t = br(b, '0', 'RRCL' if not struct else 'CCLR')
        if t != 'R' and rng.random() < (.3 if struct else .7):
            br(b, '0', 'R')
    if rng.random() < .3 and n >= 2:
        x, y = rng.sample(names, 2)
        br(x, y, 'RCL')
    if rng.random() < .3:
        x, y = rng.sample(names, 2) if n >= 1 else (names[0], '0')
        s = rng.choice([q for q in names if q != y])
        d.append(['G', 'G9', y, '0', s, '0', G.rnd3(rng.choice([1, -1]) * G.logu(rng, 1e-5, 1e-3))])
    ls = [e for e in d if e[0] == 'L']
    if len(ls) >= 2 and rng.random() < .6:
        x, y = rng.sample(ls, 2)
        d.append(['K', 'K1', x[1], y[1], round(rng.uniform(.05, .95), 3)])
    if rng.random() < .3:
        rng.shuffle(d)
        d.sort(key=lambda e: e[0] == 'K')
    return d


def nonlinear(rng, fam):
    d, m = c02.easy(rng, fam)
    d = [list(e) for e in d if e[0] not in 'CLK']
    nodes = sorted(set(n for e in d for n in ref.elem_nodes(e) if n != '0'))
    for k in range(rng.randint(1, 4)):
        a = rng.choice(nodes)
        b = rng.choice([n for n in nodes + ['0'] if n != a])
        d.append(['C', 'CP%d' % k, a, b, G.rnd3(G.logu(rng, 1e-9, 1e-7)), None])
    return d, m


# ------------------------------------------------------------------ truth
def mpdesc(d, rnd=None):
    out = []
    for e in d:
        e = list(e)
        k = {'R': 4, 'C': 4, 'L': 4, 'K': 4, 'E': 6, 'G': 6, 'F': 5, 'H': 5}.get(e[0])
        if k:
            e[k] = mp.mpf(e[k]) * (1 + mp.mpf(rnd.uniform(-1, 1)) * mp.mpf(10) ** -9 if rnd else 1)
        out.append(e)
    return out


def pencil(c, rnd=None, lin=None, U=None):
    S = ref.System(mpdesc(c['d'], rnd), dtype=object)
    if lin is not None:
        n = S.N
        P = lin.copy()
        if rnd is not None:
            P = P + U * np.array([[rnd.uniform(-1, 1) for _ in range(n)] for _ in range(n)])
        A0 = np.vectorize(mp.mpf, otypes=[object])(P)
    else:
        A0 = S.A0
    return S, A0, S.A1


def roots(A0, A1, w0, deg, thr):
    """finite roots of det(A0 + s A1), in rad/s; None: identically null; (roots, certain)"""
    n = A0.shape[0]
    npt = deg + 1
    vals = []
    # rows scaled to keep the numbers comparable (a constant factor)
    M0, M1 = A0, A1 * w0
    sc = [max(max(abs(x) for x in M0[r]), max(abs(x) for x in M1[r])) for r in range(n)]
    if min(sc) == 0:
        return None, True
    for r in range(n):
        M0[r], M1[r] = M0[r] / sc[r], M1[r] / sc[r]
    for k in range(npt):
        z = mp.expjpi(mp.mpf(2) * k / npt)
        vals.append(mp.det(mp.matrix((M0 + M1 * z).tolist())))
    coef = []
    for j in range(npt):
        coef.append(mp.re(sum(vals[k] * mp.expjpi(-mp.mpf(2) * j * k / npt) for k in range(npt)) / npt))
    big = max(abs(x) for x in coef)
    if big < mp.mpf(10) ** thr[0]:
        return None, big < mp.mpf(10) ** (2 * thr[0])
    rel = [abs(x) / big for x in coef]
    certain = not any(mp.mpf(10) ** (thr[1]) < x < mp.mpf(10) ** thr[2] for x in rel)
    keep = [k for k in range(npt) if rel[k] > mp.mpf(10) ** thr[2]]
    lo, hi = min(keep), max(keep)
    p = coef[lo:hi + 1][::-1]
    rr = [mp.mpc(0)] * lo
    if len(p) > 1:
        try:
            rr += list(mp.polyroots(p, maxsteps=400, extraprec=500))
        except mp.NoConvergence:
            return rr, False
    return [mp.mpc(x) * w0 for x in rr], certain


def truth(c, mon, lin=None, U=None):
    """[(poles, zeros or None if transfer identically null)] nominal + perturbed"""
    rnd = random.Random(c['pseed'])
    deg = sum(1 for e in c['d'] if e[0] in 'CL')
    # linear: exact zeros are ~1e-115, others are limited by the 120 digits
    thr = (-90, -95, -60) if lin is None else (-90, -95, -60)
    w0 = mp.mpf(10) ** 5
    out = []
    for k in range(4):
        S, A0, A1 = pencil(c, rnd if k else None, lin, U)
        P, ok = roots(A0.copy(), A1.copy(), w0, deg, thr)
        if not ok:
            return None
        Z = []
        if c['src'] is not None:
            n = S.N
            B0 = np.zeros((n + 1, n + 1), dtype=object) * mp.mpf(0)
            B1 = np.zeros((n + 1, n + 1), dtype=object) * mp.mpf(0)
            B0[:n, :n], B1[:n, :n] = A0, A1
            e = [q for q in c['d'] if q[1] == c['src']][0]
            if e[0] == 'V':
                B0[S.ix[('i', e[1])], n] += 1
            else:
                for nd, sg in ((e[2], -1), (e[3], 1)):
                    if nd != '0':
                        B0[S.ix[('v', nd)], n] += sg
            for nd, sg in zip(c['out'], (1, -1)):
                if nd != '0':
                    B0[n, S.ix[('v', nd)]] += sg
            Z, ok = roots(B0, B1, w0, deg, thr)
            if not ok:
                return None
        out.append((P, Z))
    return out


def nearest(x, ys):
    return min(range(len(ys)), key=lambda k: abs(ys[k] - x)) if ys else None


def spread(T, which):
    """per nominal root: the movement under rounding-size changes of the data, None if the count changes"""
    nom = T[0][which]
    out = [0.] * len(nom)
    for t in T[1:]:
        if t[which] is None or len(t[which]) != len(nom):
            return None
        left = list(t[which])
        for k, x in enumerate(nom):
            j = nearest(x, left)
            out[k] = max(out[k], float(abs(left[j] - x)))
            left.pop(j)
    return out


# ------------------------------------------------------------------ monitor
def run(c, mon):
    o = sim.outname('pz')
    try:
        with c02.options({'dc_max_nr_iter': 1000}):
            run_(c, mon, o)
    finally:
        sim.cleanup(o)


def up(s):
    return s.upper() if s.lower() == s else s.lower()


def run_(c, mon, o):
    A = sim.api()
    mp.mp.dps = 120
    d, m = c['d'], c['m']
    lin = U = None
    x0 = None
    circ = None
    if c['deck']:
        p = o + '.sp'
        pz = '.pz'
        if c['src']:
            pz += ' output=v(%s%s) source=%s' % (c['out'][0], ',' + c['out'][1] if c['out'][1] != '0' else '', up(c['src']) if c['case'] else c['src'])
            if c['out'][0] == '0':
                pz = '.pz output=v(0,%s) source=%s' % (c['out'][1], c['src'])
        if c['shift']:
            pz += ' shift=%r' % c['shift']
        open(p, 'w').write(G.to_text(d, extra=['.op', pz, '.end']))
    else:
        circ = G.to_api(d, models=m)
    if m:
        N = nl.NL(d, m)
        S = N.S
        op = A.run(circ, A.new_op(outfile=o + '.op')).get('op')
        if op is None:
            mon.event('no_bias')
            return
        x, miss = nl.vector(S, op, sim)
        b = S.rhs(ref.dc_value).real

        def tol(s):
            t = np.maximum(3e-9, 1e-5 * s)
            t[len(S.nodes):] = 3e-9 + 1e-9 * s[len(S.nodes):]
            t[:len(S.nodes)] += 4e-12 * np.abs(x[:len(S.nodes)]).max()
            return t
        if not N.best(x, b, tol)[0] <= 1:
            mon.event('bias_off')
            return
        for e, D in N.dev:
            vd = N.volt(x, e[2]) - N.volt(x, e[3]) if e[0] == 'D' else 0.
            if e[0] == 'D' and not -D.BV - 20 * D.NBV * D.VT < vd < D.vmax() + 10 * D.RS:
                mon.event('not_judged_overdriven_junction')
                return
        J = c06.linearise(circ, N, x, {})
        if J is None:
            return
        lin, U = J
        U = U + 3e-15 * np.abs(lin).max(axis=1, keepdims=True) * (lin != 0)
        x0 = op
    T = truth(c, mon, lin, U)
    if T is None:
        mon.event('not_judged_degree_unclear')
        return
    if T[0][0] is None:
        mon.event('not_judged_irregular')       # no unique solution at any frequency
        return
    if any(abs(x) > 2 * math.pi * 1e11 for x in T[0][0] + (T[0][1] or [])):
        mon.event('not_judged_beyond_pz_max')
        return
    mag = [float(abs(x)) for x in T[0][0] if x != 0]
    if mag and max(mag) > 1e7 * min(mag):
        mon.event('not_judged_spread')
        return
    # ---- the code under test
    if c['deck']:
        r = A.main(o + '.sp', outfile=o, verbose=0).get('pz')
        mon.event('deck')
    else:
        kw = {}
        if c['src']:
            src = c['src']
            if c['inst']:
                src = circ.get_elem_by_name(src)
                mon.event('source instance')
            elif c['case']:
                src = up(src)
            f = c['form']
            if f == 'node' and c['out'][1] == '0':
                out = c['out'][0]
            elif f == 'label' and '0' not in c['out'][:1]:
                out = 'V(%s)' % (c['out'][0] if c['out'][1] == '0' else '%s,%s' % tuple(c['out']))
            else:
                f, out = 'tuple', tuple(c['out'])
            mon.event('out ' + f)
            kw = dict(input_source=src, output_port=out)
        if c['direct']:
            from ahkab import pz
            if not c['src'] and not c['shift']:
                r = pz.calculate_poles(circ, x0=x0, outfile=o + '.pz')
                mon.event('calculate_poles')
            else:
                r = pz.calculate_singularities(circ, x0=x0, shift=c['shift'], outfile=o + '.pz', **kw)
        else:
            r = A.run(circ, A.new_pz(shift=c['shift'], x0=x0, outfile=o, **kw)).get('pz')
    for ev, q in ((c['kind'], True), ('coupled', any(e[0] == 'K' for e in d)), ('shift', c['shift']), ('poles only', not c['src']), ('src ' + (c['src'] or ' ')[0].upper(), c['src']),
                  ('pole at origin', any(x == 0 for x in T[0][0])), ('null transfer', T[0][1] is None), ('complex poles', any(abs(mp.im(x)) > abs(x) * 1e-3 for x in T[0][0])),
                  ('unstable', any(mp.re(x) > 0 for x in T[0][0]))):
        if q:
            mon.event(ev)
    mon.seen(G.shape_sig(d), c['src'], tuple(c['out'] or ()))
    if not mon.check(r is not None, 'result', 'no result'):
        return
    P = [complex(x) * 2 * math.pi for x in r.poles]
    Z = [complex(x) * 2 * math.pi for x in r.zeros]
    mon.sample({'elements': d, 'poles': [str(x) for x in r.poles], 'zeros': [str(x) for x in r.zeros]})
    # ---- poles
    sp = spread(T, 0)
    if sp is None:
        mon.event('not_judged_degree_unclear')
        return
    judge(mon, 'poles', [complex(x) for x in T[0][0]], sp, P, set(), max(mag or [1e3]))
    # ---- zeros
    if not c['src']:
        mon.check(not Z, 'zeros', lambda: 'zeros %s reported, none requested' % Z)
    elif m and (T[0][1] is None or faint(c, lin)):
        mon.event('not_judged_zeros')
    elif T[0][1] is None:
        mon.check(not Z, 'zeros', lambda: 'zeros %s reported for a null transfer function' % Z)
    else:
        sz = spread(T, 1)
        if sz is None:
            mon.event('not_judged_zeros')
        else:
            tz, tp = [complex(x) for x in T[0][1]], [complex(x) for x in T[0][0]]
            left = list(range(len(tp)))
            opt = set()
            for k, z in enumerate(tz):
                for j in left:
                    if abs(tp[j] - z) <= 1e-6 * abs(z) + 10 * (sz[k] + sp[j]):
                        opt.add(k)
                        left.remove(j)
                        break
            if opt:
                mon.event('cancelled')
            # far above the poles the zeros rest on tiny residues of the transfer function
            opt |= set(k for k, z in enumerate(tz) if mag and abs(z) > 10 * max(mag))
            mon.event('zeros' if tz else 'no zeros')
            judge(mon, 'zeros', tz, sz, Z, opt, max(mag or [1e3]))
    # ---- access
    keys = sorted(str(k) for k in r.keys())
    mon.check(keys == sorted(['p%d' % k for k in range(len(P))] + ['z%d' % k for k in range(len(Z))]), 'access', lambda: 'names %r' % keys)
    for k, v in enumerate(r.poles):
        mon.check(r['p%d' % k] == v and r['P%d' % k] == v, 'access', 'p%d differs from the list of poles' % k)
    for k, v in enumerate(r.zeros):
        mon.check(r['z%d' % k] == v, 'access', 'z%d differs from the list of zeros' % k)
    if keys:
        mon.event('saved')


def faint(c, J):
    """is the transfer of a linearised circuit within the rounding errors of its Jacobian?"""
    S = ref.System(c['d'])
    e = [q for q in c['d'] if q[1] == c['src']][0]
    b = np.zeros(S.N)
    if e[0] == 'V':
        b[S.ix[('i', e[1])]] = 1
    else:
        for nd, sg in ((e[2], -1), (e[3], 1)):
            if nd != '0':
                b[S.ix[('v', nd)]] = sg
    for s in (1e2, 1e4, 1e6):
        x = np.linalg.solve(J + s * S.A1, b)
        y = sum(sg * x[S.ix[('v', nd)]] for nd, sg in zip(c['out'], (1, -1)) if nd != '0')
        if abs(y) > 1e-8 * max(np.abs(x[:len(S.nodes)]).max(), np.abs(x).max() if e[0] == 'I' else 0.):
            return False
    return True


def judge(mon, what, want, sp, got, opt, scale):
    """want: true roots with movement sp; opt: indices which may be missing"""
    scale = max([abs(x) for x in want] + [scale])
    pos = [abs(x) for x in want if x != 0]
    floor = 1e-5 * (min(pos) if pos else 1e2)
    tol = []
    for k, x in enumerate(want):
        # a root of multiplicity n moves by the n-th root of the rounding errors
        n = sum(1 for y in want if abs(y - x) <= 1e-3 * abs(x))
        tol.append(2e-5 * abs(x) + 100 * sp[k] + (1e-11 * scale if n == 1 else 20 * (1e-13) ** (1. / n) * scale) + (floor if x == 0 else 0.))
    n0 = sum(1 for x in want if x == 0)
    if n0 > 1:        # the roots next to a multiple one feel it too
        t0 = max(tol[k] for k in range(len(want)) if want[k] == 0)
        tol = [t + (t0 ** n0 / abs(x) ** (n0 - 1) if x else 0.) for t, x in zip(tol, want)]
    unsure = [k for k in range(len(want)) if tol[k] > 2e-2 * abs(want[k]) and want[k] != 0]
    # multiple or nearly multiple roots are not determined: only count them
    if unsure:
        mon.event('not_determined:' + what)
        lim_ = [max(tol[k] * 50, .3 * abs(want[k])) for k in range(len(want))]
        left = list(got)
        for k in sorted(range(len(want)), key=lambda q: q in unsure):
            if k in opt:
                continue
            j = nearest(want[k], left)
            if k not in unsure:
                if not mon.check(j is not None and abs(left[j] - want[k]) <= max(tol[k], 1e-3 * abs(want[k])), what,
                                 lambda: '%s %s missing: reported %s, true %s' % (what, hz(want[k]), hz(got), hz(want))):
                    return
                left.pop(j)
        return
    left = list(got)
    for k in sorted(range(len(want)), key=lambda q: (q in opt, abs(want[q]))):
        j = nearest(want[k], left)
        good = j is not None and abs(left[j] - want[k]) <= tol[k]
        if k in opt:
            if good:
                left.pop(j)
            continue
        if not mon.check(good, what, lambda: '%s: %s Hz is missing: reported %s Hz, true %s Hz' % (what, hz(want[k]), hz(got), hz(want))):
            return
        left.pop(j)
    mon.check(not left, what, lambda: '%s: %s Hz do not exist: reported %s Hz, true %s Hz' % (what, hz(left), hz(got), hz(want)))


def hz(x):
    if isinstance(x, list):
        return '[' + ', '.join(hz(y) for y in x) + ']'
    return '%.7g%+.7gj' % (x.real / 2 / math.pi, x.imag / 2 / math.pi)
