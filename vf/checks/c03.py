"""C03  Operating-point report and power balance."""
import math
import os
import re

import numpy as np

from .. import dev, gen as G
from .. import nl, ref, sim
from . import c02

PROP = 'C03'
RULE = ('operating points of random linear (reactive, controlled sources) and nonlinear circuits; every row of the saved '
        'operating-point report and the total power figure are recomputed from the reported voltages/currents with '
        'independent element laws; distinct = distinct topology signature')
CASES = {'quick': 1200, 'thorough': 16000}
MIN_OK = {'quick': 8000, 'thorough': 100000}
NEED = ['power', 'conservation', 'R', 'C', 'L', 'V', 'I', 'D', 'S', 'mosq', 'ekv', 'table', 'region']
CASE_LIMIT = 120.0
ASSUMPTIONS = ['the report prints 6 significant digits; tolerance 3e-5 relative of the terms involved']


def gen(rng, i, tier):
    if i % 3 == 0:
        d = G.linear_circuit(rng, reactive=rng.random() < .7, couplings=True)
        m = []
    elif i % 3 == 1:
        d, m = c02.easy(rng, c02.EASY[(i // 3) % len(c02.EASY)])
    else:
        d = G.linear_circuit(rng, nn=rng.randint(1, 6), rlo=100, rhi=5e4, alpha=2., neg=0, ctrl=rng.random() < .5,
                             reactive=rng.random() < .3)
        nodes = sorted(set(n for e in d for n in ref.elem_nodes(e) if n != '0'))
        e, m = G.nl_devices(rng, nodes, rng.choice(['d', 'm', 'e', 's', 'dmes']), rng.randint(1, 4))
        for x in e:
            if x[0] == 'D' and rng.random() < .3:
                x[5]['T'] = G.rnd3(rng.uniform(270, 370))
        d = d + e
    return {'d': d, 'm': m}


def parse_tables(text):
    """tables of the report: list of list of {column: cell}; MOS blocks as raw text"""
    tabs, raw = [], []
    body = text.split('ELEMENTS OP INFORMATION')[-1]
    for blk in re.split(r'\n\s*\n', body):
        lines = [l for l in blk.splitlines() if l.strip()]
        for k, l in enumerate(lines):
            if re.match(r'^\s*-{2,}(\s+-+)+\s*$', l):
                if k == 0:
                    raw.append('\n'.join(lines))
                else:
                    cols = [(m.start(), m.end()) for m in re.finditer(r'-+', l)]
                    head = [lines[k - 1][a:b].strip() for a, b in cols]
                    tabs.append((head, [[x[a:b].strip() for a, b in cols] for x in lines[k + 1:]]))
                break
    return tabs, raw


def value(tok):
    try:
        return float(tok)
    except ValueError:
        return None


def grab(block, label):
    m = re.search(r'(?<![A-Za-z])' + re.escape(label) + r'\s+(?:\[[^\]]*\]:)?\s*\[?([-+0-9.eEnaif]+)', block)
    return value(m.group(1)) if m else None


def run(case, mon):
    d, m = case['d'], case['m']
    A = sim.api()
    circ = G.to_api(d, models=m)
    N = nl.NL(d, m)
    S = N.S
    o = sim.outname('c3')
    try:
        with c02.options({'dc_max_nr_iter': 1000}):
            r = A.run(circ, A.new_op(outfile=o))['op']
        if r is None:
            mon.event('no_solution')
            return
        base, pre = os.path.dirname(o), os.path.basename(o) + '.'
        txt = None
        for f in os.listdir(base):
            if f.startswith(pre) and f.endswith('info'):
                txt = open(os.path.join(base, f), encoding='utf-8').read()
    finally:
        sim.cleanup(o)
    mon.seen(G.shape_sig(d))
    x, miss = nl.vector(S, r, sim)
    if miss or not np.all(np.isfinite(x)):
        return
    # ---- total power
    P = scale = 0.
    b = S.rhs(ref.dc_value).real
    v = lambda n: N.volt(x, n)
    cur = lambda i: x[S.ix[('i', S.bid[i.lower()])]]
    for e in d:
        t = e[0]
        if t in 'VEH':
            p = (v(e[2]) - v(e[3])) * cur(e[1])
        elif t == 'I':
            p = (v(e[2]) - v(e[3])) * e[4]
        elif t == 'G':
            p = (v(e[2]) - v(e[3])) * (v(e[4]) - v(e[5])) * e[6]
        elif t == 'F':
            p = (v(e[2]) - v(e[3])) * e[5] * cur(e[4])
        else:
            continue
        P -= p
        scale += abs(p)
    tp = float(np.asarray(r.tot_power).reshape(-1)[0])
    mon.check(abs(tp - P) <= 1e-7 * scale + 1e-13, 'power',
              lambda: 'total power %r, the sources deliver %r (sum of magnitudes %g)' % (tp, P, scale))
    diss = dsc = 0.
    states = None
    for st in N.switch_states(x):
        rr, sc = N.residual(x, b, st)
        if states is None or np.abs(rr).max() < states[0]:
            states = (np.abs(rr).max(), st, rr, sc)
    st = (states[1] if states else {})
    over = False
    for e in d:
        if e[0] == 'R':
            p = (v(e[2]) - v(e[3])) ** 2 / e[4]
            diss += p
            dsc += abs(p)
    for k, (e, D) in enumerate(N.dev):
        if e[0] == 'D':
            vd = v(e[2]) - v(e[3])
            if not -D.BV - 60 * D.NBV * D.VT - 100 * D.RS < vd < D.vmax() + 100 * D.RS:
                over = True
                continue
        i = nl.dcurrent(e, D, [v(n) for n in nl.terminals(e)], st.get(k))
        a, c = nl.out_nodes(e)
        diss += (v(a) - v(c)) * i
        dsc += abs((v(a) - v(c)) * i)
    vmax = max([abs(v(n)) for n in S.nodes] + [0])
    if over:
        mon.event('not_judged_overdriven_junction')
        return
    # the solver's own current tolerance limits how well power is conserved
    tol = 3e-5 * (scale + dsc) + len(S.nodes) * vmax * (4e-9 + 4e-12 * vmax) + 1e-12
    mon.check(abs(tp - diss) <= tol, 'conservation',
              lambda: 'total power %r but the other elements dissipate %r (tolerance %g)' % (tp, diss, tol))
    # ---- report
    if not mon.check(txt is not None, 'file', 'no operating point report file was written'):
        return
    tw = re.search(r'Total power dissipation:\s*(\S+)\s*W', txt)
    mon.check(tw is not None and abs(float(tw.group(1)) - tp) <= 2e-5 * abs(tp) + 1e-30, 'power_text',
              lambda: 'report prints total power %s, result object says %r' % (tw and tw.group(1), tp))
    res = {}
    for l in txt.split('ELEMENTS OP INFORMATION')[0].split('RESULTS:')[-1].splitlines():
        f = l.split()
        if len(f) >= 3 and f[1] in 'VA' and len(f[1]) == 1:
            res[f[0].lower()] = value(f[2])
    for k, i in S.ix.items():
        lab = sim.label(k).lower()
        mon.check(lab in res and close(res[lab], x[i], 1e-30), 'table',
                  lambda: 'report lists %s = %s, the result is %r' % (lab, res.get(lab), x[i]))
    tabs, raw = parse_tables(txt)
    rows = {}
    for head, rr in tabs:
        for row in rr:
            if row:
                rows[row[0].lower()] = (head, row[1:])
    for k, e in enumerate(d):
        t = e[0]
        if t in 'RCLVIDS':
            row = rows.get(e[1].lower())
            if not mon.check(row is not None, 'listed', lambda: 'element %s missing from the report' % e[1]):
                continue
            vals = [value(c) for c in row[1]]
            du = v(e[2]) - v(e[3])
            au = 1e-12 * (abs(v(e[2])) + abs(v(e[3])))
            if t == 'R':
                exp = [(e[4], 0), (du, au), (du / e[4], au / abs(e[4])), (du ** 2 / e[4], 2 * abs(au * du / e[4]) + au * au)]
            elif t == 'C':
                exp = [(du, au), (du * e[4], au * e[4]), (.5 * e[4] * du ** 2, abs(au * du) * e[4])]
            elif t == 'L':
                i = cur(e[1])
                exp = [(e[4] * i, 0), (i, 0), (.5 * e[4] * i * i, 0)]
            elif t == 'V':
                i = cur(e[1])
                # voltage across an ideal source: the documented value
                exp = [(e[4], au + 1e-6), (i, 0), (e[4] * i, 1e-6 * abs(i))]
            elif t == 'I':
                exp = [(du, au), (e[4], 0), (e[4] * du, au * abs(e[4]))]
            elif t == 'D':
                D = nl.device(e, N_md(m))
                i, g = D.ig(du)
                ta = 1e-17 + 1e-13 * D.IS * D.area + 2e-6 * abs(i) + (D.area * 4e-8 / D.RS if D.RS else 0.)
                tg = (1e-3 if D.RS else 1e-4) * g + 4e-12 * max(D.area, 1)
                vs = 1e-9 * abs(g)
                exp = [(du, au), (i, ta + vs), (i * du, (ta + vs) * abs(du)), (g, tg + 3e-4 * g),
                       ((e[5] or {}).get('T') or 300., 0)]
            else:
                kk = [j for j, (q, _) in enumerate(N.dev) if q is e][0]
                D = N.dev[kk][1]
                vin = v(e[4]) - v(e[5])
                best = None
                for on in (True, False):
                    if kk in st and abs(vin - D.VT) > abs(D.VH) + .25 and on != st[kk]:
                        continue
                    R = D.R(vin, on)
                    ok = close(vals[3], R, 1e-6 * R) and close(vals[4], du / R, 1e-5 * abs(du / R) + 1e-15)
                    best = best or (ok and (row[1][0] == 'ON') == (R < .5 * (D.RON + D.ROFF))) or \
                        (ok and abs(vin - D.VT) <= abs(D.VH) + .25)
                mon.check(bool(best) and close(vals[1], du, au) and close(vals[2], vin, 1e-12), 'S',
                          lambda: 'report row of switch %s: %s; V=%r Vin=%r RON/ROFF %g/%g' % (
                              e[1], row[1], du, vin, D.RON, D.ROFF))
                continue
            mon.check(len(vals) >= len(exp) and all(close(a, q, tt) for a, (q, tt) in zip(vals, exp)), t,
                      lambda: 'report row of %s: %s lists %s, expected %s' % (e[1], row[0][1:], row[1], [q for q, _ in exp]))
        elif t == 'M':
            mos(circ, mon, e, N, v, raw)


def N_md(m):
    return nl.models_dict(m)


def close(a, b, tol):
    return a is not None and abs(a - b) <= 3e-5 * abs(b) + tol


def der(f, v, k, h=1e-5):
    a = list(v)
    a[k] += h
    p = f(a)
    a[k] -= 2 * h
    return (p - f(a)) / (2 * h)


def mos(circ, mon, e, N, v, raw):
    D = [q for w, q in N.dev if w is e][0]
    blk = [t for t in raw if re.search(r'^\s*%s\b' % re.escape(e[1].lower()), '\n'.join(t.splitlines()[1:]).lower())]
    if not mon.check(len(blk) == 1, 'listed', lambda: 'element %s missing from the report' % e[1]):
        return
    blk = blk[0]
    vd, vg, vs, vb = [v(n) for n in e[2:6]]
    mq = isinstance(D, dev.Mosq)
    if mq:
        p = [vd - vs, vg - vs, vb - vs]
        labs = ['Vds', 'Vgs', 'Vbs']
    else:
        p = [vd - vb, vg - vb, vs - vb]
        labs = ['Vdb', 'Vgb', 'Vsb']
    kind = 'mosq' if mq else 'ekv'
    got = [grab(blk, l) for l in labs]
    if not mon.check(all(close(a, b, 1e-9) for a, b in zip(got, p)), kind,
                     lambda: '%s report lists %s=%s, the solution says %s' % (e[1], labs, got, p)):
        return
    i = D.i(*p)
    got = grab(blk, 'Ids')
    f = lambda a: D.i(*a)
    if mq:
        reg, mg = D.region(*p)
        off = 1e-10 * D.f * (1 + max(map(abs, p)))
        mon.check(close(got, i, off + 2e-9 * abs(i)), kind, lambda: '%s report: Ids %s, device equation gives %r (%s)' % (e[1], got, i, reg))
        sat, on = 'SATURATION' in blk, bool(re.search(r'\bON\b', blk))
        a, bq, dd = [q * D.c.s for q in p]
        if a < 0:
            a, bq, dd = -a, bq - a, dd - a
        u = bq - D.vt(dd)
        if mg > 1e-3:
            mon.check(on == (reg != 'off'), 'region', lambda: '%s reported %s; Vgs - VT = %g (%s)' % (e[1], 'ON' if on else 'OFF', u, reg))
            if reg == 'sat' and a > u + 1e-3 or reg == 'ohm':
                mon.check(sat == (reg == 'sat'), 'region', lambda: '%s reported %s in region %s' % (e[1], 'SAT' if sat else 'LINEAR', reg))
        vod, vt = grab(blk, 'VOD'), grab(blk, 'VTH')
        mon.check(close(vt, D.vt(dd), 1e-6), kind, lambda: '%s report VTH %s, expected %r' % (e[1], vt, D.vt(dd)))
        mon.check(vod is not None and close(abs(vod), abs(u), 1e-6), kind, lambda: '%s report VOD %s, expected %r' % (e[1], vod, u))
        if mg > 1e-3:
            for l, k in (('gm', 1), ('gmb', 2)):
                q = der(f, p, k)
                g = grab(blk, l)
                mon.check(close(g, q, 1e-3 * abs(q) + 1e-8 * D.f + 4e-12), 'mosq', lambda: '%s report %s=%s, derivative %r' % (e[1], l, g, q))
            ro = grab(blk, 'ro')
            q = der(f, p, 0)
            mon.check(ro is not None and close(1. / ro, q, 1e-3 * abs(q) + 1e-8 * D.f + 4e-12), 'mosq', lambda: '%s report ro=%s, 1/ro should be %r' % (e[1], ro, q))
    else:
        c = D.c
        sc = abs(i) + 1e-9 * D.w / D.l
        mon.check(close(got, i, 3e-5 * abs(i) + 1e-8 * sc + 1e-14), kind, lambda: '%s report: Ids %s, device equation gives %r' % (e[1], got, i))
        el = [q for q in circ if q.part_id.lower() == e[1].lower()][0]
        for l, k in (('gmg', 1), ('gms', 2)):
            # charge-based approximations of the derivatives: their values are judged by C10
            q = float(el.g(0, tuple(p), k))
            g = grab(blk, l)
            mon.check(close(g, q, 4e-12), kind, lambda: '%s report %s=%s, the device says %r' % (e[1], l, g, q))
        q, g = float(el.g(0, tuple(p), 0)), grab(blk, 'rob')
        mon.check(g is not None and close(1. / g, q, 4e-12), kind, lambda: '%s report rob=%s, the device says %r' % (e[1], g, 1 / q if q else q))
        mon.check(('P ch' in blk) == (c.s < 0), kind, '%s: channel type misreported' % e[1])
