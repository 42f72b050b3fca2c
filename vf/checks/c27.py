"""C27  subcircuits behave as if written out in place."""
import random

import numpy as np

from .. import gen as G
from .. import ref, sim
from . import c02, c06, c07, c12

PROP = 'C27'
RULE = ('random hierarchies of subcircuit definitions (bodies with every documented element, ground, private nodes and ids shadowing outer names, calls nested up to three levels, '
        'definitions in any order, several instances, ports shorted together, grounded or unused) parsed from a netlist and compared with the circuit obtained by writing every call out in '
        'place: one-to-one correspondence of nodes, every element law and terminal, the sources and inductors that other elements refer to, and the operating point and AC response; '
        'distinct = distinct (definition shapes, call pattern) signature')
CASES = {'quick': 700, 'thorough': 12000}
MIN_OK = {'quick': 80000, 'thorough': 1500000}
NEED = ['in:' + t for t in 'RCLKVIEGFHDMS'] + ['nested', 'nested twice', 'instances', 'port grounded', 'ports shorted', 'port unused', 'shadowed node', 'shadowed id', 'port named as outer node',
                                               'call before definition', 'op', 'ac', 'ground inside', 'fn']
CASE_LIMIT = 60.0
ASSUMPTIONS = ['elements of a body refer only to ids of the same body', 'node and element names chosen for the expanded circuit are free: the correspondence of names is inferred']

POOL = ['a', 'b', 'c', '1', '2', '3', '4', 'in', 'out', 'mid', 'n1', 'n2', 'vdd', '0x', 'x1', 'gnd1', 'a-b']


def relabel(d, mp):
    """rename the nodes of a description"""
    f = lambda n: '0' if n == '0' else mp(n)
    out = []
    for e in d:
        e = list(e)
        for k in range(2, {'E': 6, 'G': 6, 'S': 6, 'M': 6, 'K': 2}.get(e[0], 4)):
            e[k] = f(e[k])
        out.append(e)
    return out


def reid(d, f):
    mp = {e[1]: f(e[1]) for e in d}
    out = []
    for e in d:
        e = list(e)
        e[1] = mp[e[1]]
        if e[0] in 'FH':
            e[4] = mp.get(e[4], e[4])
        if e[0] == 'K':
            e[2], e[3] = mp[e[2]], mp[e[3]]
        out.append(e)
    return out


def body(rng, models, nports, calls, defs):
    """-> (ports, list of element lists and ['X', id, label, {port: node}])"""
    r3 = G.rnd3
    d = G.linear_circuit(rng, nn=rng.randint(1, 4), reactive=True, sources='ac', couplings=True, neg=0, rlo=100, rhi=2e4, alpha=2.,
                         clo=1e-10, chi=1e-7, llo=1e-6, lhi=1e-3)
    inner = sorted(set(n for e in d for n in ref.elem_nodes(e) if n != '0'))
    pool = POOL[:]
    rng.shuffle(pool)
    mp = {n: pool.pop() for n in inner}
    d = relabel(d, lambda n: mp[n])
    inner = [mp[n] for n in inner]
    ports = [pool.pop() for _ in range(nports)]
    k = 0
    used = set()
    for p in ports:
        if rng.random() < .12:
            continue
        used.add(p)
        for _ in range(rng.choice([1, 1, 2])):
            k += 1
            t = rng.choice('RRRCDMSG')
            n = rng.choice(inner + ['0'] + ([rng.choice(ports)] if rng.random() < .3 else []))
            if n == p:
                n = '0'
            R = ['R', 'Rp%d' % k, p, n, r3(G.logu(rng, 1e3, 1e5))]
            if t == 'R':
                e = R
            elif t == 'C':
                e = ['C', 'Cp%d' % k, p, n, r3(G.logu(rng, 1e-10, 1e-8)), None]
            elif t == 'G':
                e = ['G', 'Gp%d' % k, n, '0', p, '0', r3(G.logu(rng, 1e-6, 1e-4))]
            else:
                kind = {'D': 'diode', 'S': 'sw', 'M': rng.choice(['mosq', 'ekv'])}[t]
                ms = [m for m in models if m[0] == kind]
                if ms and rng.random() < .5:
                    lab = rng.choice(ms)[1]
                else:
                    lab = '%s_%d' % (kind, len(models))
                    models.append((kind, lab, G.simple_diode(rng) if t == 'D' else {'VT': 1., 'VH': .3, 'RON': 100., 'ROFF': 1e5} if t == 'S'
                                   else G.card_mos(rng, kind, rng.choice('np'))))
                if t == 'D':
                    e = ['D', 'Dp%d' % k, p, n, lab, {'Area': r3(rng.uniform(.5, 3))} if rng.random() < .3 else {}]
                elif t == 'S':
                    e = ['S', 'Sp%d' % k, p, n, rng.choice(inner), '0', lab, None]
                else:
                    e = ['M', 'Mp%d' % k, p, rng.choice(inner), n, '0', lab, r3(G.logu(rng, 2e-6, 2e-5)), r3(G.logu(rng, 1e-6, 5e-6)), {'m': 2} if rng.random() < .3 else {}]
            d.append(e)
    for e in d:
        if e[0] in 'VI':
            if isinstance(e[5], (list, tuple)):
                e[5] = abs(complex(*e[5]))
            if rng.random() < .2:
                f = c12.rfn(rng, 1e-4, e[0])
                e[6] = f
                if e[4] is None:
                    e[4] = 0.
        if e[0] in 'CL' and rng.random() < .2:
            e[5] = r3(rng.uniform(-1, 1) * (1 if e[0] == 'C' else 1e-3))
    ls = [e for e in d if e[0] == 'L']
    if ls and rng.random() < .3:     # a transformer winding to ground
        d += [['L', 'Lw', inner[0] + 'w', '0', r3(G.logu(rng, 1e-6, 1e-3)), None], ['R', 'Rw', inner[0] + 'w', inner[0], r3(G.logu(rng, 1e3, 1e5))],
              ['K', 'Kw', *rng.sample([ls[0][1], 'Lw'], 2), r3(rng.uniform(.1, .4))]]
    rest, ks = [e for e in d if e[0] != 'K'], [e for e in d if e[0] == 'K']
    rng.shuffle(rest)
    d = rest
    for j in range(calls):
        d.insert(rng.randint(0, len(d)), call(rng, 'X' + rng.choice(['%d', 'a%d', '_%d', 'amp%d']) % (j + 1), defs, inner + sorted(used)))
    d += ks
    return ports, c12_lower(d)


def c12_lower(d):
    out = []
    for e in d:
        if e[0] == 'X':
            out.append(['X', e[1].lower(), e[2], e[3]])
        else:
            e = c12.lower([e])[0]
            if e[0] == 'K':
                e[2], e[3] = e[2].lower(), e[3].lower()
            out.append(e)
    return out


def call(rng, xid, defs, nodes):
    lab = rng.choice(sorted(defs))
    ports = defs[lab][0]
    return ['X', xid, lab, {p: rng.choice(nodes + (['0'] if rng.random() < .2 else [])) for p in ports}]


def gen(rng, i, tier):
    for _ in range(60):
        models, defs = [], {}
        labels = ['amp', 'sub1', 'x', 'filter_a', '2port', 'cell-1', 'amp2']
        rng.shuffle(labels)
        nd = rng.choice([1, 2, 2, 3, 3])
        for k in range(nd):
            calls = rng.choice([0, 1, 1, 2, 2]) if k else 0
            if calls:
                defs2 = dict(defs)
            defs[labels[k]] = body(rng, models, rng.randint(1, 4), calls, defs2 if calls else None)
        _, top = body(rng, models, 0, rng.randint(1, 3), defs)
        # at least one call of the last definition, which reaches the others
        nodes = sorted(set(n for e in top if e[0] != 'X' for n in ref.elem_nodes(e) if n != '0'))
        lab = labels[nd - 1]
        top.insert(rng.randint(0, len([e for e in top if e[0] != 'K'])), ['X', 'x' + rng.choice(['last', '9', 'z-1']), lab, {p: rng.choice(nodes) for p in defs[lab][0]}])
        flat = flatten(top, defs, {}, '')
        if len(flat) > 70:
            continue
        try:
            S = ref.System([e for e in flat if e[0] not in 'DMS'], gmin=1e-12)
            if np.linalg.cond(S.A0 / np.maximum(np.abs(S.A0).max(axis=1), 1e-300)[:, None]) < 1e11:
                break
        except np.linalg.LinAlgError:
            pass
    else:
        raise RuntimeError('no hierarchy found')
    return {'defs': defs, 'top': top, 'm': [list(m) for m in models], 'order': rng.random(), 'seed': rng.randrange(1 << 30)}


def flatten(b, defs, portmap, pre):
    """our own expansion of the calls"""
    def node(n):
        n = n.lower()
        if n == '0':
            return '0'
        return portmap[n] if n in portmap else pre + n
    out = []
    for e in b:
        if e[0] == 'X':
            ports, bd = defs[e[2]]
            out += flatten(bd, defs, {p.lower(): node(e[3][p]) for p in ports}, pre + e[1] + '/')
        else:
            e = relabel([e], node)[0]
            e[1] = e[0].lower() + pre + e[1][1:]
            if e[0] in 'FH':
                e[4] = e[4][0] + pre + e[4][1:]
            if e[0] == 'K':
                e[2], e[3] = e[2][0] + pre + e[2][1:], e[3][0] + pre + e[3][1:]
            out.append(e)
    return out


def text(c):
    rng = random.Random(c['seed'])

    def lines(b):
        out = []
        for e in b:
            if e[0] == 'X':
                p = ['name=' + e[2]] + ['%s=%s' % kv for kv in sorted(e[3].items())]
                rng.shuffle(p)
                out.append(e[1] + ' ' + ' '.join(p))
            else:
                e = list(e)
                out.append(c12.line(rng, e, []))
            if rng.random() < .05:
                out.append('* comment x1 name=none')
        return out
    blocks = []
    for lab, (ports, b) in sorted(c['defs'].items()):
        blocks.append(['.subckt %s %s' % (lab, ' '.join(ports))] + lines(b) + ['.ends'])
    rng.shuffle(blocks)
    blocks.append(c12.model_lines(rng, [tuple(m) for m in c['m']], []))
    tl = lines(c['top'])
    pos = sorted(rng.randint(0, len(tl)) if c['order'] < .5 else (0 if c['order'] < .8 else len(tl)) for _ in blocks)
    out = ['subcircuit deck']
    for k in range(len(tl) + 1):
        for p, bl in zip(pos, blocks):
            if p == k:
                out += bl
        if k < len(tl):
            out.append(tl[k])
    t = '\n'.join(out) + '\n'
    return t.upper() if rng.random() < .1 else t


def events(c, mon):
    def walk(b, depth, outer_nodes, outer_ids):
        ids = set(e[1] for e in b)
        nodes = set(n.lower() for e in b if e[0] != 'X' for n in (ref.elem_nodes(e) if e[0] != 'K' else []))
        for e in b:
            if depth and e[0] != 'X':
                mon.event('in:' + e[0])
                if e[0] != 'K' and '0' in ref.elem_nodes(e):
                    mon.event('ground inside')
                if e[0] in 'VI' and e[6]:
                    mon.event('fn')
            if e[0] == 'X':
                if depth:
                    mon.event('nested' if depth == 1 else 'nested twice')
                ports, bd = c['defs'][e[2]]
                v = [e[3][p] for p in ports]
                if '0' in v:
                    mon.event('port grounded')
                if len(set(v)) < len(v):
                    mon.event('ports shorted')
                if set(ports) & nodes:
                    mon.event('port named as outer node')
                bn = set(n for x in bd if x[0] not in 'XK' for n in ref.elem_nodes(x))
                if set(ports) - bn:
                    mon.event('port unused')
                if (bn - set(ports) - {'0'}) & nodes:
                    mon.event('shadowed node')
                if set(x[1] for x in bd) & ids:
                    mon.event('shadowed id')
                walk(bd, depth + 1, nodes, ids)
    walk(c['top'], 0, set(), set())
    labs = [e[2] for e in c['top'] if e[0] == 'X']
    if len(set(labs)) < len(labs):
        mon.event('instances')
    if c['order'] >= .8:
        mon.event('call before definition')


TERM = ('n1', 'n2', 'sn1', 'sn2', 'ng', 'nb')


def run(c, mon):
    from ahkab import netlist_parser
    A = sim.api()
    events(c, mon)
    flat = flatten(c['top'], c['defs'], {}, '')
    t = text(c)
    mon.sample({'deck': t})
    mon.seen((tuple(sorted((len(p), len(b), ''.join(e[0] for e in b)) for p, b in c['defs'].values())), tuple(e[2] for e in c['top'] if e[0] == 'X')))
    o = sim.outname('sub')
    try:
        with open(o + '.ckt', 'w') as f:
            f.write(t)
        mk = lambda: (netlist_parser.parse_circuit(o + '.ckt')[0], G.to_api(flat, models=c['m']))
        a, b = mk()
        la, lb = list(a), list(b)
        if not mon.check(len(la) == len(lb), 'elements', lambda: 'the expanded circuit has %d elements, %d when written out' % (len(la), len(lb))):
            return
        mon.check(len(set(e.part_id.lower() for e in la)) == len(la), 'elements', 'element names of the expanded circuit are not unique')
        fw, bw = {0: 0}, {0: 0}
        for x, y in zip(la, lb):
            same_elem(mon, la, x, lb, y, fw, bw)
        na, nb = a.get_nodes_number(), b.get_nodes_number()
        mon.check(na == nb, 'nodes', lambda: 'the expanded circuit has %d nodes, %d when written out' % (na, nb))
        results(c, mon, A, mk, fw, flat)
    finally:
        sim.cleanup(o)


def index(lst, pid):
    return [k for k, e in enumerate(lst) if e.part_id.lower() == str(pid).lower()]


def same_elem(mon, la, x, lb, y, fw, bw):
    if not mon.check(type(x) is type(y), 'elements', lambda: '%s is a %s, should be %s' % (x.part_id, type(x).__name__, type(y).__name__)):
        return
    for n in TERM:
        if hasattr(y, n):
            u, v = getattr(x, n, None), getattr(y, n)
            fw.setdefault(u, v)
            bw.setdefault(v, u)
            mon.check(fw[u] == v and bw[v] == u, 'connection', lambda: 'terminal %s of %s (%s) is not where the written-out circuit has it' % (n, x.part_id, y.part_id))
    for at in ('value', 'ic', 'dc_value', 'abs_ac', 'arg_ac', 'alpha', 'K', 'M', 'off'):
        if hasattr(y, at):
            u, v = getattr(x, at, None), getattr(y, at)
            mon.check(c12.same(u, v), 'value', lambda: '%s of %s is %r, not %r' % (at, x.part_id, u, v))
    for at in ('source_id', 'L1', 'L2'):
        if hasattr(y, at):
            u, v = index(la, getattr(x, at, None)), index(lb, getattr(y, at))
            mon.check(u == v, 'reference', lambda: '%s of %s: %r is element %r, should be %r (%r)' % (at, x.part_id, getattr(x, at, None), u, v, getattr(y, at)))
    if getattr(y, 'is_timedependent', False) or getattr(x, 'is_timedependent', False):
        for t in (0., 3.3e-7, 1.23e-6, 1e-5, 7.7e-5, 3e-4):
            u, v = x.V(t) if hasattr(x, 'V') else x.I(t), y.V(t) if hasattr(y, 'V') else y.I(t)
            if not mon.check(c12.same(u, v, 1e-9), 'value', lambda: '%s at t = %r is %r, not %r' % (x.part_id, t, u, v)):
                break
    if y.is_nonlinear:
        rg = random.Random(y.part_id.lower())
        for _ in range(3):
            v = [rg.uniform(-1.5, 1.5) for _ in x.get_drive_ports(0)]
            p, q = c12.current(x, v), c12.current(y, v)
            mon.check(c12.same(p, q, 1e-9), 'value', lambda: 'current of %s at %r is %r, not %r' % (x.part_id, v, p, q))


def results(c, mon, A, mk, fw, flat):
    outs = []
    try:
        results_(c, mon, A, mk, fw, flat, outs)
    finally:
        for o in outs:
            sim.cleanup(o)


def results_(c, mon, A, mk, fw, flat, outs):
    nl = any(e[0] in 'DMS' for e in flat)
    f0 = 10. ** (c['seed'] % 5)
    res = []
    for circ in mk():
        np.random.seed(0)
        with c02.options({'dc_max_nr_iter': 300}):
            try:
                r = {'op': sim.op(circ)}
            except Exception as e:
                r = {'exc': e}
            if r.get('op') is not None and not nl:
                outs.append(sim.outname('sub'))
                r['ac'] = A.run(circ, A.new_ac(start=f0, stop=f0 * 1e4, points=4, sweep_type='LOG', x0=None, outfile=outs[-1], verbose=0))['ac']
        res.append((circ, r))
    (a, ra), (b, rb) = res
    if 'exc' in ra or 'exc' in rb:
        mon.check('exc' in ra and 'exc' in rb, 'results', lambda: 'one of the circuits fails: expanded %r, written out %r' % (ra.get('exc'), rb.get('exc')))
        return
    if ra['op'] is None or rb['op'] is None:
        # a Newton iteration may fail for one numbering of the unknowns only
        mon.check(nl or (ra['op'] is None and rb['op'] is None), 'results', lambda: 'operating point found for one only: %r, %r' % (ra['op'], rb['op']))
        mon.event('op not found')
        return
    ida = {y.part_id.lower(): x.part_id.lower() for x, y in zip(a, b)}
    for an in ('op', 'ac'):
        if an not in rb:
            continue
        va = {str(k).lower(): np.atleast_1d(np.asarray(ra[an][k])).ravel() for k in ra[an].keys()}
        vb = {str(k).lower(): np.atleast_1d(np.asarray(rb[an][k])).ravel() for k in rb[an].keys()}
        mon.check(len(va) == len(vb), 'results', lambda: '%d variables, %d written out' % (len(va), len(vb)))
        sc = max([1e-6] + [float(np.abs(v).max()) for v in vb.values()])
        inv = {v: k for k, v in fw.items()}
        tol = 1e-4 if nl else 1e-7
        for n in range(1, b.get_nodes_number()):
            ka, kb = 'v%s' % str(a.nodes_dict[inv[n]]).lower(), 'v%s' % str(b.nodes_dict[n]).lower()
            mon.check(ka in va and kb in vb and np.allclose(va[ka], vb[kb], rtol=tol, atol=tol * sc + 1e-9), an,
                      lambda: '%s is %r, written out %s is %r' % (ka, va.get(ka), kb, vb.get(kb)))
        for y in b:
            kb = 'i(%s)' % y.part_id.lower()
            if kb in vb:
                ka = 'i(%s)' % ida[y.part_id.lower()]
                mon.check(ka in va and np.allclose(va[ka], vb[kb], rtol=tol, atol=tol * sc + 1e-9), an,
                          lambda: '%s is %r, written out %s is %r' % (ka, va.get(ka), kb, vb.get(kb)))
        mon.event(an)
