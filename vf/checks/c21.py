"""C21  circuit bookkeeping stays consistent under any sequence of edits."""
import numpy as np

from .. import gen as G
from .. import ref, sim

PROP = 'C21'
RULE = ('random histories of circuit edits (nodes created by name or implicitly, every documented element, models added and removed, elements removed by name or object, refused '
        'calls) with a shadow model of the circuit kept by the monitor; after every call the node dictionary, element list, terminals, name lookups, duplicate test and branch numbering are '
        'compared with the shadow, and edited circuits are simulated and compared with a circuit built afresh from the shadow; distinct = distinct call histories')
CASES = {'quick': 3000, 'thorough': 150000}
MIN_OK = {'quick': 2000000, 'thorough': 90000000}
NEED = ['add:' + t for t in 'RCLKVIEGFHDMS'] + ['remove:' + t for t in 'RCLKVIEGFHDMS'] + \
       ['remove by name', 'remove by element', 'node purged', 'node kept for a sensing terminal', 'node kept for a gate', 'add after purge', 'create node', 'create existing node', 'create ground', 'duplicate', 'unknown model',
        'unknown inductor', 'remove absent', 'remove model', 'internal node', 'late ground', 'simulated', 'simulated after removal', 'coupling removed']
CASE_LIMIT = 60.0
ASSUMPTIONS = ['elements other elements refer to (sensing sources, coupled inductors) are not removed before those elements', 'node numbers 1, 2, 3... need not be contiguous right after a removal']

NM = ['n%d', '%d', 'net_%d', 'Out%d', 'x%dy', 'POINT%d', 'in%d-']


def gen(rng, i, tier):
    return {'seed': rng.randrange(1 << 40), 'n': rng.randint(5, 45), 'ground': rng.random() < .8, 'sim': i % 2 == 0}


class Shadow(object):
    """what the circuit should hold"""

    def __init__(self):
        self.els = []       # element descriptions (ids as given)
        self.nodes = []     # names that should be present
        self.obj = {}       # id -> element object

    def use(self, names):
        for n in names:
            if n not in self.nodes:
                self.nodes.append(n)


def nodes_of(e):
    return [] if e[0] == 'K' else list(ref.elem_nodes(e))


def dev_terms(e):
    """(attribute, node) pairs of a description"""
    t = e[0]
    if t == 'K':
        return []
    if t == 'M':
        return [('n1', e[2]), ('ng', e[3]), ('n2', e[4]), ('nb', e[5])]
    if t in 'EGS':
        return [('n1', e[2]), ('n2', e[3]), ('sn1', e[4]), ('sn2', e[5])]
    return [('n1', e[2]), ('n2', e[3])]


def run(c, mon):
    import random
    from ahkab import circuit
    rng = random.Random(c['seed'])
    circ = circuit.Circuit('edits')
    S = Shadow()
    names = [rng.choice(NM) % k for k in range(1, rng.randint(4, 9))]
    log = []
    try:
        history(c, mon, rng, circuit, circ, S, names, log)
    except Exception:
        mon.sample({'history': log})
        raise
    mon.seen(tuple(log))


def history(c, mon, rng, circuit, circ, S, names, log):
    cnt = {}
    removed = purged = False
    mods = {'dd': 'D', 'mq': 'M', 'me': 'M', 'ss': 'S'}
    circ.add_model('diode', 'dd', G.simple_diode(rng))
    circ.add_model('mosq', 'mq', G.card_mos(rng, 'mosq', 'n'))
    circ.add_model('ekv', 'me', G.card_mos(rng, 'ekv', 'p'))
    circ.add_model('sw', 'ss', {'VT': 1., 'VH': .2, 'RON': 10., 'ROFF': 1e5})
    if not c['ground']:
        mon.event('late ground')
    if c['sim']:
        for e in G.linear_circuit(rng, nn=rng.randint(1, 5), reactive=True, sources='ac', couplings=True, neg=0, rlo=100, rhi=1e4, alpha=2., clo=1e-9, chi=1e-7, llo=1e-6, lhi=1e-3):
            e = list(e)
            if e[0] in 'VI' and isinstance(e[5], list):
                e[5] = e[5][0]
            add(e, G, circ, S, mon, log)
        names = sorted(set(S.nodes) - {'0'}) + ['extra1', 'extra2']
    for step in range(c['n']):
        pool = names + (['0'] if c['ground'] or step > c['n'] * .6 else [])
        r = rng.random()
        if r < .62:
            e = new_elem(rng, S, cnt, pool, mods)
            if e is None:
                continue
            if purged and set(nodes_of(e)) - set(S.nodes):
                mon.event('add after purge')
            if c['sim'] and e[0] in 'DMSVLEH':
                continue
            add(e, G, circ, S, mon, log)
        elif r < .84 and S.els:
            free = [e for e in S.els if not any((x[0] in 'FH' and x[4] == e[1]) or (x[0] == 'K' and e[1] in x[2:4]) for x in S.els)]
            if not free:
                continue
            ks = [x for x in free if x[0] == 'K']
            e = rng.choice(ks) if ks and rng.random() < .3 else rng.choice(free)
            byname = rng.random() < .6
            log.append('remove ' + e[1])
            # the other elements carrying this name (duplicates) come later
            if byname:
                circ.remove_elem(rng.choice([e[1], e[1].lower(), e[1].upper()]))
                mon.event('remove by name')
            else:
                circ.remove_elem(S.obj[e[1]])
                mon.event('remove by element')
            mon.event('remove:' + e[0])
            if e[0] == 'K':
                mon.event('coupling removed')
            S.els.remove(e)
            del S.obj[e[1]]
            left = set(n for x in S.els for n in nodes_of(x))
            main = set(n for x in S.els for n in (x[2:4] if x[0] not in 'KM' else [x[2], x[4]] if x[0] == 'M' else []))
            for n in set(nodes_of(e)) - {'0'}:
                if n not in left:
                    S.nodes.remove(n)
                    mon.event('node purged')
                    purged = True
                elif n not in main:
                    gates = set(x[3] for x in S.els if x[0] == 'M')
                    mon.event('node kept for a gate' if n in gates else 'node kept for a sensing terminal')
            removed = True
        elif r < .88:
            n = rng.choice(names)
            log.append('create ' + n)
            fn = rng.choice(['create_node', 'add_node'])
            if n in S.nodes and fn == 'create_node':
                mon.event('create existing node')
                refused(mon, ValueError, 'create_node(%r) of an existing node' % n, circ.create_node, n)
            else:
                ret = getattr(circ, fn)(n)
                mon.event('create node')
                if fn == 'create_node':
                    mon.check(ret == n, 'return', lambda: 'create_node(%r) returned %r' % (n, ret))
                S.use([n])
                mon.check(fn == 'create_node' or ret == circ.ext_node_to_int(n), 'return', lambda: 'add_node(%r) returned %r' % (n, ret))
        elif r < .9:
            log.append('create ground')
            mon.event('create ground')
            g = circ.get_ground_node()
            mon.check(circ.create_node(g) == g, 'ground', 'create_node of the ground node does not return it')
            S.use(['0'])
        elif r < .94:
            k = rng.randrange(5)
            x = rng.choice(names)
            if k == 0:
                mon.event('unknown model')
                n = 'never%d' % step
                f, a = rng.choice([(circ.add_diode, ('Dq', n, x, 'nomodel')), (circ.add_mos, ('Mq', n, x, '0', '0', 1e-6, 1e-6, 'nomodel')),
                                   (circ.add_switch, ('Sq', n, x, '0', x, False, 'nomodel'))])
                log.append('refused ' + a[0])
                refused(mon, circuit.ModelError, '%s with an unknown model' % a[0], f, *a)
            elif k == 1:
                mon.event('unknown inductor')
                log.append('refused K')
                ls = [e[1] for e in S.els if e[0] == 'L'] + ['Lnone']
                refused(mon, ValueError, 'coupling of an unknown inductor', circ.add_inductor_coupling, 'Kq', rng.choice(ls), 'Lnone', .5)
            elif k == 2:
                mon.event('remove absent')
                refused(mon, ValueError, 'removal of an absent element', circ.remove_elem, 'Rnone')
            elif k == 3:
                mon.event('remove absent')
                refused(mon, ValueError, 'removal of an element of another circuit', circ.remove_elem, circuit.components.Resistor('R1', 1, 0, 5.))
            else:
                refused(mon, TypeError, 'a node that is not text', circ.add_resistor, 'Rq', 1, 2, 5.)
        elif r < .97:
            lab = rng.choice(sorted(mods))
            log.append('remove model ' + lab)
            mon.event('remove model')
            circ.remove_model(lab)
            mods.pop(lab)
            circ.remove_model('never there')
            if not mods:
                circ.add_model('diode', 'dd', G.simple_diode(rng))
                mods['dd'] = 'D'
        elif r < .98:
            log.append('internal')
            mon.event('internal node')
            n = circ.new_internal_node()
            mon.check(n not in S.nodes, 'internal', lambda: 'new_internal_node returned the existing node %r' % n)
            mon.check(circ.is_int_node_internal_only(circ.ext_node_to_int(n)), 'internal', lambda: '%r is not reported as internal' % n)
            S.use([n])
        elif S.els:
            # a duplicate name is detected, then taken away again
            e = rng.choice(S.els)
            log.append('duplicate ' + e[1])
            mon.event('duplicate')
            a, b = names[0], names[1]
            had = list(S.nodes)
            circ.add_resistor(rng.choice([e[1], e[1].lower(), e[1].upper()]), a, b, 5.)
            mon.check(circ.has_duplicate_elem(), 'duplicate', lambda: 'two elements named %s are not reported' % e[1])
            circ.remove_elem(circ[-1])
            for n in (a, b):
                if n not in had or n not in set(x for y in S.els for x in nodes_of(y)):
                    if n in S.nodes:
                        S.nodes.remove(n)
        audit(mon, circ, S, log)
    if c['sim']:
        # a resistive path to ground everywhere
        k = 0
        for n in list(S.nodes):
            if n != '0' and n in set(x for e in S.els for x in nodes_of(e)):
                k += 1
                add(['R', 'Rend%d' % k, n, '0', 1e3 * (k + 1)], G, circ, S, mon, log)
        for n in list(S.nodes):
            if n not in set(x for e in S.els for x in nodes_of(e)):
                k += 1
                add(['R', 'Rend%d' % k, n, '0', 1e3 * (k + 1)] if n != '0' else ['R', 'Rend%d' % k, n, 'zz', 1e3], G, circ, S, mon, log)
        fill = rng.random() < .7
        while fill and gap(circ):
            k += 1
            add(['R', 'Rend%d' % k, 'fill%d' % k, '0', 1e3 * (k + 1)], G, circ, S, mon, log)
        if rng.random() < .1:
            # the numbering keeps a gap where the node of the first one was
            for n in ('gap1', 'gap2'):
                add(['R', 'R' + n, n, '0', 1e3], G, circ, S, mon, log)
            circ.remove_elem('Rgap1')
            S.els = [e for e in S.els if e[1] != 'Rgap1']
            del S.obj['Rgap1']
            S.nodes.remove('gap1')
        audit(mon, circ, S, log)
        simulate(mon, circ, S, removed)


def gap(circ):
    ints = sorted(k for k in circ.nodes_dict if not isinstance(k, str))
    return ints != list(range(len(ints)))


def add(e, G, circ, S, mon, log):
    log.append('add ' + G.elem_text(e))
    G.add_api(circ, e, lambda n: n)
    S.els.append(e)
    S.obj[e[1]] = circ[-1]
    S.use(nodes_of(e))
    mon.event('add:' + e[0])


def refused(mon, exc, what, f, *a):
    try:
        f(*a)
    except exc:
        mon.ok('refused')
    else:
        mon.fail('refused', '%s is accepted' % what)


def new_elem(rng, S, cnt, pool, mods):
    if len(pool) < 2:
        return None
    r3 = G.rnd3
    t = rng.choice('RRRRCLLKVIEGFHDMS')

    def two():
        return rng.sample(pool, 2)
    cnt[t] = cnt.get(t, 0) + 1
    i = t + rng.choice(['e%d', 'ex%d', 'e_%d']) % cnt[t]
    a, b = two()
    if t == 'R':
        return ['R', i, a, b, r3(G.logu(rng, 10, 1e5))]
    if t == 'C':
        return ['C', i, a, b, r3(G.logu(rng, 1e-12, 1e-8)), None]
    if t == 'L':
        return ['L', i, a, b, r3(G.logu(rng, 1e-7, 1e-4)), None]
    if t == 'K':
        ls = [e[1] for e in S.els if e[0] == 'L']
        return None if len(ls) < 2 else ['K', i] + rng.sample(ls, 2) + [r3(rng.uniform(.05, .3))]
    if t in 'VI':
        return [t, i, a, b, r3(rng.uniform(-5, 5) * (1 if t == 'V' else 1e-3)), r3(rng.uniform(-1, 1)) if rng.random() < .5 else 0, None]
    if t in 'EG':
        return [t, i, a, b] + two() + [r3(rng.uniform(-2, 2) * (1 if t == 'E' else 1e-3))]
    if t in 'FH':
        vs = [e[1] for e in S.els if e[0] == 'V']
        return None if not vs else [t, i, a, b, rng.choice(vs), r3(rng.uniform(-2, 2) * (1 if t == 'F' else 100))]
    ms = sorted(k for k, v in mods.items() if v == t)
    if not ms:
        return None
    if t == 'D':
        return ['D', i, a, b, rng.choice(ms), {}]
    if t == 'S':
        return ['S', i, a, b] + two() + [rng.choice(ms), False]
    g, bb = two()
    return ['M', i, a, g, b, bb, rng.choice(ms), 1e-5, 1e-6, {}]


def audit(mon, circ, S, log):
    nd = circ.nodes_dict
    ext = sorted(k for k in nd if isinstance(k, str))
    ints = sorted(k for k in nd if not isinstance(k, str))
    ctx = lambda m: lambda: m + ' after: ' + '; '.join(log[-6:])
    mon.check(ext == sorted(S.nodes), 'nodes', ctx('the nodes are %r, should be %r' % (ext, sorted(S.nodes))))
    mon.check(len(ints) == len(ext) and all(nd[nd[n]] == n for n in ext) and all(nd.get(nd[k]) == k for k in ints), 'bijection', ctx('names and numbers of the nodes do not correspond: %r' % (nd,)))
    mon.check(circ.get_nodes_number() == len(S.nodes), 'count', ctx('%d nodes counted, %d present' % (circ.get_nodes_number(), len(S.nodes))))
    mon.check((nd['0'] == 0 if '0' in nd else 0 not in nd) and all(isinstance(k, int) and k >= 0 for k in ints), 'ground', ctx('ground is node %r' % nd.get('0')))
    for n in S.nodes:
        if n in nd:
            mon.check(circ.int_node_to_ext(circ.ext_node_to_int(n)) == n, 'bijection', ctx('node %s does not map back to itself' % n))
            u = n[:3] == 'INT' and n[3:].isdigit()
            mon.check(bool(circ.is_int_node_internal_only(nd[n])) == u, 'internal', ctx('node %r %s an internal node' % (n, 'is not reported as' if u else 'is reported as')))
    if not mon.check([e.part_id for e in circ] == [e[1] for e in S.els], 'elements', ctx('the elements are %r, should be %r' % ([e.part_id for e in circ], [e[1] for e in S.els]))):
        return
    mon.check(not circ.has_duplicate_elem(), 'duplicate', ctx('duplicates reported, there are none'))
    mon.check(circ.is_nonlinear() == any(e[0] in 'DMS' for e in S.els), 'elements', ctx('is_nonlinear() is %r' % circ.is_nonlinear()))
    k = 0
    for e, x in zip(S.els, circ):
        mon.check(x is S.obj[e[1]], 'elements', ctx('%s is not the element added' % e[1]))
        for nm in (e[1], e[1].lower(), e[1].upper()):
            mon.check(circ.get_elem_by_name(nm) is x, 'lookup', ctx('get_elem_by_name(%r) returns another element' % nm))
        for at, n in dev_terms(e):
            mon.check(nd.get(n) == getattr(x, at), 'terminal', ctx('terminal %s of %s is node %r, should be %r' % (at, e[1], getattr(x, at), nd.get(n))))
        if e[0] in 'VLEH':
            mon.check(circ.find_vde_index(e[1], verbose=0) == k and circ.find_vde_index(x, verbose=0) == k, 'branch', ctx('find_vde_index(%s) is %r, should be %d' % (e[1], circ.find_vde_index(e[1], verbose=0), k)))
            mon.check(circ.find_vde(circ.get_nodes_number() - 1 + k) is x, 'branch', ctx('find_vde of unknown %d is not %s' % (k, e[1])))
            k += 1
        if e[0] == 'L':
            cp = sorted(y[1] for y in S.els if y[0] == 'K' and e[1] in y[2:4])
            mon.check(sorted(y.part_id for y in x.coupling_devices) == cp, 'coupling', ctx('%s is coupled by %r, should be %r' % (e[1], [y.part_id for y in x.coupling_devices], cp)))
    for bad, f in (('Znone', circ.get_elem_by_name), ('Vnone', lambda n: circ.find_vde_index(n, verbose=0))):
        try:
            f(bad)
        except ValueError:
            mon.ok('absent')
        else:
            mon.fail('absent', 'the absent element %s is found' % bad)


def simulate(mon, circ, S, removed):
    from ahkab import circuit
    A = sim.api()
    ids = set(e[1] for e in S.els)
    d = [list(e) for e in S.els if e[0] not in 'DMS']
    if '0' not in S.nodes or any(e[0] in 'DMS' for e in S.els) or len(d) < 2:
        return
    if set(S.nodes) != set(n for e in d for n in nodes_of(e)) | {'0'}:
        return
    try:
        R = ref.System(d)
        if np.linalg.cond(R.A0 / np.maximum(np.abs(R.A0).max(axis=1), 1e-300)[:, None]) > 1e9:
            return
    except np.linalg.LinAlgError:
        return
    gaps = gap(circ)
    if gaps:
        mon.event('simulated with a gap')
    fresh = G.to_api(d)
    o = [sim.outname('ed'), sim.outname('ed')]
    try:
        got = []
        for q, x in zip(o, (circ, fresh)):
            try:
                r = A.run(x, [A.new_op(outfile=q + '.op', verbose=0), A.new_ac(start=1e3, stop=1e6, points=3, sweep_type='LOG', outfile=q + '.ac', verbose=0)])
            except (IndexError, KeyError) as e:
                if gaps and x is circ:
                    mon.finding('KF6', 'a circuit from which a node was purged cannot be simulated until nodes are added again (%s)' % type(e).__name__)
                    return
                raise
            got.append(r)
        if got[1].get('op') is None or got[1].get('ac') is None:
            return
        for an in ('op', 'ac'):
            a, b = got[0].get(an), got[1][an]
            if gaps and a is None:
                mon.finding('KF6', 'a circuit from which a node was purged cannot be simulated until nodes are added again')
                return
            if not mon.check(a is not None, 'simulation', lambda: 'the edited circuit has no %s result' % an):
                continue
            va = {k.lower(): np.ravel(np.asarray(a[k])) for k in a.keys()}
            vb = {k.lower(): np.ravel(np.asarray(b[k])) for k in b.keys()}
            ok = sorted(va) == sorted(vb)
            sc = max([1.] + [np.abs(v).max() for k, v in vb.items() if k != 'f'])
            bad = [k for k in vb if not ok or not np.allclose(va[k], vb[k], rtol=1e-7, atol=1e-7 * sc)]
            if gaps and (bad or not ok):
                mon.finding('KF6', 'a circuit from which a node was purged cannot be simulated until nodes are added again')
                return
            mon.check(ok and not bad, 'simulation', lambda: '%s of the edited circuit: %r, built afresh: %r' % (an, {k: va.get(k) for k in bad} or sorted(va), {k: vb[k] for k in bad} or sorted(vb)))
        mon.event('simulated')
        if removed:
            mon.event('simulated after removal')
    finally:
        for q in o:
            for s in ('.op', '.ac'):
                sim.cleanup(q + s)
