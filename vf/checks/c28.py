"""C28  ill-posed circuits are reported, never given fabricated numbers."""
import contextlib
import io
import os
import random
import re
from fractions import Fraction

import numpy as np

from .. import gen as G
from .. import ref, sim
from . import c02

PROP = 'C28'
RULE = ('random linear (and easy nonlinear) circuits with an ill-posed fragment embedded at random nodes (loops of 1-5 voltage-defined branches, consistent or not; loops closed by inductors; '
        'resistive, inductive or source islands reached only by capacitors, current sources or nothing; current-source cutsets; sources across one node; no reference; too few elements), '
        'plus well-posed look-alikes (same fragments opened by a resistor), run through every analysis by objects or decks; whether the equations have a unique solution is decided by the '
        'exact rank, over a prime field, of equations assembled independently of the simulator, with and without Gmin; the simulator must fail visibly when they do not, and otherwise '
        'answer with their solution; distinct = (fragment, analysis, rank verdict, outcome)')
CASES = {'quick': 1600, 'thorough': 30000}
MIN_OK = {'quick': 3000, 'thorough': 60000}
KINDS = ['vloop', 'vloopc', 'lloop', 'vlloop', 'eloop', 'selfloop', 'island', 'isle_i', 'isle_c', 'isle_l', 'isle_v', 'cutset', 'open_i', 'none', 'noground', 'tiny']
NEED = ['frag:' + k for k in KINDS] + ['singular refused:' + a for a in ('op', 'dc', 'ac', 'tran', 'pz')] + \
       ['answered:' + a for a in ('op', 'dc', 'ac')] + ['gmin flagged', 'route:deck', 'nonlinear', 'sparse']
CASE_LIMIT = 60.0
ASSUMPTIONS = ['nodes without a DC path to ground may be rescued by Gmin, as documented for the circuit check: the numbers returned must then be those of the circuit completed with Gmin, and an '
               'operating point that only exists thanks to Gmin must be reported as such',
               'equations that lose rank only because of the exact values of controlled-source gains are generic cases of measure zero and are judged like structural ones']
PRIME = (1 << 61) - 1
GMIN, CMIN = 1e-12, 1e-18


# ---------------------------------------------------------------- exact verdict
def modp(v):
    f = Fraction(v) if not isinstance(v, float) else Fraction(repr(v))
    return f.numerator % PRIME * pow(f.denominator % PRIME, PRIME - 2, PRIME) % PRIME


def assemble(desc, s, gmin, gen_nl=None):
    """Rows over GF(p) of the equations (one KCL per node, one per branch current), at a complex
    frequency represented by the field element s (0: DC), and the DC right-hand side."""
    nodes = sorted(set(n for e in desc for n in ref.elem_nodes(e)) - {'0'})
    br = [e[1].lower() for e in desc if e[0] in ref.BR]
    ix = dict((('v', n), k) for k, n in enumerate(nodes))
    ix.update((('i', b), len(nodes) + k) for k, b in enumerate(br))
    N = len(ix)
    A = [[0] * N for _ in range(N)]
    rhs = [0] * N

    def add(r, c, v):
        if r is not None and c is not None:
            A[r][c] = (A[r][c] + v) % PRIME

    def V(n):
        return None if n == '0' else ix[('v', n)]

    def adm(a, b, c, d, y):
        for r, sr in ((V(a), 1), (V(b), -1)):
            for k, sc in ((V(c), 1), (V(d), -1)):
                add(r, k, sr * sc * y)
    for n in nodes:
        add(V(n), V(n), gmin)
    byid = dict((e[1].lower(), e) for e in desc)
    for e in desc:
        t = e[0]
        if t == 'R':
            adm(e[2], e[3], e[2], e[3], pow(modp(e[4]), PRIME - 2, PRIME))
        elif t == 'C':
            adm(e[2], e[3], e[2], e[3], s * modp(e[4]))
        elif t == 'G':
            adm(e[2], e[3], e[4], e[5], modp(e[6]))
        elif t == 'F':
            c = ix[('i', e[4].lower())]
            add(V(e[2]), c, modp(e[5]))
            add(V(e[3]), c, -modp(e[5]))
        elif t == 'I':
            for n, sg in ((e[2], -1), (e[3], 1)):
                if n != '0':
                    rhs[V(n)] = (rhs[V(n)] + sg * modp(ref.dc_value(e))) % PRIME
        elif t in ref.BR:
            r = ix[('i', e[1].lower())]
            for n, sg in ((e[2], 1), (e[3], -1)):
                add(V(n), r, sg)
                add(r, V(n), sg)
            if t == 'V':
                rhs[r] = modp(ref.dc_value(e))
            elif t == 'E':
                add(r, V(e[4]), -modp(e[6]))
                add(r, V(e[5]), modp(e[6]))
            elif t == 'H':
                add(r, ix[('i', e[4].lower())], modp(e[5]))
            elif t == 'L':
                add(r, r, -s * modp(e[4]))
        elif t == 'K':
            l1, l2 = byid[e[2].lower()], byid[e[3].lower()]
            m = s * modp('%.17g' % (e[4] * (l1[4] * l2[4]) ** 0.5))
            r1, r2 = ix[('i', l1[1].lower())], ix[('i', l2[1].lower())]
            add(r1, r2, -m)
            add(r2, r1, -m)
        elif t in 'DMS':
            rnd = gen_nl
            n = [x for x in ref.elem_nodes(e)]
            # generic conductances between the ports the device controls
            if t == 'D':
                adm(n[0], n[1], n[0], n[1], rnd.randrange(1, PRIME))
            elif t == 'M':
                d, g, so, b = n[:4]
                adm(d, so, d, so, rnd.randrange(1, PRIME))
                adm(d, so, g, so, rnd.randrange(1, PRIME))
                adm(d, so, b, so, rnd.randrange(1, PRIME))
            else:
                adm(n[0], n[1], n[0], n[1], rnd.randrange(1, PRIME))
                adm(n[0], n[1], n[2], n[3], rnd.randrange(1, PRIME))
    return A, rhs


def rank(A):
    A = [r[:] for r in A]
    rows, cols = len(A), len(A[0]) if A else 0
    rk = 0
    for c in range(cols):
        p = next((r for r in range(rk, rows) if A[r][c]), None)
        if p is None:
            continue
        A[rk], A[p] = A[p], A[rk]
        inv = pow(A[rk][c], PRIME - 2, PRIME)
        for r in range(rk + 1, rows):
            if A[r][c]:
                f = A[r][c] * inv % PRIME
                A[r] = [(x - f * y) % PRIME for x, y in zip(A[r], A[rk])]
        rk += 1
    return rk


def verdict(desc, seed=1):
    """-> dict: dc (unique without Gmin), dcg (unique with Gmin), cons (solvable without Gmin),
    pencil (regular at a generic frequency, with Gmin), pencil0 (the same without)."""
    rng = random.Random(seed)
    s = rng.randrange(1, PRIME)
    v = {}
    st = rng.getstate()

    def A(sv, g):
        rng.setstate(st)
        return assemble(desc, sv, g, rng)
    M, b = A(0, 0)
    n = len(M)
    r0 = rank(M)
    v['dc'] = r0 == n
    v['cons'] = rank([row + [x] for row, x in zip(M, b)]) == r0
    v['dcg'] = rank(A(0, modp(GMIN))[0]) == n
    v['pencil'] = rank(A(s, (modp(GMIN) + s * modp(CMIN)) % PRIME)[0]) == n
    v['pencil0'] = rank(A(s, 0)[0]) == n
    return v


# ---------------------------------------------------------------- generation
def fragment(rng, kind, nodes):
    r3 = G.rnd3
    d = []
    new = ['q%d' % k for k in range(1, 7)]
    anchor = lambda: rng.choice(nodes + ['0'])
    a, b = (rng.sample(nodes + ['0'], 2) if nodes else ('q1', '0'))
    val = lambda: r3(rng.uniform(-5, 5))
    R = lambda: r3(G.logu(rng, 50, 5e4))
    ac = lambda: rng.choice([None, 1.])

    def path(types, closed_values=None):
        """a chain of branches from a to b through new nodes, each new node hung on a resistor"""
        cur = a
        tot = 0.
        for k, t in enumerate(types):
            nxt = b if k == len(types) - 1 else new[k]
            n1, n2, sg = (cur, nxt, 1) if rng.random() < .5 else (nxt, cur, -1)
            i = '%sq%d%s' % (t, k, tag[0])
            if t == 'V':
                v = val()
                d.append(['V', i, n1, n2, v, ac(), None])
            elif t == 'L':
                d.append(['L', i, n1, n2, r3(G.logu(rng, 1e-6, 1e-3)), None])
            elif t == 'E':
                d.append(['E', i, n1, n2, anchor(), rng.choice(nodes or ['q1']), r3(rng.uniform(-3, 3))])
            if nxt != b:
                d.append(['R', 'Rq%d%s' % (k, tag[0]), nxt, anchor() if rng.random() < .7 or not nodes else nodes[0], R()])
            cur = nxt
    tag = ['']
    if kind in ('vloop', 'vlloop', 'lloop', 'eloop'):
        sets = {'vloop': 'V', 'lloop': 'L', 'vlloop': 'VL', 'eloop': 'VE'}[kind]
        n = rng.randint(2, 4)
        types = [rng.choice(sets) for _ in range(n)]
        for s_ in sets:
            if s_ not in types:
                types[rng.randrange(n)] = s_
        if kind == 'eloop' and 'E' not in types:
            types[0] = 'E'
        k = rng.randint(1, n - 1)
        path(types[:k])
        tag[0] = 'b'
        new = new[3:]
        path(types[k:])
    elif kind == 'vloopc':
        # consistent loop: decimal values that add up exactly
        v1, v2 = rng.randint(1, 40) / 8., rng.randint(1, 40) / 8.
        d = [['V', 'Vq1', a, 'q1', v1, ac(), None], ['V', 'Vq2', 'q1', b, v2, None, None], ['R', 'Rq', 'q1', anchor(), R()]]
        if rng.random() < .5:
            d.append(['V', 'Vq3', a, b, v1 + v2, None, None])
        else:
            d.append(['V', 'Vq3', b, a, -(v1 + v2), None, None])
    elif kind == 'selfloop':
        t = rng.choice('VVVLE')
        if t == 'V':
            d = [['V', 'Vq1', a, a, rng.choice([1., 0., val()]), ac(), None]]
        elif t == 'L':
            d = [['L', 'Lq1', a, a, 1e-4, None]]
        else:
            d = [['E', 'Eq1', a, a, nodes[0] if nodes else '0', '0', rng.choice([1., 2.5])]]
    elif kind in ('island', 'isle_i', 'isle_c', 'isle_l', 'isle_v'):
        m = rng.randint(2, 4)
        isl = new[:m]
        for k in range(1, m):
            d.append(['R', 'Rq%d' % k, isl[rng.randrange(k)], isl[k], R()])
        if rng.random() < .5:
            d.append(['R', 'Rqx', isl[0], isl[-1], R()])
        if kind == 'isle_l':
            d.append(['L', 'Lq', isl[0], isl[-1], 1e-4, None])
        if kind == 'isle_v':
            d.append(['V', 'Vq', isl[0], isl[-1], val(), ac(), None])
        if kind == 'isle_i':
            d.append(['I', 'Iq', *rng.sample([anchor(), rng.choice(isl)], 2), r3(rng.uniform(1e-4, 1e-2)), ac(), None])
        if kind in ('isle_c', 'isle_l', 'isle_v') or rng.random() < .3:
            for k in range(rng.randint(1, 2)):
                d.append(['C', 'Cq%d' % k, *rng.sample([anchor(), rng.choice(isl)], 2), r3(G.logu(rng, 1e-12, 1e-7)), None])
        if rng.random() < .3:
            d.append(['I', 'Iqi', isl[0], isl[-1], 1e-3, None, None])      # internal: consistent
    elif kind == 'cutset':
        m = rng.randint(2, 3)
        for k in range(m):
            o = anchor()
            n1, n2 = ('q1', o) if rng.random() < .5 else (o, 'q1')
            d.append(rng.choice([['I', 'Iq%d' % k, n1, n2, r3(rng.uniform(1e-4, 1e-2)), ac(), None], ['G', 'Gq%d' % k, n1, n2, anchor(), rng.choice(nodes or ['q1']), r3(rng.uniform(1e-4, 1e-2))]]))
        if rng.random() < .3:
            d.append(['C', 'Cq', 'q1', anchor(), 1e-9, None])
    elif kind == 'open_i':
        d = [['I', 'Iq', *rng.sample(['q1', anchor()], 2), r3(rng.uniform(1e-4, 1e-2)), ac(), None]]
    return [e for e in d if not (e[0] in 'RC' and e[2] == e[3])]


def gen(rng, i, tier):
    kind = KINDS[i % len(KINDS)]
    case = {'kind': kind, 'm': [], 'seed': rng.randrange(10 ** 9)}
    if kind == 'tiny':
        case['d'] = rng.choice([[['V', 'V1', 'a', '0', 1., 1., None]], [['R', 'R1', 'a', '0', 10.]], [['I', 'I1', 'a', '0', 1e-3, 1., None]], []])
        return case
    nlin = i % 5 == 4 and kind not in ('none', 'noground')
    if nlin:
        d, case['m'] = c02.easy(rng, rng.choice(c02.EASY))
    else:
        d = G.linear_circuit(rng, reactive=rng.random() < .6, sources='ac', nmax=6)
    case['nl'] = nlin
    nodes = sorted(set(n for e in d for n in ref.elem_nodes(e)) - {'0'})
    if kind == 'noground':
        d = [[x if x != '0' else 'ground_' for x in e] if k >= 0 else e for k, e in enumerate(d)]
        case['d'] = d
        return case
    f = fragment(rng, kind, nodes)
    ids = set(e[1].lower() for e in d)
    d = d + [e for e in f if e[1].lower() not in ids]
    if rng.random() < .25 and kind not in ('none',):
        # open the fragment with a resistor: a well-posed (or differently ill-posed) look-alike
        d.append(['R', 'Ropen', 'q1', rng.choice(nodes + ['0']), 1234.])
    if not any(e[0] == 'V' for e in d) and not any(e[0] == 'I' for e in d):
        d.append(['I', 'Isrc', nodes[0], '0', 1e-3, 1., None])
    rng.shuffle(d)
    case['d'] = d
    case['route'] = 'deck' if rng.random() < .3 and not any(e[0] in 'VI' and isinstance(e[5], list) for e in d) else 'obj'
    case['sparse'] = rng.random() < .15
    case['w'] = float('%.3g' % G.logu(rng, 10, 1e7))
    return case


# ---------------------------------------------------------------- running
def execute(case, an, mon):
    """-> (status, result, text); status 'fail' or 'ok'"""
    A = sim.api()
    d = case['d']
    src = next((e[1] for e in d if e[0] == 'V'), None) or next((e[1] for e in d if e[0] == 'I'), None)
    buf = io.StringIO()
    out = sim.outname('c28')
    r = None
    status = 'ok'
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            if case.get('route') == 'deck' and an != 'pz':
                line = {'op': '.op', 'dc': '.dc %s start=0 stop=1 step=0.5' % src, 'ac': '.ac start=%g stop=%g nsteps=2 sweep_type=LIN' % (case['w'], 10 * case['w']),
                        'tran': '.tran tstep=1e-6 tstop=1e-5 uic=0'}[an]
                fn = out + '.ckt'
                with open(fn, 'w') as fp:
                    fp.write(G.to_text(d, 'c28', case['m'], [line]))
                try:
                    res = A.main(fn, outfile=out, verbose=1)
                finally:
                    os.remove(fn)
                r = res.get(an)
            else:
                c = G.to_api(d, 'c28', case['m'])
                spec = {'op': lambda: A.new_op(), 'dc': lambda: A.new_dc(0, 1, 3, src), 'ac': lambda: A.new_ac(case.get('w', 1e3), 10 * case.get('w', 1e3), 2, sweep_type='LIN'),
                        'tran': lambda: A.new_tran(0, 1e-5, 1e-6, x0=None), 'pz': lambda: A.new_pz()}[an]()
                spec['outfile'] = out
                r = A.run(c, [spec]).get(an)
            if r is not None and an not in ('pz',):
                r.keys()
                r = dict((str(k), np.array(r[k])) for k in r.keys()), getattr(r, 'gmin', None), len(np.atleast_1d(r[list(r.keys())[0]]).reshape(-1))
        if r is None:
            status = 'fail'
    except SystemExit as e:
        status = 'fail' if e.code not in (0, None) else 'exit0'
    except Exception as e:
        # a failure raised as an exception is a report, as long as it says something
        status = 'fail'
        buf.write('\nE: %s: %s' % (type(e).__name__, e))
    finally:
        sim.cleanup(out)
    return status, r, buf.getvalue()


FAILTXT = re.compile(r'fail|singular|E:|error|Couldn|could not|too small|giving up', re.I)


def lookup(r, k):
    for key in r:
        if key.lower() == k.lower():
            return r[key].reshape(-1)
    return None


def answers(S, M, b, r, mon, an, at=0, scale=None):
    """the numbers returned are those of the (completed) circuit, up to 1000 times the errors that
    rounding its equations and their solution may cause"""
    x = np.linalg.solve(M, b)
    bound = 2.2e-13 * np.abs(np.linalg.inv(M)).dot(np.abs(M).dot(np.abs(x)) + np.abs(b))
    for (t, n), v, e in zip(S.names, x, bound):
        y = lookup(r, 'V' + n if t == 'v' else 'I(%s)' % n)
        if y is None:
            mon.fail('%s: no value for %s %s' % (an, t, n))
            return
        g = y[at]
        tol = e + 1e-6 * abs(v) + (1e-9 if t == 'v' else 1e-12)
        if not mon.check(abs(g - v) <= tol, 'answer', lambda: '%s: %s %s is %r, the circuit%s has %r (tol %g)' % (an, t, n, g, '' if scale is None else scale, v, tol)):
            return


def equil_cond(B):
    B = np.array(B)
    for _ in range(4):
        r = np.abs(B).max(1)
        r[r == 0] = 1
        B = B / np.sqrt(r)[:, None]
        c = np.abs(B).max(0)
        c[c == 0] = 1
        B = B / np.sqrt(c)[None, :]
    try:
        return np.linalg.cond(B)
    except np.linalg.LinAlgError:
        return np.inf


def run(case, mon):
    d, kind = case['d'], case['kind']
    mon.event('frag:' + kind)
    if kind in ('noground', 'tiny'):
        return run_broken(case, mon)
    v = verdict(d, case['seed'])
    mon.data = {'verdict': v}
    if case.get('nl'):
        mon.event('nonlinear')
    opts = {'dense_matrix_limit': 1} if case.get('sparse') else {}
    if case.get('nl'):
        opts['dc_max_nr_iter'] = 500        # whether hard nonlinear circuits converge is not the question here
    if case.get('sparse'):
        mon.event('sparse')
    if case.get('route') == 'deck':
        mon.event('route:deck')
    S = None if case.get('nl') else ref.System(d, gmin=GMIN)
    S0 = None if case.get('nl') else ref.System(d)
    ans = ['op', 'ac', 'tran', 'dc', 'pz']
    with c02.options(opts):
        for an in ans:
            if case.get('nl') and an in ('dc', 'pz'):
                continue
            if an == 'pz' and case.get('route') == 'deck':
                continue
            if an == 'tran' and v['pencil']:
                continue        # the answers of transient analysis are judged elsewhere (C07-C09)
            must_fail = {'op': not v['dcg'], 'dc': not v['dcg'], 'ac': not v['pencil'] or (case.get('nl') and not v['dcg']), 'tran': not v['pencil'],
                         'pz': not v['pencil']}[an]
            st, r, txt = execute(case, an, mon)
            mon.seen((kind, an, tuple(sorted(v.items())), st, bool(case.get('nl'))))
            mon.check(st != 'exit0', 'no silent exit', lambda: '%s ends the process with status 0' % an)
            if must_fail:
                if not mon.check(st == 'fail', 'refused', lambda: '%s of a circuit without a unique solution (%s) returns numbers: %s' % (
                        an, kind, str(r[0] if isinstance(r, tuple) else r)[:200])):
                    continue
                mon.event('singular refused:' + an)
                mon.check(FAILTXT.search(txt) is not None, 'told', lambda: '%s of a circuit without a unique solution (%s) fails without a message: %r' % (an, kind, txt[-200:]))
                continue
            if case.get('nl') or an == 'pz':
                continue
            if v['dc'] and an in ('op', 'dc') or v['pencil0'] and an == 'ac':
                mon.check(st == 'ok', 'solved', lambda: '%s of a circuit with a unique solution (%s) fails: %r' % (an, kind, txt[-300:]))
            if st != 'ok':
                continue
            mon.event('answered:' + an)
            r, gm, npts = r
            if an == 'op':
                if not v['dc'] and not v['cons']:
                    mon.event('gmin flagged')
                    mon.check(bool(gm), 'flagged', 'the operating point exists only thanks to Gmin but is not reported as such')
                judge_op(case, S, S0, v, r, gm, mon)
            elif an == 'ac':
                w = 2 * np.pi * np.abs(lookup(r, 'f')[0])
                M = S.ac_matrix(w) if hasattr(S, 'ac_matrix') else S.A0 + 1j * w * S.A1
                M = M + 1j * w * CMIN * np.diag([1. if t == 'v' else 0. for t, _ in S.names])
                c = equil_cond(M)
                if c < 1e11:
                    b = S.rhs(lambda e: ref.ac_value(e) or 0.)
                    answers(S, M, b.astype(complex), r, mon, 'ac')


def judge_op(case, S, S0, v, r, gm, mon):
    # the answer is that of the circuit as it is, or completed with Gmin when that is what is said
    T = S if (gm or not v['dc']) else S0
    c = equil_cond(T.A0)
    if c < 1e11:
        answers(T, T.A0, T.rhs(ref.dc_value), r, mon, 'op', scale=' completed with Gmin' if T is S else None)


def run_broken(case, mon):
    """no reference node, or not a circuit at all"""
    d = case['d']
    for route in ('obj', 'deck'):
        for an in ('op', 'ac', 'tran'):
            if case['kind'] == 'tiny' and route == 'obj':
                continue        # the size check belongs to the command-line entry
            st, r, txt = execute(dict(case, route=route, w=1e3), an, mon)
            mon.seen((case['kind'], an, route, st))
            if mon.check(st == 'fail', 'refused', lambda: '%s (%s) of a circuit %s returns %s' % (an, route, 'without reference' if case['kind'] == 'noground' else 'of %d elements' % len(d), str(r)[:150])):
                mon.check(FAILTXT.search(txt) is not None and 'IndexError' not in txt, 'told', lambda: '%s (%s) of a circuit without reference fails without a reason: %r' % (an, route, txt[-150:]))
