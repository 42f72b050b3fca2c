"""C25  numeric helpers honour their contracts."""
import itertools
import os

import numpy as np

from .. import gen as G
from .. import sim

PROP = 'C25'
RULE = ('every helper of the utilities module (matrix edits, combinations, axis iterators, step and point choice, convergence checks, circuit and ground-path checks, caching decorator, '
        'temperature conversion) and the case-insensitive dictionary, called with random valid arguments over wide ranges and with invalid ones; each return value compared with the documented '
        'result computed independently; distinct = distinct (helper, argument shape) signatures')
CASES = {'quick': 20000, 'thorough': 1000000}
MIN_OK = {'quick': 200000, 'thorough': 10000000}
NEED = ['expand', 'submatrix', 'remove', 'remove none', 'combinations', 'log axis', 'lin axis', 'lin axis invalid', 'combinations invalid', 'step', 'points', 'default points', 'both', 'conv', 'conv true',
        'conv false', 'file', 'tuple', 'memo', 'memo full', 'cid', 'cid rewrite', 'temp', 'circuit ok', 'circuit bad', 'ground path ok', 'ground path missing']
CASE_LIMIT = 20.0
ASSUMPTIONS = []


def gen(rng, i, tier):
    return {'k': i % len(FN), 'seed': rng.randrange(1 << 40)}


def run(c, mon):
    import random
    rng = random.Random(c['seed'])
    FN[c['k'] % len(FN)](rng, mon)


def mat(rng):
    n, m = rng.randint(1, 7), rng.randint(1, 7)
    return np.array([[rng.uniform(-5, 5) for _ in range(m)] for _ in range(n)])


def eq(mon, kind, what, got, want):
    mon.event(kind.split(':')[0])
    mon.check(got is not None and np.shape(got) == np.shape(want) and bool(np.all(np.asarray(got) == np.asarray(want))), kind, lambda: '%s is %r, should be %r' % (what, got, want))


def f_expand(rng, mon):
    from ahkab import utilities as U
    M = mat(rng)
    r, c = rng.random() < .5, rng.random() < .5
    W = np.zeros((M.shape[0] + r, M.shape[1] + c))
    W[:M.shape[0], :M.shape[1]] = M
    mon.seen(('expand', M.shape, r, c))
    eq(mon, 'expand', 'expand_matrix(%r, %r, %r)' % (M.shape, r, c), U.expand_matrix(M.copy(), add_a_row=r, add_a_col=c), W)


def f_sub(rng, mon):
    from ahkab import utilities as U
    D = mat(rng)
    n, m = rng.randint(1, D.shape[0]), rng.randint(1, D.shape[1])
    r, c = rng.randint(0, D.shape[0] - n), rng.randint(0, D.shape[1] - m)
    S = np.random.RandomState(rng.randrange(1 << 30)).rand(n, m)
    W = D.copy()
    for a in range(n):
        for b in range(m):
            W[r + a, c + b] = S[a, b]
    mon.seen(('sub', D.shape, S.shape, r, c))
    E = D.copy()
    got = U.set_submatrix(r, c, E, S)
    eq(mon, 'submatrix', 'set_submatrix(%d, %d)' % (r, c), got, W)
    mon.check(got is E, 'submatrix', 'set_submatrix does not return the destination matrix')


def f_remove(rng, mon):
    from ahkab import utilities as U
    M = mat(rng)
    while min(M.shape) < 2:
        M = mat(rng)
    r = rng.choice([None] + list(range(M.shape[0])))
    c = rng.choice([None] + list(range(M.shape[1])))
    W = M
    if r is not None:
        W = np.delete(W, r, 0)
    if c is not None:
        W = np.delete(W, c, 1)
    if r is None and c is None:
        mon.event('remove none')
    mon.seen(('remove', M.shape, r, c))
    eq(mon, 'remove', 'remove_row_and_col(%r, %r, %r)' % (M.shape, r, c), U.remove_row_and_col(M.copy(), rrow=r, rcol=c), W)
    eq(mon, 'remove', 'remove_row_and_col(%r)' % (M.shape,), U.remove_row_and_col(M.copy()), M[1:, 1:])
    W = M if r is None else np.delete(M, r, 0)
    eq(mon, 'remove', 'remove_row(%r, %r)' % (M.shape, r), U.remove_row(M.copy(), rrow=r), W)


def f_comb(rng, mon):
    from ahkab import utilities as U
    n = rng.randint(1, 8)
    L = [rng.choice([rng.randint(0, 99), 'x%d' % k]) for k in range(n)]
    k = rng.randint(1, n)
    mon.seen(('comb', n, k))
    got = [list(x) for x in U.combinations(L, k)]
    want = [list(x) for x in itertools.combinations(L, k)]
    mon.event('combinations')
    mon.check(sorted(map(repr, got)) == sorted(map(repr, want)), 'combinations', lambda: 'combinations(%r, %d): %r, should be %r' % (L, k, got, want))
    for bad in (n + 1, 0, -1):
        mon.event('combinations invalid')
        raises(mon, 'combinations', 'combinations(%d elements, %d)' % (n, bad), ValueError, lambda: U.combinations(L, bad))


def raises(mon, kind, what, exc, f):
    try:
        x = f()
    except exc:
        mon.ok(kind)
    else:
        mon.fail(kind, '%s is accepted and gives %r' % (what, x))


def f_log(rng, mon):
    from ahkab import utilities as U
    a, b = G.logu(rng, 1e-12, 1e12), G.logu(rng, 1e-12, 1e12)
    n = rng.choice([2, 3, 5, rng.randint(2, 400)])
    if rng.random() < .3:
        a, b = 10. ** rng.randint(-9, 9), 10. ** rng.randint(-9, 9)
    mon.event('log axis')
    mon.seen(('log', n, a < b, a > 1))
    axis(mon, U.log_axis_iterator(a, b, n), U.log_axis_iterator(a, b, n), [a * (b / a) ** (k / (n - 1.)) for k in range(n)], 'log_axis_iterator(%r, %r, %d)' % (a, b, n), lambda w: 1e-11 * abs(w))


def f_lin(rng, mon):
    from ahkab import utilities as U
    a, b = rng.uniform(-1, 1) * 10. ** rng.randint(-9, 9), rng.uniform(-1, 1) * 10. ** rng.randint(-9, 9)
    n = rng.choice([2, 3, 5, rng.randint(2, 400)])
    if rng.random() < .1:
        b, n = a, 1
    mon.event('lin axis')
    mon.seen(('lin', n, a < b))
    sc = max(abs(a), abs(b))
    axis(mon, U.lin_axis_iterator(a, b, n), U.lin_axis_iterator(a, b, n), [a + (b - a) * k / (n - 1.) if n > 1 else a for k in range(n)], 'lin_axis_iterator(%r, %r, %d)' % (a, b, n), lambda w: 1e-12 * sc)
    mon.event('lin axis invalid')
    raises(mon, 'lin axis', 'lin_axis_iterator with 1 point and different ends', ValueError, lambda: U.lin_axis_iterator(0., 1., 1))
    raises(mon, 'lin axis', 'lin_axis_iterator with no points', ValueError, lambda: U.lin_axis_iterator(a, a, rng.choice([0, -1, -5])))


def axis(mon, it, it2, want, what, tol):
    got = list(it)
    n = len(want)
    mon.check(len(got) == n, 'axis', lambda: '%s gives %d values' % (what, len(got)))
    bad = [k for k in range(min(n, len(got))) if not abs(got[k] - want[k]) <= tol(want[k])]
    mon.check(not bad, 'axis', lambda: '%s: value %d is %r, should be %r' % (what, bad[0], got[bad[0]], want[bad[0]]))
    bad = [k for k in range(n) if not abs(it2[k] - want[k]) <= tol(want[k])]
    mon.check(not bad, 'axis', lambda: '%s: [%d] is %r, should be %r' % (what, bad[0], it2[bad[0]], want[bad[0]]))
    mon.check(it2[n] is None, 'axis', lambda: '%s: [%d] is %r, there are %d points' % (what, n, it2[n], n))
    mon.check(abs(next(it2) - want[0]) <= tol(want[0]), 'axis', lambda: '%s: indexing disturbs the iteration' % what)


def f_step(rng, mon):
    from ahkab import utilities as U
    p = G.logu(rng, 1e-9, 1e3)
    r = rng.random()
    if r < .35:
        n = rng.randint(2, 2000)
        mon.event('points')
        mon.seen(('points', n))
        n1, h = U.check_step_and_points(points=n, period=p)
        mon.check(n1 == n and isinstance(n1, (int, np.integer)) and abs(h * (n - 1) - p) <= 1e-12 * p, 'points', lambda: '%d points over %r: %r points, step %r' % (n, p, n1, h))
    elif r < .85:
        k = rng.randint(1, 500)
        exact = rng.random() < .6
        if exact:
            m = rng.choice([1, 2, 3, 5, 7, 9]) * 10. ** rng.randint(-9, 2)
            p = float('%.12g' % (k * m))
            h0 = m
        else:
            h0 = p / (k + rng.uniform(.02, .98))
        mon.event('step')
        both = rng.random() < .2
        if both:
            mon.event('both')
        mon.seen(('step', k, exact))
        n1, h = U.check_step_and_points(step=h0, points=7 if both else None, period=p)
        mon.check(isinstance(n1, (int, np.integer)) and abs(h * (n1 - 1) - p) <= 1e-9 * p, 'step', lambda: 'step %r over %r: %r points, step %r do not cover the period' % (h0, p, n1, h))
        # the step closest to the one asked for that divides the period, not smaller than it
        mon.check(n1 - 1 == k and (not exact or abs(h - h0) <= 1e-9 * h0), 'step', lambda: 'step %r over %r: %r points, step %r, should be %d points' % (h0, p, n1, h, k + 1))
    else:
        mon.event('default points')
        dp = rng.randint(2, 300)
        n1, h = U.check_step_and_points(period=p, default_points=dp)
        mon.check(n1 == dp and abs(h * (dp - 1) - p) <= 1e-12 * p, 'points', lambda: 'default of %d points over %r: %r, %r' % (dp, p, n1, h))


def f_conv(rng, mon):
    from ahkab import options, utilities as U
    n, m = rng.randint(0, 4), rng.randint(0, 3)
    if n + m == 0:
        n = 1
    col = lambda f, k: np.array([f() for _ in range(k)]).reshape((k, 1))
    x = col(lambda: rng.uniform(-10, 10), n + m)
    which = rng.choice(['good', 'dxv', 'dxi', 'rv', 'ri'])
    ver, vea, ier, iea = options.ver, options.vea, options.ier, options.iea
    dx, res = np.zeros((n + m, 1)), np.zeros((n + m, 1))
    for k in range(n + m):
        er, ea, ee = (ver, vea, iea) if k < n else (ier, iea, vea)
        # np.allclose(x, x + dx) compares with |x + dx|
        dx[k, 0] = rng.uniform(-.9, .9) * (er * abs(x[k, 0]) * .99 + ea)
        res[k, 0] = rng.uniform(-.95, .95) * ee
    bad = False
    if which != 'good':
        k = rng.randrange(n) if which[-1] == 'v' and n else (n + rng.randrange(m) if which[-1] == 'i' and m else None)
        if k is not None:
            bad = True
            er, ea, ee = (ver, vea, iea) if k < n else (ier, iea, vea)
            f = rng.choice([-1, 1]) * rng.choice([1.2, 2, 50, 1e6])
            if which[0] == 'd':
                dx[k, 0] = f * (er * abs(x[k, 0]) * 1.01 + ea)
            else:
                res[k, 0] = f * ee
    mon.event('conv')
    mon.event('conv false' if bad else 'conv true')
    mon.seen(('conv', n, m, which))
    r = U.convergence_check(x, dx, res, n)[0]
    mon.check(bool(r) == (not bad), 'conv', lambda: 'convergence_check is %r: x %r dx %r residuum %r, %d voltages' % (r, x.T, dx.T, res.T, n))
    r = U.custom_convergence_check(x.tolist(), dx.tolist(), res.tolist(), er=.1, ea=1e3, eresiduum=1e3)[0] if bad else True
    if bad and np.abs(dx).max() < 900 and np.abs(res).max() < 900:
        mon.check(bool(r), 'conv', 'custom_convergence_check ignores the tolerances given')


def f_misc(rng, mon):
    from ahkab import utilities as U
    fn = sim.outname('file')
    raises(mon, 'file', 'check_file of a missing file', IOError, lambda: U.check_file(fn))
    raises(mon, 'file', 'check_file of a directory', IOError, lambda: U.check_file(os.path.dirname(fn) or '.'))
    open(fn, 'w').close()
    mon.event('file')
    mon.check(U.check_file(fn) is True, 'file', 'check_file of a file is not True')
    os.remove(fn)

    def nest(d):
        return [nest(d - 1) for _ in range(rng.randint(0, 3))] if d and rng.random() < .7 else rng.choice([1, 'a', 2.5, None, 'xyz'])

    def tup(a):
        return tuple(map(tup, a)) if isinstance(a, list) else a
    a = nest(4)
    mon.event('tuple')
    mon.seen(('tuple', repr(a)))
    mon.check(U.tuplinator(a) == tup(a), 'tuple', lambda: 'tuplinator(%r) is %r' % (a, U.tuplinator(a)))
    t = rng.uniform(-273, 500)
    mon.event('temp')
    mon.check(abs(U.Celsius2Kelvin(t) - (t + 273.15)) < 1e-9 and abs(U.Kelvin2Celsius(t) - (t - 273.15)) < 1e-9, 'temp', 'temperature conversion')
    mon.check(U.EPS == 2. ** -52, 'temp', 'machine epsilon')


def f_memo(rng, mon):
    from ahkab import options, utilities as U
    old = options.cache_len
    try:
        options.cache_len = rng.choice([None, 0, 1, 2, 5, 20, 67108864])
        calls = []

        def f(*a):
            calls.append(a)
            return sum(a) if rng is not None else 0
        g = U.memoize(f)
        order, n = [], options.cache_len
        mon.seen(('memo', n))
        full = False
        for _ in range(60):
            a = tuple(rng.randint(0, 5) for _ in range(rng.randint(1, 2)))
            k = len(calls)
            r = g(*a)
            hit = a in order
            mon.check(r == sum(a), 'memo', lambda: 'cached f%r is %r' % (a, r))
            mon.check(len(calls) - k == (0 if hit else 1), 'memo', lambda: 'f%r evaluated %d times, %s in the cache of %r values (first in, first out)' % (a, len(calls) - k, 'is' if hit else 'is not', n))
            if not hit:
                order.append(a)
                if n is not None and len(order) > n:
                    order.pop(0)
                    full = True
        mon.event('memo')
        if full:
            mon.event('memo full')
    finally:
        options.cache_len = old


def f_cid(rng, mon):
    from ahkab import results
    d, ref = results.case_insensitive_dict(), {}
    mon.event('cid')
    mon.seen(('cid', rng.random()))
    for _ in range(40):
        k = ''.join(rng.choice('abAB1(') for _ in range(rng.randint(1, 3)))
        u = k.upper()
        r = rng.random()
        if r < .35:
            v = rng.random()
            if u in ref:
                mon.event('cid rewrite')
            d.update({k: v})
            ref[u] = v
        elif r < .6:
            mon.check((k in d) == (u in ref) and d.has_key(k) == (u in ref), 'cid', lambda: '%r in dictionary: %r, should be %r' % (k, k in d, u in ref))
            mon.check(d.get(k, 'none') == ref.get(u, 'none'), 'cid', lambda: 'get(%r) is %r, should be %r' % (k, d.get(k, 'none'), ref.get(u, 'none')))
        elif u in ref:
            mon.check(d[k] == ref[u], 'cid', lambda: '[%r] is %r, should be %r' % (k, d[k], ref[u]))
        else:
            raises(mon, 'cid', '[%r] of an absent key' % k, KeyError, lambda: d[k])
        mon.check(len(d) == len(ref), 'cid', lambda: '%d keys, should be %d' % (len(d), len(ref)))
        it = sorted((a.upper(), b) for a, b in d.items())
        mon.check(it == sorted(ref.items()) and sorted(x.upper() for x in d) == sorted(ref) and sorted(x.upper() for x in d.keys()) == sorted(ref) and sorted(d.values()) == sorted(ref.values()),
                  'cid', lambda: 'items are %r, should be %r' % (it, sorted(ref.items())))


def f_circ(rng, mon):
    from ahkab import circuit, dc_analysis, utilities as U
    d = G.linear_circuit(rng, nn=rng.randint(2, 5), reactive=True, ctrl=False)
    c = G.to_api(d)
    mon.seen(('circ', G.shape_sig(d)))
    ok, msg = U.check_circuit(c)
    mon.event('circuit ok')
    mon.check(bool(ok) and msg == '', 'circuit', lambda: 'check_circuit of a good circuit: %r %r' % (ok, msg))
    # every kind of badness
    k = rng.randrange(4)
    c = G.to_api(d)
    if k == 0:
        e = rng.choice(d)
        c.add_resistor(e[1], 'aa', c.gnd, 5.)
    elif k == 1:
        c = circuit.Circuit('no ground')
        c.add_resistor('R1', 'a', 'b', 1.)
        c.add_resistor('R2', 'b', 'c', 1.)
        c.add_vsource('V1', 'a', 'c', 1.)
    elif k == 2:
        c = circuit.Circuit('one element')
        c.add_resistor('R1', 'a', c.gnd, 1.)
    else:
        c = circuit.Circuit('empty')
    ok, msg = U.check_circuit(c)
    mon.event('circuit bad')
    mon.check(not ok and len(msg) > 0, 'circuit', lambda: 'check_circuit of bad circuit kind %d: %r %r' % (k, ok, msg))
    # ground paths: a node that only capacitors, current sources and sensing terminals reach
    c = G.to_api(d)
    bad = rng.random() < .6
    nodes = sorted(set(n for e in d if e[0] != 'K' for n in e[2:4]) - {'0'})
    if bad:
        for j in range(rng.randint(1, 2)):
            if rng.random() < .5:
                c.add_capacitor('Cfl%d' % j, 'fl', rng.choice(nodes + ['0']), 1e-9)
            else:
                c.add_isource('Ifl%d' % j, 'fl', rng.choice(nodes), 1e-9)
    elif rng.random() < .5:
        c.add_model('diode', 'dd', {'name': 'dd', 'IS': 1e-14})
        c.add_diode('Dfl', 'fl', rng.choice(nodes), 'dd')
    mna, _ = dc_analysis.generate_mna_and_N(c)
    full = rng.random() < .5
    M = np.asarray(mna) if full else U.remove_row_and_col(np.asarray(mna))
    r = U.check_ground_paths(M, c, reduced_mna=not full, verbose=0)
    mon.event('ground path missing' if bad else 'ground path ok')
    mon.check(bool(r) == (not bad), 'ground path', lambda: 'check_ground_paths is %r for a circuit %s a node without path' % (r, 'with' if bad else 'without'))


FN = [f_expand, f_sub, f_remove, f_comb, f_log, f_lin, f_step, f_step, f_conv, f_conv, f_misc, f_memo, f_cid, f_circ]
