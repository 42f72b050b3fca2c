"""C20  Fourier post-processing recovers the harmonics of periodic waveforms."""
import contextlib
import io
import math
import random
import re

import numpy as np

from .. import gen as G
from .. import sim
from . import c02

PROP = 'C20'
RULE = ('waveforms made of a DC value and of harmonics with random amplitudes and phases, stored on random uneven time grids or simulated from series sources with fixed steps, analysed through '
        'fourier(), spicefft() and .FOUR/.FFT decks with every window, format, range, number of points and frequency limit; the spectra are compared with those of the exact waveform over the '
        'documented interval; distinct = distinct (function, options, harmonics) signatures')
CASES = {'quick': 480, 'thorough': 30000}
MIN_OK = {'quick': 15000, 'thorough': 900000}
WIN = ['RECT', 'BART', 'HANN', 'HAMM', 'BLACK', 'HARRIS', 'GAUSS', 'KAISER']
NEED = ['win:' + w for w in WIN] + ['fourier', 'spicefft freq', 'spicefft', 'opt:start', 'opt:stop', 'opt:from', 'opt:to', 'opt:np', 'opt:fmin', 'opt:fmax', 'opt:alpha', 'opt:format',
                                    'deck four', 'deck fft', 'difference', 'current', 'rejected', 'grid:even', 'grid:uneven', 'grid:simulated', 'tstart>0', 'thd']
CASE_LIMIT = 60.0
ASSUMPTIONS = ['the spectrum is the unnormalised discrete Fourier transform of the samples the documentation describes (20 per period for harmonic analyses, np otherwise), phases refer to the start of the interval',
               'waveforms have no harmonics above the 9th in harmonic analyses (the documented sampling cannot represent them)',
               'tolerances follow the error of quadratic interpolation on the time grid',
               'distortion is not judged when fmin removes the fundamental']


def gen(rng, i, tier):
    kind = ['fourier', 'spicefft', 'fourier', 'spicefft', 'deck', 'spicefft', 'reject', 'deck'][i % 8]
    f = G.rnd3(G.logu(rng, 1e1, 1e7))
    per = rng.choice([rng.randint(1, 9), round(rng.uniform(1.05, 8), 2)])
    if kind == 'fourier' and rng.random() < .2:
        per = rng.randint(9, 22)
    nh = rng.randint(1, 5)
    hs = sorted(set([1] + rng.sample(range(2, 10), nh - 1))) if rng.random() < .9 else sorted(rng.sample(range(1, 10), nh))
    c = {'kind': kind, 'f': f, 'per': per, 'dc': rng.choice([0., G.rnd3(rng.uniform(-5, 5))]),
         'h': [[k, G.rnd3(rng.uniform(.02, 3.)), G.rnd3(rng.uniform(-180, 180))] for k in hs],
         'grid': rng.choice(['even', 'uneven', 'uneven']), 'den': rng.randint(40, 80), 'seed': rng.randint(0, 1 << 30),
         't0': 0. if rng.random() < .7 else round(rng.uniform(.1, 5), 3), 'label': rng.choice(['v', 'v', 'diff', 'i', 'tuple1', 'tuple0']), 'o': {}}
    if kind == 'deck':
        c['grid'] = 'simulated'
        c['per'] = per = min(per, 5)
        c['den'] = 30
        c['t0'] = 0.
        c['h'] = c['h'][:4]
        c['dirs'] = []
        for _ in range(1):
            c['dirs'].append('four')
        c['label'] = rng.choice(['v', 'diff', 'i'])
    o = c['o']
    if kind in ('spicefft', 'deck'):
        if rng.random() < .5:
            o['freq'] = f
        if rng.random() < .6:
            o['window'] = rng.choice(WIN)
            if rng.random() < .3:
                o['window'] = o['window'].lower()
        if o.get('window', '').upper() in ('GAUSS', 'KAISER') and rng.random() < .7 or rng.random() < .08:
            o['alpha'] = G.rnd3(rng.uniform(1, 15))
        if rng.random() < .5:
            o['np'] = rng.choice([2, 3, 8, 16, 33, 64, 100, 128, 255, 256, 257, 1000, 1024, 1025])
        if rng.random() < .4:
            a = round(rng.uniform(0, .4), 2)
            o[rng.choice(['start', 'from'])] = a
        if rng.random() < .4:
            o[rng.choice(['stop', 'to'])] = round(rng.uniform(.75, 1.), 2)
        if 'freq' in o:
            span = o.get('stop', o.get('to', 1.)) - o.get('start', o.get('from', 0.))
            if span * per < 1.02:
                for k in ('start', 'from', 'stop', 'to'):
                    o.pop(k, None)
        if rng.random() < .25:
            o['fmin'] = round(rng.uniform(.2, 3.), 2)
        if rng.random() < .25:
            o['fmax'] = round(rng.uniform(3.2, 8.5), 2)
    if kind == 'deck':
        o['format'] = rng.choice([None, 'NORM', 'UNORM', 'unorm'])
    return c


def wave(c, t):
    t = np.asarray(t, dtype=float)
    x = np.full(t.shape, c['dc'])
    for k, a, ph in c['h']:
        x = x + a * np.cos(2 * np.pi * k * c['f'] * t + ph * np.pi / 180.)
    return x


def window(name, n, alpha):
    """the windows by their definitions"""
    k = np.arange(n)
    M = n - 1.
    if name == 'RECT':
        return np.ones(n)
    if name == 'BART':
        return 1. - np.abs(2. * k / M - 1.)
    if name == 'HANN':
        return .5 - .5 * np.cos(2 * np.pi * k / M)
    if name == 'HAMM':
        return .54 - .46 * np.cos(2 * np.pi * k / M)
    if name == 'BLACK':
        return .42 - .5 * np.cos(2 * np.pi * k / M) + .08 * np.cos(4 * np.pi * k / M)
    if name == 'HARRIS':
        return .35875 - .48829 * np.cos(2 * np.pi * k / M) + .14128 * np.cos(4 * np.pi * k / M) - .01168 * np.cos(6 * np.pi * k / M)
    if name == 'GAUSS':
        return np.exp(-.5 * ((k - M / 2) / alpha) ** 2)
    from scipy.special import i0
    return i0(alpha * np.sqrt(np.maximum(0., 1 - (2. * k / M - 1) ** 2))) / i0(alpha)


def dft(x):
    n = len(x)
    k = np.arange(n // 2)
    if n <= 2048:
        j = np.arange(n)
        return np.array([np.sum(x * np.exp(-2j * np.pi * ((q * j) % n) / n)) for q in k])
    return np.fft.fft(x)[:n // 2]


def expected(c, sign, scale, T0, T1, o, harmonic):
    """-> f, F, THD, tolerance as documented"""
    f = c['f']
    if harmonic == 'four':
        n = max(1, int(math.floor((T1 - T0) * f / 2. + 1e-6)))
        start, stop, N, step = T1 - n / f, T1, 20 * n, n
    else:
        start = o.get('start', o.get('from'))
        start = T0 if start is None else start
        stop = o.get('stop', o.get('to'))
        stop = T1 if stop is None else stop
        if harmonic:
            n = int(math.floor((stop - start) * f + 1e-6))
            start, N, step = stop - n / f, 20 * n, n
        else:
            q = o.get('np', 1024)
            N = 2
            while N < q:
                N *= 2
            step = 1
    t = start + np.arange(N) * ((stop - start) / N)
    w = window(o.get('window', 'RECT').upper(), N, o.get('alpha', 3.)) if harmonic != 'four' else np.ones(N)
    x = scale * sign * wave(c, t) * w
    F = dft(x)[::step]
    fr = np.arange(N // 2)[::step] / (stop - start)
    # error of the interpolation, coherent at worst
    tol = np.sum(np.abs(w))
    keep = np.ones(len(fr), dtype=bool)
    if harmonic != 'four':
        if o.get('fmin'):
            keep &= (fr >= o['fmin']) | (np.arange(len(fr)) == 0)
        if o.get('fmax') is not None:
            keep &= fr <= o['fmax']
    thd = None
    if harmonic:
        full = F[keep]
        fund = keep[1] if len(keep) > 1 else False
        thd = 'skip' if not fund or len(full) < 2 else math.sqrt(np.sum(np.abs(full[2:]) ** 2)) / max(abs(full[1]), 1e-300)
        if fund and abs(F[1]) < 1e-3 * np.abs(F).max():
            thd = 'skip'
    # limits that a frequency touches within rounding are not judged
    edge = any(np.any(np.abs(fr - o[k]) < 1e-6 * max(fr.max(), 1e-300)) for k in ('fmin', 'fmax') if o.get(k))
    return fr[keep], F[keep], thd, tol, edge, (start, stop, N, fr)


def resolve(c, T0, T1):
    """relative options -> absolute"""
    o = dict(c['o'])
    for k in ('start', 'from', 'stop', 'to'):
        if k in o:
            o[k] = float('%.9g' % (T0 + o[k] * (T1 - T0)))
    for k in ('fmin', 'fmax'):
        if k in o:
            base = c['f'] if 'freq' in o else 1. / (T1 - T0)
            o[k] = float('%.6g' % (o[k] * base))
    return o


def run(c, mon):
    rg = random.Random(c['seed'])
    mon.event('grid:' + c['grid'])
    mon.data = {}
    T0 = c['t0'] / c['f']
    T1 = float('%.9g' % (T0 + c['per'] / c['f']))
    if T0:
        mon.event('tstart>0')
    o = resolve(c, T0, T1)
    mon.seen((c['kind'], tuple(sorted(o)), o.get('window'), tuple(h[0] for h in c['h']), c['label'], c['grid'], int(c['per'])))
    if c['kind'] == 'deck':
        return deck(c, mon, o, T0, T1)
    r, err = synthetic(c, rg, T0, T1)
    from ahkab import fourier as Fm
    lab, sign, scale = {'v': ('Va', 1, 1.), 'diff': (('vb', 'VA'), 1, 2.), 'i': ('I(V1)', -1, 1e-3), 'tuple1': (('Va', None), 1, 1.), 'tuple0': (('va',), 1, 1.)}[c['label']]
    if c['label'] == 'diff':
        mon.event('difference')
    if c['label'] == 'i':
        mon.event('current')
    if c['kind'] == 'reject':
        return reject(c, mon, rg, r, Fm, T0, T1)
    if c['kind'] == 'fourier':
        mon.event('fourier')
        got = Fm.fourier(lab, r, c['f'])
        want = expected(c, sign, scale, T0, T1, {}, 'four')
        compare(mon, c, got, want, err * scale, 'fourier', True)
        return
    count(mon, o)
    mon.event('spicefft freq' if 'freq' in o else 'spicefft')
    want = expected(c, sign, scale, T0, T1, o, 'freq' in o)
    if bad_limits(o, want):
        return refused(mon, lambda: Fm.spicefft(lab, r, **o), 'frequency limits outside of the spectrum')
    got = Fm.spicefft(lab, r, **o)
    compare(mon, c, got, want, err * scale, 'spicefft', 'freq' in o)


def count(mon, o):
    for k in o:
        mon.event('opt:' + k)
    mon.event('win:' + o.get('window', 'RECT').upper())


def bad_limits(o, want):
    fr = want[5][3]
    return len(fr) < 2 or (o.get('fmin') and o['fmin'] > fr.max()) or not np.any((fr[1:] >= (o.get('fmin') or 0.)) & (fr[1:] <= (o.get('fmax') or np.inf)))


def refused(mon, f, why):
    try:
        f()
    except ValueError as e:
        mon.ok('rejected')
        mon.event('rejected')
        return
    except Exception as e:
        if why.startswith('frequency limits'):
            mon.ok('rejected')
            return
        raise
    if not why.startswith('frequency limits'):
        mon.fail('rejected', '%s: accepted' % why)


def synthetic(c, rg, T0, T1):
    from ahkab import Circuit, results
    cir = Circuit('vf fourier')
    cir.add_vsource('V1', 'a', cir.gnd, 1.)
    cir.add_resistor('R1', 'a', 'b', 1e3)
    cir.add_resistor('R2', 'b', cir.gnd, 1e3)
    o = sim.outname('four')
    r = results.tran_solution(cir, T0, T1, op=None, method='TRAP', outfile=o + '.tran')
    kmax = max(h[0] for h in c['h'])
    n = int(c['den'] * kmax * c['per']) + 20
    n = min(n, 6000)
    if c['grid'] == 'even':
        t = np.linspace(T0, T1, n + 1)
    else:
        d = np.array([rg.uniform(.3, 1.) for _ in range(n)])
        t = np.concatenate(([0.], np.cumsum(d)))
        t = T0 + (T1 - T0) * t / t[-1]
        t[-1] = T1
    v = wave(c, t)
    M = np.array([t, v, 3. * v, -1e-3 * v])
    for k in range(len(t)):
        if k == 0 or len(t) < 600:
            r.add_line(t[k], M[1:, k:k + 1])
    if len(t) >= 600:
        r._add_data(M[:, 1:])
    r.lock()
    h = np.diff(t).max()
    err = sum(a * (2 * np.pi * k * c['f'] * h) ** 3 for k, a, _ in c['h']) * .5 + 1e-12
    return r, err


def compare(mon, c, got, want, err, what, harmonic):
    f, F, thd = got
    wf, wF, wthd, tol, edge, info = want
    mon.data = {'window': info[:3], 'got f': np.asarray(f).tolist()[:12], 'want f': wf.tolist()[:12], 'got': [str(x) for x in np.asarray(F)[:12]], 'want': [str(x) for x in wF[:12]]}
    if edge:
        return
    if not mon.check(len(f) == len(wf) == len(F), 'bins', lambda: '%s: %d frequencies, %d values, should be %d' % (what, len(f), len(F), len(wf))):
        return
    mon.check(np.allclose(f, wf, rtol=1e-9, atol=0), 'frequencies', lambda: '%s: frequencies %r, should be %r' % (what, np.asarray(f).tolist()[:12], wf.tolist()[:12]))
    lim = tol * err * 1.5 + 1e-9 * np.abs(wF).max()
    d = np.abs(np.asarray(F) - wF)
    k = int(np.argmax(d))
    mon.check(bool(np.all(d <= lim)), 'spectrum', lambda: '%s: the component at %g Hz is %s, should be %s (tolerance %.3g)' % (what, wf[k], F[k], wF[k], lim))
    if harmonic:
        if wthd != 'skip':
            mon.event('thd')
            rel = lim * 4 / max(abs(wF[1]), 1e-300) * max(1., wthd) + 1e-9
            mon.check(abs(thd - wthd) <= rel, 'thd', lambda: '%s: distortion %r, should be %r' % (what, thd, wthd))
    else:
        mon.check(thd is None, 'thd', lambda: '%s: a distortion of %r is reported without a fundamental' % (what, thd))


def reject(c, mon, rg, r, Fm, T0, T1):
    f = c['f']
    T = T1 - T0
    k = rg.randint(0, 4)
    if k == 0:
        refused(mon, lambda: Fm.spicefft('va', r, window=rg.choice(['FLAT', 'RECTANGLE', 'x'])), 'unknown window')
    elif k == 1:
        refused(mon, lambda: Fm.spicefft('va', r, fmin=1e4 * f * 1e3, np=64), 'fmin above the spectrum')
    elif k == 2:
        refused(mon, lambda: Fm.spicefft('va', r, fmax=.3 / T), 'fmax below the spectrum')
    elif k == 3:
        refused(mon, lambda: Fm.fourier('va', r, rg.uniform(.2, .9) / T), 'less than one period')
    else:
        refused(mon, lambda: Fm.spicefft('va', r, freq=rg.uniform(.2, .9) / T), 'less than one period')


# ---------------------------------------------------------------- decks
def deck(c, mon, o, T0, T1):
    A = sim.api()
    base = sim.outname('fd')
    f = c['f']
    rows = ['fourier deck', 'v0 n0 0 type=vdc vdc=%r' % c['dc']]
    for k, (h, a, ph) in enumerate(c['h']):
        rows.append('v%d n%d n%d type=vdc vdc=0 type=sin vo=0 va=%r freq=%r td=0 theta=0 phase=%r' % (k + 1, k + 1, k, a, h * f, ph + 90.))
    last = 'n%d' % len(c['h'])
    rows += ['r1 %s m 1k' % last, 'r2 m 0 1k']
    kmax = max(h[0] for h in c['h'])
    h = float('%.6g' % (1. / (c['den'] * kmax * f)))
    rows.append('.tran tstep=%r tstop=%r method=trap uic=0' % (h, T1))
    lab, sign, scale = {'v': ('v(%s)' % last, 1, 1.), 'diff': ('v(%s,m)' % last, 1, .5), 'i': ('i(v%d)' % len(c['h']), -1, 5e-4)}[c['label']]
    if c['label'] == 'diff':
        mon.event('difference')
    if c['label'] == 'i':
        mon.event('current')
    rows.append('.four %r %s v(m)' % (f, lab))
    want = expected(c, sign, scale, T0, T1, o, 'freq' in o)
    fft = not bad_limits(o, want) and not want[4]
    if fft:
        rg = random.Random(c['seed'])
        p = ['%s=%s' % ('alfa' if k == 'alpha' and rg.random() < .5 else k, v if isinstance(v, str) else repr(v)) for k, v in o.items() if v is not None]
        rg.shuffle(p)
        rows.append('.fft %s %s' % (lab, ' '.join(p)))
    open(base + '.ckt', 'w').write('\n'.join(rows + ['.end']) + '\n')
    mon.data = {'deck': rows}
    try:
        so = io.StringIO()
        with c02.options({'transient_no_step_control': True}), contextlib.redirect_stdout(so):
            A.main(base + '.ckt', outfile=base, verbose=0)
        text = so.getvalue()
        lis = open(base + '.lis').read() if fft else ''
    finally:
        sim.cleanup(base)
    err = scale * (sum(a * (2 * np.pi * k * f * h) ** 3 for k, a, _ in c['h']) * .5 + 1e-6)
    mon.event('deck four')
    mon.data['text'] = text[-1500:]
    secs = re.split(r'Fourier components of transient response ', text)[1:]
    if not mon.check(len(secs) == 2, 'printed', lambda: '%d Fourier analyses printed, two signals were asked for' % len(secs)):
        return
    for s, sc in ((secs[0], scale * sign), (secs[1], .5)):
        w = expected(c, 1, sc, T0, T1, {}, 'four')
        lim = w[3] * err / scale * abs(sc) * 1.5 + 1e-4 * np.abs(w[1]).max()
        m = re.search(r'DC component = +(\S+)', s)
        mon.check(m is not None and abs(float(m.group(1)) - w[1][0].real) <= lim, 'printed', lambda: '.four: DC component %s, should be %r' % (m and m.group(1), w[1][0].real))
        tab = table(s)
        mon.check(len(tab) == 9 and all(abs(t[1] - k * f) <= 1e-4 * k * f for k, t in enumerate(tab, 1)), 'printed', lambda: '.four: the table is %r' % tab)
        top = np.abs(w[1])
        for k, t in enumerate(tab, 1):
            if k >= len(w[1]) or len(t) < 6:
                break
            z = t[2] * np.exp(1j * np.pi * t[4] / 180)
            mon.check(abs(z - w[1][k]) <= lim, 'printed', lambda: '.four: harmonic %d is %g at %g degrees, should be %s' % (k, t[2], t[4], w[1][k]))
            mon.check(abs(t[3] - top[k] / top.max()) <= 2 * lim / top.max(), 'printed', lambda: '.four: normalised magnitude of harmonic %d is %g, should be %g' % (k, t[3], top[k] / top.max()))
        m = re.search(r'Total harmonic distortion: (\S+) %', s)
        if w[2] != 'skip':
            rel = lim * 4 / abs(w[1][1]) * max(1., w[2])
            mon.check(m is not None and abs(float(m.group(1)) / 100 - w[2]) <= rel + 1e-4 * w[2], 'thd', lambda: '.four: distortion %s %%, should be %g' % (m and m.group(1), 100 * w[2]))
    if fft:
        mon.event('deck fft')
        count(mon, o)
        mon.data['text'] = lis[-1500:]
        wf, wF = want[0], want[1]
        lim = want[3] * err * 1.5 + 1e-4 * np.abs(wF).max()
        unorm = (o.get('format') or 'NORM').upper() == 'UNORM'
        tab = table(lis)
        if not mon.check(len(tab) == len(wf) - 1, 'lis', lambda: '.fft: %d lines, should be %d' % (len(tab), len(wf) - 1)):
            return
        ref_ = np.abs(wF).max()
        m = re.search(r'DC component: mag = (\S+) (\S+)', lis)
        mon.check(m is not None and m.group(2) == ('dB' if unorm else 'dBc'), 'lis', lambda: '.fft: DC line %r' % (m and m.group(0)))
        if not unorm:
            q = re.search(r'Normalization to carrier at (\S+) Hz: magnitude (\S+) dB', lis)
            mon.check(q is not None and abs(10 ** (float(q.group(2)) / 20) - ref_) <= lim + 1e-3 * ref_, 'lis', lambda: '.fft: %s, should be %g dB' % (q and q.group(0), 20 * math.log10(ref_)))
        mul = 1. if unorm else ref_
        if m:
            mon.check(abs(mul * 10 ** (float(m.group(1)) / 20) - abs(wF[0])) <= lim, 'lis', lambda: '.fft: DC component %s, should be %g' % (m.group(0), abs(wF[0]) / mul))
        for k, t in enumerate(tab, 1):
            mon.check(abs(t[1] - wf[k]) <= 1e-4 * wf[k] and t[0] == k, 'lis', lambda: '.fft: frequency %g Hz, should be %g' % (t[1], wf[k]))
            z = mul * 10 ** (t[2] / 20.) * np.exp(1j * np.pi * t[3] / 180)
            if not mon.check(abs(z - wF[k]) <= lim + 2e-3 * abs(wF[k]), 'lis', lambda: '.fft: at %g Hz %g dB, %g degrees, should be %g dB, %g' % (wf[k], t[2], t[3], 20 * math.log10(abs(wF[k]) / mul + 1e-300), np.angle(wF[k], deg=True))):
                break
        q = re.search(r'Total harmonic distortion: (\S+) %', lis)
        if 'freq' in o:
            if want[2] != 'skip':
                rel = lim * 4 / abs(wF[1]) * max(1., want[2])
                mon.check(q is not None and abs(float(q.group(1)) / 100 - want[2]) <= rel, 'thd', lambda: '.fft: distortion %s %%, should be %g' % (q and q.group(1), 100 * want[2]))
        else:
            mon.check(q is None, 'thd', '.fft: a distortion is reported without a fundamental')


def table(s):
    out = []
    for l in s.split('\n'):
        w = l.replace('|', ' ').split()
        try:
            v = [float(x) for x in w]
        except ValueError:
            continue
        if len(v) >= 4:
            out.append(v)
    return out
