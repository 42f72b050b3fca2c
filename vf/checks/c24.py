"""C24  the command line runs a deck end to end and saves what was computed."""
import os
import re
import shutil
import subprocess
import sys

import numpy as np

from .. import gen as G
from .. import sim
from . import c02, c07, c12, c22

PROP = 'C24'
RULE = ('random decks (linear, reactive and nonlinear circuits with every analysis directive) run through the command line entry point in a process of its own, with random documented options '
        '(outputs, verbosity, tolerances, iteration and step limits, methods, fixed step, gmin, cmin, guess, printing, standard input) and with faults; compared with the same analyses run through the '
        'API under the same settings: exit status, messages, set of files, the contents of every file or of the standard output, their order; distinct = distinct (options, directives, outcome) signatures')
CASES = {'quick': 330, 'thorough': 7000}
MIN_OK = {'quick': 2200, 'thorough': 50000}
OPTS = ['-v', '-p', '-o', '--dc-guess', '-t', '--t-fixed-step', '--v-absolute-tolerance', '--v-relative-tolerance', '--i-absolute-tolerance', '--i-relative-tolerance',
        '--h-min', '--dc-max-nr', '--t-max-nr', '--t-max-time', '--s-max-nr', '--gmin', '--cmin']
FAULTS = ['missing file', 'no file', 'two files', 'bad option', 'unknown option', 'no ground', 'syntax', 'singular', 'no directory', 'time limit', 'unknown method', 'empty']
NEED = ['opt:' + o for o in OPTS] + ['fault:' + f for f in FAULTS] + ['an:' + a for a in ('op', 'dc', 'ac', 'tran', 'pz', 'symbolic')] + \
       ['stdout', 'files', 'stdin', 'real process', 'failed analysis', 'several of a type', 'honour:method', 'honour:fixed', 'honour:tolerance', 'honour:cmin', 'honour:gmin', 'honour:guess']
CASE_LIMIT = 100.0
ASSUMPTIONS = ['the entry point runs in a forked process with its own arguments and standard streams; one run in twelve is a real "python -m ahkab" process',
               'agreement of the numbers in files is to 1e-9 of the largest value of a column, of those in reports to 1e-4',
               'runs that need more than their share of CPU time are not judged']

LONG = {'-v': '--verbose', '-p': '--print', '-o': '--outfile', '-t': '--tran-method'}
OPT_ATTR = {'--v-absolute-tolerance': 'vea', '--v-relative-tolerance': 'ver', '--i-absolute-tolerance': 'iea', '--i-relative-tolerance': 'ier', '--h-min': 'hmin',
            '--dc-max-nr': 'dc_max_nr_iter', '--t-max-nr': 'transient_max_nr_iter', '--t-max-time': 'transient_max_time_iter', '--s-max-nr': 'shooting_max_nr_iter',
            '--gmin': 'gmin', '--cmin': 'cmin'}


def gen(rng, i, tier):
    if i % 5 == 0:
        return {'kind': 'fault', 'fault': FAULTS[(i // 5) % len(FAULTS)], 'seed': rng.randint(0, 1 << 30), 'stdin': rng.random() < .2}
    if i % 15 == 1:
        return {'kind': 'honour', 'what': ['method', 'fixed', 'tolerance', 'cmin', 'gmin', 'guess'][(i // 15) % 6], 'seed': rng.randint(0, 1 << 30)}
    c = c12.gen(rng, rng.randint(0, 4), tier)
    # the deck asks for nothing the options below are about
    c['an'] = [dict(a) for a in c['an']]
    c.update({'kind': 'deck', 'opts': {}, 'spell': [], 'file': rng.random() < .65, 'stdin': rng.random() < .15, 'real': i % 12 == 3, 'dup': False})
    o = c['opts']
    if rng.random() < .7:
        o['-v'] = str(rng.randint(0, 6))
    if rng.random() < .25:
        o['-p'] = None
    if rng.random() < .3:
        o['--dc-guess'] = rng.choice(['none', 'guess'])
    if rng.random() < .4:
        o['-t'] = rng.choice(c07.METHODS).lower()
    fixed = any(a.get('fixed') for a in c['an'])
    if fixed:
        o['--t-fixed-step'] = None
    for k, f in (('--v-absolute-tolerance', lambda: G.logu(rng, 1e-9, 1e-5)), ('--v-relative-tolerance', lambda: G.logu(rng, 1e-6, 3e-3)),
                 ('--i-absolute-tolerance', lambda: G.logu(rng, 1e-12, 1e-8)), ('--i-relative-tolerance', lambda: G.logu(rng, 1e-6, 3e-3)),
                 ('--gmin', lambda: G.logu(rng, 1e-14, 1e-10)), ('--cmin', lambda: G.logu(rng, 1e-16, 1e-13)), ('--h-min', lambda: G.logu(rng, 1e-22, 1e-16)),
                 ('--t-max-nr', lambda: rng.choice([5, 20, 100])), ('--dc-max-nr', lambda: rng.choice([3, 20, 300, 1000])),
                 ('--t-max-time', lambda: rng.choice([0, 0, 8, 100, 10000])), ('--s-max-nr', lambda: rng.choice([50, 500]))):
        if rng.random() < .15:
            v = f()
            o[k] = '%d' % v if isinstance(v, int) else rng.choice(['%.3g', '%.2e']) % v
    c['spell'] = [rng.randint(0, 2) for _ in o] + [rng.randint(0, 1)]
    c['order'] = rng.randint(0, 1 << 30)
    if rng.random() < .12:
        # one more analysis of a type that is there already
        again = [k for k, a in enumerate(c['an']) if a['type'] in ('dc', 'ac', 'tran')]
        if again:
            k = rng.choice(again)
            row = [r for r in c['rows'] if r.startswith('.' + c['an'][k]['type'] + ' ')]
            if len(row) == 1:
                j = c['rows'].index(row[0])
                c['rows'].insert(j + 1, row[0])
                c['an'].insert(k + 1, dict(c['an'][k]))
                c['dup'] = True
    return c


# ---------------------------------------------------------------- running
def cli(args, cwd, stdin=None, real=False, cpu=15):
    """-> (exit status, stdout, stderr) or None (too slow)"""
    def f():
        os.chdir(cwd)
        so, se = os.open('stdout', os.O_CREAT | os.O_WRONLY | os.O_TRUNC, 0o600), os.open('stderr', os.O_CREAT | os.O_WRONLY | os.O_TRUNC, 0o600)
        si = os.open('stdin' if stdin is not None else os.devnull, os.O_RDONLY)
        os.dup2(si, 0)
        os.dup2(so, 1)
        os.dup2(se, 2)
        if real:
            env = dict(os.environ, PYTHONPATH='/repo', LC_ALL='C.UTF-8')
            return subprocess.call([sys.executable, '-m', 'ahkab'] + args, env=env)
        import io
        sys.stdin = io.TextIOWrapper(io.FileIO(0), encoding='utf-8')
        sys.stdout = io.TextIOWrapper(io.FileIO(1, 'w'), encoding='utf-8')
        sys.stderr = io.TextIOWrapper(io.FileIO(2, 'w'), encoding='utf-8')
        from ahkab import __main__ as m
        sys.argv = ['ahkab'] + args
        try:
            m._cli()
            code = 0
        except SystemExit as e:
            code = e.code
            if code is None:
                code = 0
            elif not isinstance(code, int):
                sys.stderr.write(str(code) + '\n')
                code = 1
        except Exception:
            import traceback
            traceback.print_exc()
            code = 1
        sys.stdout.flush()
        sys.stderr.flush()
        return code
    if stdin is not None:
        open(os.path.join(cwd, 'stdin'), 'w').write(stdin)
    st, code = c22.forked(f, cpu + (10 if real else 0))
    if st == 'slow':
        return None
    if st == 'error':
        raise RuntimeError('harness: ' + code)
    out = [open(os.path.join(cwd, x), encoding='utf-8').read() for x in ('stdout', 'stderr')]
    for x in ('stdout', 'stderr', 'stdin'):
        if os.path.exists(os.path.join(cwd, x)):
            os.remove(os.path.join(cwd, x))
    return code, out[0], out[1]


def args_of(c, base):
    import random
    rg = random.Random(c['order'])
    out = []
    for (k, v), s in zip(sorted(c['opts'].items()), c['spell']):
        if s == 1 and k in LONG:
            k = LONG[k]
        if v is None:
            out.append([k])
        elif s == 2 and k.startswith('--'):
            out.append([k + '=' + v])
        else:
            out.append([k, v])
    if c['file']:
        out.append([['-o', '--outfile'][c['spell'][-1]], base])
    elif c['spell'][-1]:
        out.append(['-o', 'stdout'])
    rg.shuffle(out)
    k = rg.randint(0, len(out))
    a = [x for l in out[:k] for x in l]
    b = [x for l in out[k:] for x in l]
    return a, b


def reference(c, cwd):
    """the same analyses through the API under the same settings, in order"""
    from ahkab import options, netlist_parser

    def f():
        os.chdir(cwd)
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        os.dup2(dn, 2)
        A = sim.api()
        for k, v in c['opts'].items():
            if k in OPT_ATTR:
                setattr(options, OPT_ATTR[k], float(v) if '.' in v or 'e' in v else int(v))
        if c['opts'].get('--dc-guess') == 'none':
            options.dc_use_guess = False
        meth = c['opts'].get('-t', 'trap')
        circ = c12.build_api(c)
        out = []
        opr = None
        for n, a in enumerate(c['an']):
            a = dict(a)
            if a['type'] == 'tran' and not a.get('method'):
                a['method'] = meth.upper()
            o = 'ref%d' % n
            try:
                r, opr = one(A, circ, a, opr, o)
            except (Exception, SystemExit) as e:
                out.append((a['type'], 'exception', '%s: %s' % (type(e).__name__, e), o))
                break
            out.append((a['type'], 'none' if r is None else 'ok', [str(x) for x in r] if a['type'] == 'symbolic' and r is not None else None, o))
        return out, [e.part_id for e in circ]
    return c22.forked(f, 15)


def one(A, circ, a, opr, o):
    a = dict(a)
    ty = a.pop('type')
    kw = dict(outfile=o, verbose=0)
    x0 = a.pop('x0', None)
    if isinstance(x0, dict):
        x0 = A.new_x0(circ, x0)
    if ty == 'op':
        an = A.new_op(x0=x0, **kw)
    elif ty == 'ac':
        an = A.new_ac(x0=None, **dict(a, **kw))
    elif ty == 'dc':
        an = A.new_dc(**dict(a, **kw))
    elif ty == 'tran':
        fixed = a.pop('fixed')
        if isinstance(x0, str):
            x0 = opr if x0 == 'op' else (A.icmodified_x0(circ, opr) if opr is not None else None)
        an = A.new_tran(x0=x0, use_step_control=not fixed, **dict(a, **kw))
    elif ty == 'pz':
        if a['output_port'] is not None:
            a['output_port'] = tuple(a['output_port'])
        an = A.new_pz(x0=opr, **dict(a, **kw))
    else:
        an = A.new_symbolic(**dict(a, **kw))
    r = A.run(circ, an)[ty]
    return r, (r if ty == 'op' else opr)


# ---------------------------------------------------------------- comparisons
def numbers_close(u, v, tol):
    return u == v or abs(u - v) <= tol * max(abs(u), abs(v)) or (u != u and v != v)


def table_same(a, b):
    """two result tables [header, matrix]: None when the same"""
    if [x.lower() for x in a[0]] != [x.lower() for x in b[0]]:
        return 'the columns are %r, should be %r' % (a[0], b[0])
    if a[1].shape != b[1].shape:
        return 'there are %s values, should be %s' % (a[1].shape, b[1].shape)
    if not a[1].size:
        return None
    sc = {}
    for n, r in zip(b[0], b[1]):
        k = c12.kind_of(n)
        sc[k] = max(sc.get(k, 0.), float(np.abs(r).max()))
    ac = b[0][0].lower() in ('f', 'w')
    for j, n in enumerate(b[0]):
        x, y = a[1][j], b[1][j]
        if ac and j and j % 2 == 0:
            # phases: only where there is a magnitude
            m = b[1][j - 1] > 1e-9 * max(b[1][1::2].max(), 1e-300)
            d = np.abs(np.remainder(x - y + np.pi, 2 * np.pi) - np.pi)[m]
            if (d > 1e-5).any():
                return '%s is %r, should be %r' % (n, x[m].tolist()[:6], y[m].tolist()[:6])
            continue
        d = np.abs(x - y)
        if not (d <= 1e-9 * max(sc[c12.kind_of(n)], 1e-6)).all():
            k = int(np.argmax(d))
            return '%s[%d] is %r, should be %r' % (n, k, x[k], y[k])
    return None


def table_of(rows):
    hd = rows[0].lstrip('#').strip().split('\t')
    M = [[float(x) for x in l.split('\t')] for l in rows[1:] if l.strip()]
    return hd, np.array(M).T if M else np.zeros((len(hd), 0))


NUM = re.compile(r'^[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?$|^[-+]?(nan|inf)$')


def report_same(a, b):
    """two operating point reports, as text"""
    def norm(t):
        rows = []
        vt = False
        for l in t.split('\n'):
            w = l.split()
            if not w:
                vt = False
                continue
            if w[0] in ('Netlist:', 'Title:') or re.match(r'^\d{4}-\d\d-\d\d \d\d:', l):
                continue
            if w[0] == 'Variable':
                vt = True
            if vt and len(w) >= 4:
                w = w[:3]          # errors are round-off
            if set(w[0]) == {'-'}:
                continue
            rows.append(w)
        return rows
    x, y = norm(a), norm(b)
    if len(x) != len(y):
        return 'the report has %d lines, should have %d' % (len(x), len(y))
    vals = {}
    for r, s in zip(x, y):
        if len(r) != len(s):
            return 'line %r should be %r' % (' '.join(r), ' '.join(s))
        for p, q in zip(r, s):
            if p == q:
                continue
            if NUM.match(p) and NUM.match(q):
                u, v = float(p), float(q)
                if numbers_close(u, v, 1e-4) or max(abs(u), abs(v)) < 1e-11:
                    continue
            return 'line %r should be %r' % (' '.join(r), ' '.join(s))
    return None


def pz_same(a, b):
    if sorted(a[0]) != sorted(b[0]):
        return 'the columns are %r, should be %r' % (a[0], b[0])
    x, y = np.ravel(a[1]), np.ravel(b[1])
    if x.shape != y.shape:
        return '%d values, should be %d' % (len(x), len(y))
    cx = np.sort_complex(np.round(x[::2] + 1j * x[1::2], 6))
    cy = np.sort_complex(np.round(y[::2] + 1j * y[1::2], 6))
    if len(cx) and not np.all(np.abs(np.sort(np.abs(cx)) - np.sort(np.abs(cy))) <= 1e-5 * np.abs(cy).max()):
        return 'values %r, should be %r' % (cx, cy)
    return None


def tables_in(text):
    """the result tables printed to the standard output, in order"""
    rows = text.split('\n')
    out = []
    k = 0
    while k < len(rows):
        l = rows[k]
        if l.startswith('#') and ('\t' in l or l.strip() in ('#T',)):
            n = k + 1
            w = len(l.split('\t'))
            keep = [l]
            while n < len(rows) and not rows[n].startswith('#'):
                # warnings may come between the rows
                try:
                    if len([float(x) for x in rows[n].split('\t')]) == w:
                        keep.append(rows[n])
                except ValueError:
                    pass
                n += 1
            out.append((k, table_of(keep)))
            k = n
        else:
            k += 1
    return out


def reports_in(text):
    """(line, text) of the operating point reports"""
    rows = text.split('\n')
    out = []
    for k, l in enumerate(rows):
        if l.startswith('Operating Point (OP) analysis'):
            n = k
            while n < len(rows) and not rows[n].startswith('Total power'):
                n += 1
            out.append((k - 1, '\n'.join(rows[k:n + 1])))
    return out


def cut(t):
    k = t.find('Operating Point (OP) analysis')
    n = t.find('\n', t.find('Total power'))
    return t[k:n]


# ---------------------------------------------------------------- cases
def run(c, mon):
    cwd = sim.outname('cli')
    os.mkdir(cwd)
    try:
        {'deck': deck, 'fault': fault, 'honour': honour}[c['kind']](c, mon, cwd)
    finally:
        shutil.rmtree(cwd, ignore_errors=True)


def deck(c, mon, cwd):
    rg, base = c['order'], 'res'
    text = '\n'.join(c['rows']) + '\n'
    st, ref_ = reference(c, cwd)
    if st == 'slow':
        mon.event('slow')
        return
    if st == 'error':
        raise RuntimeError('harness: ' + str(ref_))
    ref_, parts = ref_
    before = set(os.listdir(cwd))
    name = 'my deck.ckt' if rg % 5 == 0 else 'deck.ckt'
    open(os.path.join(cwd, name), 'w').write(text)
    before.add(name)
    a, b = args_of(c, base)
    got = cli(a + ['-' if c['stdin'] else name] + b, cwd, stdin=text if c['stdin'] else None, real=c['real'])
    if got is None:
        mon.event('slow')
        return
    code, so, se = got
    for k in c['opts']:
        mon.event('opt:' + k)
    mon.event('files' if c['file'] else 'stdout')
    if c['file']:
        mon.event('opt:-o')
    if c['stdin']:
        mon.event('stdin')
    if c['real']:
        mon.event('real process')
    mon.seen((tuple(sorted(c['opts'])), tuple(x[:2] for x in ref_), c['file'], c['stdin']))
    mon.data = {'args': a + b, 'deck': text, 'stdout': so[-3000:], 'stderr': se[-1500:], 'reference': ref_}
    fine = all(x[1] == 'ok' for x in ref_)
    what = ', '.join('%s: %s' % (x[0], x[1] if x[1] != 'exception' else x[2][:80]) for x in ref_)
    mon.check((code == 0) == fine, 'exit', lambda: 'the exit status is %r, through the API: %s; %s' % (code, what, (se or so)[-200:]))
    if not fine:
        mon.event('failed analysis')
        mon.check(bool(so.strip() or se.strip()), 'message', 'failed without a message')
    if fine and c['opts'].get('-v') == '0' and c['file'] and '-p' not in c['opts'] and not any(x[0] == 'symbolic' for x in ref_):
        mon.check(not [l for l in so.split('\n') if l.strip() and not l.startswith(('(W)', 'W:'))], 'silent', lambda: 'with -v 0 and an output file, the standard output is %r' % so[:200])
    if '-p' in c['opts'] or int(c['opts'].get('-v', 3)) > 3:
        tab = so.lower().split('\n')
        for p in parts:
            mon.check(any(l.split()[:1] == [p.lower()] for l in tab), 'printed', lambda: 'element %s is not in the printed circuit' % p)
    if code == 0 or fine:
        ans = [x for x in ref_]
    else:
        # what was computed before the first failure
        n = [k for k, x in enumerate(ref_) if x[1] != 'ok'][0]
        ans = ref_[:n]
    for x in ref_:
        mon.event('an:' + x[0])
    types = [x[0] for x in ref_]
    last = {x[0]: k for k, x in enumerate(ans)}
    if c['dup']:
        mon.event('several of a type')
    if c['file']:
        new = set(os.listdir(cwd)) - before
        allowed = set()
        for t in types:
            allowed |= {base + '.op', base + '.opinfo'} if t == 'op' else {base + '.' + t, base + '.symbolic.tfs'} if t == 'symbolic' else {base + '.' + t}
        if c['dup'] and types.count('op') + len(new) < len(types) + types.count('op'):
            pass
        mon.check(new <= allowed, 'files', lambda: 'files %r were created, the analyses are %r' % (sorted(new - allowed), types))
        for k, (t, _, info, o) in enumerate(ans):
            if last[t] != k:
                mon.finding('KF8', 'the results of an analysis are overwritten by those of the next one of the same type')
                continue
            f, g = os.path.join(cwd, base + '.' + t), os.path.join(cwd, o + '.' + t)
            if not mon.check(os.path.exists(f) == os.path.exists(g), 'file written', lambda: '%s: the result file %s, through the API it %s' % (t, 'exists' if os.path.exists(f) else 'is missing', 'exists' if os.path.exists(g) else 'does not')):
                continue
            if not os.path.exists(f):
                continue
            if t == 'symbolic':
                from ahkab import results as R
                mon.check(c12.flat(R.symbolic_solution.load(f)) == c12.flat(R.symbolic_solution.load(g)), 'symbolic file', 'the saved symbolic solutions differ')
                continue
            p, q = table_of(open(f, encoding='utf-8').read().split('\n')), table_of(open(g, encoding='utf-8').read().split('\n'))
            d = pz_same(p, q) if t == 'pz' else table_same(p, q)
            mon.check(d is None, 'file contents', lambda: '%s: %s' % (t, d))
            if t == 'op':
                d = report_same(open(f + 'info', encoding='utf-8').read(), open(g + 'info', encoding='utf-8').read())
                mon.check(d is None, 'report', lambda: 'op: %s' % d)
    else:
        new = set(os.listdir(cwd)) - before
        mon.check(not new, 'files', lambda: 'files %r were created although the results go to the standard output' % sorted(new))
        tabs, reps = tables_in(so), reports_in(so)
        pos = -1
        for k, (t, _, info, o) in enumerate(ans):
            g = os.path.join(cwd, o + '.' + t)
            if t == 'op':
                want = cut(open(g + 'info', encoding='utf-8').read())
                d, at = 'there is no operating point report', None
                for at, r in reps:
                    if at <= pos:
                        continue
                    d = report_same(r, want)
                    if d is None:
                        break
                mon.check(d is None, 'report', lambda: 'op: %s' % d)
                pos = at if d is None and at is not None else pos
            elif t == 'symbolic':
                from ahkab import results as R
                if not os.path.exists(g):
                    continue
                s = R.symbolic_solution.load(g)
                lines = [l.replace(' ', '').replace('\t', '').lower() for l in so.split('\n')]
                for v, e in s.items():
                    w = ('%s=%s' % (v, e)).replace(' ', '').lower()
                    mon.check(w in lines, 'symbolic printed', lambda: 'the solution %s = %s is not printed' % (v, e))
            else:
                if not os.path.exists(g):
                    continue
                want = table_of(open(g, encoding='utf-8').read().split('\n'))
                if t == 'pz':
                    for n in range(0, want[1].size, 2):
                        pass
                d, at = 'there is no table of these results (after those of the analysis before)', None
                for at, tb in tabs:
                    if at <= pos:
                        continue
                    d1 = pz_same(tb, want) if t == 'pz' else table_same(tb, want)
                    if d1 is None or not d1.startswith('the columns') or d.startswith('there is no'):
                        d = d1
                    if d is None:
                        break
                if t == 'pz' and not want[1].size:
                    continue
                mon.check(d is None, 'printed table', lambda: '%s: %s' % (t, d))
                pos = at if d is None and at is not None else pos


# ---------------------------------------------------------------- faults
GOOD = ['a good deck', 'v1 in 0 type=vdc vdc=5 vac=1 type=sin vo=1 va=1 freq=1k', 'r1 in out 1k', 'c1 out 0 1u', '.op', '.tran tstep=10u tstop=1m uic=0', '.ac start=10 stop=1k nsteps=3', '.end']


def fault(c, mon, cwd):
    import random
    rg = random.Random(c['seed'])
    f = c['fault']
    rows = list(GOOD)
    args = ['-o', 'res'] if rg.random() < .7 else []
    files = ['deck.ckt']
    computed = []
    if rg.random() < .6:
        args += ['-v', str(rg.randint(0, 6))]
    if f == 'missing file':
        files = [rg.choice(['nothere.ckt', 'no/such/dir/deck.ckt', 'dir'])]
        os.mkdir(os.path.join(cwd, 'dir'))
    elif f == 'no file':
        files = []
    elif f == 'two files':
        files = ['deck.ckt', rg.choice(['deck.ckt', 'other.ckt'])]
    elif f == 'bad option':
        args += rg.choice([['--gmin', 'abc'], ['-v', 'loud'], ['--v-absolute-tolerance=x1'], ['--t-max-nr', 'many'], ['--cmin', '1 2']])
    elif f == 'unknown option':
        args += rg.choice([['--frobnicate'], ['-q'], ['--gminn', '1e-12']])
    elif f == 'no ground':
        rows[1:4] = rg.choice([['v1 a b type=vdc vdc=1', 'r1 a b 1k'], ['v1 in 1 type=vdc vdc=5', 'r1 in out 1k', 'c1 out 1 1u']])
    elif f == 'syntax':
        rows.insert(rg.randint(1, 5), rg.choice(['r9 in', 'c9 in 0 1u 2u 3u', 'q1 in 0 out', 'v9 in 0 type=foo', '.foo bar', '.dc nothere start=0 stop=1 step=.1', 'r9 in 0 12x4', 'd1 in 0 nomodel']))
    elif f == 'singular':
        # elements that contradict one another: there is no operating point
        rows.insert(rg.randint(1, 4), rg.choice(['v2 in 0 type=vdc vdc=3', 'l9 in 0 1m', 'e9 in 0 out 0 2']))
        rows[rows.index('.op') + 1:] = ['.end']
    elif f == 'no directory':
        args = ['-o', rg.choice(['no/such/dir/res', '/nonexistent_dir/res'])] + [a for a in args if a not in ('-o', 'res')]
        if '-v' in args and args[-1] == '-v':
            args = args[:-1]
    elif f == 'time limit':
        args += ['--t-max-time', str(rg.randint(1, 5))]
    elif f == 'unknown method':
        args += ['-t', rg.choice(['foo', 'euler', 'trapezoidal', 'gear9'])]
    elif f == 'empty':
        rows = rg.choice([[''], ['only a title'], ['title', '.end'], ['title', '* comment', '.end'], ['title', '.op', '.end']])
    text = '\n'.join(rows) + '\n'
    open(os.path.join(cwd, 'deck.ckt'), 'w').write(text)
    stdin = c['stdin'] and files == ['deck.ckt']
    got = cli(args + (['-'] if stdin else files), cwd, stdin=text if stdin else None, real=rg.random() < .08)
    if got is None:
        mon.fail('hang', 'the command line does not return (%s)' % f)
        return
    code, so, se = got
    mon.event('fault:' + f)
    mon.data = {'args': args + files, 'deck': text, 'stdout': so[-1500:], 'stderr': se[-1500:]}
    mon.seen((f, tuple(args), tuple(rows)))
    if f == 'empty' and not any(r.startswith('.op') for r in rows):
        # nothing to simulate: either outcome is fine, as long as it is stated
        mon.check(code != 0 or True, 'exit', '')
    else:
        mon.check(code != 0, 'exit', lambda: '%s: exit status %r (%s)' % (f, code, (so + se)[-200:]))
    if code != 0:
        mon.check(bool((so + se).strip()), 'message', lambda: '%s: there is no message' % f)
    if f in ('missing file', 'no file', 'two files', 'bad option', 'unknown option', 'no ground', 'syntax'):
        left = [x for x in os.listdir(cwd) if x.startswith('res')]
        if f == 'syntax':
            left = []
        mon.check(not left, 'files', lambda: '%s: result files %r were written' % (f, left))
    if f == 'missing file':
        mon.check(files[0].split('/')[-1] in so + se, 'message', lambda: '%s: the message %r does not name it' % (f, (so + se)[-300:]))


# ---------------------------------------------------------------- options do what they say
def honour(c, mon, cwd):
    import random
    rg = random.Random(c['seed'])
    w = c['what']
    R, C = G.rnd3(G.logu(rg, 1e2, 1e4)), G.rnd3(G.logu(rg, 1e-9, 1e-6))
    tau = R * C
    T = G.rnd3(tau * rg.uniform(.5, 3))
    n = rg.randint(20, 60)
    h = float('%.6g' % (T / n))
    rows = ['honour', 'v1 in 0 type=vdc vdc=1', 'r1 in out %r' % R, 'c1 out 0 %r' % C, '.tran tstep=%r tstop=%r uic=0' % (h, h * n), '.end']
    mon.data = {'deck': rows}
    mon.seen((w, R, C, n))

    def go(args, rows=rows, an='tran'):
        open(os.path.join(cwd, 'deck.ckt'), 'w').write('\n'.join(rows) + '\n')
        for x in os.listdir(cwd):
            if x.startswith('res'):
                os.remove(os.path.join(cwd, x))
        got = cli(['deck.ckt', '-v', '0', '-o', 'res'] + args, cwd)
        if got is None:
            return None
        if not mon.check(got[0] == 0, 'exit', lambda: 'exit status %r with %r: %s' % (got[0], args, (got[1] + got[2])[-300:])):
            return None
        if an == 'op':
            return open(os.path.join(cwd, 'res.opinfo'), encoding='utf-8').read()
        hd, M = table_of(open(os.path.join(cwd, 'res.' + an), encoding='utf-8').read().split('\n'))
        return dict(zip([x.lower() for x in hd], M))
    if w == 'fixed':
        r = go(['--t-fixed-step', '-t', rg.choice(['trap', 'implicit_euler', 'gear2'])])
        if r is not None:
            d = np.diff(r['t'])
            mon.check(np.allclose(d, h, rtol=1e-6) and abs(len(d) + 1 - n) <= 2, 'fixed step', lambda: 'steps between %g and %g, %d points; the step is %g, %d steps' % (d.min(), d.max(), len(d) + 1, h, n))
            mon.event('honour:fixed')
    elif w == 'method':
        # one step of backward Euler, of the trapezoidal rule are known exactly
        r1, r2 = go(['--t-fixed-step', '-t', 'implicit_euler']), go(['--t-fixed-step', '-t', 'trap'])
        if r1 is None or r2 is None:
            return
        k = h / tau
        for r, q, nm in ((r1, 1 / (1 + k), 'implicit_euler'), (r2, (1 - k / 2) / (1 + k / 2), 'trap')):
            e = 1 - r['vout']
            x = e[4:12] / e[3:11]
            mon.check(np.allclose(x, q, rtol=1e-4), 'method', lambda: '%s: the error decays by %r per step, the method gives %r' % (nm, x.tolist()[:4], q))
        mon.event('honour:method')
    elif w == 'tolerance':
        rows = list(rows)
        rows[1] = 'v1 in 0 type=vdc vdc=0 type=sin vo=0 va=1 freq=%r' % G.rnd3(1. / tau)
        rows[4] = '.tran tstep=%r tstop=%r uic=0' % (h, G.rnd3(10 * tau))
        k = rg.choice(['--v-relative-tolerance'])
        r1, r2 = go([k, '1e-2'], rows), go([k, '1e-5', '--v-absolute-tolerance', '1e-8'], rows)
        if r1 is None or r2 is None:
            return
        mon.check(len(r2['t']) > 2 * len(r1['t']), 'tolerance', lambda: '%d time points with a tolerance of 1e-2, %d with 1e-5' % (len(r1['t']), len(r2['t'])))
        r = go(['--v-absolute-tolerance', '3.5e-7', '--v-relative-tolerance', '2.5e-4', '--i-absolute-tolerance=4.5e-11', '--i-relative-tolerance', '1.5e-4'], rows[:-2] + ['.op', '.end'], 'op')
        if r is not None:
            for nm, v in (('vea', 3.5e-7), ('ver', 2.5e-4), ('iea', 4.5e-11), ('ier', 1.5e-4)):
                m = re.search(r'\b%s = (\S+)' % nm, r)
                mon.check(m is not None and abs(float(m.group(1)) - v) <= 1e-6 + 1e-3 * v if nm in ('ver', 'ier') else m is not None and abs(float(m.group(1)) - v) <= 1e-3 * v,
                          'tolerance', lambda: 'the report says %s, the option is %s = %r' % (m and m.group(0), nm, v))
        mon.event('honour:tolerance')
    elif w == 'cmin':
        # no capacitor but the minimum one at the node
        rows = list(rows)
        rows[3] = 'r2 out 0 1e9'
        rows.insert(5, '.ac start=%r stop=%r nsteps=3' % (G.rnd3(.02 / tau), G.rnd3(2 / tau)))
        rows[1] += ' vac=1'
        args = ['--cmin', repr(C), '--t-fixed-step', '-t', 'trap']
        r = go(args, rows)
        if r is None:
            return
        e = 1 - r['vout']
        k = h / tau
        x = e[4:12] / e[3:11]
        q = (1 - k / 2) / (1 + k / 2)
        mon.check(np.allclose(x, q, rtol=1e-3), 'cmin', lambda: 'the response decays by %r per step, should be %r' % (x.tolist()[:4], q))
        r = go(args, rows, 'ac')
        if r is not None:
            want = 1 / np.sqrt(1 + (2 * np.pi * r['f'] * tau) ** 2)
            mon.check(np.allclose(r['|vout|'], want, rtol=1e-3), 'cmin', lambda: 'the AC response is %r, should be %r' % (r['|vout|'], want))
        mon.event('honour:cmin')
    elif w == 'gmin':
        # a node which is only held by gmin
        g = G.rnd3(G.logu(rg, 1e-10, 1e-8))
        rows = rows[:3] + ['r2 out 0 %r' % R, 'i9 0 x type=idc idc=%r' % (3. * g), '.op', '.end']
        r = go(['--gmin', repr(g)], rows, 'op')
        if r is None:
            return
        m = re.search(r'^VX\s+V\s+(\S+)', r, re.M)
        mon.check(m is not None and abs(float(m.group(1)) - 3.) < 1e-4, 'gmin', lambda: 'the node which is only held by gmin is reported as %s, should be at 3 V' % (m and m.group(0)))
        mon.event('honour:gmin')
    else:
        # a diode circuit: with the guess disabled the iteration starts from zero
        rows = ['honour', 'v1 in 0 type=vdc vdc=%r' % G.rnd3(rg.uniform(3, 9)), 'r1 in out %r' % R, 'd1 out 0 dm', '.model diode dm is=1e-14', '.op', '.end']
        its = []
        from ahkab import options
        for arg in (['--dc-guess', 'none'], ['--dc-guess=guess'], []):
            r = go(arg + ['-v', '6'], rows, 'op')
            if r is None:
                return
            its.append(int(re.search(r'reached in (\d+)', r).group(1)))
        ref_ = []
        for g in (False, True, True):
            st, v = c22.forked(lambda: guessed(rows, g), 20)
            if st != 'ok':
                return
            ref_.append(v)
        mon.check(its == ref_, 'guess', lambda: 'iterations with none, guess and by default: %r, through the API: %r' % (its, ref_))
        mon.event('honour:guess')
        if ref_[0] != ref_[1]:
            mon.event('guess matters')


def guessed(rows, g):
    A = sim.api()
    from ahkab import netlist_parser, options
    o = sim.outname('g')
    open(o + '.ckt', 'w').write('\n'.join(rows) + '\n')
    try:
        circ = netlist_parser.parse_circuit(o + '.ckt')[0]
        return int(A.run(circ, A.new_op(guess=g, outfile=o))['op'].iterations)
    finally:
        sim.cleanup(o)
