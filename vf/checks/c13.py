"""C13  the meaning of a netlist does not depend on its lexical presentation."""
import io
import os
import random
import re
import shutil
import sys

from .. import gen as G
from .. import sim
from . import c02, c12

PROP = 'C13'
RULE = ('random legal decks (all element types, models, subcircuits, analyses, initial conditions and post-processing lines), each rewritten several times by combinations of '
        'documented lexical changes - letter case, blanks and tabs, blank and comment lines, trailing comments, continuation lines, number spellings with every unit suffix, '
        'line order, included files (nested, sub-directories, mixed-case names), .end, line ends, standard input - and parsed again: circuit, models, analyses, initial conditions and '
        'post-processing requests must be identical; distinct = distinct (deck kinds, set of rewritings) signature')
CASES = {'quick': 500, 'thorough': 9000}
MIN_OK = {'quick': 20000, 'thorough': 400000}
NEED = ['case', 'blanks', 'blanklines', 'comments', 'trailing', 'continuation', 'units', 'order', 'include', 'nested include', 'subdir include', 'mixed-case include', 'abs include',
        'end', 'crlf', 'nonl', 'stdin', 'results', 'subckt', 'decoys in the working directory', 'relative path'] + ['suffix:' + s for s in ('t', 'g', 'meg', 'k', 'm', 'u', 'n', 'p', 'f', 'mil', '')]
CASE_LIMIT = 60.0
ASSUMPTIONS = ['continuation lines directly follow the line they continue', 'coupled inductors stay before their coupling, analyses keep their order']

SUF = [('t', 1e12), ('g', 1e9), ('meg', 1e6), ('k', 1e3), ('m', 1e-3), ('u', 1e-6), ('n', 1e-9), ('p', 1e-12), ('f', 1e-15), ('mil', 25.4e-6)]
NUM = re.compile(r'^[-+]?(\d+\.?\d*|\.\d+)(e[-+]?\d+)?$')
KEEP = ('type', 'name', 'ic_label', 'src', 'source', 'input', 'output', 'tf', 'method', 'off', 'ac', 'uic', 'nsteps', 'sweep_type', 'guess', 'np', 'window', 'format', 'zeros')
VALPOS = {'r': 3, 'c': 3, 'l': 3, 'k': 3, 'e': 5, 'g': 5, 'f': 4, 'h': 4, 'v': 3, 'i': 3}


def gen(rng, i, tier):
    c = c12.gen(rng, i, tier)
    rows = [r for r in c['rows']]
    if '.end' in rows:
        rows = rows[:rows.index('.end')]
    rows = [r.split(' *')[0].rstrip() for r in rows]
    title, rows = rows[0], rows[1:]
    nodes = sorted(set(n for r in rows if r[0] in 'rcl' for n in r.split()[1:3] if n != '0'))
    ids = [r.split()[0] for r in rows if r[0] in 'v']
    # a subcircuit
    sub = None
    if rng.random() < .5 and len(nodes) > 1:
        nm = rng.choice(['amp', 'cell_1', 'filt'])
        ports = rng.sample(['in', 'out', 'p', '1', '2', 'a_b'], 2)
        sub = ['.subckt %s %s' % (nm, ' '.join(ports)), 'r1 %s mid %r' % (ports[0], G.rnd3(G.logu(rng, 10, 1e4))), 'c1 mid 0 %r' % G.rnd3(G.logu(rng, 1e-12, 1e-8)),
               'r2 mid %s %r' % (ports[1], G.rnd3(G.logu(rng, 10, 1e4))), '.ends']
        for k in range(rng.randint(1, 2)):
            a, b = rng.sample(nodes, 2)
            con = ['%s=%s' % (ports[0], a), '%s=%s' % (ports[1], b), 'name=' + nm]
            rng.shuffle(con)
            rows.insert(rng.randint(0, len([r for r in rows if r[0] != '.'])), 'x%s%d %s' % (rng.choice(['', 'a', '_']), k, ' '.join(con)))
    pp = []
    nodes = [n for n in nodes if n.replace('_', '').isalnum()] or ['qq']
    for _ in range(rng.randint(0, 2)):
        v = rng.choice(['v(%s)' % rng.choice(nodes), 'v(%s,%s)' % (rng.choice(nodes), rng.choice(nodes))] + ['i(%s)' % x for x in ids])
        r = rng.random()
        if r < .4:
            pp.append('.plot %s %s' % (rng.choice(['tran', 'ac', 'dc']), v))
        elif r < .7:
            pp.append('.four %r %s' % (G.rnd3(G.logu(rng, 10, 1e6)), v))
        else:
            pp.append('.fft %s np=%d window=%s freq=%r' % (v, rng.choice([256, 1024]), rng.choice(['hann', 'rect']), G.rnd3(G.logu(rng, 10, 1e6))))
    rows += pp
    vs = []
    for _ in range(rng.randint(3, 6)):
        vs.append({'seed': rng.randrange(2 ** 32), 'ops': rng.sample(OPS, rng.choice([1, 1, 2, 3, 5, len(OPS)]))})
    return {'title': title, 'rows': rows, 'sub': sub, 'variants': vs, 'tags': c['tags'], 'runit': rng.random() < .3}


OPS = ['case', 'blanks', 'blanklines', 'comments', 'trailing', 'continuation', 'units', 'order', 'include', 'end', 'crlf', 'nonl', 'stdin']


def spell(rng, s, mon):
    v = float(s)
    cand = []
    for suf, m in SUF:
        x = v / m
        if 1e-9 < abs(x) < 1e9 or (v == 0 and suf in 'kmu'):
            for t in ('%.15g' % x, '%.16g' % x, '%.17g' % x):
                if abs(float(t) * m - v) <= 4e-16 * abs(v):
                    if 'e' not in t or rng.random() < .5:
                        cand.append((t, suf))
                    break
    cand = [rng.choice(cand)] if cand and rng.random() < .7 else []
    if not cand:
        t = rng.choice([repr(v), '%.17e' % v, '%.17g' % v, repr(v).replace('e-0', 'e-')])
        if 'e' not in t and t.startswith(('0.', '-0.')) and rng.random() < .5:
            t = t.replace('0.', '.', 1)
        if t.endswith(".0") and len(t) > 3 and rng.random() < .5:
            t = t[:-1] if rng.random() < .5 else t[:-2]
        cand = [(t, '')]
    t, suf = cand[0]
    assert abs(float(t) * dict(SUF).get(suf, 1.) - v) <= 1e-15 * abs(v)
    if t[0] not in '+-' and rng.random() < .15:
        t = '+' + t
    mon.event('suffix:' + suf)
    return t + suf


def respell(rng, row, mon):
    tok = row.split()
    t = tok[0][0]
    if t == 'x' or tok[0] in ('.subckt', '.ends', '.plot', '.include'):
        return row
    start = VALPOS.get(t, 99)
    if tok[0] == '.ac':
        start = 3
    elif tok[0] == '.four':
        start = 1
        tok[1:] = [tok[1]] + ['\0' + x for x in tok[2:]]
    out = []
    for k, x in enumerate(tok):
        if x.startswith('\0'):
            x = x[1:]
        elif '=' in x:
            a, b = x.split('=')
            par = ')' if b.endswith(')') and '(' not in b else ''
            b = b[:len(b) - len(par)]
            whole = tok[0][0] == 'm' and a in ('m', 'n')      # integers: kept exact
            if a.lstrip('(') not in KEEP and NUM.match(b) and not whole:
                x = a + '=' + spell(rng, b, mon) + par
        elif k >= start and NUM.match(x):
            x = spell(rng, x, mon)
        out.append(x)
    return ' '.join(out)


def blocks(c):
    """list of blocks (lists of lines that stay together)"""
    out = [[r] for r in c['rows']]
    if c['sub']:
        out.append(list(c['sub']))
    return out


def variant(c, v, mon, dirname):
    """write the rewritten deck, return (path, stdin text or None)"""
    rng = random.Random(v['seed'])
    ops = v['ops']
    for o in ops:
        if o not in ('stdin',):
            mon.event(o)
    bl = blocks(c)
    if 'order' in ops:
        is_an = lambda b: b[0].split()[0] in ('.op', '.ac', '.dc', '.tran', '.pz', '.symbolic', '.pss', '.plot', '.four', '.fft')
        ans = [b for b in bl if is_an(b)]
        oth = [b for b in bl if not is_an(b)]
        ks = [b for b in oth if b[0][0] == 'k']
        oth = [b for b in oth if b[0][0] != 'k']
        rng.shuffle(oth)
        last = max([k for k, b in enumerate(oth) if b[0][0] == 'l'] + [-1])
        for b in ks:
            oth.insert(rng.randint(last + 1, len(oth)), b)
        # analyses and post-processing lines keep their own order
        pos = sorted(rng.randint(0, len(oth)) for _ in ans)
        for k, (p, b) in enumerate(zip(pos, ans)):
            oth.insert(p + k, b)
        bl = oth
    files = {}                      # relative name -> lines
    incs = []
    if 'include' in ops and 'stdin' not in ops:
        n = rng.randint(1, 3)
        k = rng.randint(0, len(bl))
        # keep the relative order: the included blocks are the last ones
        cut = sorted(rng.randint(k, len(bl)) for _ in range(n - 1))
        parts = [bl[a:b] for a, b in zip([k] + cut, cut + [len(bl)])]
        bl = bl[:k]
        names = []
        for j in range(n):
            nm = rng.choice(['inc%d.ckt', 'Model_%d.INC', 'sub%d.lib', 'MixedCase%d.net']) % j
            if nm != nm.lower():
                mon.event('mixed-case include')
            if rng.random() < .3:
                nm = rng.choice(['lib/', 'Lib2/']) + nm
                mon.event('subdir include')
            names.append(nm)
            files[nm] = [l for b in parts[j] for l in b]
        nested = n > 1 and rng.random() < .4
        for j, nm in enumerate(names):
            ref = nm
            if rng.random() < .15:
                ref = os.path.join(dirname, nm)
                mon.event('abs include')
            line = '\0' + rng.choice(['.include ', '.INCLUDE ']) + ref + (' * comment' if rng.random() < .2 else '')
            if nested and j == n - 1:
                mon.event('nested include')
                files[names[rng.randrange(j)]].append(line)   # the last file still comes last
            else:
                incs.append(line)
    lines = [l for b in bl for l in b]
    gaps = [0]
    depth = 0
    for k, l in enumerate(lines):
        depth += l.startswith('.subckt')
        depth -= l.startswith('.ends')
        if not depth:
            gaps.append(k + 1)
    where = sorted(rng.choice(gaps) for _ in incs)
    for p, l in reversed(list(zip(where, incs))):
        lines.insert(p, l)
    if 'end' in ops and not files:
        lines += ['.end', rng.choice(['r1 a b c d', 'garbage', '.nonsense', 'zz 1 2 3'])]
    files[''] = lines
    text = {}
    for nm, ls in files.items():
        out = [] if nm else [c['title']]
        for l in ls:
            out += lexical(rng, l, ops, mon)
        nl = '\r\n' if 'crlf' in ops else '\n'
        s = nl.join(out)
        if 'nonl' not in ops and s:
            s += nl
        text[nm] = s
    if 'stdin' in ops:
        mon.event('stdin')
        return None, text['']
    for nm, s in text.items():
        p = os.path.join(dirname, nm or 'main.ckt')
        if not os.path.isdir(os.path.dirname(p)):
            os.makedirs(os.path.dirname(p))
        with open(p, 'w', newline='') as fp:
            fp.write(s)
    return os.path.join(dirname, 'main.ckt'), None


def lexical(rng, l, ops, mon):
    if l.startswith('\0'):
        return [l[1:]]
    if 'units' in ops and l != 'garbage':
        l = respell(rng, l, mon)
    tok = l.split()
    if 'case' in ops:
        m = rng.randrange(3)
        tok = [t.upper() if m == 0 else ''.join(x.upper() if rng.random() < .4 else x for x in t) for t in tok]
    sep = (lambda: rng.choice([' ', '  ', '\t', '   ', ' \t '])) if 'blanks' in ops else (lambda: ' ')
    rows = [tok[0]]
    for t in tok[1:]:
        if 'continuation' in ops and rng.random() < .25:
            rows.append('+' + (sep() if rng.random() < .7 else '') + t)
        else:
            rows[-1] += sep() + t
    if 'trailing' in ops and rng.random() < .4 and tok[0][0] not in '.*' and tok[0] != 'garbage':
        rows[-1] += sep() + rng.choice(['* comment', '*', '*x=5', '* 1k ic=3', '*comment = strange + things'])
    if 'blanks' in ops:
        rows = [rng.choice(['', ' ', '\t']) + r + rng.choice(['', ' ', '\t ']) for r in rows]
    pre = []
    if 'comments' in ops and rng.random() < .3:
        pre.append(rng.choice(['* a comment', '*', '*r1 1 2 3k', '* .end', '   * indented', '*.tran tstep=1 tstop=2', '*+ 5']))
    if 'blanklines' in ops and rng.random() < .3:
        pre.append(rng.choice(['', '   ', '\t']))
    rng.shuffle(pre)
    return pre + rows


def base_text(c):
    return '\n'.join([c['title']] + [l for b in blocks(c) for l in b]) + '\n'


def parse(path, stdin=None):
    from ahkab import netlist_parser as P
    if path is None:
        old = sys.stdin
        sys.stdin = io.StringIO(stdin)
        try:
            circ, d, pp = P.parse_circuit('-', True)
        finally:
            sys.stdin = old
    else:
        circ, d, pp = P.parse_circuit(path)
    ics = {}
    for x in P.parse_ics(d):
        ics.update(x)
    return circ, P.parse_analysis(circ, d), ics, P.parse_postproc(circ, pp)


def parse_from(path, stdin, key, dirname, mon):
    """parse from different working directories: included files are looked up next to the deck"""
    rng = random.Random(key)
    r = rng.random()
    if path is None or r < .4:
        return parse(path, stdin)
    old = os.getcwd()
    cwd = dirname + '.cwd'
    try:
        if r < .7:
            os.makedirs(cwd)
            for d, _, names in os.walk(dirname):
                for n in names:
                    q = os.path.join(cwd, os.path.relpath(os.path.join(d, n), dirname))
                    if not os.path.isdir(os.path.dirname(q)):
                        os.makedirs(os.path.dirname(q))
                    with open(q, 'w') as fp:
                        fp.write(('title\n' if n == 'main.ckt' else '') + 'rdecoy%d decoy 0 5k\n' % rng.randrange(10 ** 6))
            os.chdir(cwd)
            mon.event('decoys in the working directory')
        else:
            os.chdir(dirname)
            path = os.path.basename(path)
            mon.event('relative path')
        return parse(path, stdin)
    finally:
        os.chdir(old)
        shutil.rmtree(cwd, ignore_errors=True)


def run(c, mon):
    base = sim.outname('lex')
    dirname = base + '.dir'
    try:
        run_(c, mon, base, dirname)
    finally:
        sim.cleanup(base)
        shutil.rmtree(dirname, ignore_errors=True)


def run_(c, mon, base, dirname):
    f = base + '.ckt'
    open(f, 'w').write(base_text(c))
    ref = parse(f)
    if c['sub']:
        mon.event('subckt')
    for v in c['variants']:
        # devices remember their last evaluation: the reference is read again
        ref = parse(f)
        shutil.rmtree(dirname, ignore_errors=True)
        os.makedirs(dirname)
        mon.seen((tuple(c['tags']), tuple(sorted(v['ops']))))
        p, s = variant(c, v, mon, dirname)
        what = '+'.join(v['ops'])
        try:
            new = parse_from(p, s, repr(v), dirname, mon)
        except Exception as e:
            import traceback
            mon.fail('refused', 'the rewritten deck (%s) is refused with %s: %s' % (what, type(e).__name__, str(e)[:300]),
                     deck=s if s else show(dirname), traceback=traceback.format_exc()[-1500:])
            continue
        same = Tag(mon, 'rewriting (%s): ' % what, lambda: s if s else show(dirname))
        ordered = 'order' not in v['ops']
        compare(same, ref, new, ordered)
        mon.ok('deck')
    if c['runit']:
        # the last rewriting also simulates identically
        A = sim.api()
        try:
            r1 = run_op(A, ref[0], base)
        except Exception as e:
            mon.event('op raised')
            return
        r2 = run_op(A, new[0], base)
        mon.event('results')
        if r1 is None or r2 is None:
            mon.check((r1 is None) == (r2 is None) or 'order' in c['variants'][-1]['ops'], 'results', 'one of the decks has no operating point')
            return
        k1, k2 = sorted(str(k).lower() for k in r1.keys()), sorted(str(k).lower() for k in r2.keys())
        mon.check(k1 == k2, 'results', lambda: 'variables %r and %r' % (k1, k2))


def run_op(A, circ, base):
    with c02.options({'dc_max_nr_iter': 400}):
        return A.run(circ, A.new_op(outfile=base + '.op', verbose=0)).get('op')


class Tag(object):
    def __init__(self, mon, pre, deck):
        self.m, self.p, self.deck = mon, pre, deck

    def event(self, *a):
        self.m.event(*a)

    def check(self, cond, kind, msg):
        if cond:
            return self.m.check(True, kind, msg)
        return self.m.check(cond, kind, self.p + (msg() if callable(msg) else msg), deck=self.deck())


def show(dirname):
    out = []
    for r, _, fs in os.walk(dirname):
        for f in sorted(fs):
            out.append('--- %s\n' % f + open(os.path.join(r, f), newline='').read())
    return '\n'.join(out)


def compare(mon, a, b, ordered):
    ca, cb = a[0], b[0]
    mon.check(ca.title == cb.title, 'title', lambda: 'title %r instead of %r' % (cb.title, ca.title))
    if ordered:
        c12.compare_circuits(mon, cb, ca, 'element')
    else:
        ia, ib = sorted(e.part_id.lower() for e in ca), sorted(e.part_id.lower() for e in cb)
        if mon.check(ia == ib, 'element', lambda: 'elements %r instead of %r' % (ib, ia)):
            for e in ca:
                f = cb.get_elem_by_name(e.part_id)
                if mon.check(type(e) is type(f), 'element', lambda: '%s is a %s' % (e.part_id, type(f).__name__)):
                    c12.compare_elem(mon, cb, f, ca, e, 'element')
    ma, mb = sorted(ca.models), sorted(cb.models)
    mon.check(ma == mb, 'models', lambda: 'models %r instead of %r' % (mb, ma))
    for k in ('analyses', 'ics', 'postproc'):
        j = ['analyses', 'ics', 'postproc'].index(k) + 1
        mon.check(eq(a[j], b[j]), k, lambda: '%s are %r instead of %r' % (k, b[j], a[j]))


def eq(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and sorted(map(str, a)) == sorted(map(str, b)) and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= 1e-14 * abs(a)
    return a == b
