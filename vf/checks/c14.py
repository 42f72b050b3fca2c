"""C14  malformed netlists are refused with a diagnostic, never misread or crashed on."""
import contextlib
import io
import os
import random
import re
import shutil

from .. import ref, sim
from . import c12

PROP = 'C14'
RULE = ('legal decks with every documented element, option, model, analysis, post-processing and structural directive, damaged by 1-3 random edits (tokens removed, repeated, exchanged, '
        'replaced; characters inserted or removed; lines removed, repeated, truncated, joined; files truncated) and given to the netlist parser; an independent recogniser of the documented '
        'grammar says which decks are legal (must be accepted, with the elements, nodes, values and analysis parameters written), which are malformed (must be refused with the parse error '
        'and a diagnostic pointing at the line) and which are undocumented (accepted or refused with the parse error, nothing else); plus well-formed decks that refer to missing or '
        'unusable objects, run end to end; distinct = (directive or element kind, edit kind, verdict)')
CASES = {'quick': 9000, 'thorough': 250000}
MIN_OK = {'quick': 9000, 'thorough': 250000}
NEED = ['verdict:ok', 'verdict:bad', 'verdict:unknown', 'refused', 'accepted', 'elements compared', 'semantic'] + \
       ['bad:' + t for t in 'rclkvidmeghfsx'] + ['bad:.' + t for t in ('model', 'subckt', 'ends', 'include', 'ic', 'op', 'dc', 'ac', 'tran', 'pz', 'symbolic', 'pss', 'plot', 'four', 'fft')]
CASE_LIMIT = 20.0
ASSUMPTIONS = ['options given twice, comments in the place of a required field and parameter values outside their physical range are undocumented: both outcomes are accepted',
               'user-defined (Y) elements need external modules and are left out']

NUM = re.compile(r'^[+-]?(\d+(\.\d*)?|\.\d+)(e[+-]?\d+)?(t|g|k|m|u|n|p|f|meg|mil)?$')
SUF = {'t': 1e12, 'g': 1e9, 'k': 1e3, 'm': 1e-3, 'u': 1e-6, 'n': 1e-9, 'p': 1e-12, 'f': 1e-15, 'meg': 1e6, 'mil': 25.4e-6, '': 1.}
BOOL = {'yes', 'no', 'true', 'false', '1', '0'}


def num(s):
    m = NUM.match(s)
    if not m:
        return None
    suf = m.group(4) or ''
    return float(s[:len(s) - len(suf)]) * SUF[suf]


class Bad(Exception):
    def __init__(self, what, why):
        Exception.__init__(self, why)
        self.what = what


class Unknown(Exception):
    pass


def need_num(s, what):
    v = num(s)
    if v is None:
        raise Bad(what, 'bad number %r' % s)
    return v


def kv(tok):
    return tuple(tok.split('=')) if tok.count('=') == 1 else (None, tok)


FN = {'sin': (['vo', 'va', 'freq', 'td', 'theta', 'phase'], 3), 'exp': (['v1', 'v2', 'td1', 'tau1', 'td2', 'tau2'], None),
      'pulse': (['v1', 'v2', 'td', 'tr', 'tf', 'pw', 'per'], None), 'sffm': (['vo', 'va', 'fc', 'mdi', 'fs', 'td'], 5), 'am': (['sa', 'oc', 'fm', 'fc', 'td'], 4)}
FN_OPT = {'sin': {'td', 'theta', 'phase'}, 'exp': {'td1', 'td2', 'tau2'}, 'pulse': {'td'}, 'sffm': {'td'}, 'am': {'td'}}
MOSP = {'type', 'tnom', 'cox', 'gamma', 'nsub', 'phi', 'vto', 'kp', 'tox', 'vfb', 'u0', 'tcv', 'bex'}
MODELP = {'ekv': MOSP, 'mosq': MOSP | {'lambda'},
          'diode': {'nbv', 'ikf', 'is', 'n', 'isr', 'nr', 'rs', 'cj0', 'm', 'vj', 'fc', 'cp', 'tt', 'bv', 'ibv', 'kf', 'af', 'ffe', 'temp', 'xti', 'eg', 'tbv', 'trs', 'ttt1', 'ttt2', 'tm1', 'tm2'},
          'sw': {'vt', 'vh', 'ron', 'roff', 'von', 'voff'}}
MODELP['d'] = MODELP['diode']
# documented analysis parameters: name -> kind; required; positional forms
AN = {'op': ({'guess': 'any', 'ic_label': 'any'}, [], []),
      'dc': ({'src': 's', 'source': 's', 'start': 'f', 'stop': 'f', 'step': 'f', 'type': 's'}, [('src', 'source'), ('start',), ('stop',), ('step',)], ['s', 'f', 'f', 'f']),
      'tran': ({'tstep': 'f', 'tstop': 'f', 'tstart': 'f', 'uic': 'f', 'ic_label': 's', 'method': 's'}, [('tstep',), ('tstop',)], ['f', 'f', 'f']),
      'ac': ({'type': 's', 'sweep_type': 's', 'nsteps': 'f', 'start': 'f', 'stop': 'f'}, [('nsteps',), ('start',), ('stop',)], ['s', 'f', 'f', 'f']),
      'pss': ({'period': 'f', 'points': 'f', 'step': 'f', 'method': 's', 'autonomous': 'b'}, [('period',)], ['f']),
      'pz': ({'output': 's', 'source': 's', 'input': 's', 'zeros': 'b', 'shift': 'f'}, [], ['s', 's', 'f']),
      'symbolic': ({'tf': 's', 'ac': 'b', 'r0s': 'b'}, [], [])}
FFT = {'start': 'f', 'stop': 'f', 'from': 'f', 'to': 'f', 'np': 'f', 'format': 's', 'window': 's', 'alpha': 'f', 'alfa': 'f', 'freq': 'f', 'fmin': 'f', 'fmax': 'f'}
VAR = re.compile(r'^(v\([^\s,()=*]+(,[^\s,()=*]+)?\)|i\([^\s,()=*]+\))$')


def values(kind, s, what):
    if kind == 'f':
        return need_num(s, what)
    if kind == 'b' and s not in BOOL:
        raise Bad(what, 'bad boolean %r' % s)
    if kind == 's' and s == '':
        raise Unknown('empty')
    return s


# ------------------------------------------------------------------ recogniser
class Judge(object):
    """independent recogniser of the documented grammar; .verdict in ok / bad / unknown"""

    def __init__(self, rows, exists=()):
        self.exists = set(exists)
        self.elements, self.analyses, self.models, self.subs, self.bad, self.unknown = [], [], {}, {}, [], []
        self.flat = True
        self.post = []
        try:
            self.scan(rows)
        except Bad as e:
            self.bad.append((e.what, str(e)))
            self.partial = True

    partial = False
    verdict = property(lambda s: 'bad' if s.bad and not s.unsure else 'unknown' if s.unknown or s.bad else 'ok')
    unsure = False

    def guard(self, f, line, *a):
        try:
            return f(line, *a)
        except Bad as e:
            self.bad.append((e.what, '%s in %r' % (e, line)))
        except Unknown as e:
            self.unknown.append('%s in %r' % (e, line))
            if line.split()[0] in ('.model', '.subckt') or line[0] in 'lx':
                if str(e) != 'value ranges':
                    self.unsure = True

    def scan(self, rows):
        lines = []
        for k, r in enumerate(rows):
            r = r.strip()
            if k == 0:
                continue
            if not r:
                lines.append(None)      # blank lines end a continuation
                continue
            r = r.lower()
            if r[0] == '+':
                if not lines or lines[-1] is None:
                    self.unknown.append('stray continuation')
                    self.unsure = True
                    continue
                lines[-1] += ' ' + r[1:]
            else:
                lines.append(r)
        top, sub, models, an = [], None, [], []
        incl = []
        for l in lines:
            if l is None or l[0] == '*':
                continue
            t = l.split()
            if t[0] == '.end':
                break
            if t[0] == '.subckt':
                if sub is not None:
                    raise Bad('.subckt', 'nested definition')
                sub = (l, [])
            elif t[0] == '.ends':
                if sub is None:
                    raise Bad('.ends', '.ends without .subckt')
                self.guard(self.sub_decl, *sub)
                sub = None
            elif t[0] == '.include':
                incl.append(l)
            elif t[0] == '.model':
                models.append(l)
            elif l[0] == '.':
                an.append(l)
            elif sub is not None:
                sub[1].append(l)
            else:
                top.append(l)
        if sub is not None:
            raise Bad('.subckt', '.ends not found')
        for l in models:
            self.guard(self.model, l)
        ctx = {'ind': set(), 'depth': [], 'out': self.elements}
        for l in top:
            self.guard(self.element, l, ctx)
        for l in incl:
            self.guard(self.include, l)
        ids = [e[1] for e in self.elements if e[1]]
        if len(set(ids)) != len(ids) and not self.bad:
            self.dups = True
        for l in an:
            self.guard(self.directive, l)

    dups = False

    def toks(self, l, req):
        t = l.split()
        for k, x in enumerate(t):
            if x[0] == '*':
                if k < req:
                    raise Unknown('comment in a required field')
                t = t[:k]
                break
        return t

    def include(self, l):
        t = self.toks(l, 2)
        if len(t) != 2 or t[1] not in self.exists:
            raise Bad('.include', 'missing file or malformed')
        self.flat = False
        self.elements.append(['r', 'rinc', None])

    def model(self, l):
        if l.count('(') != l.count(')') or l.count('(') > 1:
            raise Unknown('brackets')
        t = self.toks(l.replace('(', '').replace(')', ''), 3)
        if len(t) < 3:
            raise Bad('.model', 'too few fields')
        if t[1] not in MODELP:
            raise Bad('.model', 'unknown model type')
        if '=' in t[2]:
            raise Unknown('label')
        seen = {}
        keys = [kv(x)[0] for x in t[3:]]
        if len(set(keys)) != len(keys) and None not in keys:
            raise Unknown('twice')
        for x in t[3:]:
            k, v = kv(x)
            if k is None:
                raise Bad('.model', 'malformed parameter %r' % x)
            if k not in MODELP[t[1]]:
                if k == 'lambda' or k == 'name':
                    raise Unknown(k)
                raise Bad('.model', 'unknown parameter %r' % x)
            if k in seen:
                raise Unknown('twice')
            if k == 'type':
                if v not in ('n', 'p'):
                    raise Bad('.model', 'bad type')
                seen[k] = v
            else:
                seen[k] = need_num(v, '.model')
                if seen[k] <= 0:
                    seen['range'] = True
        if t[2] in self.models:
            raise Unknown('model twice')
        self.models[t[2]] = (t[1], seen)
        if 'range' in seen or (t[1] in ('ekv', 'mosq') and ('type' not in seen or len(seen) > 1)) or {'von', 'voff'} & set(seen) or 'fc' in seen or 'm' in seen:
            raise Unknown('value ranges')      # consistency between values is judged by the devices

    def sub_decl(self, l, body):
        t = self.toks(l, 2)
        if len(t) < 2:
            raise Bad('.subckt', 'no label')
        if '0' in t[2:]:
            raise Bad('.subckt', 'port 0')
        if t[1] in self.subs:
            raise Bad('.subckt', 'redefined')
        self.subs[t[1]] = (t[2:], body)
        if len(set(t[2:])) != len(t[2:]):
            raise Unknown('port twice')

    # -------------------------------------------------------------- elements
    def element(self, l, ctx):
        c = l[0]
        f = getattr(self, 'e_' + c, None) if c.isalpha() else None
        if c == 'y':
            raise Unknown('user-defined')
        if f is None:
            raise Bad(c, 'unknown element')
        f(l, ctx)

    def add(self, ctx, *e):
        ctx['out'].append(list(e))

    def fields(self, l, n, extra=()):
        t = self.toks(l, n)
        if len(t) < n:
            raise Bad(l[0], 'too few fields')
        o = {}
        for x in t[n:]:
            k, v = kv(x)
            if k is None or k not in extra:
                if k is None and x == 'off' and x in extra:
                    o['off'] = 'yes'
                    continue
                raise Bad(l[0], 'unexpected %r' % x)
            if k in o:
                self.unsure = True
                raise Unknown('twice')
            o[k] = v
        return t[:n], o

    def e_r(self, l, ctx):
        t, o = self.fields(l, 4)
        v = need_num(t[3], 'r')
        if v == 0:
            raise Bad('r', 'zero resistance')
        self.add(ctx, 'r', t[0], t[1:3], v)

    def e_c(self, l, ctx):
        t, o = self.fields(l, 4, ('ic',))
        v = need_num(t[3], l[0])
        ic = need_num(o['ic'], l[0]) if 'ic' in o else None
        self.add(ctx, l[0], t[0], t[1:3], v, ic)
        if l[0] == 'l':
            ctx['ind'].add(t[0])

    e_l = e_c

    def e_k(self, l, ctx):
        t, o = self.fields(l, 4)
        k, v = kv(t[3])
        if k not in (None, 'k'):
            raise Bad('k', 'unknown parameter')
        v = need_num(v, 'k')
        for x in t[1:3]:
            if x not in ctx['ind']:
                raise Bad('k', 'no inductor %r' % x)
        if t[1] == t[2]:
            raise Bad('k', 'coupled with itself')
        if abs(v) > 1:
            raise Bad('k', 'coupling factor')
        self.add(ctx, 'k', t[0], [], v)

    def e_v(self, l, ctx):
        c = l[0]
        t = self.toks(l, 3)
        if len(t) < 3:
            raise Bad(c, 'too few fields')
        got, fn, twice = {}, None, False
        i = 3
        while i < len(t):
            k, v = kv(t[i])
            if k == 'type':
                if v in (c + 'dc', c + 'ac'):
                    pass
                elif v not in FN:
                    raise Bad(c, 'unknown function %r' % v)
                elif fn is not None:
                    raise Bad(c, 'two functions')
                else:
                    j = i + 1
                    while j < len(t) and t[j].split('=')[0] not in ('type', 'vdc', 'vac', 'idc', 'iac'):
                        j += 1
                    fn = (v, self.function(c, v, t[i + 1:j]))
                    i = j - 1
            elif k in (c + 'dc', c + 'ac'):
                x = need_num(v, c)
                twice = twice or k in got
                got[k] = x
            else:
                raise Bad(c, 'unexpected %r' % t[i])
            i += 1
        if c + 'dc' not in got and fn is None:
            raise Bad(c, 'no value')
        self.add(ctx, c, t[0], t[1:3], got.get(c + 'dc'), got.get(c + 'ac'), fn)
        if twice:
            raise Unknown('twice')

    e_i = e_v

    def function(self, c, f, toks):
        names = FN[f][0]
        got = {}
        for i, x in enumerate(toks):
            k, v = kv(x)
            if k is None:
                if i >= len(names) or x.count('='):
                    raise Bad(c, 'unexpected %r' % x)
                k = names[i]
            else:
                if c == 'i' and k in ('io', 'ia', 'i1', 'i2'):
                    k = 'v' + k[1:]
                if k not in names:
                    raise Bad(c, 'unknown function parameter %r' % x)
            if k in got:
                raise Bad(c, 'function parameter twice %r' % x)
            got[k] = need_num(v, c)
        lab = [kv(x)[0] is not None for x in toks]
        if any(lab) and not all(lab):
            raise Unknown('mixed parameters')
        if set(names) - set(got) - FN_OPT[f]:
            raise Bad(c, 'missing function parameters')
        return got

    def e_d(self, l, ctx):
        t, o = self.fields(l, 4, ('area', 't', 'ic', 'off'))
        for k, v in o.items():
            values('b' if k == 'off' else 'f', v, 'd')
        self.modelled('d', t[3], ('diode', 'd'))
        self.add(ctx, 'd', t[0], t[1:3])

    def e_m(self, l, ctx):
        t, o = self.fields(l, 6, ('w', 'l', 'm', 'n'))
        for k, v in o.items():
            need_num(v, 'm')
        if 'w' not in o or 'l' not in o:
            raise Bad('m', 'no w or l')
        self.modelled('m', t[5], ('ekv', 'mosq'))
        self.add(ctx, 'm', t[0], t[1:5])
        if num(o['w']) <= 0 or num(o['l']) <= 0 or any(num(o.get(k, '1')) < 1 for k in 'mn'):
            raise Unknown('ranges')

    def modelled(self, c, label, kinds):
        m = self.models.get(label)
        if m is None:
            raise Bad(c, 'unknown model')
        if m[0] not in kinds:
            raise Bad(c, 'model of another device')

    def e_e(self, l, ctx):
        t, o = self.fields(l, 6)
        self.add(ctx, l[0], t[0], t[1:5], need_num(t[5], l[0]))

    e_g = e_e

    def e_f(self, l, ctx):
        t, o = self.fields(l, 5)
        self.add(ctx, l[0], t[0], t[1:3], need_num(t[4], l[0]))

    e_h = e_f

    def e_s(self, l, ctx):
        t, o = self.fields(l, 6)
        self.modelled('s', t[5], ('sw',))
        self.add(ctx, 's', t[0], t[1:5])

    def e_x(self, l, ctx):
        t = self.toks(l, 2)
        if len(t) < 2:
            raise Bad('x', 'too few fields')
        o = {}
        for x in t[1:]:
            k, v = kv(x)
            if k is None:
                raise Bad('x', 'unexpected %r' % x)
            if k in o:
                self.unsure = True
                raise Unknown('twice')
            o[k] = v
        if 'name' not in o:
            raise Bad('x', 'no name')
        lab = o.pop('name')
        if lab not in self.subs:
            raise Bad('x', 'unknown subcircuit')
        ports, body = self.subs[lab]
        if set(o) - set(ports):
            raise Bad('x', 'unknown port')
        if set(ports) - set(o):
            raise Bad('x', 'unconnected port')
        if lab in ctx['depth']:
            raise Bad('x', 'recursive call')
        if '' in o.values() or 'name' in ports:
            raise Unknown('odd port')
        self.flat = False
        inner = {'ind': set(), 'depth': ctx['depth'] + [lab], 'out': []}
        for b in body:
            self.element(b, inner)
        for e in inner['out']:
            ctx['out'].append([e[0], None, None])

    # ------------------------------------------------------------ directives
    def directive(self, l):
        t = l.split()
        d = t[0][1:]
        if d == 'ic':
            t = self.toks(l, 1)
            o = [kv(x) for x in t[1:]]
            for k, v in o:
                if k is None:
                    raise Bad('.ic', 'unexpected %r' % v)
                if k != 'name':
                    need_num(v, '.ic')
            if not [1 for k, v in o if k == 'name']:
                raise Bad('.ic', 'no name')
            raise Unknown('.ic labels')
        if d == 'plot':
            t = self.toks(l, 2)
            if len(t) < 2:
                raise Bad('.plot', 'no analysis')
            if t[1] not in ('tran', 'pss', 'ac', 'dc'):
                raise Bad('.plot', 'unknown analysis')
            if len(t) < 3 or not all(VAR.match(x) for x in t[2:]):
                raise Unknown('variables')
            return
        if d == 'four':
            t = self.toks(l, 2)
            if len(t) < 2:
                raise Bad('.four', 'no frequency')
            need_num(t[1], '.four')
            if len(t) < 3 or not all(VAR.match(x) for x in t[2:]):
                raise Unknown('variables')
            return
        if d == 'fft':
            t = self.toks(l, 2)
            if len(t) < 2:
                raise Bad('.fft', 'no variable')
            seen = set()
            if [x for x in t[2:] if VAR.match(x)]:
                raise Unknown('order')
            un = not VAR.match(t[1])
            for x in t[2:]:
                k, v = kv(x)
                if k is None or k not in FFT:
                    raise Bad('.fft', 'unexpected %r' % x)
                values(FFT[k], v, '.fft')
                un = un or k in seen
                seen.add(k)
            if un or {'format', 'window'} & seen or {'from', 'start'} <= seen or {'to', 'stop'} <= seen or {'alpha', 'alfa'} <= seen:
                raise Unknown('undocumented')
            return
        if d not in AN:
            if d in ('temp',) or d.startswith('ic') or '.' in d:
                raise Unknown('directive')
            raise Bad('.' + d, 'unknown directive')
        params, req, pos = AN[d]
        w = '.' + d
        t = self.toks(l, 1)
        got, mixed, un = {}, False, False
        ps = [kv(x)[0] is None for x in t[1:]]
        if any(ps) and not all(ps) and d != 'pz':
            mixed = True
        for i, x in enumerate(t[1:]):
            k, v = kv(x)
            if k is None:
                if x.count('=') > 1:
                    raise Bad(w, 'malformed %r' % x)
                if i >= len(pos):
                    raise Bad(w, 'unexpected %r' % x)
                got[i] = values(pos[i], x, w) if not mixed else x
            elif k not in params:
                raise Bad(w, 'unknown parameter %r' % x)
            elif k in got:
                if d == 'op':
                    raise Unknown('twice')
                raise Bad(w, 'parameter twice %r' % x)
            else:
                got[k] = values(params[k], v, w)
        if mixed:
            raise Unknown('positional and labelled')
        if ps and all(ps) and req:
            if d not in ('ac',) or len(ps) < 4:
                if len(ps) < {'dc': 4, 'tran': 2, 'pss': 1, 'ac': 4}.get(d, 0):
                    raise Bad(w, 'missing parameters')
            if d != 'ac':
                raise Unknown('positional')
        elif not any(ps):
            for alt in req:
                if not any(a in got for a in alt):
                    raise Bad(w, 'missing %s' % alt[0])
        if d == 'tran' and 'uic' in got:
            if got['uic'] not in (0, 1, 2, 3):
                raise Bad(w, 'unknown uic')
            if got['uic'] == 3 and 'ic_label' not in got:
                raise Bad(w, 'uic=3 without ic_label')
        self.analyses.append((d, {k: v for k, v in got.items() if isinstance(v, float)}))
        if d in ('op', 'pz', 'symbolic') or ('src' in got and 'source' in got) or ('type' in got and 'sweep_type' in got) or ('source' in got and 'input' in got) or \
                {'type', 'sweep_type', 'method', 'autonomous'} & set(got) or 0 in got:
            if d in ('op',) and not got:
                return
            raise Unknown('checked when run')


# ---------------------------------------------------------------- generation
WORDS = ['1k', '2.5', '-3', '0', '1e-6', '4.7u', '1x', '1kk', 'k', '--1', '1.2.3', '1e', 'e3', '0x10', '1,5', 'nan', 'inf', '1_0', '1meg', '3mil', 'abc', '=', 'x=', '=3', 'a=b=c', '*', '* note',
         'ic=1', 'ic=', 'ic=x', 'vdc=1', 'idc=1', 'type=', 'type=sin', 'type=square', 'type=lin', 'k=0.5', 'k=2', 'foo=1', 'area=2', 'area=big', 'off=maybe', 'off', 'w=1u', 'l=', 'm=two',
         'start=a', 'stop=1', 'step=', 'nsteps=ten', 'tstep=fast', 'uic=7', 'uic=3', 'uic=x', 'method=magic', 'name=', 'name=zz', 'guess=yes', 'points=1.5k', 'zeros=perhaps', 'ac=2', 'r1', 'v1', '0',
         '(', ')', 'v(1', 'v(1)=x', 'np=4', 'window=none', 'freq=z', 'nosuchmodel', 'type=q', 'is=-1', 'vto=low', 'von=1', 'autonomous=1', 'sweep_type=oct', '\u00b5', '.end', '"', "'"]


def extra(rng, rows):
    """directives and structure that the decks of C12 do not have"""
    r = list(rows)

    def ins(l):
        r.insert(rng.randint(1, len(r)), l)
    if '.end' in r:
        k = r.index('.end')
        if rng.random() < .7:
            r = r[:k]
    if rng.random() < .35:
        k = rng.randint(0, 2)
        ports = ['p%d' % j for j in range(k + 1)]
        body = ['r1 %s q 1k' % ports[0], 'c1 q 0 1u ic=%g' % rng.randint(0, 3)] + (['l1 q 0 1m', 'l2 %s 0 2m' % ports[-1], 'k1 l1 l2 .5'] if rng.random() < .4 else [])
        defs = [['.subckt blk ' + ' '.join(ports)] + body + ['.ends']]
        if rng.random() < .5:
            defs.append(['.subckt outer a b', 'xin name=blk ' + ' '.join('%s=%s' % (p, rng.choice(['a', 'b', 'c', '0'])) for p in ports), 'rz a b 1k', '.ends'])
            ins('x2 name=outer a=n1 b=0')
        if rng.random() < .1:
            defs.append(['.subckt loopy a', 'xq name=loopy a=a', '.ends'])
            if rng.random() < .7:
                ins('x3 name=loopy a=n1')
        r.append('x1 name=blk ' + ' '.join('%s=%s' % (p, rng.choice(['n1', '1', '0'])) for p in ports))
        for d in defs:
            r += d
    for p, l in ((.15, '.pss period=1m points=%d' % rng.randint(10, 100)), (.1, '.pss period=1m step=10u method=%s' % rng.choice(['shooting', 'brute-force'])),
                 (.15, '.plot %s v(1) v(2,1) i(v1)' % rng.choice(['tran', 'ac', 'dc', 'pss'])), (.15, '.four 1k v(1) i(v1)'),
                 (.15, '.fft v(1) np=512 start=0 stop=1m'), (.1, '.fft v(1,2) freq=1k'), (.1, '.include inc.cir'), (.1, 'r77 1 2 1k'), (.1, '.symbolic ac=1'), (.08, '.ic name=nn v(1)=1'),
                 (.06, 'd77 1 0 m77'), (.06, 'm77 1 2 0 0 m77 w=1u l=1u'), (.06, 's77 1 2 3 0 m77'), (.06, '.model %s m77' % rng.choice(['d', 'sw', 'ekv', 'mosq'])),
                 (.06, '.dc src=v1 start=0 stop=1 step=.1'), (.06, '.ac lin 5 1 1k'), (.06, '.tran tstep=1u tstop=1m method=%s' % rng.choice(['trap', 'gear2', 'implicit_euler'])), (.04, '.pz'),
                 (.04, '.include nothere.cir'), (.04, 'k77 l1 l1 .5'), (.04, '.plot op v(1)'), (.04, '.plot'), (.04, '.four'), (.04, '.fft'), (.04, '.ends'), (.03, '.subckt')):
        if rng.random() < p:
            ins(l)
    return r


def damage(rng, rows, tags):
    """1-3 random edits of the rows"""
    r = list(rows)
    for _ in range(rng.choice([0, 1, 1, 1, 1, 2, 3])):
        if len(r) < 2:
            break
        k = rng.randint(1, len(r) - 1)
        t = r[k].split()
        q = rng.random()
        if q < .2 and t:
            tags.append('drop')
            t.pop(rng.randrange(len(t)))
            r[k] = ' '.join(t)
        elif q < .32 and t:
            tags.append('append')
            t.insert(rng.randint(1, len(t)) if rng.random() < .4 else len(t), rng.choice(WORDS))
            r[k] = ' '.join(t)
        elif q < .55 and t:
            tags.append('replace')
            j = rng.randrange(len(t))
            a, b = kv(t[j])
            w = rng.choice(WORDS)
            t[j] = w if a is None or rng.random() < .3 else ('%s=%s' % (a, w) if rng.random() < .7 else '%s=%s' % (w, b))
            r[k] = ' '.join(t)
        elif q < .62 and len(t) > 2:
            tags.append('swap')
            i, j = rng.randrange(len(t)), rng.randrange(len(t))
            t[i], t[j] = t[j], t[i]
            r[k] = ' '.join(t)
        elif q < .68 and t:
            tags.append('repeat token')
            j = rng.randrange(len(t))
            t.insert(j, t[j])
            r[k] = ' '.join(t)
        elif q < .78 and r[k]:
            tags.append('chars')
            j = rng.randrange(len(r[k]))
            r[k] = r[k][:j] + (rng.choice('=()*+-.,;:_x0 1ke') if rng.random() < .6 else '') + r[k][j + rng.randint(0, 1):]
        elif q < .84:
            tags.append('drop line')
            r.pop(k)
        elif q < .9:
            tags.append('repeat line')
            r.insert(rng.randint(1, len(r)), r[k])
        elif q < .94:
            tags.append('truncate line')
            r[k] = r[k][:rng.randint(0, len(r[k]))]
        elif q < .97 and k > 1:
            tags.append('join')
            r[k] = '+' + r[k]
        else:
            tags.append('truncate file')
            r = r[:k] + [r[k][:rng.randint(0, len(r[k]))]]
    return r


SEM = ['f sense', 'h sense', 'sense resistor', 'dc src', 'dc src kind', 'uic label', 'guess label', 'ic node', 'pz source', 'pz output', 'symbolic tf', 'dc step 0', 'ac points 0', 'ac reversed', 'tran step 0',
       'tran reversed', 'tran negative', 'no ground', 'one element', 'duplicate', 'duplicate mixed case', 'four variable', 'fft variable', 'dc type', 'ac type', 'tran method', 'pss method', 'dc wrong way', 'ac negative', 'ic current']


def gen(rng, i, tier):
    if i % 12 == 11:
        return {'sem': rng.choice(SEM), 'seed': rng.getrandbits(48)}
    tags = []
    if rng.random() < .5:
        rows = ['title'] + small(rng)
    else:
        rows = c12.gen(rng, rng.randrange(10 ** 6), tier)['rows']
    rows = damage(rng, extra(rng, rows), tags)
    return {'rows': rows, 'tags': tags, 'nl': rng.random() < .9}


def small(rng):
    """one or two lines of every kind: a deck to be parsed, not solved"""
    n = lambda: rng.choice(['0', '1', '2', '3', 'a', 'out', 'n1'])
    v = lambda: rng.choice(['1', '1k', '2.5', '4.7u', '1e-3', '3meg', '10n', '-2', '+3', '.5', '2.', '1.5e3', '7p'])
    pos = lambda: rng.choice(['1', '1k', '2.5', '4.7u', '1e-3', '10n', '.5', '2.'])
    L = ['.model d dmod is=1e-14 n=1.1', '.model sw smod vt=1 vh=.1 ron=1 roff=1e6', '.model ekv emod type=n', '.model mosq qmod type=p kp=1e-5 vto=-1']
    E = ['v1 %s %s type=vdc vdc=%s' % (n(), n(), v()), 'l1 1 0 %s' % pos(), 'l2 2 0 %s ic=%s' % (pos(), v())]
    pool = [lambda k: 'r%d %s %s %s' % (k, n(), n(), v()), lambda k: 'c%d %s %s %s%s' % (k, n(), n(), v(), rng.choice(['', ' ic=' + v()])),
            lambda k: 'k%d l1 l2 %s' % (k, rng.choice(['.3', 'k=.9', '-.5', 'k=500m'])), lambda k: 'v%d %s %s %s' % (k + 5, n(), n(), src('v')),
            lambda k: 'i%d %s %s %s' % (k, n(), n(), src('i')), lambda k: 'd%d %s %s dmod%s' % (k, n(), n(), rng.choice(['', ' area=2', ' t=310', ' ic=.6 off=yes', ' off'])),
            lambda k: 'm%d %s %s %s 0 %s w=1u l=2u%s' % (k, n(), n(), n(), rng.choice(['emod', 'qmod']), rng.choice(['', ' m=2', ' n=3 m=1'])),
            lambda k: 'e%d %s %s %s %s %s' % (k, n(), n(), n(), n(), v()), lambda k: 'g%d %s %s %s %s %s' % (k, n(), n(), n(), n(), v()),
            lambda k: 'f%d %s %s v1 %s' % (k, n(), n(), v()), lambda k: 'h%d %s %s v1 %s' % (k, n(), n(), v()), lambda k: 's%d %s %s %s %s smod' % (k, n(), n(), n(), n())]

    def src(c):
        fn = {'sin': 'type=sin %so=1 %sa=2 freq=1k' % (c, c), 'pos': 'type=sin 0 1 1k 0 0 45', 'pulse': 'type=pulse %s1=0 %s2=5 td=1n tr=1n tf=1n pw=1u per=3u' % (c, c),
              'exp': 'type=exp %s1=0 %s2=1 td1=1n tau1=5n td2=10n tau2=5n' % (c, c), 'sffm': 'type=sffm 0 1 1k 2 100', 'am': 'type=am sa=1 oc=1 fm=100 fc=1k td=0'}
        p = []
        if rng.random() < .6:
            p.append(rng.choice(['', 'type=%sdc ' % c]) + '%sdc=%s' % (c, v()))
        if rng.random() < .3:
            p.append('type=%sac %sac=1' % (c, c))
        if rng.random() < .6 or not [x for x in p if 'dc=' in x]:
            p.append(fn[rng.choice(sorted(fn))])
        return ' '.join(p)
    for k in range(rng.randint(2, 7)):
        E.append(rng.choice(pool)(k))
    A = ['.op', '.op guess=ic1', '.dc src=v1 start=0 stop=5 step=.1 type=lin', '.dc src=v1 start=1m stop=5 step=2 type=log', '.ac lin 10 1 1k', '.ac start=1 stop=1k nsteps=10 sweep_type=log',
         '.tran tstep=1u tstop=1m', '.tran tstep=1u tstop=1m tstart=0 uic=1 method=gear2', '.tran tstep=1u tstop=1m uic=3 ic_label=ic1', '.pss period=1m points=20', '.pz', '.pz output=v(1) source=v1 shift=0',
         '.symbolic', '.symbolic tf=v1 ac=1', '.plot tran v(1) v(2,1)', '.four 1k v(1)', '.fft v(1) np=64', '.ic name=ic1 v(1)=1 i(v1)=2m']
    return L + E + ['.ic name=ic1 v(1)=1'] + [rng.choice(A) for _ in range(rng.randint(1, 4))]


# ------------------------------------------------------------------------ run
@contextlib.contextmanager
def captured(buf):
    with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
        yield


def run(case, mon):
    if 'sem' in case:
        return semantic(case, mon)
    from ahkab import netlist_parser as P, utilities
    rows = case['rows']
    d = sim.outname('c14')
    os.makedirs(d)
    try:
        with open(os.path.join(d, 'inc.cir'), 'w') as f:
            f.write('rinc 1 0 1k\n')
        fn = os.path.join(d, 'deck.cir')
        with open(fn, 'w', encoding='utf-8') as f:
            f.write('\n'.join(rows) + ('\n' if case['nl'] else ''))
        J = Judge(rows, exists={'inc.cir'})
        mon.data = {'deck': rows, 'verdict': J.verdict, 'bad': J.bad[:5], 'unknown': J.unknown[:5]}
        buf = io.StringIO()
        err = circ = ans = None
        dup = False
        try:
            with captured(buf):
                circ, direc, post = P.parse_circuit(fn)
                ok, why = utilities.check_circuit(circ)
                dup = 'duplicate' in why
                P.parse_ics(direc)
                ans = P.parse_analysis(circ, direc)
                P.parse_postproc(circ, post)
        except P.NetlistParseError as e:
            err = e
    finally:
        shutil.rmtree(d, ignore_errors=True)
    kind = J.bad[0][0] if J.bad else '-'
    mon.event('verdict:' + J.verdict)
    mon.event('refused' if err else 'accepted')
    mon.seen('%s|%s|%s' % (kind, ','.join(sorted(set(case['tags']))), J.verdict))
    if J.verdict == 'bad':
        mon.event('bad:' + kind)
        if not mon.check(err is not None, 'accepted', lambda: 'malformed deck accepted: %s' % (J.bad[:3],)):
            return
    elif J.verdict == 'ok':
        if not mon.check(err is None, 'refused', lambda: 'legal deck refused: %s %s' % (err, buf.getvalue()[-300:])):
            return
        mon.check(not J.flat or not (ok or dup) or dup == J.dups, 'duplicates', lambda: 'duplicate names %s reported as %s' % (J.dups, dup))
        compare(J, circ, ans, mon)
    if err is not None:
        txt = (str(err) + ' ' + buf.getvalue()).lower()
        mon.check(len(str(err).strip()) > 0, 'no reason', lambda: 'the parse error has no message; printed %r' % buf.getvalue()[-200:])
        if J.verdict == 'bad' and not J.partial and not J.unknown:
            names = set()
            for what, why in J.bad:
                m = re.search(r" in '(.*)'$", why) or re.search(r' in "(.*)"$', why)
                names |= set(x for x in (m.group(1).split() if m else [what]) if len(x) > 1)
                names |= {"ends"} if what == ".subckt" else set()
                names |= {what.lstrip('.')} if len(what) > 1 else {what}
            mon.check(not names or any(n in txt for n in names) or any(b[0] == '.' for b in J.bad), 'unnamed', lambda: 'the diagnostic %r does not point at %s' % (txt[-300:], J.bad[:2]))
        else:
            mon.ok('refusal of an undocumented deck')


CLS = {'r': 'Resistor', 'c': 'Capacitor', 'l': 'Inductor', 'k': 'InductorCoupling', 'v': 'VSource', 'i': 'ISource', 'e': 'EVSource', 'g': 'GISource', 'f': 'FISource', 'h': 'HVSource', 'd': 'diode',
       'm': None, 's': 'switch_device'}


def compare(J, circ, ans, mon):
    els = [e for e in circ]
    if not mon.check(len(els) == len(J.elements), 'elements', lambda: '%d elements written, %d parsed' % (len(J.elements), len(els))):
        return
    mon.check(len(circ.models or {}) == len(J.models), 'models', lambda: 'models %s, parsed %s' % (sorted(J.models), sorted(circ.models)))
    nn = circ.nodes_dict
    if J.flat:
        mon.event('elements compared')
        for w, e in zip(J.elements, els):
            t, pid, nodes = w[:3]
            good = e.part_id.lower() == pid
            if t != 'k':
                names = [e.n1, e.n2] if t != 'm' else [e.n1, e.ng, e.n2, e.nb]
                if t in 'egs':
                    names += [e.sn1, e.sn2]
                good = good and [str(nn[n]) for n in names] == nodes
            val = w[3] if len(w) > 3 else None
            if t in 'rcleghf':
                got = getattr(e, 'value', getattr(e, 'alpha', None))
                if got is not None:
                    good = good and abs(got - val) <= 1e-12 * abs(val)
            if t in 'cl':
                good = good and (e.ic is None) == (w[4] is None) and (w[4] is None or abs(e.ic - w[4]) <= 1e-12 * abs(w[4]))
            if t in 'vi' and val is not None:
                good = good and abs(e.dc_value - val) <= 1e-12 * abs(val)
            if t in 'vi' and w[4] is not None:
                good = good and abs(abs(e.abs_ac if e.abs_ac is not None else 0. if w[4] == 0 else 1e99) - abs(w[4])) <= 1e-9 * abs(w[4])
            if t in 'vi':
                good = good and e.is_timedependent == (w[5] is not None)
            if not mon.check(good, 'misread', lambda: 'written %s, parsed %s (%s)' % (w, e, type(e).__name__)):
                return
    mon.check([a['type'] for a in ans] == [a[0] for a in J.analyses], 'analyses', lambda: 'analyses %s, parsed %s' % (J.analyses, ans))
    for a, (d, p) in zip(ans, J.analyses):
        have = [v for v in a.values() if isinstance(v, (int, float)) and not isinstance(v, bool)]
        for k, v in p.items():
            if k in ('uic',):
                continue
            mon.check(any(abs(v - h) <= 1e-12 * abs(v) for h in have), 'parameter', lambda: '%s %s=%g parsed as %s' % (d, k, v, a))


# ------------------------------------------------------------------- semantic
def semantic(case, mon):
    rng = random.Random(case['seed'])
    k = case['sem']
    v = lambda: '%g' % rng.choice([1, 2.5, 5, 12])
    base = ['v1 1 0 type=vdc vdc=%s type=vac vac=1' % v(), 'r1 1 2 %gk' % rng.choice([1, 2, 4.7]), 'r2 2 0 %gk' % rng.choice([1, 3, 10]), 'c1 2 0 1u']
    if rng.random() < .5:
        base += ['r3 2 3 1k', 'l1 3 0 1m']
    if rng.random() < .3:
        base += ['e1 4 0 2 0 %s' % v(), 'r4 4 0 1k']
    miss = rng.choice(['vx9', 'vmissing', 'v77'])
    an = ['.op']
    bad = None            # the analysis that must not produce results
    name = miss
    if k == 'f sense':
        base += ['f1 2 0 %s 2' % miss]
        an, bad = rng.choice([(['.op'], 'op'), (['.op', '.ac lin 3 1 10'], 'ac'), (['.tran tstep=1u tstop=10u'], 'tran')])
    elif k == 'h sense':
        base += ['h1 5 0 %s 2' % miss, 'r5 5 0 1k']
        an, bad = rng.choice([(['.op'], 'op'), (['.op', '.ac lin 3 1 10'], 'ac'), (['.tran tstep=1u tstop=10u'], 'tran')])
    elif k == 'sense resistor':
        name = rng.choice(['r1', 'c1'])
        base += ['f1 2 0 %s 2' % name] if rng.random() < .5 else ['h1 5 0 %s 2' % name, 'r5 5 0 1k']
        bad = 'op'
    elif k == 'dc src':
        an, bad = ['.dc src=%s start=0 stop=1 step=.5' % miss], 'dc'
    elif k == 'dc src kind':
        name = rng.choice(['r1', 'c1'])
        an, bad = ['.dc src=%s start=0 stop=1 step=.5' % name], 'dc'
    elif k == 'uic label':
        name = 'nolabel'
        an, bad = ['.tran tstep=1u tstop=10u uic=3 ic_label=nolabel'], 'tran'
        if rng.random() < .5:
            an.insert(0, '.ic name=other v(1)=1')
    elif k == 'guess label':
        name = 'nolabel'
        an, bad = ['.op guess=nolabel'], 'op'
    elif k == 'ic node':
        name = 'zz7'
        an, bad = ['.ic name=a v(zz7)=1', '.tran tstep=1u tstop=10u uic=3 ic_label=a'], 'tran'
    elif k == 'ic current':
        name = rng.choice(['r1', 'vq7'])
        an, bad = ['.ic name=a i(%s)=1' % name, '.tran tstep=1u tstop=10u uic=3 ic_label=a'], 'tran'
    elif k == 'pz source':
        an, bad = ['.op', '.pz output=v(2) source=%s' % miss], 'pz'
    elif k == 'pz output':
        name = 'zz7'
        an, bad = ['.op', '.pz output=v(zz7) source=v1'], 'pz'
    elif k == 'symbolic tf':
        an, bad = ['.symbolic tf=%s ac=0' % miss], 'symbolic'
    elif k == 'dc step 0':
        name, an, bad = None, ['.dc src=v1 start=0 stop=1 step=0'], 'dc'
    elif k in ('dc type', 'ac type', 'tran method', 'pss method'):
        name = 'oddity'
        bad = k.split()[0]
        an = ['.op', {'dc': '.dc src=v1 start=0 stop=1 step=.1 type=oddity', 'ac': rng.choice(['.ac oddity 5 1 10', '.ac type=oddity nsteps=5 start=1 stop=10']),
                      'tran': '.tran tstep=1u tstop=10u method=oddity', 'pss': '.pss period=1m points=20 method=oddity'}[bad]]
    elif k == 'dc wrong way':
        name, an, bad = None, ['.dc src=v1 start=0 stop=1 step=-.1'], 'dc'
    elif k == 'ac points 0':
        name, an, bad = None, ['.op', '.ac %s %d 1 1k' % (rng.choice(['lin', 'log']), rng.choice([0, -3]))], 'ac'
    elif k == 'ac reversed':
        name, an, bad = None, ['.op', '.ac %s 10 1k 1' % rng.choice(['lin', 'log'])], 'ac'
    elif k == 'ac negative':
        name, an, bad = None, ['.op', '.ac log 10 -10 1k'], 'ac'
    elif k == 'tran step 0':
        name, an, bad = None, ['.tran tstep=0 tstop=1m'], 'tran'
    elif k == 'tran negative':
        name, an, bad = None, ['.tran tstep=-1u tstop=1m'], 'tran'
    elif k == 'tran reversed':
        name, an, bad = None, ['.tran tstep=1u tstart=1m tstop=.5m'], 'tran'
    elif k == 'no ground':
        name, bad = 'ref', 'op'
        base = ['v1 1 gnd type=vdc vdc=1', 'r1 1 2 1k', 'r2 2 gnd 1k']
    elif k == 'one element':
        name, bad = 'element', 'op'
        base = ['r1 1 0 1k']
    elif k == 'duplicate':
        name, bad = 'duplicate', 'op'
        base.append(rng.choice(['r1 2 0 3k', 'c1 1 0 1n']))
    elif k == 'duplicate mixed case':
        name, bad = 'duplicate', 'op'
        base.append('R1 2 0 3k')
    elif k == 'four variable':
        name, bad = 'nope', None
        an = ['.tran tstep=1u tstop=100u', '.four 100k v(nope)']
    elif k == 'fft variable':
        name, bad = 'nope', None
        an = ['.tran tstep=1u tstop=100u', '.fft v(nope) np=64']
    rng.shuffle(base)
    deck = ['t'] + base + an
    d = sim.outname('c14s')
    os.makedirs(d)
    A = sim.api()
    buf = io.StringIO()
    out = res = None
    try:
        fn = os.path.join(d, 'deck.cir')
        with open(fn, 'w') as f:
            f.write('\n'.join(deck) + '\n')
        mon.data = {'deck': deck, 'kind': k}
        try:
            with captured(buf):
                res = A.main(fn, outfile=os.path.join(d, 'o'), verbose=0)
        except SystemExit as e:
            out = 'exit %s' % e.code
            mon.check(e.code not in (0, None), 'exit 0', lambda: '%s: exits with status 0' % k)
        except Exception as e:
            out = '%s: %s' % (type(e).__name__, e)
            mon.check(not isinstance(e, (KeyError, IndexError, TypeError, AttributeError, ZeroDivisionError, NameError, RecursionError, AssertionError)), 'internal error',
                      lambda: '%s escapes as %s' % (k, out))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    mon.event('semantic')
    mon.seen('semantic|' + k)
    txt = (buf.getvalue() + ' ' + str(out)).lower()
    if bad is not None:
        if not mon.check(out is not None or res is None or res.get(bad) is None, 'answered', lambda: '%s: results are returned for %s' % (k, deck)):
            return
    else:
        mon.check(out is not None or 'error' in txt or 'unknown' in txt, 'answered', lambda: '%s: nothing reported' % k)
    mon.check(name is None or name in txt, 'unnamed', lambda: '%s: %r does not mention %s' % (k, txt[-300:], name))
    mon.check(len(txt.strip()) > 6 or out is not None, 'silent', lambda: '%s: failure without a message' % k)
