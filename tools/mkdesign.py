"""Writes DESIGN.md: head, one section per property (from properties, claims and the check modules), tail."""
import os, sys, json, importlib
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [here, '/repo', here + '/tools']
os.chdir(here)
from claims import CLAIMS
rd = lambda n: open(os.path.join(here, 'tools', n)).read()
out = [rd('design_head.md')]
for line in open('properties.jsonl'):
    p = json.loads(line)
    c = importlib.import_module('vf.checks.' + p['id'].lower())
    a = ['### %s - %s' % (p['id'], p['title']), '',
         '*Decided by* ' + CLAIMS[p['id']][0] + '.', '',
         '*Workload and oracle:* ' + ' '.join(c.RULE.split()) + '.', '']
    ass = list(getattr(c, 'ASSUMPTIONS', []))
    if ass:
        a += ['*Taken as given:* ' + '; '.join(ass) + '.', '']
    need = list(getattr(c, 'NEED', []))
    a += ['*Bounds:* %d cases quick, %d thorough; at least %d / %d judged evaluations%s.'
          % (c.CASES['quick'], c.CASES['thorough'], c.MIN_OK['quick'], c.MIN_OK['thorough'],
             (', and each of: ' + ', '.join(need)) if need else ''), '',
          '*Why tests do not settle it:* ' + p['why_tests_cant'], '']
    out.append('\n'.join(a))
out.append(rd('design_tail.md'))
if os.path.exists('tools/design_seeds.md'):
    out.append(rd('design_seeds.md'))
open('DESIGN.md', 'w').write('\n'.join(out))
