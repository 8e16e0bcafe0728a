#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import LIST
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIST.sort(key=lambda p: p['id'])
with open(V + '/properties.jsonl', 'w') as f:
    for p in LIST:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
def bound(r):
    b = r['bounds']
    return r['entry'] + ': ' + (b[0] if isinstance(b, (list, tuple)) else b)
m = dict(version=1, setup_cmd='bash engine/build.sh >/dev/null 2>&1; true', checks=[
    dict(property=p['id'], quick_cmd='python3 tools/check.py %s --tier quick' % p['id'], thorough_cmd='python3 tools/check.py %s --tier thorough' % p['id'],
         technique='bounded symbolic execution of the compiled (LLVM) code with Z3, counterexamples replayed on the compiled code',
         level='model_checking', level_note='Holds for every input, choice and schedule within the bounds when the evidence says exhaustive. Bounds: ' + '; '.join(bound(r) for r in p['runs']) + '. ' + ' '.join(p['assumptions']) + (' ' + p['note'] if p['note'] else '') + ' Trusted: the engine, clang -O1 lowering, Z3, and the stand-ins for the C library file functions, logging and codecs (DESIGN.md).')
    for p in LIST if p['runs']],
    not_applicable=[dict(property=p['id'], reason=p['na'] or 'no check yet') for p in LIST if not p['runs']])
with open(V + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
print(len(m['checks']), 'checks', len(m['not_applicable']), 'not applicable')
# DESIGN.md
import glob
out = []
for p in LIST:
    out.append('### %s %s\n' % (p['id'], p['title']))
    out.append(p['statement'] + ' (' + p['quantifier']['text'] + ')\n')
    if not p['runs']:
        out.append('Not applicable: %s\n' % (p['na'] or 'no check yet'))
    for r in p['runs']:
        b = r['bounds']
        b = b if isinstance(b, str) else b[0] + (' / thorough: ' + b[1] if b[1] != b[0] else '')
        out.append('* `harness/%s` `%s`: %s' % (r['file'], r['entry'], b))
    if p['assumptions']:
        out.append('* Assumes: ' + '; '.join(p['assumptions']))
    if p['note']:
        out.append('* ' + p['note'])
    out.append('')
kf = json.load(open(V + '/known_findings.json'))
fixes = ['* ' + f for f in kf['fixed']] + ['* known, not repaired: %s: %s' % (k['property'], k['what']) for k in kf['known']]
res = json.load(open(V + '/tools/seeds.json')) if os.path.exists(V + '/tools/seeds.json') else {}
seeds = []
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i = m.split('/')[-2]
    d = json.load(open(m))
    seeds.append('* `%s` (%s): %s. Needs: %s. %s' % (i, d['property'], d['what_it_breaks'], d['needs'], res.get(i, 'Not tried yet.')))
t = open(V + '/tools/DESIGN.in.md').read().replace('@@PROPS@@', '\n'.join(['## Properties\n'] + out)).replace('@@FIXES@@', '\n'.join(fixes)).replace('@@SEEDS@@', '\n'.join(seeds))
open(V + '/DESIGN.md', 'w').write(t)
