#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.head.md, the properties (tools/props.py), the rule table of the
checker (bin/checker -rules), seeded/*/meta.json and tools/seeds.caught (written by seed.py)."""
import os, json, subprocess, glob, importlib.util, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(ROOT)
src = open('tools/props.py').read()
ns = {'__file__': ROOT+'/tools/props.py', '__name__': 'x'}
exec(compile(src.split('# ---- output')[0] if '# ---- output' in src else src, 'props', 'exec'), ns)
P = ns['P']
rules = [l.split('\t') for l in subprocess.run(['bin/checker', '-rules'], capture_output=True, text=True).stdout.splitlines() if '\t' in l]
m = json.load(open('MANIFEST.json'))
na = {x['property']: x['reason'] for x in m.get('not_applicable', [])}
head, tail = open('tools/design.head.md').read().split('<!--PROPERTIES-->')
o = [head]
for p in P:
    if p['id'] in na: continue
    o.append('### %s %s\n' % (p['id'], p['title']))
    o.append('Quantifies over: %s. Tests cannot settle it: %s\n' % (p['qtext'].rstrip('.'), p['why']))
    o.append('Decided by: %s. Bound and assumption: %s.\n' % (p['tech'].replace('static analysis: ', ''), p['note'].rstrip('.')))
    o.append('Rules (the first property named owns the rule, the others use it as a necessary condition):\n')
    for r in rules:
        if p['id'] in r[1].split():
            o.append('- `%s`%s: %s' % (r[0], '' if r[1].split()[0] == p['id'] else ' (with %s)' % r[1].split()[0], r[2]))
    o.append('')
o.append('## Not applicable\n')
for k in sorted(na):
    t = next((p['title'] for p in P if p['id'] == k), '')
    o.append('- **%s** %s: %s' % (k, t, na[k]))
o.append('')
o.append(tail)
o.append('\n## Planted bugs (seeded/) and the rules which report them\n')
caught = json.load(open('tools/seeds.caught')) if os.path.exists('tools/seeds.caught') else {}
for f in sorted(glob.glob('seeded/*/meta.json')):
    d = json.load(open(f)); i = f.split('/')[1]
    o.append('- `%s` (%s) %s. Needs: %s. Reported by: %s' % (i, d['property'], d['what_it_breaks'], d['needs'], caught.get(i, 'nothing') or 'nothing'))
open('DESIGN.md', 'w').write('\n'.join(o)+'\n')
