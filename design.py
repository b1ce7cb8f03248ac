#!/usr/bin/env python3
"""writes DESIGN.md from design.in.md, pvc/props.py, known_findings.json and the planted bugs' results (development tool, not a check)"""
import sys, os, json
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, H + '/pvc')
from props import PROPS, NA, TRUSTED
P = []
for l in open(H + '/properties.jsonl'):
    d = json.loads(l); i = d['id']
    if i in PROPS:
        p = PROPS[i]
        P.append('**%s %s** — %s, technique: %s.  %s%s' % (i, d['title'], p['level'], p['technique'], p['note'] + '.', ('  ' + p['design']) if p.get('design') else ''))
    else: P.append('**%s %s** — not applicable: %s.' % (i, d['title'], NA[i]))
kf = json.load(open(H + '/known_findings.json'))
fx = '\n'.join('* ' + f[7:] for f in kf['fixed'])
if kf['findings']: fx += '\n\nKnown findings (not repaired):\n' + '\n'.join('* %s: %s' % (f['property'], f['what']) for f in kf['findings'])
S = []
res = json.load(open(H + '/seed_results.json')) if os.path.exists(H + '/seed_results.json') else {}
for s in sorted(os.listdir(H + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (H, s)))
    S.append('| %s | %s | %s | %s |' % (s, m['property'], m['what_it_breaks'].replace('|', '/').replace('\n', ' ')[:160], res.get(s, 'not run')))
S = '| change | property | what it breaks | result |\n|---|---|---|---|\n' + '\n'.join(S)
t = open(H + '/design.in.md').read()
for k, v in (('@@PROPS@@', '\n\n'.join(P)), ('@@FIXES@@', fx), ('@@SEEDS@@', S), ('@@TRUST@@', '\n'.join('* ' + x for x in TRUSTED))): t = t.replace(k, v)
open(H + '/DESIGN.md', 'w').write(t)
