#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and a seedrun log"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = {}
for l in open(sys.argv[1]):
    w = l.split()
    log[w[0]] = ' '.join(w[2:])
rows = ['| bug | needs | checks |', '|-----|-------|--------|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    r = log.get(d, '?').replace('CAUGHT', 'caught').replace('miss+undecided', 'undecided')
    rows.append('| %s | %s | %s |' % (d, m['needs'].strip().replace('|', '/'), r))
t = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
s = open(V + '/DESIGN.md').read()
s = s.replace('SEEDTABLE', t) if 'SEEDTABLE' in s else re.sub('<!-- seeds -->.*?<!-- /seeds -->', lambda m: t, s, flags=re.S)
open(V + '/DESIGN.md', 'w').write(s)
