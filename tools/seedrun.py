#!/usr/bin/env python3
"""seedrun.py [seed ids...]  run each seed's check (or, with --all, every claimed check) against a patched scratch copy"""
import json, os, subprocess, sys
V = os.path.abspath(os.path.join(os.path.dirname(__file__), '..'))
SCR = '/tmp/seedscratch'
args = [a for a in sys.argv[1:] if not a.startswith('--')]
claimed = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
env = dict(os.environ, RUQ_REPO=SCR, RUQ_WORK='/tmp/seedwork')
def sh(c): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, cwd=V)
if not os.path.exists(SCR):
    subprocess.check_call(['cp', '-a', '/repo', SCR])
sh('cd %s && git checkout -q -- . && git fetch -q /repo HEAD && git checkout -q --detach FETCH_HEAD' % SCR)
for s in args or sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, s)))
    r = sh('cd %s && git apply %s/seeded/%s/patch.diff' % (SCR, V, s))
    if r.returncode: print(s, 'DOES NOT APPLY'); continue
    out = []
    for p in (claimed if '--all' in sys.argv else [m['property']]):
        if p not in claimed: out.append(p + ':unclaimed'); continue
        r = sh('python3 engine/run.py %s quick' % p)
        tag = {0: 'miss', 1: 'CAUGHT'}.get(r.returncode, 'ERR%d' % r.returncode)
        if r.returncode == 0 and 'UNDECIDED' in r.stdout: tag = 'miss+undecided'
        out.append('%s:%s' % (p, tag))
        if '-v' in sys.argv[1:] or '--v' in sys.argv: print(r.stdout[:1500])
    print(s, m['property'], ' '.join(out), flush=True)
    sh('cd %s && git checkout -q -- .' % SCR)
