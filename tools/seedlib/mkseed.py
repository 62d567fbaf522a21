#!/usr/bin/env python3
"""mkseed.py SPEC.py...   build /verif/seeded/<id>/ from a spec and confirm it in a scratch copy.
A spec sets ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], MAIN (rust source of main.rs)."""
import json, os, shutil, subprocess, sys
LIB = os.path.dirname(os.path.abspath(__file__))
SEED = os.path.abspath(os.path.join(LIB, '..', '..', 'seeded'))
SCR = '/tmp/seedscratch'
def run(cmd, cwd, env=None):
    p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    return p.returncode, p.stdout
def scratch():
    if not os.path.exists(SCR):
        subprocess.check_call(['cp', '-a', '/repo', SCR])
    subprocess.check_call('git checkout -q -- . && git clean -fdq src && git fetch -q /repo HEAD && git checkout -q --detach FETCH_HEAD', shell=True, cwd=SCR)
def one(spec):
    g = {}
    exec(open(spec).read(), g)
    d = os.path.join(SEED, g['ID'])
    os.makedirs(d, exist_ok=True)
    scratch()
    base = subprocess.check_output(['git', 'log', '--format=%H', '--reverse'], cwd='/repo', text=True).split()[0]
    for f, old, new in g['EDITS']:
        p = os.path.join(SCR, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(g['ID'], 'EDIT matches', s.count(old), 'times:', f, repr(old[:60])); return False
        orig = subprocess.run(['git', 'show', '%s:%s' % (base, f)], cwd='/repo', stdout=subprocess.PIPE, text=True).stdout
        if old not in orig:
            print(g['ID'], 'note: old text not in the base commit (%s)' % f)
        open(p, 'w').write(s.replace(old, new))
    rc, diff = run('git diff', SCR)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    json.dump({'property': g['PROP'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    for f in ('demo.sh', 'h.rs'):
        shutil.copy(os.path.join(LIB, f), os.path.join(d, f))
    shutil.copy(os.path.join(LIB, 'Cargo.toml'), os.path.join(d, 'Cargo.toml.txt'))
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    open(os.path.join(d, 'main.rs'), 'w').write(g['MAIN'])
    rc, o = run('CARGO_NET_OFFLINE=true cargo test --workspace --offline 2>&1 | grep -E "^test result|FAILED|^error|panicked"', SCR)
    tests = 'FAILED' not in o and 'error' not in o and 'test result' in o
    rc1, o1 = run('bash %s/demo.sh' % d, SCR)
    run('git checkout -q -- .', SCR)
    rc0, o0 = run('bash %s/demo.sh' % d, SCR)
    ok = tests and rc1 not in (0, 3) and rc0 == 0
    print(g['ID'], 'OK' if ok else 'BAD', 'tests', tests, 'patched rc', rc1, 'clean rc', rc0)
    if not ok:
        print(o, '\n--patched\n', o1[-1500:], '\n--clean\n', o0[-1500:])
    return ok
for s in sys.argv[1:]:
    one(s)
