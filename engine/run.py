#!/usr/bin/env python3
"""usage: run.py <property id> [quick|thorough]   decide one property on /repo's current tree"""
import fcntl
import hashlib
import json
import os
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('RUQ_REPO', '/repo')
WORK = os.environ.get('RUQ_WORK', os.path.join(VERIF, '.work'))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
T0 = time.time()
DEADLINE = 800


class BuildError(Exception):
    pass


def sh(cmd, env=None, cwd=None, timeout=600):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=timeout)
    return p.returncode, p.stdout


def driver():
    out = os.path.join(WORK, 'driver')
    exe = os.path.join(out, 'debug', 'mirdump')
    env = dict(os.environ, CARGO_TARGET_DIR=out, CARGO_NET_OFFLINE='true')
    env.pop('RUSTC_WORKSPACE_WRAPPER', None)
    rc, o = sh(['cargo', '+nightly', 'build', '--offline', '-q'], env=env, cwd=os.path.join(VERIF, 'driver'))
    if rc or not os.path.exists(exe):
        raise BuildError('building the MIR dumper failed:\n' + o[-3000:])
    return exe


def treehash():
    h = hashlib.sha256()
    for root, ds, fs in sorted(os.walk(os.path.join(REPO, 'src'))):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(root, f)
            h.update(p.encode() + b'\0')
            h.update(open(p, 'rb').read())
    h.update(open(os.path.join(REPO, 'Cargo.toml'), 'rb').read())
    return h.hexdigest()


def dump():
    """compile /repo's current tree to the MIR dump; always rebuilt by the compiler when a source changed"""
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = driver()
        tgt = os.path.join(WORK, 'target')
        path = os.path.join(WORK, 'dump.json')
        stamp = os.path.join(WORK, 'stamp')
        drv = hashlib.sha256(open(exe, 'rb').read()).hexdigest()
        want = treehash() + ' ' + drv
        if os.path.exists(path) and os.path.exists(stamp) and open(stamp).read() == want:
            return path
        if os.path.exists(path):
            os.remove(path)
        rc, sysroot = sh(['rustc', '+nightly', '--print', 'sysroot'])
        env = dict(os.environ, CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0',
                   MIRDUMP_CRATE='ruq', MIRDUMP_OUT=path, RUSTC_WORKSPACE_WRAPPER=exe,
                   LD_LIBRARY_PATH=os.path.join(sysroot.strip(), 'lib'))
        lock = os.path.join(REPO, 'Cargo.lock')
        had = os.path.exists(lock)
        if not had and os.path.exists('/opt/vp/Cargo.lock'):
            import shutil
            shutil.copy('/opt/vp/Cargo.lock', lock)
        rc, o = sh(['cargo', '+nightly', 'rustc', '--offline', '--lib', '--profile', 'check', '--',
                    '-Cmetadata=' + hashlib.sha256((want + str(time.time())).encode()).hexdigest()[:16]], env=env, cwd=REPO)
        if rc or not os.path.exists(path):
            raise BuildError('compiling %s failed:\n%s' % (REPO, o[-4000:]))
        with open(stamp, 'w') as f:
            f.write(want)
        return path


def known_findings():
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip('\n')
            if l.startswith('finding: property='):
                rest = l[len('finding: property='):]
                pid, what = rest.split(' ', 1)
                out.setdefault(pid, set()).add(what.strip())
    return out


class Deadline(BaseException):
    pass


EARLY = 120      # from then on a violation that was found ends the run; the rest of the code is not looked at


def main():
    pid = sys.argv[1]
    if pid == '--setup':
        dump()
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        path = dump()
    except (BuildError, subprocess.TimeoutExpired) as e:
        print('ERROR property=%s cannot analyse: %s' % (pid, e))
        return 2
    import checks

    known = known_findings().get(pid, set())
    from decodecheck import Violation

    def alarm(*a):
        left = DEADLINE - (time.time() - T0)
        if left <= 1 or any(v.prop == pid and v.key not in known for v in Violation.made):
            raise Deadline()
        signal.alarm(max(1, min(30, int(left))))
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(max(1, min(EARLY, int(DEADLINE - (time.time() - T0)))))
    res = checks.Result(pid)
    try:
        from interp import Program
        P = Program(path)
        checks.run(pid, P, tier, res)
    except Deadline:
        res.viol += [v for v in Violation.made if v.prop == pid]
        res.undecided.append('time limit reached')
    except Exception as e:       # an analyser failure is not a verdict about the code
        res.undecided.append('analyser failure: %s: %s' % (type(e).__name__, e))
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
    signal.alarm(0)
    seen = {}
    for v in res.viol:
        seen.setdefault((v.where, v.key), v)
    news, old = [], []
    for v in seen.values():
        (old if v.key in known else news).append(v)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    und = sorted(set(res.undecided))
    ob, di = res.obligations
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': ob + len(und), 'discharged': di,
            'checker_cmd': 'python3 engine/run.py %s %s' % (pid, tier),
            'trusted_base': res.trusted, 'rule': res.rule,
            'analysed': res.analysed, 'counts': res.counts,
            'undecided': und[:50],
            'known_findings': sorted(set(v.key for v in old)),
            'violations': [{'where': v.where, 'what': v.what} for v in news][:50],
            'samples': res.samples[:20],
        },
        'assumptions': res.assumptions,
        'wall_s': round(time.time() - T0, 2),
        'violations': len(news),
    }
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for w in sorted(set(v.key for v in old)):
        print('KNOWN-FINDING: property=%s %s' % (pid, w))
    for u in und[:20]:
        print('UNDECIDED property=%s %s' % (pid, u[:600]))
    print('property=%s obligations=%d discharged=%d undecided=%d violations=%d wall=%.1fs' % (
        pid, ob + len(und), di, len(und), len(news), time.time() - T0))
    if news:
        rp = os.path.join(VERIF, 'evidence', pid + '.violation.txt')
        with open(rp, 'w') as f:
            for v in news:
                f.write('where: %s\nwhat: %s\npath condition: %s\n\n' % (v.where, v.what, v.detail))
        for v in news[:20]:
            print('  %s: %s' % (v.where, v.what))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
