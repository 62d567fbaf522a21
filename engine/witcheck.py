"""C25: programs that must compile, programs that must not, and what the crate exports."""
import json
import os
import re
import shutil
import subprocess
from decodecheck import Violation

HERE = os.path.dirname(os.path.abspath(__file__))
# errors that say a bound or a lifetime does not hold (E0277, 0282.. are bounds; the others borrow errors)
BOUND = {'E0277', 'E0310', 'E0309', 'E0311', 'E0597', 'E0716', 'E0515', 'E0521', 'E0505', 'E0506', 'E0373', 'E0271',
         'E0759', 'E0621', 'E0700', 'E0382'}
# errors that say the thing is out of reach
REACH = {'E0603', 'E0432', 'E0433', 'E0412', 'E0425', 'E0451', 'E0616', 'E0609', 'E0610', 'E0599', 'E0624', 'E0423',
         'E0560', 'E0639', 'E0365', 'E0364'}
TOML = '''[package]
name = "witness"
version = "0.0.0"
edition = "2018"

[dependencies]
ruq = { path = "%s" }
tokio = { version = "1.4", features = ["net"] }
futures = "0.3.13"

[workspace]
'''


class WitnessCheck:
    def __init__(self, P, raw, repo, work):
        self.P, self.raw, self.repo, self.work = P, raw, repo, work
        self.viol = []
        self.undecided = []
        self.oblig = {'C25': [0, 0]}
        self.done = []

    def count(self, ok):
        self.oblig['C25'][1] += 1
        self.oblig['C25'][0] += 1 if ok else 0

    def bad(self, where, what, detail=''):
        self.count(False)
        self.viol.append(Violation('C25', where, what, detail))

    # ------------------------------------------------------------ witnesses
    def witnesses(self):
        d = os.path.join(self.work, 'witness')
        if os.path.isdir(d):
            shutil.rmtree(d)
        os.makedirs(os.path.join(d, 'src', 'bin'))
        names = sorted(f for f in os.listdir(os.path.join(HERE, 'witness')) if f.endswith('.rs'))
        for f in names:
            shutil.copy(os.path.join(HERE, 'witness', f), os.path.join(d, 'src', 'bin', f))
        with open(os.path.join(d, 'Cargo.toml'), 'w') as f:
            f.write(TOML % self.repo)
        for lock in (os.path.join(self.repo, 'Cargo.lock'), '/opt/vp/Cargo.lock'):
            if os.path.exists(lock):
                shutil.copy(lock, os.path.join(d, 'Cargo.lock'))
                break
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(self.work, 'wtarget'), CARGO_NET_OFFLINE='true',
                   CARGO_INCREMENTAL='0')
        for v in ('RUSTC_WORKSPACE_WRAPPER', 'RUSTFLAGS'):
            env.pop(v, None)
        p = subprocess.run(['cargo', 'check', '--offline', '--bins', '--keep-going', '--message-format=json'], cwd=d, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
        errs, built, lib = {}, set(), False
        for l in p.stdout.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            t = m.get('target', {}).get('name')
            if m.get('reason') == 'compiler-artifact':
                built.add(t)
                lib = lib or t == 'ruq'
            elif m.get('reason') == 'compiler-message' and m['message']['level'].startswith('error'):
                errs.setdefault(t, []).append(m['message'])
        if not lib:
            self.undecided.append('C25: the crate did not compile for the witnesses: %s' % p.stderr[-300:])
            return
        for f in names:
            n = f[:-3]
            doc = open(os.path.join(HERE, 'witness', f)).readline().strip('/! \n')
            es = [e for e in errs.get(n, []) if not e['message'].startswith('aborting')]
            codes = [(e.get('code') or {}).get('code') for e in es]
            if n.startswith('pass'):
                if n in built and not es:
                    self.count(True)
                    self.done.append('%s compiles: %s' % (n, doc))
                    continue
                hit = [e for e, c in zip(es, codes) if c in BOUND or
                       c is None and re.search('between threads|not general enough|lifetime|does not live|borrow', e['message'])]
                if hit:
                    e = hit[0]
                    self.bad(self.blame(e), 'does not hold: %s: %s' % (doc, e['message']), e.get('rendered') or '')
                else:
                    self.undecided.append('C25: %s does not compile: %s' % (n, es[0]['message'] if es else p.stderr[-300:]))
            else:
                if n in built and not es:
                    self.bad('engine/witness/%s' % f, 'a program that must not compile does: %s' % doc)
                elif codes and all(c in REACH for c in codes):
                    self.count(True)
                    self.done.append('%s is rejected (%s): %s' % (n, codes[0], doc))
                else:
                    self.undecided.append('C25: %s fails for another reason: %s' % (n, es[0]['message'] if es else p.stderr[-300:]))

    def blame(self, e):
        """the construct in the crate the compiler's notes point at, else the witness"""
        for m in [e] + e.get('children', []):
            for s in m.get('spans', []):
                if '/src/' in s['file_name'] and s['file_name'].startswith(self.repo):
                    return '%s:%d' % (os.path.relpath(s['file_name'], self.repo), s['line_start'])
        m = re.search(r'--> (%s\S+)' % re.escape(self.repo), e.get('rendered') or '')
        if m:
            return os.path.relpath(m.group(1), self.repo)
        s = (e.get('spans') or [{}])[0]
        return 'witness %s:%s' % (s.get('file_name'), s.get('line_start'))

    # ------------------------------------------------------------ exports
    def exports(self):
        raw = self.raw
        client = [a for a in raw['adts'] if a['path'].endswith('::Client') or a['path'] == 'Client']
        hidden = []
        for a in client:
            for f in a['fields']:
                m = re.search(r'Sender<(.*)>$', f['ty'])
                if m:
                    hidden.append(('the command type', m.group(1)))
        for r in raw['roots']:
            if r['name'] == 'encode' and (r.get('trait') or '').endswith('Encoder'):
                m = re.search(r'Encoder<(.*?)>+$', r.get('trait_ref') or '')
                if m:
                    hidden.append(('the packet type', m.group(1)))
        if not hidden:
            self.undecided.append('C25: no command queue found in Client')
            return
        for what, t in hidden:
            short = re.compile(r'(?<![\w])%s(?!\w)' % re.escape(t))
            ad = [a for a in raw['adts'] if a['path'] == t or t == 'crate::' + a['path']]
            for a in ad:
                if a['exported']:
                    self.bad('%s (%s)' % (a['path'], a['file']), '%s is exported' % what)
                else:
                    self.count(True)
            if not ad:
                self.undecided.append('C25: %s %s is not a type of this crate' % (what, t))
            n = 0
            for a in raw['adts']:
                for f in a['fields']:
                    if f['exported'] and short.search(f['ty']) and a['exported']:
                        self.bad('%s (%s)' % (a['path'], a['file']), '%s can be reached through the public field %s' % (
                            what, f['name']))
                    n += 1
            for r in raw['roots']:
                if not r['exported']:
                    continue
                n += 1
                for i in list(r['inputs']) + [r['output']]:
                    ts = raw['types'][i].get('s') or ''
                    if short.search(ts):
                        self.bad('%s (%s)' % (r['path'], r['file']), '%s appears in the signature of a public function' % what)
                        break
            self.count(True)
            self.done.append('%s %s: %d public fields and functions' % (what, t, n))
