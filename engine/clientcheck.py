"""C22 C23 C11: what the client calls put on the command queue."""
import lin
from lin import *
from vals import *
from interp import Analyzer, State, Split, Dead, Unsupported
import models
import asyncmodels
import contracts
import mqtt
from mqtt import nz
from spec import *
from decodecheck import Violation, describe
from enccheck import EncodeCheck, NAMES, MAXLEN, FIRST

CALLS = {'subscribe': 'subscribe', 'publish': 'publish', 'unsubscribe': 'unsubscribe', 'disconnect': 'disconnect'}


def find(P, owner, name):
    r = [dict(b, key=k) for k, b in P.bodies.items() if b['local'] and b['kind'] == 'fn'
         and b['path'].replace('<', '').replace('>', '').split('::')[-2:] == [owner, name]]
    return r[0] if len(r) == 1 else None


def same(A, st, a, b):
    """a and b are the same value; splits the state where that depends on it"""
    if a is b:
        return True
    while isinstance(a, Ptr):
        a = models.deref(A, st, a)
    while isinstance(b, Ptr):
        b = models.deref(A, st, b)
    if isinstance(a, SymV) and isinstance(b, SymV) and a.name == b.name:
        return True
    if isinstance(a, (SymV, Agg)) and isinstance(b, (SymV, Agg)):
        if a.ty != b.ty:
            if isinstance(a, Agg) and isinstance(b, Agg) and len(a.fs) == len(b.fs):
                return all(same(A, st, x, y) for x, y in zip(a.fs, b.fs))
            raise Undecided('%r against %r' % (a, b))
        i, j = A.variant_idx(st, a), A.variant_idx(st, b)
        if i != j:
            return False
        a, b = A.expand(st, a, i), A.expand(st, b, j)
        return all(same(A, st, x, y) for x, y in zip(a.fs, b.fs))
    if isinstance(a, Lin) and isinstance(b, Lin):
        return A.decide(st, c_eq(st.store.norm(a - b)))
    if isinstance(a, Cond) and isinstance(b, Cond):
        return A.decide(st, a) == A.decide(st, b)
    if isinstance(a, Seq) and isinstance(b, Seq):
        return same_seq(A, st, list(a.segs), list(b.segs))
    if isinstance(a, Opq) and isinstance(b, Opq):
        if a == b or (a.tag, a.xs) == (b.tag, b.xs):
            return True
    raise Undecided('%r against %r' % (a, b))


def same_seq(A, st, p, q):
    nm = st.store.norm
    while True:
        for l in (p, q):
            while l and not isinstance(l[0], E) and A.decide(st, c_eq(nm(seglen(l[0])))):
                l.pop(0)
        if not p or not q:
            return not p and not q
        x, y = p[0], q[0]
        if isinstance(x, E) and isinstance(y, E):
            if not same(A, st, x.v, y.v):
                return False
            p.pop(0)
            q.pop(0)
        elif isinstance(x, W) and isinstance(y, W):
            if x.base != y.base or not A.decide(st, c_eq(nm(x.off - y.off))):
                return False
            d = nm(x.len - y.len)
            p.pop(0)
            q.pop(0)
            if A.decide(st, c_eq(d)):
                continue
            if A.decide(st, c_ge(d)):
                p.insert(0, W(x.base, nm(x.off + y.len), d))
            else:
                q.insert(0, W(y.base, nm(y.off + x.len), nm(-d)))
        elif x == y:
            p.pop(0)
            q.pop(0)
        elif isinstance(x, (E, W)) and isinstance(y, (E, W)):
            return False
        else:
            raise Undecided('%r against %r' % (x, y))



class Wrong(Exception):
    pass


class ClientCheck:
    def __init__(self, P):
        self.P = P
        self.viol = []
        self.undecided = []
        self.oblig = {}
        self.visited = {}
        self.stats = {}
        self.nrun = 0

    def count(self, prop, ok):
        x = self.oblig.setdefault(prop, [0, 0])
        x[1] += 1
        x[0] += 1 if ok else 0

    def report(self, prop, what, st, where):
        if st is not None and not st.store.feasible():
            return
        self.viol.append(Violation(prop, where, what, describe(st) if st else ''))

    def where(self, b):
        return '%s (%s)' % (b['path'], b['span'])

    def analyzer(self):
        A = Analyzer(self.P, models)
        contracts.install(A)
        return A

    def call(self, A, b, st, args):
        self.nrun += 1
        fr = A.frame(None, ('run', self.nrun), b['key'])
        rs = A.run(fr, st, args)
        for k, n in A.visited.items():
            self.visited[k] = self.visited.get(k, 0) + 1
        return rs

    def args(self, A, b, tag):
        return [A.sym_value((tag, i), b['locals'][i + 1]) for i in range(b['args'])]

    def problems(self, A, prop, name, b):
        for e in A.incomplete:
            self.undecided.append('%s: %s: not analysed: %s' % (prop, name, e))
        seen = set()
        for p in A.panics:
            if p.key() in seen or not p.state.store.feasible():
                continue
            seen.add(p.key())
            self.count(prop, False)
            self.report(prop, '%s can panic: %s at %s' % (name, p.kind, p.site), p.state, p.fn)
        return bool(A.incomplete)

    # ------------------------------------------------------------ C22
    def field(self, A, st, v, name):
        return EncodeCheck.field(self, A, st, v, name)

    def check_calls(self):
        for name in CALLS:
            b = find(self.P, 'Client', name)
            if b is None:
                self.undecided.append('C22: no unique Client::%s' % name)
                continue
            A = self.analyzer()
            st = State()
            args = self.args(A, b, name)
            rs = self.call(A, b, st, args)
            undec = self.problems(A, 'C22', name, b)
            good = 0
            for s, v in rs:
                try:
                    outs = forks(A, s, lambda st: self.judge_call(A, st, v, name, b, args), limit=200, seconds=20)
                except (Undecided, Unsupported) as e:
                    self.undecided.append('C22: %s: %s' % (name, e))
                    undec = True
                    continue
                for st2, r in outs:
                    if r is None or r is True:
                        good += r is True
                        self.count('C22', True)
                    elif st2.store.feasible():
                        self.count('C22', False)
                        self.report('C22', '%s: %s' % (name, r), st2, self.where(b))
            if not good and not undec:
                self.count('C22', False)
                self.report('C22', '%s never puts a command on the queue' % name, None, self.where(b))

    def judge_call(self, A, st, v, name, b, args):
        sent = [e for e in st.trace if e[0] == 'queued']
        refused = [e for e in st.trace if e[0] == 'queue refused']
        v = A.expand(st, v, A.variant_idx(st, v))
        if vname(A, v) != 'Ok':
            return 'an error is returned although the command was queued' if sent else None
        if not sent:
            return 'success is returned although %s' % (
                'the queue did not take the command' if refused else 'no command was queued')
        if len(sent) > 1:
            return '%d commands are queued' % len(sent)
        c = sent[0][2]
        while isinstance(c, Ptr):
            c = models.deref(A, st, c)
        c = A.expand(st, c, A.variant_idx(st, c))
        if nz(vname(A, c)) != nz(name):
            return 'a %s command is queued' % vname(A, c)
        if name == 'subscribe':
            t, q = self.sub_parts(A, st, c)
            if not same(A, st, t, models.deref(A, st, args[1])):
                return 'the topic filter queued is not the one given'
            if q is not None and not same(A, st, q, args[2]):
                return 'the QoS queued is not the one given'
        elif name == 'unsubscribe':
            l = self.list_part(A, st, c)
            if not same(A, st, l, Seq(l.ety, (E(models.deref(A, st, args[1])),))):
                return 'the topic filters queued are not exactly the one given'
        elif name == 'publish':
            self.publish_from(A, st, c, args[1])
        return True

    def leaves(self, c):
        out = []
        for x in c.fs:
            if isinstance(x, Agg) and self.P.types[x.ty].get('kind') == 'struct':
                out += self.leaves(x)
            else:
                out.append(x)
        return out

    def sub_parts(self, A, st, c):
        seqs = [x for x in self.leaves(c) if isinstance(x, Seq)]
        enums = [x for x in self.leaves(c) if isinstance(x, (SymV, Agg)) and A.P.types[x.ty].get('kind') == 'enum'
                 and 'QoS' in A.P.ts(x.ty)]
        if len(seqs) != 1 or len(enums) != 1:
            raise Undecided('subscribe command %r' % (c,))
        return seqs[0], enums[0]

    def list_part(self, A, st, c):
        seqs = [x for x in self.leaves(c) if isinstance(x, Seq)]
        if len(seqs) != 1:
            raise Undecided('unsubscribe command %r' % (c,))
        l = seqs[0]
        if A.P.types[l.ety].get('k') in ('uint', 'int') or A.P.int_bounds(l.ety):
            return Seq(None, (E(l),))
        return l

    def publish_from(self, A, st, c, builder):
        """C23 compares the command with the builder; here only that it is a publish"""

    # ------------------------------------------------------------ C23
    def command(self, A, st):
        sent = [e for e in st.trace if e[0] == 'queued']
        if len(sent) != 1:
            return None
        c = sent[0][2]
        while isinstance(c, Ptr):
            c = models.deref(A, st, c)
        return A.expand(st, c, A.variant_idx(st, c))

    def parts(self, A, st, c):
        r = {n: self.field(A, st, c, n) for n in ('topic', 'payload', 'properties', 'qos', 'retain')}
        p = r['payload']
        if isinstance(p, (SymV, Agg)):
            p = A.expand(st, p, A.variant_idx(st, p))
            if len(p.fs) != 1:
                raise Undecided('payload %r' % (p,))
            r['payload'] = p.fs[0]
        return r

    def check_builder(self):
        pub = find(self.P, 'Client', 'publish')
        if pub is None:
            self.undecided.append('C23: no unique Client::publish')
            return
        for ctor, fmt in (('from_bytes', 0), ('from_str', 1)):
            b = find(self.P, 'PublishBuilder', ctor)
            if b is None:
                self.undecided.append('C23: no unique PublishBuilder::%s' % ctor)
                continue
            A = self.analyzer()
            a = self.args(A, b, ctor)
            cl = self.args(A, pub, 'client')[0]
            for s, v in self.call(A, b, State(), a):
                for s2, r in self.call(A, pub, s, [cl, v]):
                    self.judge(A, s2, 'C23', ctor, b, lambda st: self.judge_ctor(A, st, a, fmt))
            self.problems(A, 'C23', ctor, b)
        ty = pub['locals'][2]
        steps = [dict(x, key=k) for k, x in self.P.bodies.items() if x['local'] and x['kind'] == 'fn' and x['args'] == 2
                 and x['locals'][0] == ty and x['locals'][1] == ty and x['path'].split('::')[-1] in
                 ('qos', 'with_property', 'retain', 'property')]
        for b in steps:
            name = b['path'].split('::')[-1]
            A = self.analyzer()
            a = self.args(A, b, name)
            cl = self.args(A, pub, 'client')[0]
            for s, r in self.call(A, pub, State(), [cl, a[0]]):
                st0 = s.copy()
                if not any(e[0] == 'queued' for e in st0.trace):
                    continue
                base = st0.trace
                for s1, v in self.call(A, b, st0, a):
                    for s2, r2 in self.call(A, pub, s1, [cl, v]):
                        self.judge(A, s2, 'C23', name, b, lambda st: self.judge_step(A, st, name, a[1]))
            self.problems(A, 'C23', name, b)
        if {'qos', 'with_property'} - set(b['path'].split('::')[-1] for b in steps):
            self.undecided.append('C23: no PublishBuilder::qos or with_property')

    def judge(self, A, s, prop, name, b, f):
        try:
            outs = forks(A, s, f, limit=300, seconds=20)
        except (Undecided, Unsupported) as e:
            self.undecided.append('%s: %s: %s' % (prop, name, e))
            return
        for st2, r in outs:
            if r is None:
                self.count(prop, True)
            elif st2.store.feasible():
                self.count(prop, False)
                self.report(prop, '%s: %s' % (name, r), st2, self.where(b))

    def judge_ctor(self, A, st, a, fmt):
        c = self.command(A, st)
        if c is None:
            return None
        p = self.parts(A, st, c)
        if not same(A, st, p['topic'], a[0]):
            return 'the topic is not the one given'
        if not same(A, st, p['payload'], a[1]):
            return 'the payload is not the bytes given'
        if self.qos(A, st, p['qos']) != 0:
            return 'the QoS without a choice is not 0'
        if A.decide(st, EncodeCheck.bool(self, p['retain'])):
            return 'retained without being asked'
        l = p['properties']
        if len(l.segs) != 1 or not isinstance(l.segs[0], E):
            return 'the properties are not exactly a payload format indicator'
        x = l.segs[0].v
        x = A.expand(st, x, A.variant_idx(st, x))
        if mqtt.prop_of_variant(vname(A, x)) != 1:
            return 'the first property is %s instead of the payload format indicator' % vname(A, x)
        if not A.decide(st, c_eq(st.store.norm(x.fs[0] - fmt))):
            return 'the payload format indicator is %s instead of %d' % (x.fs[0], fmt)
        return None

    def qos(self, A, st, v):
        return EncodeCheck.qos(self, A, st, v)

    def judge_step(self, A, st, name, arg):
        sent = [e for e in st.trace if e[0] == 'queued']
        if len(sent) != 2:
            return None
        cs = []
        for e in sent:
            c = e[2]
            while isinstance(c, Ptr):
                c = models.deref(A, st, c)
            cs.append(self.parts(A, st, A.expand(st, c, A.variant_idx(st, c))))
        old, new = cs
        for k in old:
            if k == 'qos' and name == 'qos' or k == 'retain' and name == 'retain':
                if not same(A, st, new[k], arg):
                    return 'the %s chosen is not used' % k
            elif k == 'properties' and 'property' in name:
                want = Seq(old[k].ety, old[k].segs + (E(arg),))
                if not same(A, st, new[k], want):
                    return 'the properties are not the earlier ones followed by the one added'
            elif not same(A, st, new[k], old[k]):
                return 'it changes the %s' % k
        return None

    # ------------------------------------------------------------ C11
    def check_lengths(self):
        enc = None
        for name in ('subscribe', 'unsubscribe', 'publish'):
            b = find(self.P, 'Client', name)
            if b is None:
                self.undecided.append('C11: no unique Client::%s' % name)
                continue
            A = self.analyzer()
            args = self.args(A, b, name)
            rs = self.call(A, b, State(), args)
            for e in A.incomplete:
                self.undecided.append('C11: %s: not analysed: %s' % (name, e))
            bad = []
            for s, v in rs:
                if not any(e[0] == 'queued' for e in s.trace):
                    self.count('C11', True)
                    continue
                try:
                    outs = forks(A, s, lambda st: self.judge_len(A, st, name), limit=300, seconds=20)
                except (Undecided, Unsupported) as e:
                    self.undecided.append('C11: %s: %s' % (name, e))
                    continue
                for st2, r in outs:
                    if not r:
                        self.count('C11', True)
                    elif st2.store.feasible():
                        bad.append((r, st2))
            if bad:
                # the encoder may refuse instead
                if enc is None:
                    enc = EncodeCheck(self.P)
                    enc.analyse()
                    enc.check()
                through = enc.overlong.get(name.upper())
                if enc.undecided:
                    self.undecided += ['C11: %s' % u for u in enc.undecided]
                for r, st2 in bad:
                    if through:
                        self.count('C11', False)
                        self.report('C11', '%s: %s, and encoding does not refuse it' % (name, r), st2, self.where(b))
                    else:
                        self.count('C11', True)

    def judge_len(self, A, st, name):
        """None, or the length that is not limited on this path"""
        c = self.command(A, st)
        if c is None:
            return None

        def short(v):
            n = st.store.norm(seqlen(v))
            return A.known(st, c_ge(-n + MAXLEN)) is True

        if name == 'subscribe':
            t, q = self.sub_parts(A, st, c)
            return None if short(t) else 'a topic filter of any length is queued'
        if name == 'unsubscribe':
            l = self.list_part(A, st, c)
            for s in l.segs:
                if not isinstance(s, E):
                    raise Undecided('list of filters %r' % (l,))
                v = s.v
                while isinstance(v, Ptr):
                    v = models.deref(A, st, v)
                if not short(v):
                    return 'a topic filter of any length is queued'
            return None
        p = self.parts(A, st, c)
        if not short(p['topic']):
            return 'a topic of any length is queued'
        lst = p['properties']
        if isinstance(lst, Seq) and lst.segs:
            lim = self.walk(A, st, lst, 'every string', self.strings_short)
            if lim is not True:
                return lim or 'a property of any length is queued'
        q = self.qos(A, st, p['qos'])
        fixed = st.store.norm(const(2) + seqlen(p['topic']) + (2 if q else 0) + seqlen(p['payload']))
        if not self.total_bounded(A, st, lst, fixed):
            return 'a packet of any length is queued'
        return None

    def loops_over(self, A, st, lst):
        return loops_over(A, st, lst)

    def walk(self, A, st, lst, what, each):
        return walk(A, st, lst, each)

    def element(self, A, st, el):
        while isinstance(el, Ptr):
            el = models.deref(A, st, el)
        return A.expand(st, el, A.variant_idx(st, el))

    def strings_short(self, A, st, el):
        el = self.element(A, st, el)
        for v in self.leaves(el):
            while isinstance(v, Ptr):
                v = models.deref(A, st, v)
            if isinstance(v, Seq) and A.known(st, c_ge(st.store.norm(-seqlen(v) + MAXLEN))) is not True:
                return False
        return True

    def encoded_len(self, A, st, el):
        el = self.element(A, st, el)
        pid = mqtt.prop_of_variant(vname(A, el))
        if pid is None:
            raise Undecided('unknown property %s' % vname(A, el))
        wt = mqtt.PROPS[pid][1]
        if wt in ('u8', 'u16', 'u32'):
            return const(1 + {'u8': 1, 'u16': 2, 'u32': 4}[wt])
        if wt == 'vbi':
            return const(5)
        n = const(1)
        for v in self.leaves(el):
            while isinstance(v, Ptr):
                v = models.deref(A, st, v)
            n = n + 2 + seqlen(v)
        return n

    def total_bounded(self, A, st, lst, fixed):
        MAX = contracts.MAXVBI
        if not lst.segs:
            return A.known(st, c_ge(st.store.norm(-fixed - 1 + MAX))) is True
        loops = self.loops_over(A, st, lst)
        found = False
        for info, G, p in loops:
            for path, (kd, x) in G.leaves.items():
                if kd != 'lin' or path == p or not all(path in h.leaves for h in info.groups):
                    continue
                good = bool(info.backs)
                for b in info.backs:
                    pos = info.groups[b.src].leaves[p][1]
                    d = b.vals[path] - info.groups[b.src].leaves[path][1]

                    def f(s):
                        if not A.decide(s, c_ge(s.store.norm(seqlen(lst) - pos - 1))):
                            raise Dead()
                        return A.known(s, c_ge(s.store.norm(d - self.encoded_len(
                            A, s, A.seq_get(s, lst, s.store.norm(pos)))))) is True
                    try:
                        if not all(r for s2, r in forks(A, b.state, f, limit=200) if s2.store.feasible()):
                            good = False
                            break
                    except (Undecided, Unsupported):
                        good = False
                        break
                if not good:
                    continue
                found = True
                # x - entry value is at least the length of the encoded properties
                es = set(info.entry.store.norm(v[path]) for v in info.entry_vals.values())
                if len(es) != 1:
                    continue
                pl = st.store.norm(x - es.pop())
                total = st.store.norm(fixed + pl)
                for vl in self.vbi_lengths(A, st, pl):
                    if A.known(st, c_ge(st.store.norm(-total - vl + MAX))) is True:
                        return True
        if not found and len(st.loops) > 1:
            raise Undecided('no loop adds up the encoded length of the properties')
        return False

    def vbi_lengths(self, A, st, pl):
        """upper bounds of the bytes the property length itself takes"""
        out = [const(4)]
        for k in (1, 2, 3):
            if A.known(st, c_ge(st.store.norm(-pl + 128 ** k - 1))) is True:
                out.append(const(k))
        for a in list(lin._BYKEY):
            if a[0] == 's' and isinstance(a[1], tuple) and a[1][0] == 'vbilen' and A.known(
                    st, c_eq(st.store.norm(a[1][1] - pl))) is True:
                out.append(sym(a[1], 1, 4))
        return out
