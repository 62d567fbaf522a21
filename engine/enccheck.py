"""C09 C10 (and the writing half of C06): outgoing packets against the MQTT 5 packet grammar."""
import lin as LIN
from lin import *
from lin import Infeasible
from vals import *
from interp import Analyzer, State, Split, Dead, Unsupported
import models
import contracts
import mqtt
from mqtt import nz
from spec import *
from decodecheck import Violation, describe, at
import time

MAXLEN = 65535
SENT = {'connect': 'CONNECT', 'publish': 'PUBLISH', 'puback': 'PUBACK', 'subscribe': 'SUBSCRIBE',
        'unsubscribe': 'UNSUBSCRIBE', 'pingreq': 'PINGREQ', 'disconnect': 'DISCONNECT'}
FIRST = {'CONNECT': 0x10, 'PUBLISH': 0x30, 'PUBACK': 0x40, 'SUBSCRIBE': 0x82, 'UNSUBSCRIBE': 0xA2, 'PINGREQ': 0xC0,
         'DISCONNECT': 0xE0}
NAMES = {'pktid': ('pktid', 'packet_id', 'packetid', 'pkid', 'id', 'pid'),
         'reason': ('reason', 'reason_code', 'code'), 'topic': ('topic', 'topic_name', 'filter', 'topic_filter'),
         'topics': ('topics', 'filters', 'topic_filters'), 'payload': ('payload', 'message', 'body'),
         'properties': ('properties', 'props'), 'keep_alive': ('keep_alive', 'keepalive'),
         'client_id': ('client_id', 'clientid', 'client_identifier'), 'qos': ('qos',), 'dup': ('dup',),
         'retain': ('retain',), 'no_local': ('no_local', 'nolocal'),
         'rap': ('retain_as_published', 'rap')}


class Mismatch(Exception):
    def __init__(self, prop, what):
        Exception.__init__(self, what)
        self.prop, self.what = prop, what


class Cursor:
    """reads written bytes segment by segment"""
    owner = None

    def __init__(self, A, st, segs, loops=None):
        self.A, self.st = A, st
        self.q = list(segs)

    def n(self, l):
        return self.st.store.norm(l)

    def eq(self, l):
        return self.A.decide(self.st, c_eq(self.n(l)))

    def clean(self, stars=True):
        while self.q and not isinstance(self.q[0], E):
            if not stars and isinstance(self.q[0], S):
                break
            l = self.n(seglen(self.q[0]))
            if self.A.known(self.st, c_eq(l)) is True:
                self.q.pop(0)
            elif isinstance(self.q[0], W) and self.st.store.bounds(l)[0] <= 0:
                if self.A.decide(self.st, c_eq(l)):
                    self.q.pop(0)
                else:
                    break
            else:
                break

    def done(self):
        self.clean()
        return not self.q

    def byte(self, prop, what):
        self.clean()
        if not self.q:
            raise Mismatch(prop, '%s is missing' % what)
        s = self.q[0]
        if isinstance(s, E):
            self.q.pop(0)
            if not isinstance(s.v, Lin):
                raise Undecided('byte %r' % (s.v,))
            return s.v
        if isinstance(s, W):
            self.q[0] = W(s.base, self.n(s.off + 1), self.n(s.len - 1))
            return byte(s.base, self.n(s.off))
        if isinstance(s, X) and isinstance(s.tag, tuple) and s.tag and s.tag[0] == 'vbienc':
            raise Mismatch(prop, 'a variable byte integer stands where %s belongs' % what)
        raise Undecided('%s: bytes %r' % (what, s))

    def expect_byte(self, l, prop, what):
        b = self.byte(prop, what)
        if not self.eq(b - l):
            raise Mismatch(prop, '%s is written as %s instead of %s' % (what, self.n(b), self.n(l)))

    def expect_uint(self, l, k, prop, what):
        v = ZERO
        for i in range(k):
            v = v * 256 + self.byte(prop, what)
        if not self.eq(v - l):
            raise Mismatch(prop, '%s is written as %s instead of %s' % (what, self.n(v), self.n(l)))

    def vbi(self, prop, what, data=None):
        """the value a variable byte integer at the cursor encodes; data(segment): known to belong to what follows"""
        self.clean()
        if not self.q:
            raise Mismatch(prop, '%s is missing' % what)
        s = self.q[0]
        if isinstance(s, X) and isinstance(s.tag, tuple) and s.tag and s.tag[0] == 'vbienc':
            self.q.pop(0)
            return s.tag[1]
        v = ZERO
        for i in range(4):
            if i and data is not None and self.q and data(self.q[0]):
                raise Mismatch(prop, '%s is cut off after %d bytes' % (what, i))
            b = self.byte(prop, what)
            if not self.A.decide(self.st, c_ge(self.n(b - 128))):
                return self.n(v + b * 128 ** i)
            v = v + (b - 128) * 128 ** i
        raise Mismatch(prop, '%s is not a variable byte integer' % what)

    def rest_len(self):
        r = ZERO
        for s in self.q:
            r = r + seglen(s)
        return self.n(r)

    def expect_seq(self, v, prop, what):
        """exactly the contents of byte sequence v"""
        want = list(v.segs)
        while want:
            w = want.pop(0)
            if self.eq(seglen(w)) if not isinstance(w, E) else False:
                continue
            self.clean()
            if not self.q:
                raise Mismatch(prop, '%s is cut off' % what)
            s = self.q[0]
            if isinstance(w, E):
                self.expect_byte(w.v, prop, what)
                continue
            if isinstance(w, W) and isinstance(s, W):
                if w.base != s.base or not self.eq(w.off - s.off):
                    raise Mismatch(prop, '%s holds %s' % (what, s))
                d = self.n(s.len - w.len)
                if self.A.decide(self.st, c_ge(d)):
                    self.q.pop(0)
                    if not self.eq(d):
                        self.q.insert(0, W(s.base, self.n(s.off + w.len), d))
                    continue
                self.q.pop(0)
                want.insert(0, W(w.base, self.n(w.off + s.len), self.n(-d)))
                continue
            if s is w:
                self.q.pop(0)
                continue
            if isinstance(s, W) or isinstance(s, E):
                raise Mismatch(prop, '%s holds %s' % (what, s))
            raise Undecided('%s: %r instead of %r' % (what, s, w))

    def expect_prefixed(self, v, prop, what):
        """two length bytes and the contents"""
        ln = self.n(seqlen(v))
        if not self.A.decide(self.st, c_ge(-ln + MAXLEN)):
            if self.owner is not None:
                self.owner.overlong[self.owner.kind] = True
            raise Dead()          # longer fields are C11's business
        self.expect_uint(ln, 2, prop, 'the length of ' + what)
        self.expect_seq(v, prop, what)


class EncodeCheck:
    def __init__(self, P):
        self.P = P
        self.viol = []
        self.undecided = []
        self.oblig = {}
        self.A = None
        self.lists = {}
        self.overlong = {}       # kinds that are encoded although a field does not fit
        self.kind = None
        self.runs = {}           # kind -> (A, item struct, results)
        self.loopres = {}
        self.visited = {}
        self.stats = {}

    def count(self, prop, ok):
        x = self.oblig.setdefault(prop, [0, 0])
        x[1] += 1
        x[0] += 1 if ok else 0

    def report(self, prop, what, st, where=None):
        if st is not None and not st.store.feasible():
            return
        self.viol.append(Violation(prop, where or self.fn, what, describe(st) if st else ''))

    # ------------------------------------------------------------ analysis
    def analyse(self, kinds=None):
        P = self.P
        r = contracts.find_root(P, 'Encoder', 'encode', '')
        if r is None:
            raise Undecided('no Encoder::encode implementation found')
        self.key = r['key']
        b = P.bodies[self.key]
        self.fn = '%s (%s)' % (b['path'], b['span'])
        ity = b['locals'][2]
        t = P.types[ity]
        if t['k'] != 'adt' or t['kind'] != 'enum':
            raise Undecided('the encoder does not take an enum of packets')
        for i, v in enumerate(t['variants']):
            kind = SENT.get(nz(v['name']))
            if kind is None or kinds and kind not in kinds:
                continue
            A = Analyzer(P, models)
            contracts.install(A)
            fr = A.frame(None, None, self.key)
            st = State()
            fs = tuple(A.sym_value(('pkt', kind, j), f['ty']) for j, f in enumerate(v['fields']))
            item = Agg(ity, i, fs)
            args = [A.sym_value(('self',), b['locals'][1]), item, A.sym_value(('dst',), b['locals'][3])]
            body = fs[0] if fs else None
            while isinstance(body, Ptr):
                body = models.deref(A, st, body)
            rs = A.run(fr, st, args)
            self.runs[kind] = (A, body, rs, args[2].alloc)
            for k, n in A.visited.items():
                self.visited[k] = self.visited.get(k, 0) + n
            for k, n in A.stats.items():
                self.stats[k] = self.stats.get(k, 0) + n
        return self

    def analyse_lists(self):
        """the property lists that have a writer although the client never sends them (CONNACK, SUBACK, UNSUBACK)"""
        P = self.P
        for r in P.roots:
            if not str(r.get('trait')).endswith('ToMqttBytes') or not str(r['self_ty']).startswith('&['):
                continue
            b = P.bodies[r['key']]
            t = P.types[b['locals'][1]]
            while t['k'] in ('ref', 'slice'):
                ety = t['elem'] if t['k'] == 'slice' else t['to']
                t = P.types[ety]
            if t['k'] != 'adt' or t['kind'] != 'enum' or any(
                    mqtt.prop_of_variant(v['name']) is None for v in t['variants']):
                continue
            A = Analyzer(P, models)
            contracts.install(A)
            fr = A.frame(None, None, r['key'])
            st = State()
            arg = A.sym_value(('list', P.ts(ety)), b['locals'][1])
            v = arg
            while isinstance(v, Ptr):
                v = models.deref(A, st, v)
            rs = A.run(fr, st, [arg])
            name = P.ts(ety).split('::')[-1]
            self.lists[name] = (A, v, rs, '%s (%s)' % (b['path'], b['span']))
            for k, n in A.visited.items():
                self.visited[k] = self.visited.get(k, 0) + n
        return self

    def check_lists(self):
        for name, (A, lst, rs, fn) in self.lists.items():
            self.undecided += ['C10: %s: %s' % (name, e) for e in A.incomplete]
            for p in A.panics:
                if p.state.store.feasible():
                    self.count('C10', False)
                    self.report('C10', 'writing a %s list can panic: %s at %s' % (name, p.kind, p.site), p.state, where=p.fn)

            def judge(st, v):
                if isinstance(v, Agg) and len(v.fs) == 1 and isinstance(v.fs[0], Seq):
                    v = v.fs[0]
                if not isinstance(v, Seq):
                    raise Undecided('%r' % (v,))
                c = Cursor(A, st, v.segs)
                try:
                    self.section_(A, st, c, lst, None, name, True)
                    if not c.done():
                        raise Mismatch('C10', 'more bytes follow the property list')
                except Mismatch as m:
                    return m
            for s, v in rs:
                try:
                    outs = forks(A, s, lambda st: judge(st, v), limit=400, seconds=20)
                except (Undecided, Unsupported) as e:
                    self.undecided.append('C10: %s: %s' % (name, e))
                    continue
                for st, r in outs:
                    self.count('C10', r is None)
                    if r is not None and st.store.feasible():
                        self.report('C10', '%s list: %s' % (name, r.what), st, where=fn)

    def check(self):
        self.check_lists()
        for kind in FIRST:
            if kind not in self.runs:
                self.undecided.append('no packet variant for %s' % kind)
                continue
            self.check_kind(kind, *self.runs[kind])

    def field(self, A, st, p, name, depth=0):
        if not isinstance(p, Agg):
            raise Undecided('packet body %r' % (p,))
        fs = {nz(k): x for k, x in fields(A, p).items()}
        for n in NAMES[name]:
            if nz(n) in fs:
                x = fs[nz(n)]
                while isinstance(x, Ptr):
                    x = models.deref(A, st, x)
                return x
        if depth < 2:
            for k, x in fs.items():
                if isinstance(x, Agg) and A.P.types[x.ty].get('kind') == 'struct':
                    try:
                        return self.field(A, st, x, name, depth + 1)
                    except Undecided:
                        pass
        raise Undecided('no field %s in %s' % (name, A.P.ts(p.ty)))

    def precondition(self, A, st, kind, body):
        """a PUBLISH holds an identifier exactly when its QoS is above 0 (C05 and C14 establish it)"""
        if kind != 'PUBLISH':
            return
        q = self.qos(A, st, self.field(A, st, body, 'qos'))
        o = self.field(A, st, body, 'pktid')
        i = A.variant_idx(st, o)
        if (vname(A, A.expand(st, o, i)) == 'Some') != (q > 0):
            raise Dead()

    def qos(self, A, st, v):
        i = A.variant_idx(st, v)
        have = A.P.types[v.ty]['variants'][i]['name']
        for q, nme in mqtt.QOS.items():
            if mqtt.name_fits(have, nme):
                return q
        raise Undecided('unknown QoS %s' % have)

    def check_kind(self, kind, A, body, results, dalloc):
        self.kind = kind
        for e in A.incomplete:
            self.undecided.append('not analysed: %s: %s' % (kind, e))
        pan = set()
        for p in A.panics:
            k = (p.key(), str(p.site))
            if k in pan:
                continue
            try:
                r = forks(A, p.state, lambda st: self.precondition(A, st, kind, body), limit=200)
            except (Undecided, Unsupported) as e:
                self.undecided.append('C09: panic in %s: %s' % (p.fn, e))
                continue
            r = [st for st, _ in r if st.store.feasible()]
            if r:
                pan.add(k)
                if uninterpreted(r[0]):
                    self.undecided.append('C09: %s may panic: %s' % (kind, p.key()))
                    continue
                self.count('C09', False)
                self.report('C09', 'encoding a %s can panic: %s at %s' % (kind, p.kind, p.site), r[0], where=p.fn)
        if not pan:
            self.count('C09', True)
        if not results and not A.panics and not A.incomplete:
            self.report('C09', 'a %s cannot be encoded' % kind, None)
        for s, v in results:
            try:
                outs = forks(A, s, lambda st: self.judge(A, st, v, kind, body, dalloc), limit=400, seconds=20,
                             stop=lambda st, r: r is not None and st.store.feasible())
            except (Undecided, Unsupported) as e:
                for p in ('C09', 'C10') if kind in ('PUBLISH', 'PUBACK', 'DISCONNECT') else ('C09',):
                    self.undecided.append('%s: %s: %s' % (p, kind, e))
                continue
            for st, r in outs:
                if r is None:
                    self.count('C09', True)
                    if kind in ('PUBLISH', 'PUBACK', 'DISCONNECT'):
                        self.count('C10', True)
                    if kind in ('PUBLISH', 'PUBACK', 'DISCONNECT', 'SUBSCRIBE'):
                        self.count('C06', True)
                elif st.store.feasible():
                    self.count(r.prop, False)
                    self.report(r.prop, '%s: %s' % (kind, r.what), st)

    def judge(self, A, st, v, kind, body, dalloc):
        self.precondition(A, st, kind, body)
        try:
            if not isinstance(v, Agg):
                raise Undecided('encode result %r' % (v,))
            d = A.read(st, dalloc, ())
            if not isinstance(d, Seq):
                raise Undecided('output buffer %r' % (d,))
            segs = list(d.segs)
            old = ('dst', '*')
            L = A.len_sym(old)
            if segs and isinstance(segs[0], W) and segs[0].base == old and A.known(st, c_eq(st.store.norm(segs[0].off))) is True \
                    and A.known(st, c_eq(st.store.norm(segs[0].len - L))) is True:
                segs.pop(0)
            elif not A.decide(st, c_eq(st.store.norm(L))):
                if segs and isinstance(segs[0], (X, S)):
                    raise Undecided('what the output buffer holds after a loop over it')
                raise Mismatch('C09', 'the output already in the buffer is changed')
            if vname(A, v) == 'Err':
                self.must_be_overlong(A, st, kind, body, segs)
                return None
            c = Cursor(A, st, segs)
            c.owner = self
            self.packet(A, st, c, kind, body)
            if not c.done():
                raise Mismatch('C09', 'more bytes follow the packet')
            return None
        except Mismatch as m:
            return m

    def must_be_overlong(self, A, st, kind, body, segs):
        """refusing to encode is right only for values that do not fit"""
        store = st.store
        for name in ('topic', 'client_id'):
            try:
                f = self.field(A, st, body, name)
            except Undecided:
                continue
            if isinstance(f, Seq) and not A.decide(st, c_ge(-store.norm(seqlen(f)) + MAXLEN)):
                return
        if any(at_.startswith('overlong') for at_ in ()):
            return
        raise Undecided('encode refuses a %s' % kind)

    # ------------------------------------------------------------ layouts
    def packet(self, A, st, c, kind, body):
        self.used = None
        if kind == 'PUBLISH':
            q = self.qos(A, st, self.field(A, st, body, 'qos'))
            dup = A.decide(st, self.bool(self.field(A, st, body, 'dup')))
            ret = A.decide(st, self.bool(self.field(A, st, body, 'retain')))
            first = 0x30 + 8 * dup + 2 * q + ret
            b = c.byte('C09', 'the first byte')
            if not c.eq(b - first):
                x = c.n(b)
                if A.known(st, c_ge(c.n(b - 0x40))) is False and A.known(st, c_ge(c.n(b - 0x30))) is True:
                    raise Mismatch('C06', 'flags of a QoS %d%s%s publish are written as %s' % (
                        q, ' dup' if dup else '', ' retained' if ret else '', c.n(b - 0x30)))
                raise Mismatch('C09', 'the first byte is %s instead of 0x%02X' % (x, first))
        else:
            c.expect_byte(const(FIRST[kind]), 'C09', 'the first byte')
        n = c.vbi('C09', 'the remaining length')
        have = c.rest_len()
        if not A.decide(st, c_ge(-have + contracts.MAXVBI)):
            self.overlong[kind] = True
            raise Dead()
        if not c.eq(n - have):
            raise Mismatch('C09', 'the remaining length says %s but %s bytes follow' % (c.n(n), have))
        if kind == 'CONNECT':
            c.expect_seq(Seq(A.u8(), tuple(E(const(x)) for x in b'\0\4MQTT\5')), 'C09', 'the protocol name and version')
            c.expect_byte(const(2), 'C09', 'the connect flags (clean start)')
            c.expect_uint(self.field(A, st, body, 'keep_alive'), 2, 'C09', 'the keep-alive')
            self.nosection(c)
            c.expect_prefixed(self.field(A, st, body, 'client_id'), 'C09', 'the client identifier')
        elif kind == 'PUBLISH':
            c.expect_prefixed(self.field(A, st, body, 'topic'), 'C09', 'the topic')
            if q:
                o = self.field(A, st, body, 'pktid')
                o = A.expand(st, o, A.variant_idx(st, o))
                c.expect_uint(self.num(o.fs[0]), 2, 'C09', 'the packet identifier')
            self.section(A, st, c, kind, body)
            v = self.field(A, st, body, 'payload')
            if isinstance(v, (SymV, Agg)):
                v = A.expand(st, v, A.variant_idx(st, v)).fs[0]
            c.expect_seq(v, 'C09', 'the payload')
        elif kind in ('PUBACK', 'DISCONNECT'):
            if kind == 'PUBACK':
                c.expect_uint(self.num(self.field(A, st, body, 'pktid')), 2, 'C09', 'the packet identifier')
            r = self.field(A, st, body, 'reason')
            i = A.variant_idx(st, r)
            have = A.P.types[r.ty]['variants'][i]['name']
            codes = [k for k, nme in mqtt.CODES[kind].items() if mqtt.name_fits(have, nme)]
            if not codes:
                raise Undecided('unknown %s reason %s' % (kind, have))
            if c.done():
                if codes[0] != 0:
                    raise Mismatch('C09', 'the reason code %s is left out' % have)
                self.no_properties(A, st, body, c)
                return
            b = c.byte('C09', 'the reason code')
            if not c.eq(b - codes[0]):
                raise Mismatch('C06', 'reason %s is written as %s instead of %d' % (have, c.n(b), codes[0]))
            if c.done():
                self.no_properties(A, st, body, c)
                return
            self.section(A, st, c, kind, body)
        elif kind == 'SUBSCRIBE':
            c.expect_uint(self.num(self.field(A, st, body, 'pktid')), 2, 'C09', 'the packet identifier')
            self.nosection(c)
            c.expect_prefixed(self.field(A, st, body, 'topic'), 'C09', 'the topic filter')
            q = self.qos(A, st, self.field(A, st, body, 'qos'))
            opt = q
            for name, bit in (('no_local', 4), ('rap', 8)):
                try:
                    f = self.field(A, st, body, name)
                except Undecided:
                    continue
                opt += bit if A.decide(st, self.bool(f)) else 0
            b = c.byte('C09', 'the subscription options')
            if not c.eq(b - opt):
                raise Mismatch('C09', 'subscription options are written as %s instead of %d (QoS %d)' % (c.n(b), opt, q))
        elif kind == 'UNSUBSCRIBE':
            c.expect_uint(self.num(self.field(A, st, body, 'pktid')), 2, 'C09', 'the packet identifier')
            self.nosection(c)
            lst = self.field(A, st, body, 'topics')
            self.whole_list(A, st, c, lst, 'C09', 'the topic filters',
                            lambda cur, el, s: cur.expect_prefixed(self.text(A, s, el), 'C09', 'a topic filter'))
        elif kind == 'PINGREQ':
            pass

    def bool(self, v):
        if isinstance(v, Lin):
            return c_ne(v)
        if isinstance(v, Cond):
            return v
        raise Undecided('not a boolean: %r' % (v,))

    def num(self, v):
        while isinstance(v, Agg) and len(v.fs) == 1:
            v = v.fs[0]
        if not isinstance(v, Lin):
            raise Undecided('not a number: %r' % (v,))
        return v

    def text(self, A, st, v):
        while isinstance(v, Ptr):
            v = models.deref(A, st, v)
        while isinstance(v, Agg) and len(v.fs) == 1:
            v = v.fs[0]
        if not isinstance(v, Seq):
            raise Undecided('not a byte sequence: %r' % (v,))
        return v

    def nosection(self, c):
        n = c.vbi('C09', 'the property length')
        if not c.eq(n):
            raise Mismatch('C09', 'the property length is %s although no property follows' % c.n(n))

    def props_of(self, A, st, body):
        """(list, option) that hold the properties of a packet"""
        v = self.field(A, st, body, 'properties')
        if isinstance(v, Seq):
            return v, None
        if isinstance(v, Agg):
            lst = opt = None
            for x in v.fs:
                if isinstance(x, Seq):
                    lst = x
                elif isinstance(x, (Agg, SymV)):
                    opt = x
            return lst, opt
        raise Undecided('property container %r' % (v,))

    def no_properties(self, A, st, body, c):
        lst, opt = self.props_of(A, st, body)
        if lst is not None and not c.eq(seqlen(lst)):
            raise Mismatch('C10', 'the properties are left out')
        if opt is not None and vname(A, A.expand(st, opt, A.variant_idx(st, opt))) == 'Some':
            raise Mismatch('C10', 'the reason string is left out')

    def section(self, A, st, c, kind, body):
        lst, opt = self.props_of(A, st, body)
        self.section_(A, st, c, lst, opt, kind)

    def section_(self, A, st, c, lst, opt, kind, alone=False):
        def data(s):
            if not isinstance(s, S) or lst is None or s.star[1] not in A.looplist:
                return False
            try:
                return not self.list_loop(A, s.star[1], s.star, lst, 'C10', 'the property list',
                                          lambda cur, el, s: self.prop(A, s, cur, el, kind))[2]
            except (Undecided, Unsupported):
                return False
        n = c.vbi('C10', 'the property length', data)
        full = c.rest_len()
        if alone and not A.decide(st, c_ge(-full + contracts.MAXVBI)):
            raise Dead()
        if opt is not None:
            o = A.expand(st, opt, A.variant_idx(st, opt))
            if vname(A, o) == 'Some':
                if not c.q or isinstance(c.q[0], S):
                    raise Mismatch('C10', 'the reason string is not written first')
                c.expect_byte(const(0x1F), 'C10', 'the reason string identifier')
                c.expect_prefixed(self.text(A, st, o.fs[0]), 'C10', 'the reason string')
        if lst is not None:
            self.whole_list(A, st, c, lst, 'C10', 'the property list', lambda cur, el, s: self.prop(A, s, cur, el, kind))
        used = c.n(full - c.rest_len())
        if not c.eq(n - used):
            raise Mismatch('C10', 'the property length says %s but the properties take %s bytes' % (c.n(n), used))

    def prop(self, A, st, c, el, kind):
        """one list element as a property"""
        while isinstance(el, Ptr):
            el = models.deref(A, st, el)
        t = A.P.types[el.ty]
        if t['k'] == 'adt' and t['kind'] == 'enum':
            el = A.expand(st, el, A.variant_idx(st, el))
            have = vname(A, el)
            pid = mqtt.prop_of_variant(have)
            if pid is None:
                raise Undecided('unknown property %s' % have)
        elif len(el.fs) == 2:
            pid, have = 0x26, 'user property'
        else:
            raise Undecided('property element %r' % (el,))
        c.expect_byte(const(pid), 'C10', 'the identifier of %s' % have)
        wt = mqtt.PROPS[pid][1]
        if wt in ('u8', 'u16', 'u32'):
            v = el.fs[0]
            if isinstance(v, Cond):
                v = ONE if A.decide(st, v) else ZERO
            c.expect_uint(self.num(v), {'u8': 1, 'u16': 2, 'u32': 4}[wt], 'C10', 'the value of %s' % have)
        elif wt == 'vbi':
            v = c.vbi('C10', 'the value of %s' % have)
            if not c.eq(v - self.num(el.fs[0])):
                raise Mismatch('C10', 'the value of %s is written as %s' % (have, c.n(v)))
        else:
            fs = el.fs
            if wt == 'pair' and len(fs) == 1 and isinstance(fs[0], Agg):
                fs = fs[0].fs
            for f in fs:
                c.expect_prefixed(self.text(A, st, f), 'C10', 'the value of %s' % have)

    # ------------------------------------------------------------ lists
    def whole_list(self, A, st, c, lst, prop, what, each):
        """the cursor holds the encodings of all elements of lst, in order"""
        lo = ZERO
        n = seqlen(lst)
        while True:
            c.clean(stars=False)
            if not c.q or not isinstance(c.q[0], S):
                break
            s = c.q[0]
            lid = s.star[1]
            if lid not in A.looplist:
                raise Undecided('%s: bytes of an unknown loop' % what)
            p, k, errs = self.list_loop(A, lid, s.star, lst, prop, what, each)
            if errs:
                raise Mismatch(prop, errs[0])
            g = [g for l, g in st.loops if l == lid]
            if not g:
                raise Undecided('%s: loop state lost' % what)
            info = A.looplist[lid]
            first = info.entry_pos[p]
            if not c.eq(first - lo):
                raise Mismatch(prop, '%s is written from element %s on, not %s' % (what, c.n(first), c.n(lo)))
            lo = c.n(info.groups[g[-1]].leaves[p][1])
            c.q.pop(0)
        # elements written outside the loop (a peeled iteration)
        for _ in range(64):
            if not A.decide(st, c_ge(c.n(n - lo - 1))):
                return
            if A.known(st, c_eq(c.n(n - lo))) is True:
                return
            if not c.q:
                raise Mismatch(prop, '%s: only the first %s of %s elements are written' % (what, c.n(lo), c.n(n)))
            each(c, A.seq_get(st, lst, lo), st)
            lo = c.n(lo + 1)
        raise Undecided('%s: too many elements outside a loop' % what)

    def list_loop(self, A, lid, star, lst, prop, what, each):
        key = (id(A), lid, star[2:], what)
        if key not in self.loopres:
            self.loopres[key] = self.list_loop_(A, lid, star, lst, prop, what, each)
        return self.loopres[key]

    def list_loop_(self, A, lid, star, lst, prop, what, each):
        """(index leaf, 0, errors): every way round the loop appends the encoding of exactly the next element"""
        info = A.looplist[lid]
        path = star[2:]
        fn = '%s (%s)' % (A.P.bodies[info.body]['path'], A.P.bodies[info.body]['span'])
        cands = []
        for p, (kd, x) in info.groups[0].leaves.items():
            if kd != 'lin' or not all(p in g.leaves for g in info.groups) or p[-1] == 'len':
                continue
            if all(A.known(b.state, c_eq(b.state.store.norm(b.vals[p] - info.groups[b.src].leaves[p][1] - 1))) is True
                   for b in info.backs):
                cands.append(p)
        if not cands:
            r = self.misfit(A, info, path, lst, what, each)
            if r:
                raise Mismatch(prop, '%s [loop in %s]' % (r, fn))
            raise Undecided('%s: no element counter in the loop in %s' % (what, fn))
        best = None
        for p in sorted(cands, key=repr):
            es = set(info.entry.store.norm(v[p]) for v in info.entry_vals.values())
            if len(es) != 1:
                continue
            if not hasattr(info, 'entry_pos'):
                info.entry_pos = {}
            info.entry_pos[p] = es.pop()
            errs = []
            for b in info.backs:
                pos = info.groups[b.src].leaves[p][1]

                def edge(st):
                    v = at(info, st, path)
                    if not isinstance(v, Seq):
                        raise Undecided('%s: %r' % (what, v))
                    P0 = info.seqbase.get(path)
                    rest = list(v.segs[len(P0.segs) if P0 is not None else 0:])
                    if rest and isinstance(rest[0], S) and rest[0].star == star:
                        rest.pop(0)
                    elif P0 is None and v.segs and isinstance(v.segs[0], S) and v.segs[0].star == star:
                        rest = list(v.segs[1:])
                    if not A.decide(st, c_ge(st.store.norm(seqlen(lst) - pos - 1))):
                        raise Dead()
                    c = Cursor(A, st, rest)
                    c.owner = self
                    try:
                        each(c, A.seq_get(st, lst, st.store.norm(pos)), st)
                        if not c.done():
                            raise Mismatch(prop, 'more bytes follow an element of %s' % what)
                    except Mismatch as m:
                        return m.what
                    return None
                for st2, r in forks(A, b.state, edge, limit=200):
                    if r and st2.store.feasible():
                        errs.append('%s [loop in %s]' % (r, fn))
                    else:
                        self.count(prop, True)
            if best is None or len(errs) < len(best[2]):
                best = (p, 0, errs)
            if not errs:
                break
        if best is None:
            raise Undecided('%s: no element counter in the loop in %s' % (what, fn))
        return best

    def misfit(self, A, info, path, lst, what, each):
        """why a loop that does not go from each element to the next cannot be right: it appends the encoding of one
        element and passes over others, or it goes backwards; None when neither is shown"""
        for p, (kd, x) in info.groups[0].leaves.items():
            if kd != 'lin' or not all(p in g.leaves for g in info.groups) or p[-1] == 'len' or not info.backs:
                continue
            ds = [b.state.store.norm(b.vals[p] - info.groups[b.src].leaves[p][1]) for b in info.backs]
            if all(A.known(b.state, c_ge(d - 1)) is True for b, d in zip(info.backs, ds)):
                back = False
            elif all(A.known(b.state, c_eq(d + 1)) is True for b, d in zip(info.backs, ds)):
                back = True
            else:
                continue
            seen, fit = False, True
            for b, d in zip(info.backs, ds):
                pos = info.groups[b.src].leaves[p][1]
                new = b.vals[p]

                def edge(st):
                    v = at(info, st, path)
                    P0 = info.seqbase.get(path)
                    if not isinstance(v, Seq):
                        return 'no'
                    rest = list(v.segs[len(P0.segs) if P0 is not None else 0:])
                    if rest and isinstance(rest[0], S):
                        rest.pop(0)
                    if not rest or any(isinstance(r, S) for r in rest):
                        return 'no'
                    n = seqlen(lst)
                    i = st.store.norm(new if back else new - 1)
                    if not A.decide(st, c_ge(i)) or not A.decide(st, c_ge(st.store.norm(n - i - 1))):
                        raise Dead()
                    c = Cursor(A, st, rest)
                    c.owner = self
                    try:
                        each(c, A.seq_get(st, lst, i), st)
                        if not c.done():
                            return 'no'
                    except Mismatch:
                        return 'no'
                    far = st.copy()     # not by a decision: the names of the elements must stay as they are
                    try:
                        A.assume(far, c_ge(st.store.norm(n - i - 2 if back else new - pos - 2)))
                    except (LIN.Infeasible, Dead):
                        return 'ok'
                    return 'bad' if far.store.feasible() else 'ok'
                for st2, r in forks(A, b.state, edge, limit=200):
                    if not st2.store.feasible():
                        continue
                    if r == 'no':
                        fit = False
                    elif r == 'bad':
                        seen = True
            if fit and seen:
                return 'the elements of %s are written last to first' % what if back else 'some elements of %s are left out' % what
        return None


def uninterpreted(st):
    return False
