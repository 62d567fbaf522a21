"""C01 C02 C04 C05 C06 C07 C08: the incoming decoder against the MQTT 5 packet grammar."""
import os
import time
from lin import *
from lin import Infeasible
from vals import *
from interp import Analyzer, State, Split, Dead, Unsupported, Program
import interp
import models
import contracts
import widen
import mqtt
from spec import *


class Violation:
    made = []

    def __init__(self, prop, where, what, detail='', key=None):
        Violation.made.append(self)
        self.prop, self.where, self.what, self.detail = prop, where, what, detail
        self.key = key or what


class Head(Exception):
    pass


class Layout:
    """what the packet grammar says about one complete frame"""
    def __init__(self):
        self.kind = None
        self.fields = {}
        self.section = None      # (start, end)
        self.rest = None         # (off, len) payload
        self.lenient = None      # reason why rejecting is acceptable too
        self.code = None         # (offset) of the reason byte


class DecodeCheck:
    def __init__(self, P, contract=True):
        self.P = P
        self.contract = contract
        self.viol = []
        self.undecided = []
        self.oblig = {}          # property -> [discharged, total]
        self.t0 = time.time()
        self.loopres = {}
        self.optpaths = {}
        self.seen_accept = {}    # kind -> ids accepted on verified back edges

    # ------------------------------------------------------------ analysis
    def analyse(self):
        P = self.P
        r = contracts.find_root(P, 'Decoder', 'decode', '')
        if r is None:
            raise Undecided('no Decoder::decode implementation found')
        self.key = r['key']
        A = self.A = Analyzer(P, models)
        if self.contract:
            contracts.install(A)
        b = P.bodies[self.key]
        fr = A.frame(None, None, self.key)
        st = State()
        args = [A.sym_value(('self',), b['locals'][1]), A.sym_value(('src',), b['locals'][2])]
        self.base = ('src', '*')
        self.srcalloc = args[1].alloc
        self.L = A.len_sym(self.base)
        self.fn = '%s (%s)' % (b['path'], b['span'])
        self.results = A.run(fr, st, args)

    def count(self, prop, ok):
        x = self.oblig.setdefault(prop, [0, 0])
        x[1] += 1
        x[0] += 1 if ok else 0

    def report(self, prop, what, st, detail='', where=None, key=None):
        if st is not None and not st.store.feasible():
            return
        self.viol.append(Violation(prop, where or self.fn, what, detail or (describe(st) if st else ''), key))

    # ------------------------------------------------------------ spec
    def reader(self, st):
        return R(self.A, st, self.base, self.contract)

    def frame(self, R_):
        """'short' | 'overlong' | (body start, total) of the first frame"""
        if not R_.ge(self.L - 2):
            return 'short'
        x = R_.vbi(ONE, self.L)
        if x == 'short':
            return 'short'
        if x == 'long':
            return 'overlong'
        n, v = x
        if not R_.ge(self.L - 1 - n - v):
            return 'short'
        return R_.n(n + 1), R_.n(n + 1 + v)

    def kind(self, R_):
        nib = R_.div(R_.u8(ZERO), 16)
        for k in mqtt.NIBBLES:
            if R_.A.known(R_.st, c_eq(R_.n(nib - k))) is True:
                return mqtt.NIBBLES[k]
        for k in mqtt.NIBBLES:
            if R_.eq(nib - k):
                return mqtt.NIBBLES[k]
        return None

    def layout(self, R_, body, total, head=False):
        """fixed part of the packet; raises Bad. Does not look inside the property section."""
        kind = self.kind(R_)
        if kind is None:
            raise Bad('unsupported packet type', unsupported=True)
        lo = Layout()
        lo.kind = kind
        try:
            self.layout_(R_, lo, kind, body, total, head)
        except Head:
            pass
        return lo

    def layout_(self, R_, lo, kind, body, total, head):
        b0 = R_.u8(ZERO)

        def need(x):
            if not R_.ge(total - x):
                raise Bad('%s is cut off' % kind)

        def flagbits():
            low = R_.n(b0 - R_.div(b0, 16) * 16)
            if R_.A.known(R_.st, c_eq(low)) is not True:
                lo.lenient = 'reserved header bits may be set'

        def section(p):
            x = R_.vbi(p, total)
            if isinstance(x, str):
                raise Bad('%s property length malformed' % kind)
            n, v = x
            a = R_.n(p + n)
            e = R_.n(p + n + v)
            if not R_.ge(total - e):
                raise Bad('%s property section runs past the packet' % kind)
            lo.section = (a, e)
            if head:
                raise Head()
            return e

        def code(p, table):
            lo.fields['reason'] = Code(table, R_.u8(p))
            lo.code = R_.n(p)

        def pktid(p):
            need(p + 2)
            x = R_.uint(p, 2)
            if R_.eq(x):
                raise Bad('%s packet identifier is zero' % kind)
            lo.fields['pktid'] = Int(x)

        end = None
        if kind == 'CONNACK':
            flagbits()
            need(body + 2)
            f = R_.u8(body)
            if not R_.ge(ONE - f):
                raise Bad('CONNACK reserved flags set')
            lo.fields['session_present'] = Bool(c_eq(f - 1))
            code(body + 1, kind)
            end = section(body + 2)
        elif kind in ('SUBACK', 'UNSUBACK'):
            flagbits()
            pktid(body)
            p = section(body + 2)
            need(p + 1)
            code(p, kind)
            end = p + 1
        elif kind == 'PUBACK':
            flagbits()
            pktid(body)
            if R_.eq(total - body - 2):
                lo.fields['reason'] = Enum('Success')
                end = body + 2
            else:
                code(body + 2, kind)
                end = body + 3
                if R_.ge(total - body - 4):
                    end = section(body + 3)
        elif kind == 'DISCONNECT':
            flagbits()
            if R_.eq(total - body):
                lo.fields['reason'] = Enum('NormalDisconnection')
                end = body
            else:
                code(body, kind)
                end = body + 1
                if R_.ge(total - body - 2):
                    end = section(body + 1)
        elif kind == 'PINGRESP':
            flagbits()
            end = body
        elif kind == 'PUBLISH':
            q = R_.div(b0, 2) - R_.div(b0, 8) * 4
            lo.fields['dup'] = Bool(c_eq(R_.bit(b0, 3) - 1))
            lo.fields['retain'] = Bool(c_eq(R_.bit(b0, 0) - 1))
            if R_.eq(q - 3):
                raise Bad('PUBLISH with QoS 3')
            qos = 2 if R_.eq(q - 2) else 1 if R_.eq(q - 1) else 0
            lo.qos = qos
            lo.fields['qos'] = Enum(mqtt.QOS[qos])
            need(body + 2)
            tl = R_.uint(body, 2)
            p = R_.n(body + 2 + tl)
            need(p)
            if not R_.utf8(body + 2, tl):
                raise Bad('PUBLISH topic is not UTF-8')
            lo.fields['topic'] = Buf(R_.n(body + 2), R_.n(tl))
            if qos:
                need(p + 2)
                x = R_.uint(p, 2)
                if R_.eq(x):
                    raise Bad('PUBLISH packet identifier is zero')
                lo.fields['pktid'] = Opt(Int(x))
                p = R_.n(p + 2)
            else:
                lo.fields['pktid'] = Opt(None)
                if R_.A.known(R_.st, c_eq(R_.n(R_.bit(b0, 3)))) is not True:
                    lo.lenient = 'DUP set on QoS 0'
            p = section(p)
            lo.rest = (p, R_.n(total - p))
            end = total
        lo.end = R_.n(end)
        if lo.lenient is None and R_.A.known(R_.st, c_eq(R_.n(total - end))) is not True:
            lo.lenient = 'trailing bytes'

    # ------------------------------------------------------------ final states
    def check(self):
        order = {'some': 0, 'none': 1, 'err': 2}
        todo = []
        for s, v in self.results:
            try:
                todo.append((order[self.outcome(v)[0]], s, v))
            except Undecided as e:
                self.undecided.append('final state: %s' % e)
        todo.sort(key=lambda t: t[0])
        for o, s, v in todo:
            if o == 0:
                try:
                    forks(self.A, s, lambda st: self.judge(st, v, collect=True), seconds=5)
                except (Undecided, Unsupported):
                    pass
        # short budget first, so that one hard state does not keep the others from being judged
        late = time.time() + self.budget
        for seconds, wide in ((2, False), (2, True), (15, False), (None, False)):
            rest = []
            for o, s, v in todo:
                left = late - time.time()
                if seconds is None and left > 0:
                    seconds = max(5, left / len(todo))
                try:
                    if left <= 0:
                        raise Undecided('time')
                    outs = forks(self.A, s, lambda st: self.judge(st, v), limit=600, seconds=min(seconds, left), wide=wide,
                                 stop=lambda st, rs: any(k is False and p != 'C08' for p, k, _ in rs) and st.store.feasible())
                except (Undecided, Unsupported) as e:
                    rest.append((o, s, v))
                    why = e
                    continue
                self.tally(outs)
            todo = rest
            if not todo:
                break
        for o, s, v in todo:
            self.undecided.append('final state: %s' % why)

    budget = float(os.environ.get("VERIF_BUDGET", 300))

    def tally(self, outs):
        for st, rs in outs:
            for prop, okk, msg in rs:
                if okk is None:
                    self.count(prop, False)
                    self.undecided.append('%s: %s' % (prop, msg))
                    continue
                if not okk and not st.store.feasible():
                    continue
                self.count(prop, okk)
                if not okk:
                    self.report(prop, msg, st)

    def outcome(self, v):
        """('err',) | ('none',) | ('some', packet)"""
        A = self.A
        if not isinstance(v, Agg):
            raise Undecided('decode result %r' % (v,))
        if vname(A, v) == 'Err':
            return ('err',)
        o = v.fs[0]
        if not isinstance(o, Agg):
            raise Undecided('decode result %r' % (v,))
        if vname(A, o) == 'None':
            return ('none',)
        return ('some', o.fs[0])

    def judge(self, st, v, collect=False):
        R_ = self.reader(st)
        out = self.outcome(v)
        if collect and out[0] != 'some':
            return []
        if collect:
            rs = []
            fr = self.frame(R_)
            if isinstance(fr, str):
                return rs
            try:
                lo = self.layout(R_, *fr)
                if lo.kind == 'PUBACK' and lo.section:
                    list_, opt = self.sinks(out[1])
                    if isinstance(opt, Agg) and vname(self.A, opt) == 'Some':
                        self.note_opt(st, opt)
            except Bad:
                pass
            return rs
        rs = []

        def say(prop, okk, msg):
            rs.append((prop, okk, msg))
        fr = self.frame(R_)
        src = st.mem.get(self.srcalloc)
        if src is None:
            src = self.A.load(st, self.srcalloc) if hasattr(self.A, 'load') else None
        if out[0] == 'none':
            if fr == 'short':
                m = is_seq_of(R_, src, ZERO, self.L)
                say('C02', m is None, 'asking for more bytes changes the buffer: %s' % m)
            else:
                say('C02', False, 'asks for more bytes although the first frame is complete' if fr != 'overlong'
                    else 'asks for more bytes after an over-long remaining length')
                if fr != 'overlong' and self.kind(R_) is None:
                    say('C04', False, 'a frame of an unsupported type is passed over without an error')
            return rs
        if out[0] == 'some':
            if isinstance(fr, str):
                say('C02', False, 'a packet is produced from an incomplete frame' if fr == 'short'
                    else 'a packet is produced from a frame with an over-long remaining length')
                return rs
            body, total = fr
            m = self.sub(R_, lambda r: is_seq_of(r, src, total, self.L - total))
            say('C02', m is None, 'after a packet the buffer is not exactly the rest: %s' % m)
            m = self.within(R_, out[1], total)
            say('C02', m is None, 'the packet depends on bytes beyond its frame: %s' % m)
            self.judge_packet(R_, out[1], body, total, say)
            return rs
        # an error value
        if fr == 'overlong':
            say('C02', True, '')
            return rs
        if fr == 'short':
            if R_.ge(self.L - 1):
                say('C02', self.kind(R_) is None, 'an incomplete frame of a supported type is reported as an error')
            else:
                say('C02', False, 'an empty buffer is reported as an error')
            return rs
        self.judge_error(R_, fr[0], fr[1], say)
        return rs

    def within(self, R_, v, total):
        """every byte the value or the path depends on lies inside the frame"""
        st = R_.st
        bad = []

        def go(x):
            if isinstance(x, W) and x.base == self.base:
                if not (R_.n(x.len) is ZERO or st.store.entails_ge(total - x.off - x.len)):
                    bad.append('bytes %s..+%s' % (x.off, x.len))
                return
            if isinstance(x, Lin):
                for a, _ in x.t:
                    atomcheck(a)
            elif isinstance(x, Val):
                for y in x.args():
                    go(y)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, (Val, Lin, tuple)):
                        go(y)
        done = set()

        def atomcheck(a):
            if a in done:
                return
            done.add(a)
            at = LIN.get_atom(a)
            if at.kind == 'byte' and at.key[0] == self.base:
                if not st.store.entails_ge(total - at.key[1] - 1):
                    bad.append('byte at %s' % at.key[1])
            elif at.kind == 'utf8':
                pass
        go(v)
        loops = set(l for l, _ in st.loops)
        for l in list(st.store.ge) + list(st.store.ne):
            for a, _ in l.t:
                atomcheck(a)
        for a, e in st.store.sub.items():
            atomcheck(a)
        return bad[0] if bad else None

    PKT = {'CONNACK': ('connack',), 'PUBLISH': ('publish',), 'PUBACK': ('puback',), 'SUBACK': ('suback',),
           'UNSUBACK': ('unsuback',), 'PINGRESP': ('pingresp',), 'DISCONNECT': ('disconnect',)}

    def sub(self, R_, fn):
        """decide one obligation on its own: first failure message over all its cases, or None"""
        for st, m in forks(self.A, R_.st, lambda st: fn(self.reader(st))):
            if m and st.store.feasible():
                return m
        return None

    def judge_packet(self, R_, pkt, body, total, say):
        A = self.A
        pkt = A.expand(R_.st, pkt, A.variant_idx(R_.st, pkt))
        have = nz(vname(A, pkt))
        kind = self.kind(R_)
        if kind is None or have not in self.PKT[kind]:
            say('C04', False, 'a frame of type %s is turned into a %s packet' % (
                kind or 'that must be rejected', vname(A, pkt)))
            return
        say('C04', True, '')
        try:
            lo = self.layout(R_, body, total)
        except Bad as b:
            say('C05', False, 'a malformed %s is accepted: %s' % (kind, b.why))
            if b.why == 'PUBLISH with QoS 3':
                say('C06', False, 'QoS 3 is accepted')
            return
        p = pkt.fs[0] if pkt.fs else None
        names = {'pktid': ('pktid', 'packet_id', 'packetid', 'pkid', 'id', 'pid'),
                 'reason': ('reason', 'reason_code', 'code'),
                 'topic': ('topic', 'topic_name'), 'dup': ('dup',), 'retain': ('retain', 'retained'),
                 'qos': ('qos',), 'session_present': ('session_present',)}
        for f, e in lo.fields.items():
            try:
                v = self.find_field(p, names[f])
            except Undecided as u:
                say('C05', None, str(u))
                continue
            prop = 'C05'
            if isinstance(e, Code):
                if self.depends_only(R_, v, lo.code):
                    prop = 'C06'
                elif isinstance(v, Agg):
                    prop = 'C06'
            elif f in ('qos', 'dup', 'retain'):
                pass
            try:
                m = self.sub(R_, lambda r: match(r, v, e))
            except Undecided as u:
                say(prop, None, '%s %s: %s' % (kind, f, u))
                continue
            say(prop, m is None, '%s %s %s' % (kind, f, m))
            if prop == 'C06':
                say('C05', True, '')
            if f in ('qos', 'dup', 'retain'):
                say('C06', m is None, '%s %s %s' % (kind, f, m))
        if lo.rest is not None:
            try:
                v = self.find_field(p, ('payload', 'message', 'body'))
                if isinstance(v, SymV):
                    v = A.expand(R_.st, v, A.variant_idx(R_.st, v))
                if vname(A, v) == 'String' and not self.A.known(R_.st, models.utf8_cond(R_.st, self.A.mkseq(R_.st, self.A.u8(), (W(self.base, *lo.rest),)))):
                    # text whose bytes need not be UTF-8 is text with other bytes
                    say('C05', False, 'PUBLISH text payload is not UTF-8')
                else:
                    m = self.sub(R_, lambda r: match(r, v, Buf(*lo.rest)))
                    say('C05', m is None, 'PUBLISH payload %s' % m)
            except Undecided as u:
                say('C05', None, 'PUBLISH payload: %s' % u)
        try:
            def sec(r):
                rs = []
                try:
                    self.judge_section(r, p, lo, lambda *x: rs.append(x))
                except Bad as b:
                    rs.append(('C07', False, 'a malformed %s property section is accepted: %s' % (kind, b.why)))
                return rs
            for st2, rs in forks(A, R_.st, lambda st: sec(self.reader(st))):
                for x in rs:
                    if x[1] or st2.store.feasible():
                        say(*x)
        except Undecided as u:
            say('C07', None, '%s properties: %s' % (kind, u))

    def depends_only(self, R_, v, off):
        x = R_.u8(off)
        return set(deps(v)) <= set(lin_deps(x)) and bool(deps(v))

    def find_field(self, p, names, depth=0):
        A = self.A
        if not isinstance(p, Agg):
            raise Undecided('packet body %r' % (p,))
        fs = {nz(k): x for k, x in fields(A, p).items()}
        for n in names:
            if nz(n) in fs:
                return fs[nz(n)]
        if depth < 2:
            for k, x in fs.items():
                if isinstance(x, Agg) and A.P.types[x.ty].get('kind') == 'struct':
                    try:
                        return self.find_field(x, names, depth + 1)
                    except Undecided:
                        pass
        raise Undecided('no field %s in %s' % (names[0], A.P.ts(p.ty)))

    # ------------------------------------------------------------ property sections
    def sinks(self, p):
        """(list value, option value) that hold the properties of a packet body"""
        v = self.find_field(p if not (isinstance(p, Agg) and self.A.P.types[p.ty].get('kind') == 'enum') else p.fs[0],
                            ('properties', 'props'))
        return self.sinks_of(v)

    def sinks_of(self, v):
        A = self.A
        if isinstance(v, Seq):
            return v, None
        if isinstance(v, Agg):
            lst = opt = None
            for x in v.fs:
                if isinstance(x, Seq):
                    lst = x
                elif isinstance(x, (Agg, SymV)):
                    opt = x
            return lst, opt
        raise Undecided('property container %r' % (v,))

    def note_opt(self, st, opt):
        """find which loop variable the optional property comes from"""
        for lid, g in st.loops:
            info = self.A.looplist.get(lid)
            if info is None or lid in self.optpaths:
                continue
            hd = info.heads[g]
            for path, v in positions(hd.mem):
                if v is opt and any(a for a in deps(opt) if is_phi(a, lid)):
                    self.optpaths[lid] = path
                    break

    def relevant(self, st, vals):
        lids = set()

        def go(x):
            if isinstance(x, S):
                lids.add(x.star[1])
                go(x.len)
            elif isinstance(x, Lin):
                for a, _ in x.t:
                    at = LIN.get_atom(a)
                    if at.kind == 'phi':
                        lids.add(at.key[0])
                    elif at.kind == 'byte':
                        go(at.key[1])
            elif isinstance(x, Val):
                for y in x.args():
                    go(y)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, (Val, Lin, tuple)):
                        go(y)
        for v in vals:
            if v is not None:
                go(v)
        return [(l, g) for l, g in st.loops if l in lids]

    def judge_section(self, R_, p, lo, say):
        A = self.A
        try:
            lst, opt = self.sinks(p)
        except Undecided:
            if lo.section is None:
                return
            raise
        if lo.section is None:
            m = None
            if lst is not None and not R_.eq(seqlen(lst)):
                m = 'properties without a property section'
            if opt is not None and match(R_, opt, Opt(None)):
                m = 'a reason string without a property section'
            say('C07', m is None, '%s %s' % (lo.kind, m))
            return
        a, e = lo.section
        loops = self.relevant(R_.st, [lst, opt])
        c, errs = self.walk(R_, lo.kind, lst, opt, loops, a, e)
        if errs:
            for x in errs:
                say('C07', False, '%s: %s' % (lo.kind, x))
            return
        okk = R_.eq(e - c)
        say('C07', okk, '%s property section: the list covers it up to offset %s, not %s' % (lo.kind, R_.n(c), R_.n(e)))

    def walk(self, R_, kind, lst, opt, loops, a, e, final=True):
        """follow the decoded values through the section; returns (cursor, errors)"""
        c = a
        q = list(lst.segs) if lst is not None else []
        loops = list(loops)
        last = None
        viaopt = False
        for _ in range(64):
            if loops and not (q and isinstance(q[0], E)):
                lid, g = loops.pop(0)
                p, k, errs = self.loop(lid, kind)
                if errs:
                    return c, errs
                if q and isinstance(q[0], S) and q[0].star[1] == lid:
                    q.pop(0)
                path = self.A.looplist[lid].groups[g].leaves[p][1]
                c = R_.n(path + k)
                viaopt = True
                continue
            if not q and R_.eq(e - c):
                break
            if not q and opt is None:
                break
            if not q and not final and match(R_, opt, Opt(last)) is None:
                break
            try:
                pr = parse_prop(R_, c, e, kind)
            except Bad as b:
                return c, ['accepted although %s at offset %s' % (b.why, R_.n(c))]
            if opt is not None and pr.pid == 0x1F:
                last = pr.exp
                viaopt = False
            else:
                if not q:
                    return c, ['%s at offset %s is not in the decoded list' % (pr.name(), R_.n(c))]
                s = q.pop(0)
                if not isinstance(s, E):
                    raise Undecided('property list segment %r' % (s,))
                m = match_prop(R_, s.v, pr)
                if m:
                    return c, [m]
            c = pr.end
        if q:
            for s in q:
                if not R_.eq(seglen(s)):
                    return c, ['the list holds entries that are not in the section']
        if opt is not None and not viaopt:
            m = match(R_, opt, Opt(last))
            if m:
                return c, ['reason string %s' % m]
        return R_.n(c), []

    def loop(self, lid, kind):
        key = (lid, kind)
        if key not in self.loopres:
            self.loopres[key] = self.loop_(lid, kind)
        return self.loopres[key]

    def loop_(self, lid, kind):
        """(cursor leaf, constant, errors): on every path round the loop exactly one property is
        read at the cursor, stored, and the cursor moves to its end"""
        A = self.A
        info = A.looplist[lid]
        # where the list lives
        listpath = None
        for path, md in info.seqmode.items():
            if md == 'acc':
                t = info.seqbase.get(path)
                if t is not None and t.ety != A.u8():
                    listpath = path
        optpath = self.optpaths.get(lid)
        ent = info.entry
        # cursor when the loop is entered
        base = info.seqbase.get(listpath) if listpath else None
        optv = at(info, ent, optpath) if optpath else None

        def entry(st):
            R_ = self.reader(st)
            fr = self.frame(R_)
            if isinstance(fr, str):
                raise Dead()
            lo = self.layout(R_, *fr, head=True)
            if lo.section is None:
                raise Undecided('loop outside a property section')
            a, e = lo.section
            c, errs = self.walk(R_, kind, base, optv, self.relevant(st, [base, optv]), a, e, False)
            return c, errs
        outs = forks(A, ent, entry)
        cs = set(c for _, (c, er) in outs)
        for _, (c, er) in outs:
            if er:
                return None, None, er
        if len(cs) != 1:
            raise Undecided('property loop entered at different offsets')
        c0 = cs.pop()
        best = None
        cands = []
        for path, (kd, x) in info.groups[0].leaves.items():
            if kd != 'lin' or not all(path in g.leaves for g in info.groups):
                continue
            if any(b.state.store.entails_eq(b.vals[path] - info.groups[b.src].leaves[path][1]) for b in info.backs):
                continue
            cands.append(path)
        fn = self.where(info)
        for p in sorted(cands, key=repr):
            ks = set(ent.store.norm(c0 - vals[p]) for vals in info.entry_vals.values())
            if len(ks) != 1:
                continue
            k = ks.pop()
            errs = []
            nfail = 0
            for b in info.backs:
                try:
                    r = forks(A, b.state, lambda st: self.edge(st, info, b, p, k, kind, listpath, optpath))
                except Bad as x:
                    r = [(b.state, x.why)]
                ms = [m for _, m in r if m]
                if ms:
                    nfail += 1
                    errs += ms
            if best is None or nfail < best[0]:
                best = (nfail, p, k, errs)
            if not nfail:
                break
        if best is None:
            raise Undecided('no cursor found for the loop in %s' % fn)
        errs = []
        for m in best[3]:
            m = '%s [loop in %s]' % (m, fn)
            if m not in errs:
                errs.append(m)
        if not errs:
            self.count('C07', True)
        return best[1], best[2], errs

    def where(self, info):
        b = self.P.bodies[info.body]
        return '%s (%s)' % (b['path'], b['span'])

    def edge(self, st, info, b, p, k, kind, listpath, optpath):
        """one way round the loop; None or what is wrong"""
        A = self.A
        R_ = self.reader(st)
        fr = self.frame(R_)
        if isinstance(fr, str):
            raise Dead()
        if self.kind(R_) != kind:
            raise Dead()
        lo = self.layout(R_, *fr, head=True)
        a, e = lo.section
        c = R_.n(info.groups[b.src].leaves[p][1] + k)
        try:
            pr = parse_prop(R_, c, e, kind)
        except Bad as x:
            return 'a property is accepted although %s' % x.why
        new = R_.n(b.vals[p] + k)
        if not R_.eq(new - pr.end):
            return 'after %s the next property is read %s bytes further, not %s' % (
                pr.name(), R_.n(new - c), R_.n(pr.end - c))
        news = []
        if listpath is not None:
            v = at(info, st, listpath)
            P = info.seqbase[listpath]
            rest = v.segs[len(P.segs):]
            star = ('star', info.lid) + listpath
            news = list(rest[1:]) if rest and isinstance(rest[0], S) and rest[0].star == star else list(rest)
        wantopt = kind == 'PUBACK' and pr.pid == 0x1F
        if wantopt:
            if news:
                return 'a reason string is added to the user properties'
            if optpath is None:
                if any(isinstance(x, Agg) for x in ()):
                    pass
                return 'a reason string is accepted but not kept'
            old, cur = at(info, info.heads[b.src], optpath), at(info, st, optpath)
            if isinstance(cur, Agg) and cur.fs and (cur is old or norm(R_, cur) is norm(R_, old)):
                return 'of two reason strings the first is kept'
            m = match(R_, cur, Opt(pr.exp))
            if m:
                return 'reason string %s' % m
            return self.ok_edge(kind, pr)
        if len(news) != 1 or not isinstance(news[0], E):
            return '%s adds %d entries to the list' % (pr.name(), len(news))
        m = match_prop(R_, news[0].v, pr)
        if m:
            return m
        if optpath is not None:
            old = at(info, info.heads[b.src], optpath)
            cur = at(info, st, optpath)
            if cur is not old and norm(R_, cur) is not norm(R_, old):
                return 'a user property changes the reason string'
        return self.ok_edge(kind, pr)

    def ok_edge(self, kind, pr):
        self.seen_accept.setdefault(kind, set()).add(pr.pid)
        self.count('C07', True)
        self.count('C08', True)
        return None

    # ------------------------------------------------------------ errors
    def judge_error(self, R_, body, total, say_):
        kind = self.kind(R_)

        def say(prop, okk, msg):
            # facts about a loop that was not recognised may be too weak to blame this path
            if okk is False and len(self.section_loops(R_.st, kind)) < len(R_.st.loops):
                okk = None
            say_(prop, okk, msg)
        if kind is None:
            say('C04', True, '')
            return
        try:
            lo = self.layout(R_, body, total)
        except Bad:
            say('C05', True, '')
            return
        st = R_.st
        rejected = None
        # a reason byte outside the table?
        if lo.code is not None:
            b = R_.n(R_.u8(lo.code))
            table = mqtt.CODES[kind]
            poss = [v for v in table if not st.store.entails_ne(b - v)]
            if not poss:
                say('C06', True, '')
                return
            if len(poss) == len(table) or not b.t:
                # the path does not single out a defined code: any of them stands for all
                R_.A.assume(st, c_eq(b - poss[0]))
            else:
                for v in poss:
                    if R_.eq(b - v):
                        rejected = 'defined %s reason code %d (%s) is rejected' % (kind, v, table[v])
                        break
                else:
                    say('C06', True, '')
                    return
        if lo.section is not None:
            a, e = lo.section
            sec = self.section_loops(st, kind)
            try:
                if sec:
                    lid, g = sec[-1]
                    p, k, errs = self.loop(lid, kind)
                    if p is None:
                        raise Undecided('property loop not understood')
                    c = R_.n(self.A.looplist[lid].groups[g].leaves[p][1] + k)
                    if not R_.ge(e - c - 1):
                        c = None
                else:
                    c = a if R_.ge(e - a - 1) else None
                n = 0
                while c is not None:
                    try:
                        pr = parse_prop(R_, c, e, kind)
                    except Bad:
                        say('C07', True, '')
                        return
                    if sec or not R_.ge(e - pr.end - 1):
                        if pr.pid == 0x01 and not R_.ge(ONE - pr.exp.a[0]):
                            say('C08', True, '')     # a value MQTT does not define may be refused
                            return
                        if sec:
                            say('C08', False, '%s property 0x%02X %s is rejected' % (kind, pr.pid, pr.name()))
                            return
                        c = None
                        if self.straight(st, kind):
                            say('C08', False, '%s property 0x%02X %s is rejected' % (kind, pr.pid, pr.name()))
                            return
                    else:
                        c = pr.end
                    n += 1
                    if n > 3:
                        raise Undecided('property section read without a loop')
            except Undecided as u:
                say('C08', None, '%s: %s' % (kind, u))
                return
        if lo.lenient:
            say('C05', True, '')
            return
        if lo.rest is not None:
            # a text payload that is not UTF-8 may be refused
            if not R_.utf8(*lo.rest):
                say('C05', True, '')
                return
        if rejected:
            say('C06', False, rejected)
        else:
            say('C05', False, 'a well-formed %s is rejected' % kind)

    def in_section(self, st, kind):
        return bool(self.section_loops(st, kind))

    def straight(self, st, kind):
        return False

    def section_loops(self, st, kind):
        """the loops of st that were recognised as property loops (by an accepted packet)"""
        out = []
        for lid, g in st.loops:
            r = self.loopres.get((lid, kind))
            if r is not None and r[0] is not None:
                out.append((lid, g))
        return out

    # ------------------------------------------------------------ C01
    def check_safety(self):
        A = self.A
        for p in A.panics:
            self.report('C01', 'can panic: %s in %s' % (p.kind, p.fn), p.state, where='%s (%s)' % (p.fn, p.site),
                        key=p.key())
        for l in A.looplist.values():
            okk = l.ranking is not None
            self.count('C01', okk)
            if not okk:
                self.report('C01', 'loop without progress', None, where=self.where(l),
                            detail='no quantity was found that decreases on every way round')
        x = self.oblig.setdefault('C01', [0, 0])
        n = A.stats['asserts'] - len(A.panics)
        x[0] += n
        x[1] += A.stats['asserts']


def norm(R_, v):
    return widen.norm_val(R_.st, v)


def is_phi(a, lid):
    at_ = LIN.get_atom(a)
    return at_.kind == 'phi' and at_.key[0] == lid


def at(info, st, path):
    r = widen.Runner.__new__(widen.Runner)
    r.seqmode, r.seqbase = info.seqmode, info.seqbase
    return r.at(st, path)


def positions(mem):
    """(path, value) of every aggregate position in memory"""
    work = [((a,), v) for a, v in mem.items()]
    while work:
        p, v = work.pop()
        yield p, v
        if isinstance(v, Agg):
            for i, x in enumerate(v.fs):
                work.append((p + (i,), x))


def describe(st):
    s = st.store
    d = []
    for a, e in list(s.sub.items())[:40]:
        d.append('%s = %s' % (LIN.atom_str(a), e))
    for l in list(s.ge)[:40]:
        d.append('%s >= 0' % l)
    for l in list(s.ne)[:20]:
        d.append('%s != 0' % l)
    return '; '.join(d)[:6000]


if __name__ == '__main__':
    import sys
    P = Program('/verif/.work/dump.json')
    D = DecodeCheck(P, contract=len(sys.argv) < 2)
    t = time.time()
    D.analyse()
    print('analysed', time.time() - t, len(D.results))
    D.check()
    D.check_safety()
    print('checked', time.time() - t)
    print(D.oblig, D.seen_accept)
    import collections
    for (p, w), n in collections.Counter((v.prop, v.what) for v in D.viol).items():
        print(p, n, w[:300])
    for u, n in collections.Counter(D.undecided).items():
        print('UNDECIDED', n, u[:300])
