"""The session (the event loop's async body) as a graph: nodes are the abstract states in which its main loop begins a
turn, edges are the turns, each with the events (what was read, taken, written, delivered, released) in order."""
import lin
import lin as LIN
from lin import *
from vals import *
from interp import Analyzer, State, Split, Dead, Unsupported
import interp
import models
import asyncmodels
import loopmodels
from loopmodels import target
import contracts
import widen
from loopmodels import event
from models import deref, snapshot
from spec import *
from clientcheck import find, same, Wrong
from decodecheck import Violation, describe

MAXNODES = 60


class Edge:
    """one turn (or the start): the events, the state it ends in and where it leads"""
    def __init__(self, src, events, st, dst, value=None):
        self.src, self.events, self.st, self.dst, self.value = src, events, st, dst, value

    def __repr__(self):
        return '%s -> %s %s' % (self.src, self.dst, ' '.join(e[0] + "@" + str(e[1])[-5:] for e in self.events))


class Graph:
    def __init__(self, P, limits=None):
        self.P = P
        A = self.A = Analyzer(P, models)
        contracts.install(A)
        A.on_yield = loopmodels.on_yield
        A.received = self.received
        A.coro_loop = self.coro_loop
        A.some_turns = self.some_turns
        self.nodes = {}          # canonical memory -> id
        self.nodemem = []
        self.nodeaux = []
        self.edges = []
        self.extra = []          # obligations raised while exploring
        self.head = None
        self.undecided = []
        self.ghost = lambda s, src, ev: s
        self.setup()

    # ------------------------------------------------------------ the pieces
    def setup(self):
        P, A = self.P, self.A
        for n, f in (('new', self.ids_new), ('next_id', self.ids_next), ('return_id', self.ids_return)):
            b = find(P, 'PktIds', n)
            if b is None:
                raise Undecided('no single PktIds::%s' % n)
            A.overrides[b['key']] = f

    def ids_new(self, A, fr, bb, st, c, args, t):
        event(st, t, 'ids new')
        return [(st, Opq('ids', ()))]

    def ids(self, A, st, p):
        v = target(A, st, p)
        if not (isinstance(v, Opq) and v.tag == 'ids'):
            raise Unsupported('identifier allocator %r' % (v,))

    def ids_next(self, A, fr, bb, st, c, args, t):
        self.ids(A, st, args[0])
        ret = models.rty(t) if t else A.P.types[A.P.info(c['key']).locals[0]]
        ty = A.P.info(c['key']).locals[0]
        x = A.sym_value(A.fresh(st, None, ('id',)), models.vfield(A, ty, 'Some'))
        s2 = st.copy()
        event(st, t, 'take', x)
        event(s2, t, 'none free')
        return [(st, models.some(A, ty, x)), (s2, models.none(A, ty))]

    def ids_return(self, A, fr, bb, st, c, args, t):
        self.ids(A, st, args[0])
        event(st, t, 'release', snapshot(A, st, args[1]))
        return [(st, A.UNIT())]

    def received(self, A, st, x):
        """what the parser guarantees about a packet it returned (check_parser shows it does)"""
        if not isinstance(x, SymV):
            return [(st, x)]

        def f(s):
            i = A.variant_idx(s, x)
            if A.P.types[x.ty]['variants'][i]['name'] != 'Publish':
                return
            if not consistent(A, s, A.expand(s, x, i).fs[0]):
                raise Dead()
        i = [k for k, v in enumerate(A.P.types[x.ty]['variants']) if v['name'] == 'Publish']
        if len(i) != 1:
            return [(st, x)]
        d = A.discr(st, x)
        s2 = st.copy()
        n = int(A.P.types[x.ty]['variants'][i[0]]['discr'])
        A.assume(st, c_ne(d - n))
        A.assume(s2, c_eq(d - n))
        return [(st, x)] + [(s, x) for s, r in forks(A, s2, f)]

    # ------------------------------------------------------------ running
    def entry(self):
        """the coroutine the event loop runs once connected: (key of the async fn, argument roles)"""
        P = self.P
        out = []
        for k, b in P.bodies.items():
            if b['kind'] != 'fn' or not b['local'] or k in self.A.overrides:
                continue
            t = P.types[b['locals'][0]]
            if t['k'] != 'coroutine' or not t['local']:
                continue
            roles = [self.role(x) for x in b['locals'][1:1 + b['args']]]
            if sorted(r for r in roles if r) == ['app', 'commands', 'reader', 'writer']:
                out.append((k, roles))
        # the outermost one: not called by another of them
        called = set()
        bodies = {P.types[P.bodies[k]['locals'][0]]['body'] for k, r in out}
        for k in bodies:
            if k not in P.bodies:
                continue
            for bl in P.bodies[k]['blocks']:
                f = bl and bl['t']['k'] == 'call' and bl['t']['f']
                if f and f['o'] == 'const' and 'fn' in f['v']:
                    called.add(f['v']['fn'].get('key'))
        out = [x for x in out if x[0] not in called]
        if len(out) != 1:
            raise Undecided('%d async functions take the stream and the queues' % len(out))
        return out[0]

    def role(self, ty):
        s = self.P.ts(ty)
        if 'FramedRead<' in s:
            return 'reader'
        if 'FramedWrite<' in s:
            return 'writer'
        if 'mpsc::Receiver<' in s and 'Command' in s:
            return 'commands'
        if 'mpsc::Sender<' in s and 'Notification' in s:
            return 'app'
        return None

    def explore(self):
        A = self.A
        key, roles = self.entry()
        self.fn = self.P.bodies[key]
        st = State()
        f0 = A.frame(None, 'session', key)
        args = []
        for i, r in enumerate(roles):
            if r is None:
                raise Undecided('argument %d of %s' % (i, self.fn['path']))
            args.append(Opq(r, ()))
        rs = A.run(f0, st, args)
        if len(rs) != 1 or not isinstance(rs[0][1], Agg):
            raise Undecided('the session is not one future')
        st, co = rs[0]
        st.trace = (('at', 'start'),)
        ck = self.P.types[co.ty]['body']
        f = A.frame(None, 'body', ck)
        f.coro = 'direct'
        self.body = self.P.bodies[ck]
        for s, v in A.run(f, st, [co, Opq('ctx', ())]):
            ev = s.trace
            self.edges.append(Edge(ev[0][1], ev[1:], s, 'end', snapshot(A, s, v)))
        self.undecided += ['%s' % str(e)[:200] for e in A.incomplete]

    # ------------------------------------------------------------ the main loop
    def coro_loop(self, A, fr, comp, h, states):
        if not (fr.info.b['kind'] == 'coroutine' and fr.coro == 'direct'):
            return NotImplemented
        if not self.is_main(fr, comp):
            return self.some_turns(A, fr, comp, h, states) if self.around(fr, comp, h) else NotImplemented
        if self.head is None:
            self.head = (fr.info.key, h)
        elif self.head != (fr.info.key, h):
            raise Unsupported('a second loop that waits for inputs in %s' % fr.name())
        exits = []
        work = []

        def arrive(s):
            me, ev = s.trace[0][1], s.trace[1:]
            for s2, r in forks(A, s, lambda x: self.ghost(x, me, ev), limit=300):
                n, new = self.node(A, fr, r)
                self.edges.append(Edge(me, ev, r, n))
                if new:
                    work.append(new)
        for s in states:
            arrive(s)
        while work:
            st = work.pop()
            for b, s in A.exec_region(fr, comp, {h: [st.copy()]}, h):
                if b != h:
                    exits.append((b, s))
                    continue
                A.trim(fr, h, s)
                arrive(s)
        return exits

    def around(self, fr, comp, h):
        """a loop around another loop with a wait"""
        ys = set(b for b in comp if fr.info.blocks[b]['t']['k'] == 'yield')
        return any(loop and ys & set(x) for x, loop in fr.info.sccs(frozenset(comp), h))

    def some_turns(self, A, fr, comp, h, states):
        """outside the main loop: the first turns are followed, what comes after them is not decided"""
        exits, cur = [], states
        for i in range(2):
            nxt = []
            for b, s in A.exec_region(fr, comp, {h: [s.copy() for s in cur]}, h):
                if b != h:
                    exits.append((b, s))
                else:
                    A.trim(fr, h, s)
                    nxt.append(s)
            cur = nxt
            if not cur:
                return exits
        e = Unsupported('more than two turns of a loop that acts in %s' % fr.name())
        e.where = A.stack(fr)
        A.incomplete.append(e)
        return exits

    def is_main(self, fr, comp):
        """a loop around several waits, or around other loops with waits"""
        n = sum(1 for b in comp if fr.info.blocks[b]['t']['k'] == 'yield')
        return n > 1

    def node(self, A, fr, s):
        widen.gc(A, s)
        live = {}
        st = State()
        for a in sorted(s.mem, key=repr):
            if a[0] in ('S', 'C'):
                continue
            st.mem[a] = self.canon(A, s, st, s.mem[a], ('head',) + (repr(a),))
        widen.gc(A, st)
        st.aux = s.aux
        k = (frozenset(st.mem.items()), frozenset(st.aux.items()))
        if k in self.nodes:
            return self.nodes[k], None
        n = len(self.nodemem)
        if n >= MAXNODES:
            e = Unsupported('the main loop has too many distinct states')
            e.fatal = True
            raise e
        self.nodes[k] = n
        self.nodemem.append(st)
        st.trace = (('at', n),)
        st.loops = ()
        return n, st

    def canon(self, A, s, st, v, name, ty=None):
        """constants stay, everything else becomes arbitrary"""
        if isinstance(v, Agg):
            t = A.P.types[v.ty]
            fs = []
            tys = []
            if t['k'] == 'adt':
                tys = [f['ty'] for f in t['variants'][v.var or 0]['fields']]
            elif t['k'] == 'tuple':
                tys = t['elems']
            elif t['k'] in ('closure', 'coroutine'):
                tys = t['upvars']
            for i, x in enumerate(v.fs):
                fs.append(self.canon(A, s, st, x, name + (i,), tys[i] if i < len(tys) else None))
            return Agg(v.ty, v.var, tuple(fs))
        if isinstance(v, Lin):
            v = s.store.norm(v)
            if not v.t:
                return v
            if ty is not None:
                return A.sym_value(name, ty)
            lo, hi = s.store.bounds(v)
            return sym(name, lo if lo is not None else 0, hi if hi is not None else interp.MEM_MAX)
        if isinstance(v, Cond):
            k = A.known(s, v)
            if k is None:
                return c_ne(sym(name, 0, 1))
            return TRUE if k else FALSE
        if isinstance(v, SymV):
            return A.sym_value(name, v.ty)
        if isinstance(v, Seq):
            return self.canon_seq(A, s, v, name)
        if isinstance(v, Ptr):
            return v
        return v

    def canon_seq(self, A, s, v, name):
        if not v.segs:
            return v
        return Seq(v.ety, (W(name, ZERO, A.len_sym(name)),))


def getfield(A, s, v, what):
    """a field by what it means, also inside nested structs"""
    from enccheck import NAMES
    v = opened(A, s, v)
    want = set(nz(n) for n in NAMES[what])
    todo = [v]
    while todo:
        x = todo.pop(0)
        if not isinstance(x, Agg) or A.P.types[x.ty].get('kind') != 'struct':
            continue
        fs = fields(A, x)
        for k, y in fs.items():
            if nz(k) in want:
                return y
        todo += list(fs.values())
    raise Undecided('no %s in %s' % (what, A.P.ts(v.ty) if isinstance(v, (Agg, SymV)) else v))


def opened(A, s, v):
    while isinstance(v, Ptr):
        v = deref(A, s, v)
    if isinstance(v, SymV) or isinstance(v, Agg) and A.P.types[v.ty].get('kind') == 'enum':
        return A.expand(s, v, A.variant_idx(s, v))
    return v


def consistent(A, s, p):
    """a PUBLISH with a QoS above 0 has a packet identifier"""
    if vname(A, opened(A, s, getfield(A, s, p, 'qos'))) == 'AtMostOnce':
        return True
    x = opened(A, s, getfield(A, s, p, 'pktid'))
    return not (isinstance(x, Agg) and vname(A, x) == 'None')


# ------------------------------------------------------------------------------------------------ the rules
INPUTS = ('tick', 'read', 'read failed', 'read ended', 'read ended again', 'command', 'commands ended',
          'commands ended again')
FRESH = ('tick', 'read', 'read failed', 'read ended', 'command', 'commands ended')
PUBS = {'Publish': 'Publish', 'Subscribe': 'Subscribe', 'Unsubscribe': 'Unsubscribe', 'Disconnect': 'Disconnect'}
OUT = ('Publish', 'Subscribe', 'Unsubscribe')


def base_atoms(st):
    """the numbers a state of the loop consists of"""
    out = set(st.store.lo) | set(st.store.hi) | set(st.store.sub)
    for l in st.store.ge | st.store.ne:
        out.update(a for a, k in l.t)

    def go(v, d=0):
        if isinstance(v, LIN.Lin):
            out.update(a for a, k in v.t)
        elif isinstance(v, Seq):
            go(seqlen(v))
        elif isinstance(v, Agg):
            for x in v.fs:
                go(x, d + 1)
    for v in st.mem.values():
        go(v)
    return out


def over(store, base):
    """the constraints on these numbers only, as (equality?, expression)"""
    out = []
    for a in base:
        if a in store.sub:
            out.append((True, LIN.var(LIN._ATOMS[a]) - store.norm(LIN.var(LIN._ATOMS[a]))))
        lo, hi = store.lo.get(a), store.hi.get(a)
        if lo is not None:
            out.append((False, LIN.var(LIN._ATOMS[a]) - lo))
        if hi is not None:
            out.append((False, -LIN.var(LIN._ATOMS[a]) + hi))
    out += [(False, l) for l in store.ge]
    return [x for x in out if all(a in base for a, k in x[1].t)]


def together(store, *parts):
    s = store.copy()
    try:
        for p in parts:
            for eq, l in p:
                (s.assume_eq if eq else s.assume_ge)(l)
        return s.feasible()
    except LIN.Infeasible:
        return False


class Turn:
    """one input and everything done because of it; end: None (goes on), else the value the session ends with"""
    def __init__(self, inp, eff, edge, end, index):
        self.inp, self.eff, self.edge, self.end, self.index = inp, eff, edge, end, index

    def kind(self):
        return self.inp[0] if self.inp else 'start'

    def where(self):
        return self.inp[1] if self.inp else ''

    def of(self, *kinds):
        return [e for e in self.eff if e[0] in kinds]


def flushed(events):
    """a packet that is buffered counts as written when it is flushed before the turn ends"""
    ev = []

    def fate(i):
        for e in events[i + 1:]:
            if e[0] in ('flush', 'close', 'write'):
                return 'write'
            if e[0] == 'write failed':
                return 'write failed'
        return 'unflushed'
    buffered = False
    for i, e in enumerate(events):
        if e[0] == 'feed':
            buffered = True
            e = (fate(i),) + e[1:]
        elif e[0] == 'write failed' and len(e) < 3:
            if buffered:
                continue        # it is the packets buffered that were not written
            e = e + (None,)
        elif e[0] in ('flush', 'close', 'write'):
            buffered = False
        if e[0] in ('queued', 'queue refused'):
            if not (isinstance(e[1], Opq) and e[1].tag == 'app'):
                raise Undecided('something is queued on %r' % (e[1],))
            e = (e[0], '', e[2])
        ev.append(e)
    return ev


def turns(edge):
    """the inputs of an edge with their effects"""
    cur = []
    out = []
    inp = None
    for e in flushed(edge.events):
        if e[0] in INPUTS:
            if inp is not None or cur:
                out.append(Turn(inp, cur, edge, None, len(out)))
            inp, cur = e, []
        else:
            cur.append(e)
    out.append(Turn(inp, cur, edge, edge.value, len(out)))
    return out


def flat(x):
    if isinstance(x, tuple):
        for y in x:
            yield from flat(y)
    elif isinstance(x, Val):
        yield x
        for y in x.args():
            yield from flat(y)


class LoopCheck:
    def __init__(self, P):
        self.P = P
        self.viol = []
        self.undecided = []
        self.oblig = {}
        self.g = Graph(P)
        self.g.ghost = self.ghost
        self.A = self.g.A
        try:
            self.g.explore()
            self.undecided += ['not analysed: %s' % u for u in sorted(set(self.g.undecided))]
        except (Undecided, Unsupported) as e:
            self.undecided.append('not analysed: %s' % e)
            self.g = None

    def count(self, prop, ok):
        x = self.oblig.setdefault(prop, [0, 0])
        x[1] += 1
        x[0] += 1 if ok else 0

    # ------------------------------------------------------------ values
    def kind(self, s, v):
        """name of the variant, and its fields"""
        if v is None:
            return None, ()
        v = self.open(s, v)
        return vname(self.A, v), v.fs

    def open(self, s, v):
        return opened(self.A, s, v)

    def get(self, s, v, what):
        return getfield(self.A, s, v, what)

    def optget(self, s, v, what):
        """the same for an optional field: None or the value"""
        x = self.open(s, self.get(s, v, what))
        if isinstance(x, Agg) and vname(self.A, x) in ('Some', 'None'):
            return x.fs[0] if vname(self.A, x) == 'Some' else None
        return x

    def same(self, s, a, b):
        return same(self.A, s, a, b)

    def unset(self, s, p, what, why):
        try:
            v = self.get(s, p, what)
        except Undecided:
            return      # no such option
        if isinstance(v, Cond):
            if self.A.decide(s, v):
                raise Wrong(why)
        elif isinstance(v, Lin):
            if self.A.decide(s, c_ne(s.store.norm(v))):
                raise Wrong(why)

    def lines(self, t):
        return ' then '.join('%s (%s)' % (e[0], e[1]) for e in ([t.inp] if t.inp else []) + t.eff)

    def failed(self, s, t):
        """does the session end here with an error (True), with success (False), or go on (None)"""
        if t.end is None:
            return None
        return self.kind(s, t.end)[0] == 'Err'

    def errkind(self, s, t):
        e = self.open(s, t.end).fs[0]
        for x in models.subvals(e):
            if isinstance(x, Agg) and self.A.P.ts(x.ty).endswith('ErrorKind'):
                return vname(self.A, x)
        return None

    def quiet(self, t):
        """nothing written, delivered or queued from here on"""
        return not t.of('write', 'write failed', 'feed', 'notify', 'notify failed')

    # ------------------------------------------------------------ history
    def ghost(self, s, src, events):
        """what happened to the last PINGREQ: None (none sent), 'sent', 'answered'"""
        g = s.aux.get('ping')
        for e in events:
            if e[0] in ('write', 'feed') and self.kind(s, e[2])[0] == 'PingReq':
                g = 'sent'
            elif e[0] == 'read' and self.kind(s, e[2])[0] == 'PingResp' and g is not None:
                g = 'answered'
        s.setaux('ping', g)
        return s

    # ------------------------------------------------------------ driver
    def check(self, props):
        if self.g is None:
            return
        for p in props:
            f = getattr(self, 'rule_' + p)
            pre = getattr(self, 'pre_' + p, None)
            try:
                if pre:
                    pre()
            except (Undecided, Unsupported) as e:
                self.undecided.append('%s: %s' % (p, e))
                continue
            n = len(self.viol)
            for e in self.g.edges:
                ts = turns(e)
                for t in ts:
                    self.run(p, f, e, t)
            post = getattr(self, 'post_' + p, None)
            if post:
                try:
                    post()
                except (Undecided, Unsupported) as e:
                    self.undecided.append('%s: %s' % (p, e))
            if p in ('C13', 'C19', 'C20') and len(self.viol) > n and self.kept_in_order():
                # these rules follow a command within one turn
                self.undecided.append('%s: commands are kept from one turn to a later one' % p)
                del self.viol[n:]

    def kept_in_order(self):
        """commands are kept across turns, and none is taken from the channel before all that are kept are gone"""
        def holds(ty, d=0):
            t = self.P.types[ty]
            if t.get('path') == 'Command' and t.get('local'):
                return True
            return d < 5 and any(holds(x, d + 1) for x in list(t.get('args') or ()) + list(t.get('elems') or ())
                                 if isinstance(x, int))
        kept = []
        for st in self.g.nodemem:
            ls, some = [], []

            def go(v):
                if isinstance(v, Seq):
                    if holds(v.ety):
                        ls.append(seqlen(v))
                elif isinstance(v, (Agg, SymV)) and isinstance(v.ty, int):
                    if self.P.types[v.ty].get('path') == 'Command' or isinstance(v, SymV) and holds(v.ty):
                        some.append(v)
                    for x in getattr(v, 'fs', ()):
                        go(x)
            for a, v in st.mem.items():
                go(v)
            kept.append((ls, some))
        if not any(ls or some for ls, some in kept):
            return False
        for e in self.g.edges:
            if e.src == 'start' or not any(x[0] == 'command' for x in e.events):
                continue
            if e.events[0][0] not in INPUTS:
                continue        # something kept comes first
            ls, some = kept[e.src]
            if some or not all(e.st.store.entails_eq(l) for l in ls):
                return False
        return True

    def run(self, p, f, e, t):
        def go(s):
            try:
                f(s, t)
                return None
            except Wrong as w:
                return w
        try:
            for s, w in forks(self.A, e.st, go, limit=2000):
                self.count(p, w is None)
                if w is not None and s.store.feasible():
                    self.report(p, t, str(w), s)
        except (Undecided, Unsupported) as x:
            self.undecided.append('%s: %s: %s' % (p, t.where(), x))

    def report(self, p, t, what, s):
        fn = self.g.body['path']
        at = t.where() or (t.eff[0][1] if t.eff else self.g.body['span'])
        v = Violation(p, '%s at %s' % (fn, at), what, 'turn: %s%s; %s' % (
            self.lines(t), '' if t.end is None else ' then the end with %s' % (self.open(s, t.end),), describe(s)[:2000]))
        self.viol.append(v)

    # ------------------------------------------------------------ C12
    def rule_C12(self, s, t):
        for e in t.of('write', 'write failed'):
            if self.kind(s, e[2])[0] == 'Connect' and (t.edge.src != 'start' or t.index):
                raise Wrong('a second CONNECT is written at %s' % e[1])
        if t.edge.src != 'start' or t.index:
            return
        ev = list(t.edge.events)

        def isconn(e):
            return self.kind(s, e[2])[0] == 'Connect'

        def fails(rest, why):
            for e in rest:
                if e[0] in ('write', 'feed', 'write failed'):
                    raise Wrong('%s, and a packet is still written at %s' % (why, e[1]))
                if e[0] in ('command', 'tick', 'take'):
                    raise Wrong('%s, and the session goes on at %s' % (why, e[1]))
            if t.edge.value is None:
                raise Wrong('%s, and the session starts' % why)
            if self.kind(s, t.edge.value)[0] != 'Err':
                raise Wrong('%s, and the event loop ends with success' % why)
        if not ev or ev[0][0] not in ('write', 'write failed') or not isconn(ev[0]):
            raise Wrong('the first thing done on the connection is not writing CONNECT')
        if ev[0][0] == 'write failed':
            return fails(ev[1:], 'CONNECT cannot be written')
        ev.pop(0)
        if not ev:
            raise Wrong('the session starts without waiting for CONNACK')
        e = ev.pop(0)
        if e[0] in ('read failed', 'read ended'):
            return fails(ev, 'the stream %s before CONNACK' % ('fails' if e[0] == 'read failed' else 'ends'))
        if e[0] != 'read':
            raise Wrong('%s before CONNACK has arrived' % e[0])
        k, fs = self.kind(s, e[2])
        if k != 'Connack':
            return fails(ev, 'the first packet is %s' % k)
        good = self.kind(s, self.get(s, fs[0], 'reason'))[0] == 'Success'
        told = False
        lost = False
        for e in ev:
            if e[0] in ('notify', 'notify failed'):
                if self.kind(s, e[2])[0] == 'ConnAck':
                    told = True
                    lost = e[0] == 'notify failed'
            elif not told and e[0] in ('write', 'feed', 'write failed', 'command', 'take'):
                raise Wrong('%s at %s before CONNACK is handed to the application' % (e[0], e[1]))
        if not good:
            return fails([e for e in ev if e[0] not in ('notify', 'notify failed')], 'CONNACK refuses the connection')
        if not told:
            raise Wrong('a session starts and CONNACK has not been handed to the application'
                        if t.edge.value is None else 'CONNACK is not handed to the application')
        if t.edge.value is not None and len(turns(t.edge)) == 2 and not lost and not any(
                e[0] in ('write failed',) for e in ev):
            raise Wrong('CONNACK accepts the connection and no session starts')

    # ------------------------------------------------------------ C13
    def matches(self, s, cmd, pkt):
        """is pkt what cmd asks for; raises Wrong"""
        ck, cf = self.kind(s, cmd)
        pk, pf = self.kind(s, pkt)
        if PUBS.get(ck) is None:
            raise Undecided('command %s' % ck)
        if pk != PUBS[ck]:
            raise Wrong('a %s command is answered by writing %s' % (ck, pk))
        if not pf:
            return
        p = pf[0]
        if ck == 'Publish':
            fs = fields(self.A, self.open(s, cmd))
            for n in ('topic', 'payload', 'properties', 'qos', 'retain'):
                want = [x for k, x in fs.items() if nz(k) == nz(n)]
                if len(want) != 1:
                    raise Undecided('no %s in the publish command' % n)
                if not self.same(s, want[0], self.get(s, p, n)):
                    raise Wrong('the %s of the written PUBLISH is not the one of the command' % n)
            self.unset(s, p, 'dup', 'a PUBLISH written for the first time is marked as a duplicate')
        elif ck == 'Subscribe':
            if not self.same(s, cf[0], self.get(s, p, 'topic')):
                raise Wrong('the topic filter of the written SUBSCRIBE is not the one of the command')
            if not self.same(s, cf[1], self.get(s, p, 'qos')):
                raise Wrong('the QoS of the written SUBSCRIBE is not the one of the command')
            for n in ('no_local', 'rap'):
                self.unset(s, p, n, 'the written SUBSCRIBE asks for an option the command does not have')
        elif ck == 'Unsubscribe':
            if not self.same(s, cf[0], self.get(s, p, 'topics')):
                raise Wrong('the topic filters of the written UNSUBSCRIBE are not those of the command')

    def rule_C13(self, s, t):
        ws = t.of('write', 'write failed')
        for e in t.of('unflushed'):
            if t.end is None:
                raise Wrong('a packet is left in the buffer at %s' % e[1])
        if t.kind() != 'command':
            for e in ws:
                k = self.kind(s, e[2])[0]
                if k in OUT:
                    raise Wrong('%s is written at %s without a command' % (k, e[1]))
            return
        cmd = t.inp[2]
        for e in ws:
            self.matches(s, cmd, e[2])
        if len(ws) > 1:
            raise Wrong('%d packets are written for one command' % len(ws))
        if not [e for e in ws if e[0] != 'write failed'] and self.failed(s, t) is not True:
            raise Wrong('no packet is written for a %s command' % self.kind(s, cmd)[0])

    # ------------------------------------------------------------ C14
    def ident(self, s, pkt):
        """(needs one, packet identifier or None) of an outgoing packet"""
        k, fs = self.kind(s, pkt)
        if k not in OUT:
            return None, None
        if k == 'Publish':
            q = self.kind(s, self.get(s, fs[0], 'qos'))[0]
            return q != 'AtMostOnce', self.optget(s, fs[0], 'pktid')
        return True, self.get(s, fs[0], 'pktid')

    def rule_C14(self, s, t):
        A = self.A
        for e in t.of('ids new'):
            if t.edge.src != 'start':
                raise Wrong('the identifiers in use are forgotten at %s' % e[1])
        takes = [e[2] for e in t.of('take')]
        for e in t.of('write', 'write failed'):
            need, x = self.ident(s, e[2])
            if need is None:
                continue
            if not need:
                if x is not None:
                    raise Wrong('a QoS 0 PUBLISH is written with a packet identifier at %s' % e[1])
                continue
            if x is None:
                raise Wrong('%s without a packet identifier is written at %s' % (self.kind(s, e[2])[0], e[1]))
            hit = [y for y in takes if self.same(s, x, y)]
            if not hit:
                raise Wrong('%s at %s is written with an identifier that was not taken for it' % (
                    self.kind(s, e[2])[0], e[1]))
            takes.remove(hit[0])
        if takes and self.failed(s, t) is not True:
            raise Wrong('an identifier is taken for no packet')
        rel = [e for e in t.of('release')]
        ack = None
        if t.kind() == 'read':
            k, fs = self.kind(s, t.inp[2])
            if k in ('SubAck', 'UnsubAck', 'PubAck'):
                ack = k
                x = self.get(s, fs[0], 'pktid')
        if ack is None:
            if rel:
                raise Wrong('an identifier is released at %s and no acknowledgement has arrived' % rel[0][1])
        else:
            for e in rel:
                if not self.same(s, e[2], x):
                    raise Wrong('the identifier released at %s is not the one of the %s' % (e[1], ack))
            if len(rel) > 1:
                raise Wrong('a %s releases its identifier twice' % ack)
            if ack in ('SubAck', 'UnsubAck') and not rel and self.failed(s, t) is not True:
                raise Wrong('a %s does not release its identifier' % ack)
        if t.edge.dst == 'end':
            if ack == 'PubAck' and rel and t.edge.src != 'start':
                pass
            return
        self.record(s, t, ack, x if ack else None, rel)

    def sequences(self, st):
        """(place -> sequence) of everything held across turns"""
        out = {}

        def go(p, v, d=0):
            if isinstance(v, Seq):
                out[p] = v
            elif isinstance(v, Agg):
                for i, x in enumerate(v.fs):
                    go(p + (i,), x, d + 1)
        for a, v in st.mem.items():
            if a[0] in ('L', 'H', 'T'):
                go((a,), v)
        return out

    def pre_C14(self):
        """which sequence records the publishes in flight: the one every QoS 1 publish is added to"""
        g, A = self.g, self.A
        self.recs = None
        self.idpath = {}
        for e in g.edges:
            if e.dst == 'end' or e.src == 'start':
                continue
            ts = turns(e)
            for t in ts:
                if t.kind() != 'command':
                    continue

                def f(s):
                    if not any(self.qos1(s, x) for x in t.of('write', 'write failed')):
                        return None
                    ids = [x[2] for x in t.of('take')]
                    if len(ids) != 1:
                        return set()
                    before = self.sequences(g.nodemem[e.src])
                    now = self.sequences(s)
                    r = set()
                    for p, v in now.items():
                        if p not in before:
                            continue
                        got = self.added(s, before[p], v)
                        if got is None:
                            continue
                        pa = self.path_of(s, got, ids[0])
                        if pa is not None:
                            r.add((p, pa))
                    return r
                for s, r in forks(A, e.st, f, limit=500):
                    if r is None:
                        continue
                    self.recs = r if self.recs is None else self.recs & r
        if self.recs is not None and len(self.recs) > 1:
            raise Undecided('several sequences hold the publishes in flight')

    def added(self, s, before, v):
        """the element v has more than before (at its end or its start)"""
        b, n = list(before.segs), list(v.segs)
        if len(n) == len(b) + 1:
            if n[:-1] == b and isinstance(n[-1], E):
                return n[-1].v
            if n[1:] == b and isinstance(n[0], E):
                return n[0].v
        return None

    def path_of(self, s, v, x, p=()):
        if isinstance(v, Ptr):
            return None
        if isinstance(v, Lin):
            return p if s.store.norm(v - x) == ZERO else None
        if isinstance(v, Agg):
            for i, y in enumerate(v.fs):
                r = self.path_of(s, y, x, p + (i,))
                if r is not None:
                    return r
        return None

    def at(self, s, v, path):
        for i in path:
            while isinstance(v, Ptr):
                v = deref(self.A, s, v)
            v = self.A.child(s, v, i)
        return v

    def record(self, s, t, ack, x, rel):
        A = self.A
        if t.edge.src == 'start':
            return
        if self.recs is None:
            return
        publishes = any(self.qos1(s, x) for x in t.of('write', 'write failed'))
        if not self.recs:
            if publishes:
                raise Wrong('a QoS 1 PUBLISH is not recorded as in flight under its identifier')
            if ack == 'PubAck' and rel:
                raise Wrong('a PUBACK releases its identifier whether or not a PUBLISH awaits it')
            return
        (place, path), = self.recs
        if len(turns(t.edge)) > 1:
            if t.index == 0:
                raise Undecided('several inputs in one turn')
            return
        before = self.sequences(self.g.nodemem[t.edge.src]).get(place)
        now = self.sequences(s).get(place)
        if before is None or now is None:
            raise Undecided('the record of publishes in flight has moved')
        if publishes:
            return         # established by pre_C14
        if now.segs == before.segs:
            if ack != 'PubAck':
                return
            if rel:
                raise Wrong('a PUBACK releases its identifier and its PUBLISH stays recorded as in flight')
            if not before.segs:
                return

            def other(A, s2, el):
                return A.decide(s2, c_ne(s2.store.norm(self.at(s2, el, path) - x)))
            self.beyond(s, before, path, x)
            if not walk(A, s, before, other):
                raise Wrong('a PUBACK is dropped without looking at every PUBLISH in flight')
            return
        if len(now.segs) == 1 and isinstance(now.segs[0], W) and now.segs[0].base in A.retains:
            return self.filtered(s, before, now, path, ack, x, rel)
        i = self.gap(s, before, now)
        if i is None:
            raise Wrong('the record of publishes in flight changes')
        if ack != 'PubAck':
            raise Wrong('a PUBLISH in flight is forgotten without PUBACK')
        w = before.segs[0]
        if not any(self.same(s, self.at(s, A.elem(w.base, j, before.ety), path), x) for j in self.aliases(s, w.base, i)):
            raise Wrong('a PUBACK removes a PUBLISH with another identifier from the record')
        if not rel:
            raise Wrong('a PUBACK does not release the identifier of its PUBLISH')

    def filtered(self, s, before, now, path, ack, x, rel):
        """the record was filtered: exactly the PUBLISH with the acknowledged identifier goes"""
        A = self.A
        w = now.segs[0]
        if w.base[1] != before.segs:
            raise Undecided('the record is filtered and changed')
        gone = s.store.norm(seqlen(before) - w.len)
        if ack != 'PubAck':
            if A.decide(s, c_eq(gone)):
                return
            raise Wrong('a PUBLISH in flight is forgotten without PUBACK')
        for el, rs in A.retains[w.base]:
            for s2, v in rs:
                if isinstance(v, Lin):
                    v = c_ne(v)
                d = s2.store.norm(self.at(s2, el, path) - x)
                for c, keep in ((c_eq(d), False), (c_ne(d), True)):
                    s3 = s2.copy()
                    try:
                        A.assume(s3, c)
                        A.assume(s3, c_not(v) if keep else v)
                    except (LIN.Infeasible, Dead):
                        continue
                    except Split:
                        raise Undecided('the predicate the record is filtered by')
                    if s3.store.feasible(True):
                        raise Wrong('a PUBACK removes a PUBLISH with another identifier from the record' if keep else
                                    'a PUBACK leaves its PUBLISH in the record')
        if self.holds(s, before.segs[0].base, before.ety, path, x):
            if not rel:
                raise Wrong('a PUBACK does not release the identifier of its PUBLISH')
            return
        if loops_over(A, s, before) and A.known(s, c_eq(gone)) is None:
            raise Undecided('the record is filtered and searched')
        if rel and A.decide(s, c_eq(gone)):
            raise Wrong('a PUBACK releases its identifier whether or not a PUBLISH awaits it')
        if not rel and not A.decide(s, c_eq(gone)):
            raise Wrong('a PUBACK does not release the identifier of its PUBLISH')

    def beyond(self, s, seq, path, x):
        """the search stops before the end, and the PUBLISH may be behind"""
        A = self.A
        if loops_over(A, s, seq):
            return
        n = seqlen(seq)
        ps = []
        for lid, g in s.loops:
            info = A.looplist.get(lid)
            if info is None:
                continue
            for p, (kd, y) in info.groups[g].leaves.items():
                if kd == 'lin' and all(p in h.leaves for h in info.groups) and all(A.known(b.state, c_eq(b.state.store.norm(
                        b.vals[p] - info.groups[b.src].leaves[p][1] - 1))) is True for b in info.backs) and all(
                        A.known(info.entry, c_eq(info.entry.store.norm(v[p]))) is True for v in info.entry_vals.values()):
                    ps.append(y)
        if not ps:
            return
        s2 = s.copy()
        try:
            for y in ps:
                A.assume(s2, c_ge(s2.store.norm(n - y - 1)))
            j = s2.store.norm(n - 1)
            v = self.at(s2, A.elem(seq.segs[0].base, s2.store.norm(seq.segs[0].off + j), seq.ety), path)
            A.assume(s2, c_eq(s2.store.norm(v - x)))
        except (LIN.Infeasible, Split):
            return
        if s2.store.feasible(True):
            raise Wrong('the search for the PUBLISH a PUBACK is for stops before the end of the record')

    def holds(self, s, base, ety, path, x):
        """is it known that some element carries this identifier"""
        A = self.A
        for j in self.aliases(s, base, None):
            try:
                if A.known(s, c_eq(s.store.norm(self.at(s, A.elem(base, j, ety), path) - x))) is True:
                    return True
            except (Split, Unsupported):
                pass
        return False

    def aliases(self, s, base, i):
        """the ways the state names index i (or the indices it names)"""
        out = [] if i is None else [i]

        def go(k):
            if isinstance(k, tuple):
                if len(k) >= 3 and k[0] == 'el' and k[1] == base and isinstance(k[2], Lin):
                    if k[2] not in out and (i is None or self.A.known(s, c_eq(s.store.norm(k[2] - i))) is True):
                        out.append(k[2])
                    return
                for y in k:
                    go(y)
        for a, e in list(s.store.sub.items()):
            for l in (lin.get_atom(a).key,) + tuple(lin.get_atom(b).key for b, _ in e.t):
                go(l)
        for l in list(s.store.ge) + list(s.store.ne):
            for b, _ in l.t:
                go(lin.get_atom(b).key)
        return out

    def qos1(self, s, e):
        """is a QoS 1 PUBLISH written by this event"""
        k, fs = self.kind(s, e[2])
        return k == 'Publish' and self.kind(s, self.get(s, fs[0], 'qos'))[0] == 'AtLeastOnce'

    def gap(self, s, before, now):
        """index of the one element that is gone"""
        A = self.A
        if len(before.segs) != 1 or not isinstance(before.segs[0], W):
            raise Undecided('record %r' % (before,))
        w = before.segs[0]
        n = s.store.norm
        o = ZERO
        hole = None
        for x in now.segs:
            if isinstance(x, W) and isinstance(x.base, tuple) and x.base and x.base[0] == 'retain':
                raise Undecided('the record is filtered by a closure')
            if not isinstance(x, W) or x.base != w.base:
                return None
            if A.decide(s, c_eq(n(x.len))):
                continue
            d = n(x.off - w.off - o)
            if not A.decide(s, c_eq(d)):
                if hole is not None or not A.decide(s, c_eq(n(d - 1))):
                    return None
                hole = o
            o = n(x.off - w.off + x.len)
        if A.decide(s, c_eq(n(o - w.len))):
            return hole
        if hole is None and A.decide(s, c_eq(n(o + 1 - w.len))):
            return o
        return None

    # ------------------------------------------------------------ C16 C17
    def describes(self, s, text, what):
        """is the text made from the whole of what"""
        if not isinstance(text, Seq):
            return self.same(s, text, what)
        found = False
        for g in text.segs:
            if not (isinstance(g, X) and isinstance(g.tag, tuple) and g.tag and g.tag[0] == 'fmt'):
                if isinstance(g, X):
                    raise Undecided('text %r' % (g,))
                continue
            found = True
            for y in flat(g.tag[1:]):
                if isinstance(y, (Agg, SymV)) and isinstance(what, (Agg, SymV)) and y.ty == what.ty:
                    if self.same(s, y, what):
                        return True
        return False

    def delivered(self, t):
        return t.of('notify', 'notify failed', 'queued', 'queue refused')

    def rule_C16(self, s, t):
        acks = [e for e in t.of('write', 'write failed') if self.kind(s, e[2])[0] == 'PubAck']
        k = fs = None
        if t.kind() == 'read':
            k, fs = self.kind(s, t.inp[2])
        if k != 'Publish':
            if acks:
                raise Wrong('PUBACK is written at %s and no PUBLISH has arrived' % acks[0][1])
            return
        if t.edge.src == 'start':
            return
        q = self.kind(s, self.get(s, fs[0], 'qos'))[0]
        x = self.optget(s, fs[0], 'pktid')
        if q == 'AtMostOnce' and acks:
            raise Wrong('PUBACK is written for a QoS 0 PUBLISH')
        if q == 'ExactlyOnce' and acks:
            raise Wrong('PUBACK is written for a QoS 2 PUBLISH')
        if q == 'ExactlyOnce':
            return
        end = self.failed(s, t)
        bad = t.of('write failed')
        if q == 'AtLeastOnce':
            if len(acks) > 1:
                raise Wrong('PUBACK is written twice')
            if not acks:
                raise Wrong('a QoS 1 PUBLISH is not answered with PUBACK')
            pk, pf = self.kind(s, acks[0][2])
            if x is None:
                raise Undecided('QoS 1 without an identifier')
            if not self.same(s, self.get(s, pf[0], 'pktid'), x):
                raise Wrong('PUBACK carries another identifier than the PUBLISH')
            r = self.kind(s, self.get(s, pf[0], 'reason'))[0]
            if r != 'Success':
                raise Wrong('PUBACK carries the reason %s' % r)
        ms = [e for e in self.delivered(t)]
        msgs = [e for e in ms if self.kind(s, e[-1])[0] == 'Message']
        lost = [e for e in msgs if e[0] == 'queue refused']
        if lost:
            raise Wrong('a PUBLISH is not delivered when the channel is full (%s)' % lost[0][1])
        if bad and end:
            if msgs and t.eff.index(msgs[-1]) > t.eff.index(bad[0]):
                raise Wrong('a message is delivered after a failed write')
            return
        if len(msgs) != 1:
            raise Wrong('a PUBLISH leads to %d message notifications' % len(msgs))
        if not self.describes(s, self.kind(s, msgs[0][-1])[1][0], fs[0]):
            raise Wrong('the message notification at %s does not hold the packet' % msgs[0][1])

    NOTES = {'ConnAck': 'Connack', 'SubAck': 'SubAck', 'UnsubAck': 'UnsubAck'}

    def rule_C17(self, s, t):
        k = fs = None
        if t.kind() == 'read':
            k, fs = self.kind(s, t.inp[2])
        ns = []
        for e in self.delivered(t):
            nk, nf = self.kind(s, e[-1])
            want = self.NOTES.get(nk)
            if want is not None and want != k:
                raise Wrong('a %s notification at %s without the packet' % (nk, e[1]))
            if want is not None:
                if e[0] == 'queue refused':
                    raise Wrong('a %s is not delivered when the channel is full' % nk)
                if not self.describes(s, nf[0], fs[0]):
                    raise Wrong('the %s notification at %s does not hold the packet' % (nk, e[1]))
                ns.append(e)
            elif k in ('PingResp', 'PubAck', 'Disconnect', 'SubAck', 'UnsubAck'):
                raise Wrong('%s leads to a %s notification at %s' % (k, nk, e[1]))
            elif k == 'Connack' and t.edge.src == 'start':
                raise Wrong('CONNACK leads to a %s notification at %s' % (nk, e[1]))
        if k in ('SubAck', 'UnsubAck') and t.edge.src != 'start' or k == 'Connack' and t.edge.src == 'start' and t.index <= 1:
            if t.of('write failed') and self.failed(s, t):
                return
            if len(ns) != 1:
                raise Wrong('%s leads to %d notifications of its kind' % (k, len(ns)))

    # ------------------------------------------------------------ C18
    def seconds(self, s, d):
        """a Duration in nanoseconds"""
        if isinstance(d, Agg) and len(d.fs) == 2:
            a, b = d.fs
            while isinstance(b, Agg) and len(b.fs) == 1:
                b = b.fs[0]
            if isinstance(a, Lin) and isinstance(b, Lin):
                r = s.store.norm(a * 1000000000 + b)
                if not r.t:
                    return r.c
        raise Undecided('length of the keep-alive period %r' % (d,))

    def rule_C18(self, s, t):
        pings = [e for e in t.of('write', 'write failed') if self.kind(s, e[2])[0] == 'PingReq']
        resets = t.of('timer reset')
        if resets and not t.of('write'):
            raise Wrong('the keep-alive timer is put back at %s and nothing has been written' % resets[0][1])
        if resets:
            raise Undecided('the keep-alive timer is put back')
        if t.kind() != 'tick':
            if pings:
                raise Wrong('PINGREQ is written at %s outside a keep-alive tick' % pings[0][1])
            return
        iv = t.inp[2]
        if not (isinstance(iv, Opq) and iv.tag == 'interval'):
            raise Undecided('timer %r' % (iv,))
        start, period, missed = iv.xs
        ka = self.announced()
        if self.seconds(s, period) > ka * 1000000000:
            raise Wrong('the keep-alive period exceeds the keep-alive announced in CONNECT')
        if start.tag == 'later':
            if self.seconds(s, start.xs[1]) > ka * 1000000000:
                raise Wrong('the first keep-alive tick comes later than the keep-alive announced in CONNECT')
        elif start.tag != 'now':
            raise Undecided('start of the timer %r' % (start,))
        if missed.tag != 'delay':
            raise Wrong('a delayed keep-alive tick is not followed by a full period')
        g = self.before(s, t)
        end = self.failed(s, t)
        if g == 'sent':
            if pings:
                raise Wrong('PINGREQ is written although the previous one is unanswered')
            if end is None:
                raise Wrong('the session goes on although PINGREQ is unanswered')
            if not end or self.errkind(s, t) != 'TimedOut':
                raise Wrong('an unanswered PINGREQ does not end the session with a timed-out error')
            return
        if len(pings) != 1:
            raise Wrong('%s PINGREQ on a keep-alive tick' % ('no' if not pings else 'more than one'))
        if pings[0][0] != 'write failed' and end is not None and not t.of('write failed'):
            raise Wrong('a keep-alive tick ends the session although no PINGREQ is unanswered')

    def before(self, s, t):
        """the ping state when the input of this turn arrives"""
        if t.edge.src == 'start':
            g = None
        else:
            g = dict(self.g.nodemem[t.edge.src].aux).get('ping')
        for x in turns(t.edge)[:t.index]:
            if x.kind() == 'read' and self.kind(s, x.inp[2])[0] == 'PingResp' and g is not None:
                g = 'answered'
            for e in x.of('write', 'unflushed'):
                if self.kind(s, e[2])[0] == 'PingReq':
                    g = 'sent'
        return g

    def announced(self):
        r = set()
        for e in self.g.edges:
            if e.src == 'start':
                for x in e.events:
                    if x[0] == 'write' and self.kind(e.st, x[2])[0] == 'Connect':
                        k = e.st.store.norm(self.get(e.st, self.kind(e.st, x[2])[1][0], 'keep_alive'))
                        if k.t:
                            raise Undecided('keep-alive announced')
                        r.add(k.c)
        if len(r) != 1:
            raise Undecided('keep-alive announced')
        return r.pop()

    def post_C18(self):
        for n in range(len(self.g.nodemem)):
            ok = any(e.src == n and any(x[0] == 'tick' for x in e.events) for e in self.g.edges)
            self.count('C18', ok)
            if not ok:
                self.lacks('C18', n, 'the keep-alive timer is not waited for in some turns')
                continue
            base = base_atoms(self.g.nodemem[n])
            ticks = [over(e.st.store, base) for e in self.g.edges
                     if e.src == n and any(x[0] == 'tick' for x in e.events)]
            for e in self.g.edges:
                if e.src != n or not e.events or e.events[0][0] not in ('read', 'read failed', 'read ended', 'command'):
                    continue
                here = over(e.st.store, base)
                if not any(together(self.g.nodemem[n].store, here, x) for x in ticks):
                    self.lacks('C18', n, 'the keep-alive timer is not waited for in the turns of %s' % e.events[0][1])
                    break

    def lacks(self, p, n, what):
        self.viol.append(Violation(p, '%s (%s)' % (self.g.body['path'], self.g.body['span']), what,
                                   'state %d: %s' % (n, str(sorted(map(str, self.g.nodemem[n].mem.items())))[:1500])))

    # ------------------------------------------------------------ C19
    def rule_C19(self, s, t):
        end = self.failed(s, t)
        after = None
        for e in t.eff:
            if after and e[0] in ('write', 'write failed', 'feed', 'notify', 'notify failed', 'queued', 'queue refused'):
                raise Wrong('%s at %s after %s' % (e[0], e[1], after))
            if e[0] == 'write failed':
                after = 'a failed write'
        if after:
            if end is None:
                raise Wrong('the session goes on after a failed write')
            if not end:
                raise Wrong('the event loop ends with success after a failed write')
        k = fs = None
        if t.kind() == 'read':
            k, fs = self.kind(s, t.inp[2])
        if t.kind() == 'read failed':
            self.ends(t, end, True, 'a read or decode error')
        elif t.kind() == 'read ended' and t.edge.src != 'start':
            self.ends(t, end, False, 'the end of the stream')
        elif k == 'Disconnect' and t.edge.src != 'start':
            r = self.kind(s, self.get(s, fs[0], 'reason'))[0]
            self.ends(t, end, r not in NORMAL, 'a DISCONNECT with the reason %s' % r)
        elif t.kind() == 'command' and self.kind(s, t.inp[2])[0] == 'Disconnect':
            ws = t.of('write', 'write failed')
            if len(ws) != 1 or self.kind(s, ws[0][2])[0] != 'Disconnect':
                raise Wrong('a disconnect command writes %s' % (
                    'nothing' if not ws else ', '.join(self.kind(s, e[2])[0] for e in ws)))
            if not after:
                if end is None:
                    raise Wrong('the session goes on after the disconnect command')
                if end:
                    raise Wrong('the disconnect command ends the event loop with an error')
            if self.delivered(t):
                raise Wrong('something is delivered after the disconnect command')
        else:
            for e in t.of('write', 'unflushed'):
                if self.kind(s, e[2])[0] == 'Disconnect' and end is None:
                    raise Wrong('the session goes on after DISCONNECT is written at %s' % e[1])
            if end is False and t.edge.src != 'start':
                raise Wrong('the event loop ends with success after %s' % (t.kind() if k is None else k))

    def ends(self, t, end, bad, why):
        if not self.quiet(t) or self.delivered(t):
            raise Wrong('something is written or delivered after %s' % why)
        if end is None:
            raise Wrong('the session goes on after %s' % why)
        if end != bad:
            raise Wrong('%s ends the event loop with %s' % (why, 'an error' if end else 'success'))

    # ------------------------------------------------------------ C20
    def rule_C20(self, s, t):
        if t.index == 0 and t.edge.dst != 'end' and t.edge.src != 'start':
            if not any(e[0] in FRESH for e in t.edge.events):
                raise Wrong('the loop goes round without waiting for an input that can still bring something')
        if t.kind() == 'commands ended' and t.end is not None:
            raise Wrong('the event loop ends when every client handle is dropped')
        if t.kind() == 'commands ended again' and t.end is not None:
            raise Wrong('the event loop ends when every client handle is dropped')

    def post_C20(self):
        for n in range(len(self.g.nodemem)):
            aux = self.g.nodemem[n].aux
            ok = aux.get(('ended', 'reader')) or any(
                e.src == n and any(x[0] == 'read' for x in e.events) for e in self.g.edges)
            self.count('C20', bool(ok))
            if not ok:
                self.lacks('C20', n, 'the connection is not read in some turns')

    # ------------------------------------------------------------ C21
    def rule_C21(self, s, t):
        pass

    def post_C21(self):
        A = self.A
        seen = set()
        for p in A.panics:
            if not p.state.store.feasible(True):
                continue
            k = (p.key(), tuple(p.stack))
            if k in seen:
                continue
            seen.add(k)
            self.viol.append(Violation('C21', '%s at %s' % (p.fn, p.site), '%s, called by %s' % (
                p.kind, ' <- '.join(x for x in p.stack[1:4])), describe(p.state)[:3000]))


NORMAL = ('Normal', 'NormalDisconnection')
