"""C24: the event-loop future.  What Client::new builds is computed abstractly; from it the states the future can be in
between polls are explored to a fixpoint, with the connect and the session each pending, failing or succeeding at every
poll, and every poll is checked against what the future owes."""
from lin import *
from vals import *
from interp import Analyzer, State, Split, Dead, Unsupported
import models
import asyncmodels
import loopmodels
import contracts
import widen
from models import model, prefix, vfield, variant, rty, snapshot, ok, err
from loopmodels import event, target
from spec import *
from clientcheck import find, Wrong
from decodecheck import Violation, describe
from loopcheck import Graph

MAXNODES = 24
ADDRESS = Opq('address', ())
CONNECT = Opq('connect future', ())
DONE = Opq('completed future', ())
STREAM = Opq('stream', ())


@model('futures::futures_channel::mpsc::channel', 'futures_channel::mpsc::channel', 'futures::channel::mpsc::channel',
       'futures::futures_channel::mpsc::unbounded', 'futures_channel::mpsc::unbounded')
def m_channel(A, fr, bb, st, c, args, t):
    n = st.aux.get('channels', 0)
    st.setaux('channels', n + 1)
    if args:
        event(st, t, 'channel', n, args[0])
    return [(st, Agg(rty(t), None, (Opq('tx', (n,)), Opq('rx', (n,)))))]


@model('<futures::futures_channel::mpsc::Sender as std::clone::Clone>::clone', '<futures_channel::mpsc::Sender as std::clone::Clone>::clone')
def m_sender_clone(A, fr, bb, st, c, args, t):
    return [(st, target(A, st, args[0]))]


@model('std::borrow::ToOwned::to_owned', 'std::clone::Clone::clone')
def m_owned(A, fr, bb, st, c, args, t):
    v = target(A, st, args[0])
    return [(st, v)] if isinstance(v, Opq) else NotImplemented


@model('tokio::net::TcpStream::connect')
def m_connect(A, fr, bb, st, c, args, t):
    return [(st, Opq('tcp connect', (snapshot(A, st, args[0]),)))]


@model('tokio::net::TcpStream::into_split', 'tokio::net::tcp::into_split')
def m_into_split(A, fr, bb, st, c, args, t):
    v = target(A, st, args[0])
    event(st, t, 'split', v)
    return [(st, Agg(rty(t), None, (Opq('read half', (v,)), Opq('write half', (v,)))))]


@model('tokio_util::codec::FramedRead::new', 'tokio_util::codec::FramedRead::with_capacity')
def m_framed_read(A, fr, bb, st, c, args, t):
    return [(st, Opq('reader', (args[0], args[1])))]


@model('tokio_util::codec::FramedWrite::new', 'tokio_util::codec::FramedWrite::with_capacity')
def m_framed_write(A, fr, bb, st, c, args, t):
    return [(st, Opq('writer', (args[0], args[1])))]


@model('std::task::Context::waker', 'core::task::Context::waker')
def m_waker(A, fr, bb, st, c, args, t):
    return [(st, Opq('waker', ()))]


@model('std::task::Waker::wake_by_ref', 'std::task::Waker::wake', 'core::task::Waker::wake_by_ref')
def m_wake(A, fr, bb, st, c, args, t):
    event(st, t, 'wake')
    return [(st, A.UNIT())]


@model('anyhow::__private::must_use')
def m_must_use(A, fr, bb, st, c, args, t):
    return [(st, args[0])]


class Poll:
    """one poll of the event loop: where from, what happened, what it returned, where to"""
    def __init__(self, src, events, st, val, dst):
        self.src, self.events, self.st, self.val, self.dst = src, events, st, val, dst

    def __repr__(self):
        return '%s -> %s %s' % (self.src, self.dst, ' '.join(e[0] + '@' + str(e[1])[-5:] for e in self.events))


class PollCheck:
    def __init__(self, P):
        self.P = P
        self.viol, self.undecided = [], []
        self.obl = 0
        self.polls = []
        self.nodes = {}
        self.nodest = []
        A = self.A = Analyzer(P, models)
        contracts.install(A)
        A.on_yield = loopmodels.on_yield
        A.poll_hook = self.poll_hook
        self.session = None

    @property
    def obligations(self):
        return (self.obl, self.obl - len(self.viol))

    def bad(self, where, what, st=None, detail=''):
        self.viol.append(Violation('C24', where, what, (detail + ' ' + (describe(st)[:1500] if st else '')).strip()))

    # ------------------------------------------------------------ the futures it polls
    def poll_hook(self, A, fr, bb, st, v, a, path, ret, t):
        out = []

        def fin(s, x):
            if a is not None:
                A.write(s, a, path, DONE)
            out.append((s, variant(A, ret, 'Ready', (x,))))
        pend = variant(A, ret, 'Pending')
        if v is DONE:
            event(st, t, 'polled a completed future')
            return []
        T = vfield(A, ret, 'Ready')
        if v is CONNECT:
            s = st.copy()
            event(s, t, 'connect pending')
            out.append((s, pend))
            s = st.copy()
            event(s, t, 'connected')
            fin(s, ok(A, T, STREAM))
            s = st.copy()
            event(s, t, 'connect failed')
            fin(s, err(A, T, Opq('ioerr', (Opq('connect', ()),))))
            return out
        if isinstance(v, Opq) and v.tag == 'tcp connect':
            s = st.copy()
            event(s, t, 'tcp connect', v.xs[0], 'ok')
            fin(s, ok(A, T, STREAM))
            s = st.copy()
            event(s, t, 'tcp connect', v.xs[0], 'failed')
            fin(s, err(A, T, Opq('ioerr', (Opq('connect', ()),))))
            if not loopmodels.direct(fr):
                out.append((st, pend))
            return out
        if isinstance(v, Agg) and A.P.types[v.ty]['k'] == 'coroutine' and A.P.types[v.ty]['body'] == self.session:
            xs = tuple(snapshot(A, st, x) for x in v.fs)
            s = st.copy()
            event(s, t, 'session pending', *xs)
            out.append((s, pend))
            s = st.copy()
            event(s, t, 'session ended well', *xs)
            fin(s, ok(A, T, A.UNIT()))
            s = st.copy()
            event(s, t, 'session failed', *xs)
            fin(s, err(A, T, Opq('ioerr', (Opq('session', ()),))))
            return out
        return NotImplemented

    # ------------------------------------------------------------ running
    def run(self):
        try:
            self.go()
        except (Undecided, Unsupported) as e:
            self.undecided.append('not analysed: %s' % e)
        self.undecided += ['not analysed: %s' % str(e)[:200] for e in self.A.incomplete]

    def go(self):
        P, A = self.P, self.A
        new = find(P, 'Client', 'new')
        if new is None:
            raise Undecided('no single Client::new')
        g = Graph.__new__(Graph)
        g.P, g.A = P, A
        key, roles = g.entry()
        self.roles = roles
        st = State()
        f0 = A.frame(None, 'entry', key)
        rs = A.run(f0, st, [Opq(r or 'arg', ()) for r in roles])
        if len(rs) != 1 or not isinstance(rs[0][1], Agg):
            raise Undecided('the session is not one future')
        self.session = P.types[rs[0][1].ty]['body']
        # the order in which the body of the session finds its arguments
        self.slots = [x.tag if isinstance(x, Opq) else None for x in rs[0][1].fs]
        polls = [k for k, b in P.bodies.items() if b['local'] and b['kind'] == 'fn' and b['args'] == 2
                 and P.ts(b['locals'][1]).startswith('std::pin::Pin<&mut EventLoop<')
                 and 'std::task::Context' in P.ts(b['locals'][2])]
        if len(polls) != 1:
            raise Undecided('%d functions poll the event loop' % len(polls))
        self.pollfn = P.bodies[polls[0]]
        self.newfn = P.bodies[new['key']]
        f = A.frame(None, 'new', new['key'])
        before = len(A.panics)
        rs = A.run(f, State(), [ADDRESS])
        self.panicked(before, self.newfn, 'creating the client')
        for st, v in rs:
            self.created(polls[0], st, v)

    def panicked(self, before, fn, what):
        for p in self.A.panics[before:]:
            if p.state.store.feasible():
                self.bad('%s at %s' % (p.fn if isinstance(p.fn, str) else fn['path'], p.site), '%s panics: %s' % (what, p.kind), p.state)

    def parts(self, st, v, out, seen):
        """every opaque thing and coroutine inside a value, also behind pointers"""
        if isinstance(v, Ptr):
            if v.alloc not in seen and v.alloc in st.mem:
                seen.add(v.alloc)
                self.parts(st, st.mem[v.alloc], out, seen)
        elif isinstance(v, Opq):
            out.append(v)
        elif isinstance(v, Agg):
            if self.P.types[v.ty]['k'] == 'coroutine':
                out.append(v)
                return
            for x in v.fs:
                self.parts(st, x, out, seen)

    def created(self, pollkey, st, v):
        P, A = self.P, self.A
        t = P.types[v.ty]
        if t['k'] != 'tuple' or len(v.fs) != 3:
            raise Undecided('Client::new returns %s' % P.ts(v.ty))
        client, loop, notes = v.fs
        at = self.newfn['path']

        def opaques(x):
            o = []
            self.parts(st, x, o, set())
            return o
        cp, lp, np_ = opaques(client), opaques(loop), opaques(notes)
        ctx = [x for x in cp if x.tag == 'tx']
        lrx = [x for x in lp if isinstance(x, Opq) and x.tag == 'rx']
        ltx = [x for x in lp if isinstance(x, Opq) and x.tag == 'tx']
        nrx = [x for x in np_ if x.tag == 'rx']
        self.obl += 4
        if len(ctx) != 1 or len(nrx) != 1 or len(lrx) != 1 or len(ltx) != 1:
            raise Undecided('queues: client %r, loop %r %r, returned %r' % (ctx, lrx, ltx, nrx))
        if ctx[0].xs != lrx[0].xs:
            self.bad(at, 'the command queue of the event loop is not the one the client writes to', st)
        if ltx[0].xs != nrx[0].xs:
            self.bad(at, 'the receiver returned is not that of the channel the event loop notifies', st)
        self.commands, self.notes = lrx[0], ltx[0]
        cos = [x for x in lp if isinstance(x, Agg)] + [x for x in lp if isinstance(x, Opq) and x.tag == 'tcp connect']
        if len(cos) != 1:
            raise Undecided('%d futures in a new event loop' % len(cos))
        self.connects(st.copy(), cos[0])
        # explore with an arbitrary connect future in its place
        s = State()
        s.aux = st.aux
        s.mem = {a: self.replace(x, cos[0]) for a, x in st.mem.items() if a[0] != 'L'}
        s.store = st.store
        self.root = ('G', 'event loop')
        s.mem[self.root] = self.replace(loop, cos[0])
        self.explore(pollkey, s)

    def replace(self, v, co):
        if v is co:
            return CONNECT
        if isinstance(v, Agg):
            return Agg(v.ty, v.var, tuple(self.replace(x, co) for x in v.fs))
        return v

    def connects(self, st, co):
        """the future that connects does so to the address given, and passes the result on"""
        A, P = self.A, self.P
        before = len(A.panics)
        st.trace = ()
        self.obl += 1
        if isinstance(co, Opq):
            if co.xs[0] is not ADDRESS:
                self.bad(self.newfn['path'], 'connects to something other than the address given: %r' % (co.xs[0],), st)
            return
        key = P.types[co.ty]['body']
        if key not in P.bodies:
            raise Undecided('no body for the future that connects')
        f = A.frame(None, 'connect', key)
        f.coro = 'direct'
        where = '%s (%s)' % (P.bodies[key]['path'], P.bodies[key]['span'])
        for s, r in A.run(f, st, [co, Opq('ctx', ())]):
            ev = [e for e in s.trace if e[0] == 'tcp connect']
            self.obl += 1
            if not s.store.feasible():
                continue
            i = A.variant_idx(s, r)
            r = A.expand(s, r, i)
            res = P.types[r.ty]['variants'][i]['name']
            if not ev:
                self.bad(where, 'the connect future ends without connecting', s)
                continue
            if any(e[2] is not ADDRESS for e in ev):
                self.bad(where, 'connects to something other than the address given: %r' % (ev[-1][2],), s)
            if (ev[-1][3] == 'ok') != (res == 'Ok'):
                self.bad(where, 'connecting %s but the future yields %s' % ('succeeded' if ev[-1][3] == 'ok' else 'failed', res), s)
            elif res == 'Ok' and target(A, s, r.fs[0]) is not STREAM:
                self.bad(where, 'the future does not yield the stream it connected', s)
        self.panicked(before, P.bodies[key], 'connecting')

    # ------------------------------------------------------------ the states between polls
    def canon(self, s, old):
        """memory reachable from the event loop, numbers that keep changing made arbitrary"""
        A = self.A
        for a in [a for a in s.mem if a[0] == 'L']:
            del s.mem[a]
        widen.gc(A, s)
        ids = {}
        mem = {}

        def go(v, name, ty=None):
            if isinstance(v, Ptr):
                if v.alloc[0] in ('S', 'C') or v.alloc not in s.mem:
                    return v
                if v.alloc not in ids:
                    ids[v.alloc] = ('H', 'cell', len(ids))
                    mem[ids[v.alloc]] = go(s.mem[v.alloc], ('cell', len(ids)))
                return Ptr(ids[v.alloc], v.path, v.meta)
            if isinstance(v, Agg):
                t = A.P.types[v.ty]
                tys = []
                if t['k'] == 'adt':
                    tys = [f['ty'] for f in t['variants'][v.var or 0]['fields']]
                elif t['k'] == 'tuple':
                    tys = t['elems']
                elif t['k'] in ('closure', 'coroutine'):
                    tys = t['upvars']
                return Agg(v.ty, v.var, tuple(go(x, name + (i,), tys[i] if i < len(tys) else None) for i, x in enumerate(v.fs)))
            if isinstance(v, Lin):
                v = s.store.norm(v)
                if v.t or len(self.nodest) > 5:
                    if ty is None:
                        raise Undecided('a number of unknown type in the event loop')
                    return A.sym_value(name, ty)
                return v
            if isinstance(v, Cond):
                k = A.known(s, v)
                return c_ne(sym(name, 0, 1)) if k is None else TRUE if k else FALSE
            if isinstance(v, SymV):
                return A.sym_value(name, v.ty)
            if isinstance(v, Opq):
                return Opq(v.tag, go(v.xs, name))
            if isinstance(v, tuple):
                return tuple(go(x, name + (i,)) for i, x in enumerate(v))
            if isinstance(v, Seq):
                return v if not v.segs else Seq(v.ety, (W(name, ZERO, A.len_sym(name)),))
            return v
        mem[self.root] = go(s.mem[self.root], ('loop',))
        return mem

    def node(self, s):
        mem = self.canon(s, None)
        k = frozenset(mem.items())
        if k in self.nodes:
            return self.nodes[k], None
        if len(self.nodes) >= MAXNODES:
            raise Undecided('the event loop has too many states between polls')
        n = self.nodes[k] = len(self.nodes)
        st = State()
        st.mem = dict(mem)
        st.mem.update({a: v for a, v in s.mem.items() if a[0] in ('S', 'C')})
        st.aux = s.aux
        self.nodest.append(st)
        return n, st

    def explore(self, pollkey, s):
        A, P = self.A, self.P
        b = P.bodies[pollkey]
        n, st = self.node(s)
        work = [(n, st)]
        while work:
            n, st = work.pop()
            before = len(A.panics)
            st = st.copy()
            st.trace = ()
            f = A.frame(None, ('poll', n), pollkey)
            me = Agg(b['locals'][1], None, (Ptr(self.root, (), None),))
            for s, v in A.run(f, st, [me, Opq('ctx', ())]):
                if not s.store.feasible():
                    continue
                v = A.expand(s, v, A.variant_idx(s, v))
                pend = P.types[v.ty]['variants'][v.var]['name'] == 'Pending'
                dst = None
                if pend:
                    s2 = s.copy()
                    dst, new = self.node(s2)
                    if new:
                        work.append((dst, new))
                p = Poll(n, s.trace, s, v, dst)
                self.polls.append(p)
                self.judge(p, pend)
            self.panicked(before, b, 'polling the event loop')
        kinds = {e[0] for p in self.polls for e in p.events}
        self.obl += 1
        if 'session pending' not in kinds and not self.viol and not A.incomplete:
            self.bad(self.pollfn['path'], 'no sequence of polls starts the session')

    def judge(self, p, pend):
        A, P, s = self.A, self.P, p.st
        where = '%s at %s' % (self.pollfn['path'], p.events[-1][1] if p.events else self.pollfn['span'])
        ev = [e[0] for e in p.events]
        self.obl += 1

        def bad(what):
            self.bad(where, what, s, 'one poll: ' + ' '.join('%s at %s;' % (e[0], e[1]) for e in p.events))
        if 'polled a completed future' in ev:
            return bad('a future is polled again after it completed')
        conn = [e for e in p.events if e[0] in ('connect pending', 'connected', 'connect failed')]
        sess = [e for e in p.events if e[0].startswith('session ')]
        if not conn and not sess:
            if pend and 'wake' in ev:
                return
            return bad('a poll that polls neither the connect nor the session %s' % ('and stays pending' if pend else 'and completes'))
        if sess:
            for e in sess:
                w = self.wiring(e[2:])
                if w:
                    return bad(w)
        last = (sess or conn)[-1][0]
        if last == 'connected' and pend and 'wake' in ev:
            return
        if last == 'connected':
            return bad('connected, but the session is not polled%s' % (': nothing will wake the task' if pend else ''))
        if last.endswith('pending'):
            if not pend:
                return bad('completes while the %s is pending' % last.split()[0])
            return
        if pend:
            return bad('stays pending after the %s' % last)
        r = p.val.fs[0]
        i = A.variant_idx(s, r)
        r = A.expand(s, r, i)
        res = P.types[r.ty]['variants'][i]['name']
        if last == 'session ended well':
            if res != 'Ok':
                return bad('completes with an error though the session ended well')
        else:
            if res != 'Err':
                return bad('completes without an error after the %s' % last)
            if last == 'session failed' and not self.mentions(s, r.fs[0], 'session'):
                return bad("the session's error is replaced by another")

    def mentions(self, s, v, what, d=0):
        if d > 30:
            return False
        if isinstance(v, Opq):
            if v.tag == 'ioerr' and v.xs and isinstance(v.xs[0], Opq) and v.xs[0].tag == what:
                return True
            return any(self.mentions(s, x, what, d + 1) for x in v.xs)
        if isinstance(v, Agg):
            return any(self.mentions(s, x, what, d + 1) for x in v.fs)
        if isinstance(v, Ptr):
            try:
                return self.mentions(s, models.deref(self.A, s, v), what, d + 1)
            except Unsupported:
                return False
        if isinstance(v, Seq):
            return any(self.mentions(s, x, what, d + 1) for x in v.segs)
        if isinstance(v, E):
            return self.mentions(s, v.v, what, d + 1)
        if isinstance(v, (W, X, S)):
            return what in repr(v)
        if isinstance(v, tuple):
            return any(self.mentions(s, x, what, d + 1) for x in v)
        return False

    def wiring(self, xs):
        """the session got the two halves of the stream, the client's queue and the notification channel"""
        for r, x in zip(self.slots, xs):
            if r in ('reader', 'writer'):
                half = 'read half' if r == 'reader' else 'write half'
                if not (isinstance(x, Opq) and x.tag == r):
                    raise Undecided('%s of the session: %r' % (r, x))
                h = x.xs[0]
                if not (isinstance(h, Opq) and h.tag in ('read half', 'write half')):
                    raise Undecided('%s of the session: %r' % (r, x))
                if h.tag != half or h.xs[0] is not STREAM:
                    return 'the %s of the session is not over the stream that was connected' % r
            elif r == 'commands':
                if x is not self.commands:
                    return 'the session does not read the queue of the client'
            elif r == 'app':
                if x is not self.notes:
                    return 'the session does not notify the channel of the client'
        return None
