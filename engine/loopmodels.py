"""Transfer functions for the futures the session awaits: the stream, the sink, the channels and the timer.
A future is an opaque token; polling it from the session itself only yields the outcomes in which it completes (while
it is pending nothing happens), polling it next to others (from a closure, or inside a nested future that is polled
from one) also yields Pending."""
from lin import *
from vals import *
from interp import Split, Dead, Unsupported
import models
from models import model, prefix, ok, err, some, none, variant, vfield, rty, deref, snapshot, norm_path


def event(st, t, kind, *xs):
    st.trace = st.trace + ((kind, t['sp'] if t else '') + xs,)

PENDING = Opq('pending', ())
SUSPENDED = Opq('suspended', ())


def fut(kind, *xs):
    return Opq('fut', (kind,) + xs)


def direct(fr):
    return fr.info.b['kind'] == 'coroutine' and fr.coro == 'direct'


def target(A, st, p):
    """the opaque thing behind references"""
    v = p
    n = 0
    while True:
        n += 1
        if n > 12:
            raise Unsupported('reference chain')
        if isinstance(v, Ptr):
            v = A.read(st, v.alloc, v.path)
        elif isinstance(v, Agg) and A.P.types[v.ty].get('raw') in ('core::pin::Pin',) and len(v.fs) == 1:
            v = v.fs[0]
        else:
            return v


# ---------------------------------------------------------------- making futures
@prefix('futures::SinkExt::', 'futures_util::SinkExt::', 'futures_util::sink::SinkExt::', 'futures::sink::SinkExt::')
def m_sinkext(A, fr, bb, st, c, args, t):
    n = c['name']
    if n in ('send', 'feed'):
        return [(st, fut(n, target(A, st, args[0]), args[1]))]
    if n in ('flush', 'close'):
        return [(st, fut(n, target(A, st, args[0])))]
    raise Unsupported('SinkExt::%s' % n)


@prefix('futures::StreamExt::', 'futures_util::StreamExt::', 'futures_util::stream::StreamExt::', 'futures::stream::StreamExt::',
        'tokio_stream::StreamExt::')
def m_streamext(A, fr, bb, st, c, args, t):
    n = c['name']
    if n == 'next':
        return [(st, fut(n, target(A, st, args[0]), c['targs'][0]))]
    raise Unsupported('StreamExt::%s' % n)


@model('tokio::time::Interval::tick')
def m_tick(A, fr, bb, st, c, args, t):
    return [(st, fut('tick', args[0]))]


@model('tokio::time::interval_at', 'tokio::time::interval')
def m_interval_at(A, fr, bb, st, c, args, t):
    if len(args) == 2:
        a, p = args
    else:
        a, p = Opq('now', ()), args[0]
    return [(st, Opq('interval', (a, p, Opq('burst', ()))))]


@model('tokio::time::Interval::set_missed_tick_behavior')
def m_missed(A, fr, bb, st, c, args, t):
    p = args[0]
    v = A.read(st, p.alloc, p.path)
    b = A.P.types[args[1].ty]['variants'][A.variant_idx(st, args[1])]['name']
    A.write(st, p.alloc, p.path, Opq('interval', v.xs[:2] + (Opq(b.lower(), ()),)))
    return [(st, A.UNIT())]


@prefix('tokio::time::Interval::reset')
def m_reset(A, fr, bb, st, c, args, t):
    event(st, t, 'timer reset', c['name'])
    return [(st, A.UNIT())]


def dur(A, ty, secs, nanos):
    return Agg(ty, 0, (secs, nanos))


@model('std::time::Duration::from_secs', 'std::time::Duration::from_millis', 'std::time::Duration::from_micros',
       'std::time::Duration::from_nanos', 'std::time::Duration::new', 'std::time::Duration::from_mins')
def m_duration(A, fr, bb, st, c, args, t):
    n = c['name']
    x = args[0]
    ty = rty(t)
    if n == 'new':
        if args[1].t or args[1].c >= 1000000000:
            raise Unsupported('Duration::new')
        return [(st, dur(A, ty, x, args[1]))]
    if n == 'from_secs':
        return [(st, dur(A, ty, x, ZERO))]
    if n == 'from_mins':
        return [(st, dur(A, ty, x * 60, ZERO))]
    k = {'from_millis': 1000, 'from_micros': 1000000, 'from_nanos': 1000000000}[n]
    x = st.store.norm(x)
    if x.t:
        raise Unsupported('Duration::%s of an unknown amount' % n)
    return [(st, dur(A, ty, const(x.c // k), const(x.c % k * (1000000000 // k))))]


@model('tokio::time::Instant::now', 'std::time::Instant::now')
def m_now(A, fr, bb, st, c, args, t):
    return [(st, Opq('now', ()))]


@model('<tokio::time::Instant as std::ops::Add>::add', '<tokio::time::Instant as std::ops::Add<std::time::Duration>>::add')
def m_instant_add(A, fr, bb, st, c, args, t):
    return [(st, Opq('later', tuple(args)))]


@prefix('tokio::macros::support::thread_rng_n')
def m_rng(A, fr, bb, st, c, args, t):
    n = st.store.norm(args[0])
    if n.t or n.c > 16:
        raise Unsupported('random start')
    return [(st.copy(), const(i)) for i in range(n.c)]


@prefix('tokio::macros::support::poll_budget_available')
def m_budget(A, fr, bb, st, c, args, t):
    ty = rty(t)
    return [(st, variant(A, ty, 'Ready', (A.UNIT(),)))]


@model('std::future::get_context', 'core::future::get_context')
def m_ctx(A, fr, bb, st, c, args, t):
    return [(st, args[0])]


@prefix('tokio::time::sleep', 'tokio::time::sleep_until')
def m_sleep(A, fr, bb, st, c, args, t):
    return [(st, fut('sleep', *[snapshot(A, st, a) for a in args]))]


@prefix('tokio::time::timeout', 'tokio::time::timeout_at')
def m_timeout(A, fr, bb, st, c, args, t):
    return [(st, fut('timeout', snapshot(A, st, args[0]), args[1]))]


@prefix('tokio::task::yield_now')
def m_yield_now(A, fr, bb, st, c, args, t):
    return [(st, fut('yield'))]


@model('futures::futures_channel::mpsc::Receiver::try_next', 'futures_channel::mpsc::Receiver::try_next',
       'futures::channel::mpsc::Receiver::try_next', 'futures::futures_channel::mpsc::Receiver::try_recv',
       'futures_channel::mpsc::Receiver::try_recv', 'futures::channel::mpsc::Receiver::try_recv')
def m_try_next(A, fr, bb, st, c, args, t):
    v = target(A, st, args[0])
    if not (isinstance(v, Opq) and v.tag == 'commands'):
        raise Unsupported('try_next on %r' % (v,))
    ty = rty(t)
    T = vfield(A, ty, 'Ok')
    opt = c['name'] == 'try_next'
    item = vfield(A, T, 'Some') if opt else T
    out = []
    if not st.aux.get(('ended', 'commands')):
        s = st.copy()
        x = A.sym_value(A.fresh(st, None, ('input', 'commands')) + ('cmd',), item)
        event(s, t, 'command', x)
        out.append((s, ok(A, ty, some(A, T, x) if opt else x)))
        out.append((st.copy(), err(A, ty, Opq('empty', ()))))
    s = st.copy()
    done = s.aux.get(('ended', 'commands'))
    event(s, t, 'commands ended again' if done else 'commands ended')
    s.setaux(('ended', 'commands'), True)
    out.append((s, ok(A, ty, none(A, T)) if opt else err(A, ty, Opq('closed', ()))))
    return out


# ---------------------------------------------------------------- polling
def poll_leaf(A, fr, bb, st, v, ret, t):
    """outcomes of polling a primitive future: [(state, value or None)]; ret is the Poll type"""
    return [(s, x if x is None else variant(A, ret, 'Ready', (x,)))
            for s, x in leaf(A, direct(fr), st, v, vfield(A, ret, 'Ready'), t)]


def leaf(A, dir, st, v, T, t):
    """outcomes of a primitive future of output type T: [(state, output or None when not ready)]"""
    kind = v.xs[0]
    out = []

    def ready(s, x):
        out.append((s, x))

    def tag(o):
        return o.tag if isinstance(o, Opq) else None
    if kind == 'tick':
        s = st.copy()
        event(s, t, 'tick', snapshot(A, s, v.xs[1]))
        ready(s, Opq('instant', ()))
    elif kind in ('send', 'feed', 'flush', 'close'):
        o = tag(v.xs[1])
        if o not in ('writer', 'app'):
            raise Unsupported('%s on %r' % (kind, v.xs[1]))
        xs = tuple(snapshot(A, st, x) for x in v.xs[2:3])
        if o == 'writer' and kind == 'flush' and not st.aux.get('buffered'):
            s = st.copy()       # nothing to write, and flushing a TCP stream does nothing
            ready(s, ok(A, T, A.UNIT()))
            return out
        s = st.copy()
        if o == 'writer':
            s.setaux('buffered', kind == 'feed')
            event(s, t, {'send': 'write'}.get(kind, kind), *xs)
        else:
            event(s, t, {'send': 'notify', 'feed': 'notify'}.get(kind, 'app ' + kind), *xs)
        ready(s, ok(A, T, A.UNIT()))
        s = st.copy()
        if o == 'writer':
            s.setaux('buffered', True)
        event(s, t, ('write failed' if o == 'writer' else 'notify failed'), *xs)
        e = Opq('ioerr', (Opq('write', ()),)) if o == 'writer' else Opq('senderr', ())
        ready(s, err(A, T, e))
        if not dir:
            s = st.copy()
            event(s, t, 'abandoned', kind, *xs)
            out.append((s, None))
    elif kind == 'next':
        o = tag(v.xs[1])
        if o not in ('reader', 'commands'):
            raise Unsupported('next on %r' % (v.xs[1],))
        item = vfield(A, T, 'Some')
        done = st.aux.get(('ended', o))
        if not done:
            nm = A.fresh(st, None, ('input', o))
            s = st.copy()
            if o == 'reader':
                pt = vfield(A, item, 'Ok')
                x = A.sym_value(nm + ('pkt',), pt)
                event(s, t, 'read', x)
                for s2, x2 in A.received(A, s, x):
                    ready(s2, some(A, T, ok(A, item, x2)))
                s = st.copy()
                event(s, t, 'read failed')
                ready(s, some(A, T, err(A, item, Opq('ioerr', (Opq('read', ()),)))))
            else:
                x = A.sym_value(nm + ('cmd',), item)
                event(s, t, 'command', x)
                ready(s, some(A, T, x))
        s = st.copy()
        event(s, t, ('read' if o == 'reader' else 'commands') + (' ended again' if done else ' ended'))
        s.setaux(('ended', o), True)
        ready(s, none(A, T))
        if done:
            return out
    elif kind == 'never':
        pass
    elif kind in ('sleep', 'yield'):
        s = st.copy()
        ready(s, A.UNIT())
    elif kind == 'timeout':
        inner = v.xs[2]
        if not (isinstance(inner, Opq) and inner.tag == 'fut'):
            raise Unsupported('timeout of %r' % (inner,))
        for s, r in leaf(A, True, st, inner, vfield(A, T, 'Ok'), t):
            ready(s, ok(A, T, r))
        s = st.copy()
        if inner.xs[0] in ('send', 'feed', 'flush', 'close'):
            event(s, t, 'abandoned', inner.xs[0], *[snapshot(A, s, x) for x in inner.xs[2:3]])
        ready(s, err(A, T, Opq('elapsed', ())))
    else:
        raise Unsupported('poll of %s' % kind)
    if not dir:
        out.append((st, None))
    return out


def poll_any(A, fr, bb, st, p, ret, args, t):
    """poll the future behind p"""
    a, path = None, ()
    v = p
    for _ in range(12):
        if isinstance(v, Ptr):
            a, path = v.alloc, v.path
            v = A.read(st, a, path)
        elif isinstance(v, Agg) and A.P.types[v.ty].get('raw') == 'core::pin::Pin':
            v = v.fs[0]
        else:
            break
    pend = variant(A, ret, 'Pending')
    hook = getattr(A, 'poll_hook', None)
    if hook:
        r = hook(A, fr, bb, st, v, a, path, ret, t)
        if r is not NotImplemented:
            return r
    resumed = isinstance(v, Opq) and v.tag == 'suspended' and v.xs
    if v is SUSPENDED:
        # continuing after a wait adds nothing to the run in which there was no wait
        return []
    if isinstance(v, Opq) and v.tag == 'fut':
        out = []
        for s, r in poll_leaf(A, fr, bb, st, v, ret, t):
            out.append((s, pend if r is None else r))
        return out
    if resumed or isinstance(v, Agg) and A.P.types[v.ty]['k'] == 'coroutine':
        if resumed:
            f2, to, dst = A.suspended[v.xs[0]]
            rs = A.resume(f2, st, to, dict(v.xs[1]), dst)
        else:
            key = A.P.types[v.ty]['body']
            if key not in A.P.bodies:
                raise Unsupported('poll of %s' % A.P.ts(v.ty))
            f2 = A.frame(fr, bb, key)
            f2.coro = 'direct' if direct(fr) else 'polled'
            rs = A.run(f2, st, [v, args[1]])
        out = []
        for s, r in rs:
            if isinstance(r, Opq) and r.tag == 'suspended':
                if a is None:
                    raise Unsupported('a suspended future without a place')
                A.write(s, a, path, r)
                out.append((s, pend))
            elif r is PENDING:
                if a is not None:
                    A.write(s, a, path, SUSPENDED)
                out.append((s, pend))
            else:
                out.append((s, variant(A, ret, 'Ready', (r,))))
        return out
    if isinstance(v, Agg) and A.P.types[v.ty].get('raw', '').endswith('poll_fn::PollFn'):
        q = Ptr(a, path + (('f', 0),), None) if a is not None else None
        f = v.fs[0]
        return A.call_closure(fr, bb, st, f, path_child(A, a, path), [args[1]])
    raise Unsupported('poll of %r' % (v,))


def path_child(A, a, path):
    return Ptr(a, path + (0,), None)


def on_yield(A, fr, bb, st, t):
    if direct(fr):
        a, p, m = A.place(fr, st, t['dst'])
        A.write(st, a, p, Opq('ctx', ()))
        return [(t['to'], st)]
    if getattr(A, 'poll_hook', None):
        k = (fr.id, t['to'])
        A.suspended[k] = (fr, t['to'], t['dst'])
        ls = tuple((i, st.mem[('L', fr.id, i)]) for i in range(len(fr.info.locals)) if ('L', fr.id, i) in st.mem)
        A._results[-1].append((st, Opq('suspended', (k, ls))))
        return []
    A._results[-1].append((st, PENDING))
    return []


def m_future_poll(A, fr, bb, st, c, args, t):
    return poll_any(A, fr, bb, st, args[0], rty(t), args, t)


models.FUTURE_POLL.append(m_future_poll)


@model('<impl std::io::Error>::kind', 'std::io::Error::kind')
def m_error_kind(A, fr, bb, st, c, args, t):
    v = target(A, st, args[0])
    if isinstance(v, Opq) and v.tag == 'ioerr':
        if v.xs and isinstance(v.xs[0], Agg) and A.P.ts(v.xs[0].ty).endswith('ErrorKind'):
            return [(st, v.xs[0])]
        return [(st, A.sym_value(('error kind', v), rty(t)))]
    return NotImplemented


@model('futures::future::pending', 'std::future::pending', 'core::future::pending', 'futures_util::future::pending')
def m_pending(A, fr, bb, st, c, args, t):
    return [(st, fut('never'))]


@model('<impl std::io::Error>::raw_os_error', 'std::io::Error::raw_os_error')
def m_raw_os_error(A, fr, bb, st, c, args, t):
    v = target(A, st, args[0])
    if isinstance(v, Opq) and v.tag == 'ioerr':
        if v.xs and isinstance(v.xs[0], Agg) and A.P.ts(v.xs[0].ty).endswith('ErrorKind'):
            return [(st, none(A, rty(t)))]          # made by the program
        return [(st, A.sym_value(('os error', v), rty(t)))]
    return NotImplemented
