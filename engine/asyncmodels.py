"""Transfer functions for the channel, error and timer interfaces the client and the event loop use.
What leaves the crate through them is recorded in the state's trace."""
from lin import *
from vals import *
from interp import Split, Dead, Unsupported
from models import model, prefix, ok, err, some, none, variant, vfield, rty, deref, whole, norm_path


def event(st, *e):
    st.trace = st.trace + (tuple(e),)


def anyhow_err(what, xs=()):
    return Opq('anyhow', (what,) + tuple(xs))


@model('futures::futures_channel::mpsc::Sender::try_send', 'futures_channel::mpsc::Sender::try_send',
       'futures::futures_channel::mpsc::Sender::start_send', 'futures_channel::mpsc::Sender::start_send')
def m_try_send(A, fr, bb, st, c, args, t):
    v = args[1]
    s1, s2 = st.copy(), st
    event(s1, 'queued', deref(A, st, args[0]), v)
    event(s2, 'queue refused', deref(A, st, args[0]), v)
    ty = rty(t)
    return [(s1, ok(A, ty, Agg(vfield(A, ty, 'Ok'), None, ()))), (s2, err(A, ty, Opq('trysenderr', (v,))))]


@model('anyhow::__private::not')
def m_not(A, fr, bb, st, c, args, t):
    return [(st, c_not(args[0]))]


@prefix('<impl anyhow::Context<T, E> for std::result::Result<T, E>>::')
def m_context(A, fr, bb, st, c, args, t):
    r = args[0]
    ty = rty(t)
    i = A.variant_idx(st, r)
    r = A.expand(st, r, i)
    if A.P.types[r.ty]['variants'][r.var]['name'] == 'Ok':
        return [(st, ok(A, ty, r.fs[0]))]
    return [(st, err(A, ty, anyhow_err('context', (r.fs[0],))))]


@model('<impl anyhow::Error>::msg', '<impl anyhow::Error>::new', '<impl std::convert::From<E> for anyhow::Error>::from',
       'anyhow::__private::format_err', 'anyhow::Error::msg', 'anyhow::Error::new', '<impl anyhow::Error>::context',
       'anyhow::Error::context')
def m_anyhow(A, fr, bb, st, c, args, t):
    return [(st, anyhow_err('msg', args))]


@model('futures::futures_channel::mpsc::TrySendError::is_full', 'futures::futures_channel::mpsc::TrySendError::is_disconnected',
       'futures_channel::mpsc::TrySendError::is_full', 'futures_channel::mpsc::TrySendError::is_disconnected')
def m_is_full(A, fr, bb, st, c, args, t):
    b = c_ne(sym(('queue full', deref(A, st, args[0])), 0, 1))
    return [(st, b if c['name'] == 'is_full' else c_not(b))]


@model('futures::futures_channel::mpsc::SendError::is_full', 'futures::futures_channel::mpsc::SendError::is_disconnected',
       'futures_channel::mpsc::SendError::is_full', 'futures_channel::mpsc::SendError::is_disconnected')
def m_send_full(A, fr, bb, st, c, args, t):
    v = deref(A, st, args[0])
    if isinstance(v, Opq) and v.tag == 'senderr':       # a send that waits fails only when the receiver is gone
        return [(st, FALSE if c['name'] == 'is_full' else TRUE)]
    return m_is_full(A, fr, bb, st, c, args, t)


@model('futures::futures_channel::mpsc::TrySendError::into_inner', 'futures_channel::mpsc::TrySendError::into_inner')
def m_into_inner(A, fr, bb, st, c, args, t):
    v = args[0]
    if not isinstance(v, Opq) or v.tag != 'trysenderr':
        raise Unsupported('into_inner of %r' % (v,))
    return [(st, v.xs[0])]


@model('futures::futures_channel::mpsc::Sender::is_closed', 'futures_channel::mpsc::Sender::is_closed',
       'futures::futures_channel::mpsc::Sender::is_full')
def m_env(A, fr, bb, st, c, args, t):
    return [(st.copy(), TRUE), (st, FALSE)]
