"""Transfer functions for calls that leave the crate (std, bytes, futures, tokio, log, anyhow).

Everything generic in std that is not listed here is analysed from its own MIR."""
import re
from lin import *
from vals import *
import interp
from interp import Unsupported, Dead, Split, ISIZE_MAX

REG = {}
PREF = []
_norm = {}


def strip(s):
    """drop generic argument lists and lifetimes from a printed path"""
    out = []
    d = 0
    i = 0
    while i < len(s):
        ch = s[i]
        if ch == '<':
            d += 1
        elif ch == '>' and s[i - 1] != '-':
            d -= 1
        elif d == 0:
            out.append(ch)
        i += 1
    r = ''.join(out)
    r = re.sub(r"'[a-z_]+\s*", '', r)
    return r.replace('::::', '::').rstrip(':')


def norm_path(p):
    r = _norm.get(p)
    if r is not None:
        return r
    if p.startswith('<'):
        d = 0
        for i, ch in enumerate(p):
            if ch == '<':
                d += 1
            elif ch == '>' and p[i - 1] != '-':
                d -= 1
                if d == 0:
                    break
        inner, rest = p[1:i], p[i + 1:]
        # split at top-level ' as '
        d = 0
        cut = None
        for j, ch in enumerate(inner):
            if ch == '<':
                d += 1
            elif ch == '>' and inner[j - 1] != '-':
                d -= 1
            elif d == 0 and inner[j:j + 4] == ' as ':
                cut = j
                break
        if cut is None:
            r = '<' + strip(inner) + '>' + rest
        else:
            r = '<' + strip(inner[:cut]) + ' as ' + strip(inner[cut + 4:]) + '>' + strip(rest)
    else:
        m = re.search(r'<impl (.*)>::(\w+)$', p)
        if m:
            r = '<impl ' + m.group(1) + '>::' + m.group(2)
        else:
            r = strip(p)
    _norm[p] = r
    return r


def model(*names):
    def dec(f):
        for n in names:
            REG[n] = f
        return f
    return dec


def prefix(*names):
    def dec(f):
        for n in names:
            PREF.append((n, f))
        return f
    return dec


def lookup(A, c):
    p = c.get('rpath') or c['path']
    n = norm_path(p)
    m = REG.get(n)
    if m is not None:
        return m
    for pre, f in PREF:
        if n.startswith(pre):
            return f
    mm = re.match(r'<impl ([ui](?:8|16|32|64|128|size))>::(\w+)$', n)
    if mm:
        f = INTM.get(mm.group(2))
        if f:
            ty = A.P.find_type(mm.group(1))
            return lambda A, fr, bb, st, c, args, t: f(A, fr, bb, st, c, args, t, ty)
    for x in c.get('targs') or ():
        if isinstance(x, int) and A.P.ts(x).startswith(('log::Level', 'log::MaxLevel')):
            if c.get('name') in ('le', 'lt', 'ge', 'gt', 'eq', 'ne', 'partial_cmp'):
                return m_noise
    if c.get('trait') and c.get('rself') is not None and (c['trait'].startswith(('std::clone::Clone', 'core::clone::Clone'))) and c['name'] == 'clone':
        return m_clone
    if c.get('name') == 'poll' and (c.get('trait') or '').endswith('Future') and c.get('key') not in A.P.bodies and FUTURE_POLL:
        return FUTURE_POLL[0]
    if c.get('key') in A.P.bodies and A.P.bodies[c['key']]['kind'] == 'coroutine' and FUTURE_POLL:
        return FUTURE_POLL[0]
    return None


FUTURE_POLL = []


# ---------------------------------------------------------------- construction helpers
def variant(A, ty, name, fs=()):
    for i, v in enumerate(A.P.types[ty]['variants']):
        if v['name'] == name:
            return Agg(ty, i, tuple(fs))
    raise Unsupported('no variant %s in %s' % (name, A.P.ts(ty)))


def vfield(A, ty, name, i=0):
    for v in A.P.types[ty]['variants']:
        if v['name'] == name:
            return v['fields'][i]['ty']


def some(A, ty, v):
    return variant(A, ty, 'Some', (v,))


def none(A, ty):
    return variant(A, ty, 'None')


def ok(A, ty, v):
    return variant(A, ty, 'Ok', (v,))


def err(A, ty, v):
    return variant(A, ty, 'Err', (v,))


def heap(A, fr, bb, st, v):
    a = ('H', A.fresh(st, fr, ('box', bb)))
    st.mem[a] = v
    return Ptr(a, (), None)


def rty(t):
    if t is None:
        raise Unsupported('library call without a known result type')
    return t['rty']


def deref(A, st, p):
    if isinstance(p, Ptr):
        if p.meta is not None and p.meta[0] != 'dyn':
            return A.slice_of(st, p)
        return A.read(st, p.alloc, p.path)
    return p


def fork(A, st, c):
    """[(bool, state)] for the feasible outcomes of c"""
    k = A.known(st, c)
    if k is not None:
        return [(k, st)]
    out = []
    for b, cc in ((True, c), (False, c_not(c))):
        for conj in A._dnf(cc):
            s2 = st.copy()
            try:
                for x in conj:
                    A.assume(s2, x)
            except Infeasible:
                continue
            out.append((b, s2))
    return out


def whole(A, st, p):
    """slice pointer covering the sequence p points to"""
    if p.meta is not None:
        return p
    q = A.read(st, p.alloc, p.path)
    if isinstance(q, Ptr):        # &Box<[T]>, &&[T]
        return whole(A, st, q)
    if not isinstance(q, Seq):
        raise Unsupported('slice view of %r' % (q,))
    return Ptr(p.alloc, p.path, (ZERO, st.store.norm(seqlen(q))))


def sub(A, st, p, off, n):
    nz = st.store.norm
    p = whole(A, st, p)
    return Ptr(p.alloc, p.path, (nz(p.meta[0] + off), nz(n)))


def elem_ptr(A, st, p, i):
    p = whole(A, st, p)
    return Ptr(p.alloc, p.path + (('i', st.store.norm(p.meta[0] + i)),), None)


RANGES = {'Range': 1, 'RangeTo': 1, 'RangeFrom': 1, 'RangeFull': 1, 'RangeInclusive': 1, 'RangeToInclusive': 1}


def as_range(A, st, v, n):
    """(start, end, condition for validity)"""
    if isinstance(v, Opq):
        return ZERO, n, TRUE
    raw = A.P.types[v.ty]['raw'].split('::')[-1] if isinstance(v, Agg) else None
    if raw == 'Range':
        a, b = v.fs
        return a, b, c_and(c_ge(b - a), c_ge(n - b))
    if raw == 'RangeTo':
        return ZERO, v.fs[0], c_ge(n - v.fs[0])
    if raw == 'RangeFrom':
        return v.fs[0], n, c_ge(n - v.fs[0])
    if raw == 'RangeFull':
        return ZERO, n, TRUE
    if raw == 'RangeInclusive':
        a, b = v.fs[0], v.fs[1] + 1
        return a, b, c_and(c_ge(b - a), c_ge(n - b))
    if raw == 'RangeToInclusive':
        b = v.fs[0] + 1
        return ZERO, b, c_ge(n - b)
    raise Unsupported('index by %r' % (v,))


# ---------------------------------------------------------------- slices
@model('<impl [T]>::get', '<impl [T]>::get_mut', '<impl str>::get')
def m_get(A, fr, bb, st, c, args, t):
    p = whole(A, st, args[0])
    n = p.meta[1]
    ty = rty(t)
    i = args[1]
    if isinstance(i, Lin):
        if A.decide(st, c_ge(n - i - 1)):
            return [(st, some(A, ty, elem_ptr(A, st, p, i)))]
        return [(st, none(A, ty))]
    a, b, ok_ = as_range(A, st, i, n)
    if A.decide(st, ok_):
        return [(st, some(A, ty, sub(A, st, p, a, b - a)))]
    return [(st, none(A, ty))]


def m_get_unchecked(A, fr, bb, st, c, args, t):
    p = whole(A, st, args[0])
    i = args[1]
    if isinstance(i, Lin):
        return [(st, elem_ptr(A, st, p, i))]
    a, b, ok_ = as_range(A, st, i, p.meta[1])
    return [(st, sub(A, st, p, a, b - a))]


def do_index(A, fr, st, p, i, t):
    p = whole(A, st, p)
    n = p.meta[1]
    sp = t['sp'] if t else None
    if isinstance(i, Lin):
        A.require(st, fr, c_ge(n - i - 1), 'index out of bounds', sp)
        return [(st, elem_ptr(A, st, p, i))]
    a, b, ok_ = as_range(A, st, i, n)
    A.require(st, fr, ok_, 'slice range out of bounds', sp)
    return [(st, sub(A, st, p, a, b - a))]


@model('<impl std::ops::Index<I> for [T]>::index', '<impl std::ops::IndexMut<I> for [T]>::index_mut',
       '<std::vec::Vec as std::ops::Index>::index', '<std::vec::Vec as std::ops::IndexMut>::index_mut',
       '<std::string::String as std::ops::Index>::index', '<impl std::ops::Index<I> for str>::index',
       '<std::collections::VecDeque as std::ops::Index>::index', '<std::collections::VecDeque as std::ops::IndexMut>::index_mut',
       '<impl std::ops::Index<I> for [T; N]>::index')
def m_index(A, fr, bb, st, c, args, t):
    return do_index(A, fr, st, args[0], args[1], t)


@model('<impl [T]>::len', 'std::vec::Vec::len', 'std::string::String::len', '<impl str>::len', 'bytes::BytesMut::len',
       'std::collections::VecDeque::len', '<bytes::BytesMut as bytes::Buf>::remaining', 'bytes::Bytes::len')
def m_len(A, fr, bb, st, c, args, t):
    return [(st, st.store.norm(whole(A, st, args[0]).meta[1]))]


@model('<impl [T]>::is_empty', 'std::vec::Vec::is_empty', 'std::string::String::is_empty', '<impl str>::is_empty',
       'bytes::BytesMut::is_empty', 'std::collections::VecDeque::is_empty', '<bytes::BytesMut as bytes::Buf>::has_remaining')
def m_is_empty(A, fr, bb, st, c, args, t):
    n = whole(A, st, args[0]).meta[1]
    if norm_path(c.get('rpath') or c['path']).endswith('has_remaining'):
        return [(st, c_ne(n))]
    return [(st, c_eq(n))]


@model('<impl str>::as_bytes', 'std::string::String::as_bytes', 'std::string::String::as_str', 'std::vec::Vec::as_slice',
       'std::vec::Vec::as_mut_slice', '<std::vec::Vec as std::ops::Deref>::deref', '<std::vec::Vec as std::ops::DerefMut>::deref_mut',
       '<std::string::String as std::ops::Deref>::deref', '<bytes::BytesMut as std::ops::Deref>::deref', '<bytes::BytesMut as std::ops::DerefMut>::deref_mut',
       '<bytes::BytesMut as bytes::Buf>::chunk', '<bytes::Bytes as std::ops::Deref>::deref',
       '<std::vec::Vec as std::convert::AsRef>::as_ref', '<std::string::String as std::convert::AsRef>::as_ref',
       '<bytes::BytesMut as std::convert::AsRef>::as_ref', '<impl std::convert::AsRef<[u8]> for str>::as_ref',
       '<impl std::convert::AsRef<[T]> for [T]>::as_ref', '<impl [T]>::as_ref', '<std::vec::Vec as std::borrow::Borrow>::borrow',
       '<impl [T; N]>::as_slice', 'std::str::from_utf8_unchecked', '<impl str>::as_str', '<impl std::convert::AsRef<str> for str>::as_ref')
def m_view(A, fr, bb, st, c, args, t):
    return [(st, whole(A, st, args[0]))]


@model('<impl [T]>::to_vec', '<impl std::borrow::ToOwned for [T]>::to_owned', '<impl std::borrow::ToOwned for str>::to_owned',
       '<impl [T]>::into_vec', '<std::string::String as std::convert::From>::from', '<std::vec::Vec as std::convert::From>::from',
       '<bytes::BytesMut as std::convert::From>::from', 'bytes::Bytes::copy_from_slice', 'std::string::String::into_bytes',
       '<impl std::convert::From<&str> for std::vec::Vec<u8>>::from')
def m_to_vec(A, fr, bb, st, c, args, t):
    v = args[0]
    if isinstance(v, Ptr):
        q = deref(A, st, v)
    else:
        q = v
    if isinstance(q, Agg) and len(q.fs) == 1 and A.P.types[q.ty].get('path', '').endswith('borrow::Cow'):
        q = deref(A, st, q.fs[0]) if isinstance(q.fs[0], Ptr) else q.fs[0]
    if not isinstance(q, Seq):
        if isinstance(q, Lin) and c['name'] == 'from':     # String from char
            q = Seq(A.u8(), (E(q),)) if A.known(st, c_ge(-q + 127)) else None
        if not isinstance(q, Seq):
            raise Unsupported('to_vec of %r' % (q,))
    return [(st, q)]


@model('<T as std::string::ToString>::to_string', '<impl std::string::ToString for str>::to_string')
def m_to_string(A, fr, bb, st, c, args, t):
    q = deref(A, st, args[0])
    while isinstance(q, Ptr):
        q = deref(A, st, q)
    if isinstance(q, Seq):
        return [(st, q)]
    return [(st, fmt_seq(A, ('to_string',), (q,)))]


def fmt_seq(A, template, args):
    tag = ('fmt', template, args)
    return Seq(A.u8(), (X(tag, sym(('fmtlen', template, args), 0, ISIZE_MAX), None),))


@model('std::vec::Vec::new', 'std::vec::Vec::with_capacity', '<std::vec::Vec as std::default::Default>::default',
       'std::string::String::new', 'std::string::String::with_capacity', '<std::string::String as std::default::Default>::default',
       'std::collections::VecDeque::new', 'std::collections::VecDeque::with_capacity', 'bytes::BytesMut::new',
       'bytes::BytesMut::with_capacity', '<std::collections::VecDeque as std::default::Default>::default')
def m_new(A, fr, bb, st, c, args, t):
    ty = rty(t)
    tt = A.P.types[ty]
    e = tt['args'][0] if tt['raw'] in interp.VECS else A.u8()
    return [(st, Seq(e, ()))]


def append(A, st, p, segs):
    q = A.read(st, p.alloc, p.path)
    if not isinstance(q, Seq):
        raise Unsupported('append to %r' % (q,))
    r = A.mkseq(st, q.ety, q.segs + tuple(segs))
    if any(isinstance(x, S) for x in r.segs):       # memory runs out before
        fits = c_ge(st.store.norm(-seqlen(r) + interp.MEM_MAX))
        if A.known(st, fits) is not True:
            A.assume(st, fits)
    A.write(st, p.alloc, p.path, r)


@model('std::vec::Vec::push', 'std::collections::VecDeque::push_back')
def m_push(A, fr, bb, st, c, args, t):
    append(A, st, args[0], (E(args[1]),))
    return [(st, A.UNIT())]


@model('std::vec::Vec::extend_from_slice', 'bytes::BytesMut::extend_from_slice', 'std::string::String::push_str',
       'bytes::BufMut::put_slice', '<std::vec::Vec as bytes::BufMut>::put_slice', '<bytes::BytesMut as bytes::BufMut>::put_slice')
def m_extend(A, fr, bb, st, c, args, t):
    append(A, st, args[0], deref(A, st, args[1]).segs)
    return [(st, A.UNIT())]


@model('std::vec::Vec::append')
def m_append(A, fr, bb, st, c, args, t):
    q = deref(A, st, args[1])
    append(A, st, args[0], q.segs)
    A.write(st, args[1].alloc, args[1].path, Seq(q.ety, ()))
    return [(st, A.UNIT())]


@prefix('<std::vec::Vec as std::iter::Extend>::extend', '<bytes::BytesMut as std::iter::Extend>::extend')
def m_extend_iter(A, fr, bb, st, c, args, t):
    s = args[1]
    if isinstance(s, It):
        if not st.store.entails_eq(s.pos):
            return NotImplemented
        q = s.seq
        q = deref(A, st, q) if isinstance(q, Ptr) else q
        append(A, st, args[0], q.segs)
        return [(st, A.UNIT())]
    q = deref(A, st, s)
    if isinstance(q, Seq):
        append(A, st, args[0], q.segs)
        return [(st, A.UNIT())]
    return NotImplemented


@model('<impl [T]>::concat', '<impl [V]>::concat', '<impl [S]>::concat')
def m_concat(A, fr, bb, st, c, args, t):
    q = deref(A, st, args[0])
    segs = ()
    e = A.u8()
    for s in q.segs:
        if not isinstance(s, E):
            return NotImplemented
        x = deref(A, st, s.v)
        e = x.ety
        segs += x.segs
    return [(st, A.mkseq(st, e, segs))]


def bebytes(A, st, v, n):
    nz = st.store.norm
    v = nz(v)
    return [E(nz(mod(div(v, 1 << (8 * (n - 1 - i)), st.store.bounds), 256, st.store.bounds))) for i in range(n)]


@prefix('bytes::BufMut::put_', '<std::vec::Vec as bytes::BufMut>::put_', '<bytes::BytesMut as bytes::BufMut>::put_')
def m_put(A, fr, bb, st, c, args, t):
    m = re.match(r'put_u(\d+)(_le)?$', c['name'])
    if not m or not isinstance(args[1], Lin):
        return NotImplemented
    b = bebytes(A, st, args[1], int(m.group(1)) // 8)
    if m.group(2):
        b.reverse()
    append(A, st, args[0], b)
    return [(st, A.UNIT())]


@model('<bytes::BytesMut as bytes::Buf>::advance')
def m_advance(A, fr, bb, st, c, args, t):
    p = args[0]
    q = A.read(st, p.alloc, p.path)
    n = seqlen(q)
    A.require(st, fr, c_ge(n - args[1]), 'advance past the end of the buffer', t['sp'] if t else None)
    A.write(st, p.alloc, p.path, A.seq_slice(st, q, args[1], n - args[1]))
    return [(st, A.UNIT())]


@model('bytes::BytesMut::split_to', '<bytes::BytesMut as bytes::Buf>::copy_to_bytes')
def m_split_to(A, fr, bb, st, c, args, t):
    p = args[0]
    q = A.read(st, p.alloc, p.path)
    n = seqlen(q)
    A.require(st, fr, c_ge(n - args[1]), 'split_to past the end of the buffer', t['sp'] if t else None)
    head = A.seq_slice(st, q, ZERO, args[1])
    A.write(st, p.alloc, p.path, A.seq_slice(st, q, args[1], n - args[1]))
    return [(st, head)]


@model('bytes::BytesMut::freeze')
def m_identity(A, fr, bb, st, c, args, t):
    return [(st, args[0])]


@model('bytes::BytesMut::reserve', 'std::vec::Vec::reserve', 'std::vec::Vec::shrink_to_fit', 'std::string::String::reserve',
       'std::vec::Vec::reserve_exact')
def m_unit(A, fr, bb, st, c, args, t):
    return [(st, A.UNIT())]


@model('std::vec::Vec::clear', 'bytes::BytesMut::clear', 'std::string::String::clear', 'std::collections::VecDeque::clear')
def m_clear(A, fr, bb, st, c, args, t):
    q = deref(A, st, args[0])
    A.write(st, args[0].alloc, args[0].path, Seq(q.ety, ()))
    return [(st, A.UNIT())]


@model('std::vec::Vec::truncate')
def m_truncate(A, fr, bb, st, c, args, t):
    p = args[0]
    q = deref(A, st, p)
    n = seqlen(q)
    if A.decide(st, c_ge(n - args[1])):
        A.write(st, p.alloc, p.path, A.seq_slice(st, q, ZERO, args[1]))
    return [(st, A.UNIT())]


@model('std::vec::Vec::insert', 'std::collections::VecDeque::insert')
def m_insert(A, fr, bb, st, c, args, t):
    p = args[0]
    q = deref(A, st, p)
    A.require(st, fr, c_ge(seqlen(q) - args[1]), 'insertion index out of bounds', t['sp'] if t else None)
    a, b = A.seq_split(st, q, args[1])
    A.write(st, p.alloc, p.path, A.mkseq(st, q.ety, a + (E(args[2]),) + b))
    return [(st, A.UNIT())]


@model('std::vec::Vec::pop', 'std::collections::VecDeque::pop_front', 'std::collections::VecDeque::pop_back')
def m_pop(A, fr, bb, st, c, args, t):
    p = args[0]
    q = deref(A, st, p)
    n = seqlen(q)
    ty = rty(t)
    if A.decide(st, c_eq(n)):
        return [(st, none(A, ty))]
    i = ZERO if c['name'] == 'pop_front' else n - 1
    v = A.seq_get(st, q, i)
    if i is ZERO:
        A.write(st, p.alloc, p.path, A.seq_slice(st, q, ONE, n - 1))
    else:
        A.write(st, p.alloc, p.path, A.seq_slice(st, q, ZERO, n - 1))
    return [(st, some(A, ty, v))]


@model('<impl [T]>::first', '<impl [T]>::last', 'std::collections::VecDeque::front', 'std::collections::VecDeque::back',
       '<impl [T]>::first_mut', '<impl [T]>::last_mut', 'std::collections::VecDeque::front_mut', 'std::collections::VecDeque::back_mut')
def m_first(A, fr, bb, st, c, args, t):
    p = whole(A, st, args[0])
    n = p.meta[1]
    if A.decide(st, c_eq(n)):
        return [(st, none(A, rty(t)))]
    i = n - 1 if c['name'].startswith(('last', 'back')) else ZERO
    return [(st, some(A, rty(t), elem_ptr(A, st, p, i)))]


@model('<impl [T]>::split_first', '<impl [T]>::split_last')
def m_split_first(A, fr, bb, st, c, args, t):
    p = whole(A, st, args[0])
    n = p.meta[1]
    ty = rty(t)
    if A.decide(st, c_eq(n)):
        return [(st, none(A, ty))]
    tup = vfield(A, ty, 'Some')
    if c['name'] == 'split_last':
        v = Agg(tup, None, (elem_ptr(A, st, p, n - 1), sub(A, st, p, ZERO, n - 1)))
    else:
        v = Agg(tup, None, (elem_ptr(A, st, p, ZERO), sub(A, st, p, ONE, n - 1)))
    return [(st, some(A, ty, v))]


@model('<impl [T]>::split_at', '<impl [T]>::split_at_checked')
def m_split_at(A, fr, bb, st, c, args, t):
    p = whole(A, st, args[0])
    n = p.meta[1]
    i = args[1]
    ty = rty(t)
    chk = c['name'].endswith('checked')
    if chk:
        if not A.decide(st, c_ge(n - i)):
            return [(st, none(A, ty))]
        tup = vfield(A, ty, 'Some')
    else:
        A.require(st, fr, c_ge(n - i), 'split_at out of bounds', t['sp'])
        tup = ty
    v = Agg(tup, None, (sub(A, st, p, ZERO, i), sub(A, st, p, i, n - i)))
    return [(st, some(A, ty, v) if chk else v)]


@model('<impl [T]>::copy_from_slice', '<impl [T]>::clone_from_slice')
def m_copy_from_slice(A, fr, bb, st, c, args, t):
    p = whole(A, st, args[0])
    src = deref(A, st, args[1])
    A.require(st, fr, c_eq(p.meta[1] - seqlen(src)), 'copy_from_slice length mismatch', t['sp'])
    q = A.read(st, p.alloc, p.path)
    a, rest = A.seq_split(st, q, p.meta[0])
    _, b = A.seq_split(st, Seq(q.ety, rest), p.meta[1])
    A.write(st, p.alloc, p.path, A.mkseq(st, q.ety, a + src.segs + b))
    return [(st, A.UNIT())]


@model('<impl [T]>::iter', '<impl [T]>::iter_mut', 'std::collections::VecDeque::iter', 'std::collections::VecDeque::iter_mut',
       '<&std::vec::Vec as std::iter::IntoIterator>::into_iter', '<&mut std::vec::Vec as std::iter::IntoIterator>::into_iter',
       "<impl std::iter::IntoIterator for &'a [T]>::into_iter", "<impl std::iter::IntoIterator for &'a mut [T]>::into_iter",
       '<&std::collections::VecDeque as std::iter::IntoIterator>::into_iter', "<impl std::iter::IntoIterator for &'a [T; N]>::into_iter",
       '<impl [T; N]>::iter')
def m_iter(A, fr, bb, st, c, args, t):
    p = whole(A, st, args[0])
    return [(st, It('ref', p, ZERO, p.meta[1]))]


@model('<std::vec::Vec as std::iter::IntoIterator>::into_iter', '<std::collections::VecDeque as std::iter::IntoIterator>::into_iter')
def m_into_iter_own(A, fr, bb, st, c, args, t):
    q = args[0]
    if not isinstance(q, Seq):
        return NotImplemented
    return [(st, It('own', q, ZERO, st.store.norm(seqlen(q))))]


def m_iter_next(A, fr, bb, st, c, args, t):
    p = args[0]
    it = A.read(st, p.alloc, p.path)
    if not isinstance(it, It):
        return NotImplemented
    ty = rty(t)
    if not A.decide(st, c_ge(it.end - it.pos - 1)):
        return [(st, none(A, ty))]
    if c['name'] == 'next_back':
        i = st.store.norm(it.end - 1)
        it2 = It(it.kind, it.seq, it.pos, i)
    else:
        i = it.pos
        it2 = It(it.kind, it.seq, st.store.norm(it.pos + 1), it.end)
    v = elem_ptr(A, st, it.seq, i) if it.kind == 'ref' else A.seq_get(st, it.seq, i)
    A.write(st, p.alloc, p.path, it2)
    return [(st, some(A, ty, v))]


for _n in ('std::slice::Iter', 'std::slice::IterMut', 'std::vec::IntoIter', 'std::collections::vec_deque::Iter',
           'std::collections::vec_deque::IterMut', 'std::collections::vec_deque::IntoIter', 'std::array::IntoIter'):
    REG['<%s as std::iter::Iterator>::next' % _n] = m_iter_next
    REG['<%s as std::iter::DoubleEndedIterator>::next_back' % _n] = m_iter_next


@model('<std::slice::Iter as std::iter::Iterator>::nth')
def m_iter_nth(A, fr, bb, st, c, args, t):
    p = args[0]
    it = A.read(st, p.alloc, p.path)
    ty = rty(t)
    i = st.store.norm(it.pos + args[1])
    if not A.decide(st, c_ge(it.end - i - 1)):
        A.write(st, p.alloc, p.path, It(it.kind, it.seq, it.end, it.end))
        return [(st, none(A, ty))]
    A.write(st, p.alloc, p.path, It(it.kind, it.seq, st.store.norm(i + 1), it.end))
    return [(st, some(A, ty, elem_ptr(A, st, it.seq, i)))]


@model('<std::slice::Iter as std::iter::Iterator>::__iterator_get_unchecked',
       '<std::slice::IterMut as std::iter::Iterator>::__iterator_get_unchecked',
       '<std::vec::IntoIter as std::iter::Iterator>::__iterator_get_unchecked')
def m_iter_unchecked(A, fr, bb, st, c, args, t):
    it = A.read(st, args[0].alloc, args[0].path)
    if not isinstance(it, It):
        return NotImplemented
    i = st.store.norm(it.pos + args[1])
    return [(st, elem_ptr(A, st, it.seq, i) if it.kind == 'ref' else A.seq_get(st, it.seq, i))]


@model('std::slice::Iter::as_slice')
def m_iter_as_slice(A, fr, bb, st, c, args, t):
    it = deref(A, st, args[0])
    return [(st, sub(A, st, it.seq, it.pos, it.end - it.pos))]


@model('<impl std::iter::Iterator for std::ops::Range<A>>::next', '<impl std::iter::Iterator for std::ops::RangeInclusive<A>>::next',
       '<impl std::iter::DoubleEndedIterator for std::ops::Range<A>>::next_back')
def m_range_next(A, fr, bb, st, c, args, t):
    p = args[0]
    r = A.read(st, p.alloc, p.path)
    ty = rty(t)
    if len(r.fs) == 3:
        a, b, ex = r.fs
        if A.decide(st, ex) or not A.decide(st, c_ge(b - a)):
            return [(st, none(A, ty))]
        if A.decide(st, c_eq(a - b)):
            A.write(st, p.alloc, p.path, Agg(r.ty, r.var, (a, b, TRUE)))
        else:
            A.write(st, p.alloc, p.path, Agg(r.ty, r.var, (st.store.norm(a + 1), b, FALSE)))
        return [(st, some(A, ty, a))]
    a, b = r.fs
    if not A.decide(st, c_ge(b - a - 1)):
        return [(st, none(A, ty))]
    if c['name'] == 'next_back':
        A.write(st, p.alloc, p.path, Agg(r.ty, r.var, (a, st.store.norm(b - 1))))
        return [(st, some(A, ty, st.store.norm(b - 1)))]
    A.write(st, p.alloc, p.path, Agg(r.ty, r.var, (st.store.norm(a + 1), b)))
    return [(st, some(A, ty, a))]


@model('std::collections::VecDeque::remove', 'std::vec::Vec::remove', 'std::vec::Vec::swap_remove',
       'std::collections::VecDeque::swap_remove_front', 'std::collections::VecDeque::swap_remove_back')
def m_remove(A, fr, bb, st, c, args, t):
    p = args[0]
    q = A.read(st, p.alloc, p.path)
    n = seqlen(q)
    ty = rty(t)
    i = args[1]
    name = c['name']
    dq = 'VecDeque' in (c.get('rpath') or c['path'])
    if not A.decide(st, c_ge(n - i - 1)):
        if not dq:
            A.panic(st, fr, 'remove index out of bounds', t['sp'])
            return []
        return [(st, none(A, ty))]
    v = A.seq_get(st, q, i)
    a, rest = A.seq_split(st, q, i)
    _, b = A.seq_split(st, Seq(q.ety, rest), ONE)
    if name.startswith('swap_remove') and not A.decide(st, c_eq(n - 1)):
        raise Unsupported('swap_remove')
    A.write(st, p.alloc, p.path, A.mkseq(st, q.ety, a + b))
    return [(st, some(A, ty, v) if dq else v)]


@model('std::collections::VecDeque::get', 'std::collections::VecDeque::get_mut')
def m_dq_get(A, fr, bb, st, c, args, t):
    return m_get(A, fr, bb, st, c, args, t)


# ---------------------------------------------------------------- strings
def utf8_cond(st, q):
    parts = []
    for s in q.segs:
        if isinstance(s, W):
            parts.append(('w', s.base, s.off, s.len))
        elif isinstance(s, E) and isinstance(s.v, Lin):
            parts.append(('e', s.v))
        else:
            parts.append(('o', s))
    return c_ne(st.store.norm(lin_utf8(tuple(parts))))


@model('std::str::from_utf8', '<impl str>::from_utf8')
def m_from_utf8(A, fr, bb, st, c, args, t):
    p = whole(A, st, args[0])
    q = A.slice_of(st, p)
    ty = rty(t)
    if A.decide(st, utf8_cond(st, q)):
        return [(st, ok(A, ty, p))]
    return [(st, err(A, ty, Opq('utf8err', ())))]


@model('std::string::String::from_utf8')
def m_string_from_utf8(A, fr, bb, st, c, args, t):
    q = args[0]
    ty = rty(t)
    if A.decide(st, utf8_cond(st, q)):
        return [(st, ok(A, ty, q))]
    return [(st, err(A, ty, Opq('utf8err', ())))]


@model('std::string::String::from_utf8_lossy')
def m_lossy(A, fr, bb, st, c, args, t):
    q = deref(A, st, args[0])
    k = A.decide(st, utf8_cond(st, q))
    ty = rty(t)
    if k:
        return [(st, variant(A, ty, 'Borrowed', (whole(A, st, args[0]),)))]
    return [(st, variant(A, ty, 'Owned', (fmt_seq(A, ('lossy',), q.segs),)))]


# ---------------------------------------------------------------- integers
INTM = {}


def intm(*names):
    def dec(f):
        for n in names:
            INTM[n] = f
        return f
    return dec


@intm('from_be_bytes', 'from_le_bytes', 'from_ne_bytes')
def i_from_bytes(A, fr, bb, st, c, args, t, ty):
    n = A.P.types[ty]['bits'] // 8
    q = args[0]
    v = ZERO
    for i in range(n):
        j = i if c['name'] == 'from_be_bytes' else n - 1 - i
        v = v * 256 + A.seq_get(st, q, const(j))
    return [(st, st.store.norm(v))]


@intm('to_be_bytes', 'to_le_bytes', 'to_ne_bytes')      # the native order is the target's: x86-64
def i_to_bytes(A, fr, bb, st, c, args, t, ty):
    b = bebytes(A, st, args[0], A.P.types[ty]['bits'] // 8)
    if c['name'] != 'to_be_bytes':
        b.reverse()
    return [(st, Seq(A.u8(), tuple(b)))]


OPS = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul'}


@intm('checked_add', 'checked_sub', 'checked_mul')
def i_checked(A, fr, bb, st, c, args, t, ty):
    r = A.arith(st, OPS[c['name'][8:]], args[0], args[1], ty)
    rt = rty(t)
    if A.decide(st, A.inrange(r, ty)):
        return [(st, some(A, rt, st.store.norm(r)))]
    return [(st, none(A, rt))]


@intm('wrapping_add', 'wrapping_sub', 'wrapping_mul', 'unchecked_add', 'unchecked_sub')
def i_wrapping(A, fr, bb, st, c, args, t, ty):
    r = A.arith(st, OPS[c['name'].split('_')[1]], args[0], args[1], ty)
    return [(st, A.wrap(st, r, ty))]


@intm('overflowing_add', 'overflowing_sub', 'overflowing_mul')
def i_overflowing(A, fr, bb, st, c, args, t, ty):
    r = A.arith(st, OPS[c['name'].split('_')[1]], args[0], args[1], ty)
    ov = not A.decide(st, A.inrange(r, ty))
    return [(st, Agg(rty(t), None, (A.wrap(st, r, ty), TRUE if ov else FALSE)))]


@intm('saturating_add', 'saturating_sub', 'saturating_mul')
def i_saturating(A, fr, bb, st, c, args, t, ty):
    r = A.arith(st, OPS[c['name'].split('_')[1]], args[0], args[1], ty)
    lo, hi = A.P.int_bounds(ty)
    if not A.decide(st, c_ge(r - lo)):
        return [(st, const(lo))]
    if not A.decide(st, c_ge(-r + hi)):
        return [(st, const(hi))]
    return [(st, st.store.norm(r))]


@intm('pow')
def i_pow(A, fr, bb, st, c, args, t, ty):
    a, b = st.store.norm(args[0]), st.store.norm(args[1])
    if not a.t and not b.t:
        r = const(a.c ** b.c)
        A.require(st, fr, A.inrange(r, ty), 'pow overflow', t['sp'] if t else None)
        return [(st, r)]
    if not a.t:
        lo, hi = st.store.bounds(b)
        if lo is not None and hi is not None and 0 <= lo and hi - lo < 200:
            tyhi = A.P.int_bounds(ty)[1]
            top = max([i for i in range(lo, hi + 1) if a.c ** i <= tyhi] or [lo - 1])
            A.require(st, fr, c_ge(-b + top), 'pow overflow', t['sp'] if t else None)
            b = st.store.norm(b)
            return [(st, st.store.norm(mapped(b, tuple((i, a.c ** i) for i in range(lo, top + 1)))))]
    lo, hi = A.P.int_bounds(ty)
    return [(st, sym(('pow', a, b), lo, hi))]


@intm('abs_diff')
def i_abs_diff(A, fr, bb, st, c, args, t, ty):
    d = args[0] - args[1]
    return [(st, d if A.decide(st, c_ge(d)) else -d)]


@model('std::cmp::min', 'std::cmp::Ord::min', 'std::cmp::max', 'std::cmp::Ord::max',
       '<impl std::cmp::Ord for usize>::min', '<impl std::cmp::Ord for usize>::max')
def m_minmax(A, fr, bb, st, c, args, t):
    a, b = args
    if not (isinstance(a, Lin) and isinstance(b, Lin)):
        return NotImplemented
    le = A.decide(st, c_ge(b - a))
    if c['name'] == 'min':
        return [(st, a if le else b)]
    return [(st, b if le else a)]


@model('std::num::NonZero::new')
def m_nz_new(A, fr, bb, st, c, args, t):
    if A.decide(st, c_eq(args[0])):
        return [(st, none(A, rty(t)))]
    return [(st, some(A, rty(t), args[0]))]


@model('std::num::NonZero::get', 'std::num::NonZero::new_unchecked')
def m_nz_get(A, fr, bb, st, c, args, t):
    return [(st, args[0])]


@model('<std::num::NonZero as std::cmp::PartialEq>::eq', '<std::num::NonZero as std::cmp::PartialEq>::ne')
def m_nz_eq(A, fr, bb, st, c, args, t):
    a, b = deref(A, st, args[0]), deref(A, st, args[1])
    return [(st, c_eq(a - b) if c['name'] == 'eq' else c_ne(a - b))]


@model('<impl std::cmp::PartialEq for [T]>::eq', '<impl std::cmp::PartialEq for str>::eq', '<std::string::String as std::cmp::PartialEq>::eq',
       '<std::vec::Vec as std::cmp::PartialEq>::eq', '<impl std::cmp::PartialEq<[U]> for [T]>::eq', '<impl std::cmp::PartialEq<[U; N]> for [T]>::eq',
       '<impl std::cmp::PartialEq<[U; N]> for [T; N]>::eq')
def m_seq_eq(A, fr, bb, st, c, args, t):
    a, b = deref(A, st, args[0]), deref(A, st, args[1])
    while isinstance(a, Ptr):
        a = deref(A, st, a)
    while isinstance(b, Ptr):
        b = deref(A, st, b)
    if a is b:
        return [(st, TRUE)]
    d = seqlen(a) - seqlen(b)
    if not A.decide(st, c_eq(d)):
        return [(st, FALSE)]
    if all(isinstance(x, E) for x in a.segs) or all(isinstance(x, E) for x in b.segs):
        n = min(len(a.segs) if all(isinstance(x, E) for x in a.segs) else 1 << 30,
                len(b.segs) if all(isinstance(x, E) for x in b.segs) else 1 << 30)
        cs = []
        for i in range(n):
            x, y = A.seq_get(st, a, const(i)), A.seq_get(st, b, const(i))
            if not (isinstance(x, Lin) and isinstance(y, Lin)):
                break
            cs.append(c_eq(x - y))
        else:
            return [(st, c_and(*cs))]
    x, y = sorted((a, b), key=repr)
    return [(st, c_ne(sym(('seqeq', x, y), 0, 1)))]


def m_try_from_int(A, fr, bb, st, c, args, t):
    """TryFrom between integer types"""
    ty = rty(t)
    target = vfield(A, ty, 'Ok')
    if A.P.int_bounds(target) is None or not isinstance(args[0], Lin):
        return NotImplemented
    if A.decide(st, A.inrange(args[0], target)):
        return [(st, ok(A, ty, args[0]))]
    return [(st, err(A, ty, Opq('tryfromint', ())))]


for _a in ('u8', 'u16', 'u32', 'u64', 'usize', 'i32', 'i64', 'isize', 'u128', 'i128', 'i8', 'i16'):
    for _b in ('u8', 'u16', 'u32', 'u64', 'usize', 'i32', 'i64', 'isize', 'u128', 'i128', 'i8', 'i16'):
        REG['<impl std::convert::TryFrom<%s> for %s>::try_from' % (_b, _a)] = m_try_from_int


@prefix('<impl std::convert::TryFrom<')
def m_try_from(A, fr, bb, st, c, args, t):
    n = norm_path(c.get('rpath') or c['path'])
    ty = rty(t)
    if 'NonZero' in n:
        target = vfield(A, ty, 'Ok')
        v = args[0]
        if isinstance(v, Lin):
            if not A.decide(st, c_eq(v)) and A.decide(st, A.inrange(v, A.P.types[target]['args'][0])):
                return [(st, ok(A, ty, v))]
            return [(st, err(A, ty, Opq('tryfromint', ())))]
        return NotImplemented
    if '[T; N]' in n:
        target = A.P.types[vfield(A, ty, 'Ok')]
        byref = target['k'] == 'ref'
        arr = A.P.types[target['to']] if byref else target
        p = whole(A, st, args[0])
        if A.decide(st, c_eq(p.meta[1] - arr['len'])):
            if byref:
                return [(st, ok(A, ty, Ptr(p.alloc, p.path, p.meta)))]
            q = A.slice_of(st, p)
            els = tuple(E(A.seq_get(st, q, const(i))) for i in range(arr['len']))
            return [(st, ok(A, ty, Seq(arr['elem'], els)))]
        return [(st, err(A, ty, Opq('tryfromslice', ())))]
    return NotImplemented


REG['<std::num::NonZero as std::convert::TryFrom>::try_from'] = m_try_from


@model('<std::num::NonZero as std::convert::From>::from')
def m_nz_from(A, fr, bb, st, c, args, t):
    return [(st, args[0])]


# ---------------------------------------------------------------- boxes, memory
@model('std::boxed::Box::new')
def m_box_new(A, fr, bb, st, c, args, t):
    return [(st, heap(A, fr, bb, st, args[0]))]


@model('std::boxed::Box::pin')
def m_box_pin(A, fr, bb, st, c, args, t):
    return [(st, Agg(rty(t), 0, (heap(A, fr, bb, st, args[0]),)))]


@model('std::boxed::Box::new_uninit')
def m_box_uninit(A, fr, bb, st, c, args, t):
    return [(st, heap(A, fr, bb, st, Opq('uninit', ())))]


@model('std::boxed::box_assume_init_into_vec_unsafe')
def m_box_vec(A, fr, bb, st, c, args, t):
    v = deref(A, st, args[0])
    st.mem.pop(args[0].alloc, None)
    return [(st, v)]


@model('std::mem::replace', 'std::mem::take')
def m_mem_replace(A, fr, bb, st, c, args, t):
    p = args[0]
    old = A.read(st, p.alloc, p.path)
    if len(args) > 1:
        new = args[1]
    elif isinstance(old, Seq):
        new = Seq(old.ety, ())
    else:
        return NotImplemented
    A.write(st, p.alloc, p.path, new)
    return [(st, old)]


@model('std::mem::swap')
def m_mem_swap(A, fr, bb, st, c, args, t):
    p, q = args
    a, b = A.read(st, p.alloc, p.path), A.read(st, q.alloc, q.path)
    A.write(st, p.alloc, p.path, b)
    A.write(st, q.alloc, q.path, a)
    return [(st, A.UNIT())]


@model('std::mem::drop', 'core::mem::drop', 'std::mem::forget')
def m_drop(A, fr, bb, st, c, args, t):
    return [(st, A.UNIT())]


@model('std::hint::must_use', 'std::convert::identity', 'std::hint::black_box')
def m_must_use(A, fr, bb, st, c, args, t):
    return [(st, args[0])]


SHALLOW = ('int', 'bool', 'char', 'ref', 'ptr', 'fndef', 'str', 'never')


def m_clone(A, fr, bb, st, c, args, t):
    """Clone of values that are plain data in this domain; local types go through their own impl"""
    ty = c['targs'][0] if c.get('targs') and isinstance(c['targs'][0], int) else c.get('rself')
    if not isinstance(ty, int):
        return NotImplemented
    tt = A.P.types[ty]
    if tt['k'] in SHALLOW:
        return [(st, deref(A, st, args[0]))]
    if tt['k'] == 'adt':
        if tt['raw'] in interp.VECS or tt['raw'] in interp.BYTES or tt['raw'] == interp.NONZERO or tt['raw'] in interp.OPAQUE:
            v = A.read(st, args[0].alloc, args[0].path)
            return [(st, v)]
        if not tt['local'] and tt['raw'].split('::')[0] not in ('core', 'alloc', 'std'):
            v = A.read(st, args[0].alloc, args[0].path)
            return [(st, v)]
        if tt['raw'] == interp.BOX:
            v = A.read(st, args[0].alloc, args[0].path)
            return [(st, heap(A, fr, bb, st, A.read(st, v.alloc, v.path)))]
    if tt['k'] in ('array', 'tuple') or tt['k'] == 'adt' and tt['raw'] == 'core::option::Option':
        v = A.read(st, args[0].alloc, args[0].path)
        if not any(isinstance(x, Ptr) for x in subvals(v)):
            return [(st, v)]
    return NotImplemented


def subvals(v):
    yield v
    if isinstance(v, Val):
        for x in v.args():
            if isinstance(x, tuple):
                for y in x:
                    if isinstance(y, Val):
                        yield from subvals(y)
            elif isinstance(x, Val):
                yield from subvals(x)


# ---------------------------------------------------------------- formatting, errors, logging
def m_noise(A, fr, bb, st, c, args, t):
    return [(st, NOISE)]


def snapshot(A, st, v, d=0):
    """pointer-free copy of a value"""
    if d > 8:
        return v
    if isinstance(v, Ptr):
        try:
            return snapshot(A, st, deref(A, st, v), d + 1)
        except Unsupported:
            return Opq('ptr', ())
    if isinstance(v, Agg):
        return Agg(v.ty, v.var, tuple(snapshot(A, st, x, d + 1) for x in v.fs))
    if isinstance(v, Seq):
        return Seq(v.ety, tuple(E(snapshot(A, st, s.v, d + 1)) if isinstance(s, E) else s for s in v.segs))
    return v


@prefix('core::fmt::rt::Argument::')
def m_fmt_arg(A, fr, bb, st, c, args, t):
    return [(st, Opq('arg', tuple(snapshot(A, st, a) for a in args[:1])))]


@prefix('std::fmt::Arguments::')
def m_fmt_args(A, fr, bb, st, c, args, t):
    return [(st, Opq('fmtargs', tuple(snapshot(A, st, a) for a in args)))]


@model('std::fmt::format', 'alloc::fmt::format')
def m_format(A, fr, bb, st, c, args, t):
    a = args[0]
    xs = a.xs if isinstance(a, Opq) else (a,)
    # a literal without arguments is just that string
    if len(xs) == 1 and isinstance(xs[0], Seq) and c is not None and isinstance(a, Opq) and a.tag == 'fmtargs':
        return [(st, xs[0])]
    return [(st, fmt_seq(A, xs[0] if xs else None, xs[1:]))]


@prefix('std::fmt::Formatter::', 'core::fmt::Formatter::', 'std::fmt::Write::', 'std::fmt::write')
def m_formatter(A, fr, bb, st, c, args, t):
    ty = rty(t)
    return [(st, A.sym_value(A.fresh(st, fr, ('fmtres', bb)), ty))]


@prefix('log::__private_api::', 'log::max_level')
def m_log(A, fr, bb, st, c, args, t):
    if c['name'] == 'log':
        return [(st, A.UNIT())]
    return [(st, Opq('log', ()))]


@model('<impl std::io::Error>::new', 'std::io::Error::new', '<impl std::io::Error>::other')
def m_io_error(A, fr, bb, st, c, args, t):
    return [(st, Opq('ioerr', tuple(snapshot(A, st, a) for a in args)))]


@model('<std::io::Error as std::convert::From>::from')
def m_io_error_from(A, fr, bb, st, c, args, t):
    return [(st, Opq('ioerr', tuple(snapshot(A, st, a) for a in args)))]


# ---------------------------------------------------------------- panics
def panics(kind):
    def f(A, fr, bb, st, c, args, t):
        A.panic(st, fr, kind, t['sp'] if t else None)
        return []
    return f


for _n, _k in (('std::rt::panic_fmt', 'explicit panic'), ('core::panicking::panic_fmt', 'explicit panic'),
               ('core::panicking::panic', 'explicit panic'), ('core::panicking::panic_const', 'panic'),
               ('core::panicking::panic_nounwind', 'panic'), ('core::panicking::panic_explicit', 'explicit panic'),
               ('core::panicking::panic_display', 'explicit panic'), ('core::panicking::panic_str_2015', 'explicit panic'),
               ('core::panicking::unreachable_display', 'unreachable!'), ('core::panicking::unreachable_default_msg', 'unreachable!'),
               ('core::panicking::assert_failed', 'assertion failed'), ('core::panicking::assert_failed_inner', 'assertion failed'),
               ('core::option::unwrap_failed', 'unwrap on None'), ('std::option::unwrap_failed', 'unwrap on None'),
               ('core::option::expect_failed', 'expect on None'), ('std::option::expect_failed', 'expect on None'),
               ('core::result::unwrap_failed', 'unwrap on Err'), ('std::result::unwrap_failed', 'unwrap on Err'),
               ('std::process::abort', 'abort'), ('std::process::exit', 'exit')):
    REG[_n] = panics(_k)
PREF.append(('core::panicking::', panics('panic')))
PREF.append(('std::rt::begin_panic', panics('explicit panic')))
PREF.append(('std::rt::panic', panics('explicit panic')))
PREF.append(('core::slice::index::slice_', panics('slice range out of bounds')))


@prefix('std::intrinsics::', 'core::intrinsics::')
def m_intrinsic(A, fr, bb, st, c, args, t):
    n = c['name']
    if n in ('likely', 'unlikely', 'black_box'):
        return [(st, args[0])]
    if n in ('assume', 'cold_path', 'assert_inhabited', 'assert_zero_valid'):
        return [(st, A.UNIT())]
    if n in ('unreachable',):
        return []
    if n == 'abort':
        A.panic(st, fr, 'abort', t['sp'])
        return []
    if n in ('size_of', 'min_align_of', 'align_of'):
        return [(st, sym(('sizeof', tuple(c.get('targs') or ())), 0, ISIZE_MAX))]
    if n in ('discriminant_value',):
        return [(st, A.discr(st, deref(A, st, args[0])))]
    if n in ('transmute',):
        return [(st, args[0])]
    if n in ('three_way_compare',):
        r = A.binop(fr, st, 'Cmp', args[0], args[1], None, None)
        return [(st, A.ordering(rty(t), r[1]))]
    if n in ('rotate_left', 'rotate_right', 'ctpop', 'ctlz', 'cttz', 'bswap'):
        lo, hi = A.P.int_bounds(rty(t))
        return [(st, sym((n,) + tuple(args), lo, hi))]
    return NotImplemented


# ---------------------------------------------------------------- string functions of unknown result
@model('<impl str>::chars', '<impl str>::char_indices', '<impl str>::bytes_count')
def m_chars(A, fr, bb, st, c, args, t):
    return [(st, Opq('chars', (A.slice_of(st, whole(A, st, args[0])),)))]


@model('<std::str::Chars as std::iter::Iterator>::count', '<std::str::CharIndices as std::iter::Iterator>::count')
def m_chars_count(A, fr, bb, st, c, args, t):
    v = args[0]
    if not isinstance(v, Opq) or v.tag != 'chars':
        raise Unsupported('chars().count() of %r' % (v,))
    q = v.xs[0]
    n = sym(('charcount', q.segs), 0, ISIZE_MAX)
    l = st.store.norm(seqlen(q))
    A.assume(st, c_ge(l - n))
    A.assume(st, c_ge(n * 4 - l))
    return [(st, n)]


@model('<impl str>::trim', '<impl str>::trim_start', '<impl str>::trim_end', '<impl str>::trim_matches',
       '<impl str>::trim_start_matches', '<impl str>::trim_end_matches', '<impl [u8]>::trim_ascii',
       '<impl str>::trim_ascii', '<impl str>::trim_left', '<impl str>::trim_right')
def m_trim(A, fr, bb, st, c, args, t):
    q = A.slice_of(st, whole(A, st, args[0]))
    what = norm_path(c.get('rpath') or c['path'])
    p = A.sym_ptr(('strfn', what, q.segs, tuple(args[1:])), A.P.types[rty(t)]['to'])
    A.assume(st, c_ge(seqlen(q) - p.meta[1]))
    return [(st, p)]


@model('<impl str>::to_lowercase', '<impl str>::to_uppercase', '<impl str>::to_ascii_lowercase',
       '<impl str>::to_ascii_uppercase', '<impl str>::replace', '<impl str>::replacen', '<impl str>::repeat')
def m_strfn(A, fr, bb, st, c, args, t):
    q = A.slice_of(st, whole(A, st, args[0]))
    what = norm_path(c.get('rpath') or c['path'])
    n = ('strfn', what, q.segs, tuple(args[1:]))
    return [(st, Seq(A.u8(), (W(n, ZERO, A.len_sym(n)),)))]


import stdmodels  # registers more models
