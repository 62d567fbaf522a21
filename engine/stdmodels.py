"""More std and bytes functions: strings with unknown results, whole-vector operations, collecting iterators."""
import re
from lin import *
from vals import *
import interp
import lin as LIN
from interp import Unsupported, Dead, ISIZE_MAX
import models
from models import (REG, model, prefix, intm, rty, whole, deref, sub, elem_ptr, some, none, ok, err, variant, vfield,
                    append, as_range, bebytes, norm_path)


def what(c):
    return norm_path(c.get('rpath') or c['path'])


def text(A, st, v):
    """contents behind a string or slice argument, through any number of references; other values as they are"""
    n = 0
    while isinstance(v, Ptr) and n < 8:
        n += 1
        v = deref(A, st, v)
    return v


def ident(A, st, v):
    v = text(A, st, v)
    if isinstance(v, Seq):
        return A.mkseq(st, v.ety, v.segs).segs
    if isinstance(v, Agg):
        return ('agg', v.ty, v.var) + tuple(ident(A, st, x) for x in v.fs)
    return v


def literal(segs):
    if all(isinstance(s, E) and isinstance(s.v, Lin) and not s.v.t for s in segs):
        return bytes(s.v.c & 255 for s in segs)
    return None


# ---------------------------------------------------------------- predicates on text and slices
def pure_bool(A, st, c, args):
    return [(st, c_ne(sym(('strpred', what(c)) + tuple(ident(A, st, a) for a in args), 0, 1)))]


@model('<impl str>::contains', '<impl str>::eq_ignore_ascii_case', '<impl str>::is_ascii',
       '<impl [u8]>::is_ascii', '<impl [u8]>::eq_ignore_ascii_case', '<impl [T]>::contains', 'std::collections::VecDeque::contains')
def m_pred(A, fr, bb, st, c, args, t):
    a = ident(A, st, args[0])
    if a == () and c['name'] == 'contains' and (what(c) != '<impl str>::contains'):
        return [(st, FALSE)]
    return pure_bool(A, st, c, args)


@model('<impl str>::starts_with', '<impl str>::ends_with', '<impl [T]>::starts_with', '<impl [T]>::ends_with')
def m_affix(A, fr, bb, st, c, args, t):
    a, b = text(A, st, args[0]), text(A, st, args[1])
    if isinstance(b, Lin) and not b.t and 0 <= b.c < 128:
        b = Seq(A.u8(), (E(b),))
    if isinstance(a, Seq) and isinstance(b, Seq) and all(isinstance(s, E) for s in b.segs) and len(b.segs) <= 8:
        n, m = st.store.norm(seqlen(a)), const(len(b.segs))
        if not A.decide(st, c_ge(n - m)):
            return [(st, FALSE)]
        o = ZERO if c['name'] == 'starts_with' else n - m
        xs = [(A.seq_get(st, a, st.store.norm(o + i)), s.v) for i, s in enumerate(b.segs)]
        if all(isinstance(x, Lin) and isinstance(y, Lin) for x, y in xs):
            return [(st, c_and(*[c_eq(x - y) for x, y in xs]))]
    return pure_bool(A, st, c, args)


def boundary(A, st, q, at):
    """condition: at is a character boundary of the text q"""
    at = st.store.norm(at)
    if at is ZERO or st.store.entails_eq(at) or st.store.entails_eq(at - seqlen(q)):
        return TRUE
    segs = A.mkseq(st, q.ety, q.segs).segs
    lit = literal(segs)
    if lit is not None and not at.t:
        return TRUE if 0 <= at.c <= len(lit) and (at.c == len(lit) or (lit[at.c] & 0xC0) != 0x80) else FALSE
    return c_ne(sym(('charb', segs, at), 0, 1))


@model('<impl str>::is_char_boundary')
def m_is_boundary(A, fr, bb, st, c, args, t):
    q = text(A, st, args[0])
    if not A.decide(st, c_ge(seqlen(q) - args[1])):
        return [(st, FALSE)]
    return [(st, boundary(A, st, q, args[1]))]


@model('<std::string::String as std::ops::Index>::index', '<impl std::ops::Index<I> for str>::index',
       '<std::string::String as std::ops::IndexMut>::index_mut', '<impl std::ops::IndexMut<I> for str>::index_mut')
def m_str_index(A, fr, bb, st, c, args, t):
    p = whole(A, st, args[0])
    q = A.slice_of(st, p)
    n = p.meta[1]
    sp = t['sp'] if t else None
    a, b, ok_ = as_range(A, st, args[1], n)
    A.require(st, fr, ok_, 'slice range out of bounds', sp)
    for x in (a, b):
        k = boundary(A, st, q, x)
        if k is not TRUE:
            A.require(st, fr, k, 'byte index is not a char boundary', sp)
    return [(st, sub(A, st, p, a, b - a))]


@model('<impl str>::get')
def m_str_get(A, fr, bb, st, c, args, t):
    p = whole(A, st, args[0])
    q = A.slice_of(st, p)
    ty = rty(t)
    a, b, ok_ = as_range(A, st, args[1], p.meta[1])
    if not A.decide(st, ok_):
        return [(st, none(A, ty))]
    for x in (a, b):
        if not A.decide(st, boundary(A, st, q, x)):
            return [(st, none(A, ty))]
    return [(st, some(A, ty, sub(A, st, p, a, b - a)))]


@model('<impl str>::split_at')
def m_str_split_at(A, fr, bb, st, c, args, t):
    p = whole(A, st, args[0])
    q = A.slice_of(st, p)
    n = p.meta[1]
    sp = t['sp'] if t else None
    A.require(st, fr, c_ge(n - args[1]), 'split index out of bounds', sp)
    k = boundary(A, st, q, args[1])
    if k is not TRUE:
        A.require(st, fr, k, 'byte index is not a char boundary', sp)
    return [(st, Agg(rty(t), None, (sub(A, st, p, ZERO, args[1]), sub(A, st, p, args[1], n - args[1]))))]


@model('<impl str>::find', '<impl str>::rfind')
def m_find(A, fr, bb, st, c, args, t):
    p = whole(A, st, args[0])
    q = A.slice_of(st, p)
    ty = rty(t)
    key = (what(c), ident(A, st, args[0]), ident(A, st, args[1]))
    if not A.decide(st, c_ne(sym(('found',) + key, 0, 1))):
        return [(st, none(A, ty))]
    i = sym(('foundat',) + key, 0, ISIZE_MAX)
    pat = text(A, st, args[1])
    m = seqlen(pat) if isinstance(pat, Seq) else ONE
    A.assume(st, c_ge(p.meta[1] - i - m))
    for x in (i, i + m if isinstance(pat, (Seq, Lin)) and (isinstance(pat, Seq) or (not pat.t and pat.c < 128)) else i):
        k = boundary(A, st, q, x)
        if k is not TRUE:
            A.assume(st, k)
    return [(st, some(A, ty, i))]


@model('<impl str>::strip_prefix', '<impl str>::strip_suffix')
def m_strip(A, fr, bb, st, c, args, t):
    p = whole(A, st, args[0])
    ty = rty(t)
    pat = text(A, st, args[1])
    if isinstance(pat, Lin) and not pat.t and pat.c < 128:
        pat = Seq(A.u8(), (E(pat),))
    if not isinstance(pat, Seq):
        raise Unsupported('strip_prefix by %r' % (pat,))
    pre = c['name'] == 'strip_prefix'
    m = seqlen(pat)
    r = m_affix(A, fr, bb, st, dict(c, name='starts_with' if pre else 'ends_with'), [args[0], args[1]], t)
    if not A.decide(st, r[0][1]):
        return [(st, none(A, ty))]
    A.assume(st, c_ge(p.meta[1] - m))
    return [(st, some(A, ty, sub(A, st, p, m if pre else ZERO, p.meta[1] - m)))]


@model('<impl std::cmp::Ord for str>::cmp', '<impl std::cmp::PartialOrd for str>::partial_cmp')
def m_str_cmp(A, fr, bb, st, c, args, t):
    x = sym(('strcmp', ident(A, st, args[0]), ident(A, st, args[1])), -1, 1)
    ty = rty(t)
    n = 0 if A.decide(st, c_eq(x)) else (1 if A.decide(st, c_ge(x - 1)) else -1)
    if c['name'] == 'partial_cmp':
        return [(st, some(A, ty, A.ordering(vfield(A, ty, 'Some'), n)))]
    return [(st, A.ordering(ty, n))]


@model('<impl str>::parse')
def m_parse(A, fr, bb, st, c, args, t):
    return [(st, A.sym_value(('parse', ident(A, st, args[0]), rty(t)), rty(t)))]


# ---------------------------------------------------------------- characters
def chars_of(A, st, q, ty):
    segs = A.mkseq(st, q.ety, q.segs).segs
    lit = literal(segs)
    if lit is not None:
        try:
            return Seq(ty, tuple(E(const(ord(x))) for x in lit.decode('utf8')))
        except UnicodeDecodeError:
            pass
    n = sym(('charcount', segs), 0, ISIZE_MAX)
    l = st.store.norm(seqlen(q))
    A.assume(st, c_ge(l - n))
    A.assume(st, c_ge(n * 4 - l))
    return Seq(ty, (X(('chars', segs), n, None),))


@model('<impl str>::chars')
def m_chars(A, fr, bb, st, c, args, t):
    q = A.slice_of(st, whole(A, st, args[0]))
    s = chars_of(A, st, q, A.P.find_type('char'))
    return [(st, It('own', s, ZERO, st.store.norm(seqlen(s))))]


@model('<impl str>::bytes')
def m_bytes(A, fr, bb, st, c, args, t):
    q = A.slice_of(st, whole(A, st, args[0]))
    return [(st, It('own', q, ZERO, st.store.norm(seqlen(q))))]


for _n in ('std::str::Chars', 'std::str::Bytes'):
    REG['<%s as std::iter::Iterator>::next' % _n] = models.m_iter_next
    REG['<%s as std::iter::DoubleEndedIterator>::next_back' % _n] = models.m_iter_next


@model('<std::str::Chars as std::iter::Iterator>::count', '<std::str::Bytes as std::iter::Iterator>::count',
       '<std::slice::Iter as std::iter::Iterator>::count', '<std::vec::IntoIter as std::iter::Iterator>::count',
       '<std::slice::Iter as std::iter::ExactSizeIterator>::len', '<std::slice::IterMut as std::iter::ExactSizeIterator>::len',
       '<std::vec::IntoIter as std::iter::ExactSizeIterator>::len', '<std::str::Bytes as std::iter::ExactSizeIterator>::len')
def m_it_len(A, fr, bb, st, c, args, t):
    it = text(A, st, args[0])
    if not isinstance(it, It):
        return NotImplemented
    return [(st, st.store.norm(it.end - it.pos))]


@model('<std::slice::Iter as std::iter::Iterator>::size_hint', '<std::str::Chars as std::iter::Iterator>::size_hint',
       '<std::vec::IntoIter as std::iter::Iterator>::size_hint', '<std::slice::IterMut as std::iter::Iterator>::size_hint',
       '<std::str::Bytes as std::iter::Iterator>::size_hint')
def m_size_hint(A, fr, bb, st, c, args, t):
    it = text(A, st, args[0])
    if not isinstance(it, It):
        return NotImplemented
    ty = rty(t)
    n = st.store.norm(it.end - it.pos)
    oty = A.P.types[ty]['elems'][1]
    return [(st, Agg(ty, None, (n, some(A, oty, n))))]


@model('<std::slice::Iter as std::iter::Iterator>::last', '<std::vec::IntoIter as std::iter::Iterator>::last')
def m_it_last(A, fr, bb, st, c, args, t):
    it = args[0]
    if not isinstance(it, It):
        return NotImplemented
    ty = rty(t)
    if not A.decide(st, c_ge(it.end - it.pos - 1)):
        return [(st, none(A, ty))]
    i = st.store.norm(it.end - 1)
    return [(st, some(A, ty, elem_ptr(A, st, it.seq, i) if it.kind == 'ref' else A.seq_get(st, it.seq, i)))]


# ---------------------------------------------------------------- building strings
def store_text(A, st, p, segs):
    q = A.read(st, p.alloc, p.path)
    A.write(st, p.alloc, p.path, A.mkseq(st, q.ety, segs))


def utf8_of(A, st, ch):
    if isinstance(ch, Lin):
        ch = st.store.norm(ch)
        if not ch.t:
            try:
                return tuple(E(const(b)) for b in chr(ch.c).encode('utf8'))
            except (ValueError, UnicodeEncodeError):
                pass
        n = sym(('utf8len', ch), 1, 4)
        return (X(('utf8of', ch), n, None),)
    raise Unsupported('utf8 of %r' % (ch,))


@model('std::string::String::push')
def m_str_push(A, fr, bb, st, c, args, t):
    append(A, st, args[0], utf8_of(A, st, args[1]))
    return [(st, A.UNIT())]


@model('<std::string::String as std::ops::Add>::add')
def m_str_add(A, fr, bb, st, c, args, t):
    return [(st, A.mkseq(st, A.u8(), args[0].segs + deref(A, st, args[1]).segs))]


@model('<std::string::String as std::ops::AddAssign>::add_assign')
def m_str_add_assign(A, fr, bb, st, c, args, t):
    append(A, st, args[0], deref(A, st, args[1]).segs)
    return [(st, A.UNIT())]


@model('std::string::String::truncate')
def m_str_truncate(A, fr, bb, st, c, args, t):
    p = args[0]
    q = deref(A, st, p)
    if A.decide(st, c_ge(seqlen(q) - args[1])):
        k = boundary(A, st, q, args[1])
        if k is not TRUE:
            A.require(st, fr, k, 'byte index is not a char boundary', t['sp'])
        A.write(st, p.alloc, p.path, A.seq_slice(st, q, ZERO, args[1]))
    return [(st, A.UNIT())]


@model('std::string::String::insert_str')
def m_insert_str(A, fr, bb, st, c, args, t):
    p = args[0]
    q = deref(A, st, p)
    A.require(st, fr, c_ge(seqlen(q) - args[1]), 'insertion index out of bounds', t['sp'])
    k = boundary(A, st, q, args[1])
    if k is not TRUE:
        A.require(st, fr, k, 'byte index is not a char boundary', t['sp'])
    a, b = A.seq_split(st, q, args[1])
    store_text(A, st, p, a + deref(A, st, args[2]).segs + b)
    return [(st, A.UNIT())]


@model('<impl [T]>::join', '<impl [S]>::join', '<impl [V]>::join')
def m_join(A, fr, bb, st, c, args, t):
    q = deref(A, st, args[0])
    sep = text(A, st, args[1])
    segs = ()
    if not isinstance(sep, Seq) or not all(isinstance(s, E) for s in q.segs):
        n = ('strfn', 'join', ident(A, st, args[0]), ident(A, st, args[1]))
        return [(st, Seq(A.u8(), (W(n, ZERO, A.len_sym(n)),)))]
    for i, s in enumerate(q.segs):
        x = text(A, st, s.v)
        segs += (sep.segs if i else ()) + x.segs
    return [(st, A.mkseq(st, A.u8(), segs))]


# ---------------------------------------------------------------- whole-vector operations
def opaque_seq(A, st, p, tag, shorter, extra=()):
    """the vector's contents become unknown; its length shrinks or stays"""
    q = A.read(st, p.alloc, p.path)
    n = st.store.norm(seqlen(q))
    if p.meta is not None:
        raise Unsupported('%s of a part of a vector' % tag)
    segs = A.mkseq(st, q.ety, q.segs).segs
    if not segs or (st.store.entails_ge(-n + 1) and tag != 'retain'):
        return
    nm = (tag, segs) + extra
    if shorter:
        m = A.len_sym(nm)
        A.assume(st, c_ge(n - m))
        if tag == 'dedup':          # the first element stays
            A.assume(st, c_ge(m - 1)) if st.store.entails_ge(n - 1) else None
    else:
        m = n
    A.write(st, p.alloc, p.path, A.mkseq(st, q.ety, (W(nm, ZERO, m),)))


@model('std::vec::Vec::dedup', 'std::vec::Vec::dedup_by_key', 'std::vec::Vec::dedup_by')
def m_dedup(A, fr, bb, st, c, args, t):
    opaque_seq(A, st, args[0], 'dedup', True)
    return [(st, A.UNIT())]


@model('std::vec::Vec::retain', 'std::collections::VecDeque::retain', 'std::vec::Vec::retain_mut', 'std::collections::VecDeque::retain_mut')
def m_retain(A, fr, bb, st, c, args, t):
    q = A.read(st, args[0].alloc, args[0].path)
    f = args[1]
    if q.segs and c['name'] == 'retain' and len(q.segs) == 1 and isinstance(q.segs[0], W) and isinstance(f, Agg):
        # what the predicate says about an arbitrary element
        w = q.segs[0]
        s = st.copy()
        j = sym(('retained', w.base), 0, None)
        try:
            A.assume(s, c_ge(s.store.norm(w.len - j - 1)))
            el = A.elem(w.base, s.store.norm(w.off + j), q.ety)
            ra, fa = ('T', 'retained', w.base), ('T', 'retain', w.base)
            s.mem[ra], s.mem[fa] = el, f
            rs = A.call_closure(fr, bb, s.copy(), f, Ptr(fa, (), None), [Ptr(ra, (), None)])
            for s2, v in rs:
                if any(s2.mem.get(a) is not x for a, x in s.mem.items() if a[0] != 'L' or a[1] != fr.id):
                    raise Unsupported('retain with a closure that changes something')
            nm = ('retain', A.mkseq(st, q.ety, q.segs).segs, models.snapshot(A, st, f))
            A.retains.setdefault(nm, []).append((el, rs))
        except (LIN.Infeasible, Dead):
            pass
    opaque_seq(A, st, args[0], 'retain', True, (models.snapshot(A, st, args[1]),))
    return [(st, A.UNIT())]


@prefix('<impl [T]>::sort', '<impl [T]>::select_nth')
def m_sort(A, fr, bb, st, c, args, t):
    p = args[0]
    if p.meta is not None:
        q = A.read(st, p.alloc, p.path)
        if not (p.meta[0] is ZERO and st.store.entails_eq(p.meta[1] - seqlen(q))):
            raise Unsupported('sort of a part')
        p = Ptr(p.alloc, p.path, None)
    opaque_seq(A, st, p, c['name'], False)
    return [(st, A.UNIT())]


def part(A, st, p):
    """(whole sequence, start, length) of a mutable slice argument"""
    w = whole(A, st, p)
    return A.read(st, p.alloc, p.path), w.meta[0], w.meta[1]


def put_part(A, st, p, q, off, n, segs):
    a, rest = A.seq_split(st, q, off)
    _, b = A.seq_split(st, Seq(q.ety, rest), n)
    A.write(st, p.alloc, p.path, A.mkseq(st, q.ety, a + tuple(segs) + b))


@model('<impl [T]>::reverse')
def m_reverse(A, fr, bb, st, c, args, t):
    p = args[0]
    q, off, n = part(A, st, p)
    s = A.seq_slice(st, q, off, n)
    if all(isinstance(x, E) for x in s.segs):
        r = s.segs[::-1]
    else:
        r = (W(('reverse', s.segs), ZERO, n),)
    put_part(A, st, p, q, off, n, r)
    return [(st, A.UNIT())]


@model('<impl [T]>::fill')
def m_fill(A, fr, bb, st, c, args, t):
    p = args[0]
    q, off, n = part(A, st, p)
    n = st.store.norm(n)
    v = args[1]
    if not n.t and n.c <= 64:
        r = (E(v),) * n.c
    else:
        r = (W(('fill', v), ZERO, n),)
    put_part(A, st, p, q, off, n, r)
    return [(st, A.UNIT())]


@model('<impl [T]>::swap', 'std::collections::VecDeque::swap')
def m_swap(A, fr, bb, st, c, args, t):
    p = args[0]
    q, off, n = part(A, st, p)
    sp = t['sp'] if t else None
    i, j = args[1], args[2]
    A.require(st, fr, c_and(c_ge(n - i - 1), c_ge(n - j - 1)), 'index out of bounds', sp)
    w = whole(A, st, p)
    pi, pj = elem_ptr(A, st, w, i), elem_ptr(A, st, w, j)
    x, y = A.read(st, pi.alloc, pi.path), A.read(st, pj.alloc, pj.path)
    A.write(st, pi.alloc, pi.path, y)
    A.write(st, pj.alloc, pj.path, x)
    return [(st, A.UNIT())]


@model('<impl [T]>::rotate_left', '<impl [T]>::rotate_right', 'std::collections::VecDeque::rotate_left',
       'std::collections::VecDeque::rotate_right')
def m_rotate(A, fr, bb, st, c, args, t):
    p = args[0]
    q, off, n = part(A, st, p)
    k = args[1]
    A.require(st, fr, c_ge(n - k), 'rotation past the end', t['sp'] if t else None)
    if c['name'] == 'rotate_right':
        k = n - k
    s = A.seq_slice(st, q, off, n)
    a, b = A.seq_split(st, s, k)
    put_part(A, st, p, q, off, n, b + a)
    return [(st, A.UNIT())]


@model('std::vec::Vec::resize', 'bytes::BytesMut::resize', 'std::collections::VecDeque::resize')
def m_resize(A, fr, bb, st, c, args, t):
    p = args[0]
    q = deref(A, st, p)
    n = seqlen(q)
    if A.decide(st, c_ge(n - args[1])):
        A.write(st, p.alloc, p.path, A.seq_slice(st, q, ZERO, args[1]))
    else:
        m = st.store.norm(args[1] - n)
        if not m.t and m.c <= 64:
            append(A, st, p, (E(args[2]),) * m.c)
        else:
            append(A, st, p, (W(('fill', args[2]), ZERO, m),))
    return [(st, A.UNIT())]


@model('std::vec::Vec::split_off', 'std::collections::VecDeque::split_off', 'bytes::BytesMut::split_off', 'std::string::String::split_off')
def m_split_off(A, fr, bb, st, c, args, t):
    p = args[0]
    q = deref(A, st, p)
    n = seqlen(q)
    A.require(st, fr, c_ge(n - args[1]), 'split_off past the end', t['sp'] if t else None)
    tail = A.seq_slice(st, q, args[1], n - args[1])
    A.write(st, p.alloc, p.path, A.seq_slice(st, q, ZERO, args[1]))
    return [(st, tail)]


@model('bytes::BytesMut::split')
def m_split_all(A, fr, bb, st, c, args, t):
    p = args[0]
    q = deref(A, st, p)
    A.write(st, p.alloc, p.path, Seq(q.ety, ()))
    return [(st, q)]


@model('bytes::BytesMut::truncate', 'std::collections::VecDeque::truncate')
def m_truncate(A, fr, bb, st, c, args, t):
    return models.m_truncate(A, fr, bb, st, c, args, t)


@model('bytes::BytesMut::unsplit')
def m_unsplit(A, fr, bb, st, c, args, t):
    append(A, st, args[0], args[1].segs)
    return [(st, A.UNIT())]


@model('std::vec::Vec::drain', 'std::collections::VecDeque::drain', 'std::string::String::drain')
def m_drain(A, fr, bb, st, c, args, t):
    """removes the range at once; what the iterator yields is the removed part"""
    p = args[0]
    q = deref(A, st, p)
    n = st.store.norm(seqlen(q))
    a, b, ok_ = as_range(A, st, args[1], n)
    A.require(st, fr, ok_, 'drain range out of bounds', t['sp'] if t else None)
    head, rest = A.seq_split(st, q, a)
    mid, tail = A.seq_split(st, Seq(q.ety, rest), b - a)
    m = A.mkseq(st, q.ety, mid)
    A.write(st, p.alloc, p.path, A.mkseq(st, q.ety, head + tail))
    return [(st, It('own', m, ZERO, st.store.norm(seqlen(m))))]


for _n in ('std::vec::Drain', 'std::collections::vec_deque::Drain'):
    REG['<%s as std::iter::Iterator>::next' % _n] = models.m_iter_next
    REG['<%s as std::iter::DoubleEndedIterator>::next_back' % _n] = models.m_iter_next


@model('std::collections::VecDeque::push_front')
def m_push_front(A, fr, bb, st, c, args, t):
    p = args[0]
    q = deref(A, st, p)
    A.write(st, p.alloc, p.path, A.mkseq(st, q.ety, (E(args[1]),) + q.segs))
    return [(st, A.UNIT())]


@model('std::collections::VecDeque::append')
def m_dq_append(A, fr, bb, st, c, args, t):
    return models.m_append(A, fr, bb, st, c, args, t)


@model('std::vec::Vec::swap_remove', 'std::collections::VecDeque::swap_remove_front', 'std::collections::VecDeque::swap_remove_back')
def m_swap_remove(A, fr, bb, st, c, args, t):
    p = args[0]
    q = A.read(st, p.alloc, p.path)
    n = seqlen(q)
    ty = rty(t)
    i = args[1]
    dq = 'VecDeque' in what(c)
    if not A.decide(st, c_ge(n - i - 1)):
        if not dq:
            A.panic(st, fr, 'swap_remove index out of bounds', t['sp'])
            return []
        return [(st, none(A, ty))]
    v = A.seq_get(st, q, i)
    front = c['name'] == 'swap_remove_front'
    a, rest = A.seq_split(st, q, i)
    _, b = A.seq_split(st, Seq(q.ety, rest), ONE)
    if front:
        k = st.store.norm(i)
        if not A.decide(st, c_eq(k)):
            x = A.seq_get(st, q, ZERO)
            _, a = A.seq_split(st, Seq(q.ety, a), ONE)
            a = tuple(a) + (E(x),)
    elif not A.decide(st, c_eq(n - i - 1)):
        x = A.seq_get(st, q, st.store.norm(n - 1))
        lb = st.store.norm(seqlen(Seq(q.ety, b)) - 1)
        b, _ = A.seq_split(st, Seq(q.ety, b), lb)
        b = (E(x),) + tuple(b)
    A.write(st, p.alloc, p.path, A.mkseq(st, q.ety, tuple(a) + tuple(b)))
    return [(st, some(A, ty, v) if dq else v)]


@model('<impl [T]>::binary_search', '<impl [T]>::binary_search_by', '<impl [T]>::binary_search_by_key',
       'std::collections::VecDeque::binary_search', 'std::collections::VecDeque::binary_search_by', 'std::collections::VecDeque::binary_search_by_key')
def m_bsearch(A, fr, bb, st, c, args, t):
    p = whole(A, st, args[0])
    n = p.meta[1]
    ty = rty(t)
    key = (what(c), A.slice_of(st, p).segs) + tuple(models.snapshot(A, st, a) for a in args[1:])
    i = sym(('bsearch',) + key, 0, ISIZE_MAX)
    if A.decide(st, c_ne(sym(('bfound',) + key, 0, 1))):
        A.assume(st, c_ge(n - i - 1))
        return [(st, ok(A, ty, i))]
    A.assume(st, c_ge(n - i))
    return [(st, err(A, ty, i))]


# ---------------------------------------------------------------- reading and writing through Buf / BufMut
def buf_take(A, fr, st, p, n, t):
    """first n bytes of the buffer behind p, which advances"""
    q = A.read(st, p.alloc, p.path)
    sp = t['sp'] if t else None
    if isinstance(q, Seq):
        A.require(st, fr, c_ge(seqlen(q) - n), 'read past the end of the buffer', sp)
        r = A.seq_slice(st, q, ZERO, const(n))
        A.write(st, p.alloc, p.path, A.seq_slice(st, q, const(n), seqlen(q) - n))
        return r
    if isinstance(q, Ptr):          # &[u8]
        w = whole(A, st, q)
        A.require(st, fr, c_ge(w.meta[1] - n), 'read past the end of the buffer', sp)
        r = A.slice_of(st, sub(A, st, w, ZERO, const(n)))
        A.write(st, p.alloc, p.path, sub(A, st, w, const(n), w.meta[1] - n))
        return r
    raise Unsupported('Buf read from %r' % (q,))


@prefix('bytes::Buf::get_', '<&[u8] as bytes::Buf>::get_', '<bytes::BytesMut as bytes::Buf>::get_')
def m_buf_get(A, fr, bb, st, c, args, t):
    m = re.match(r'get_u(8|16|32|64)(_le)?$', c['name'])
    if not m:
        return NotImplemented
    n = int(m.group(1)) // 8
    q = buf_take(A, fr, st, args[0], n, t)
    v = ZERO
    for i in range(n):
        v = v * 256 + A.seq_get(st, q, const(n - 1 - i if m.group(2) else i))
    return [(st, st.store.norm(v))]


@model('<&[u8] as bytes::Buf>::advance', '<impl bytes::Buf for &[u8]>::advance')
def m_slice_advance(A, fr, bb, st, c, args, t):
    p = args[0]
    w = whole(A, st, A.read(st, p.alloc, p.path))
    A.require(st, fr, c_ge(w.meta[1] - args[1]), 'advance past the end of the buffer', t['sp'] if t else None)
    A.write(st, p.alloc, p.path, sub(A, st, w, args[1], w.meta[1] - args[1]))
    return [(st, A.UNIT())]


@model('<&[u8] as bytes::Buf>::remaining', '<impl bytes::Buf for &[u8]>::remaining', '<&[u8] as bytes::Buf>::has_remaining',
       '<impl bytes::Buf for &[u8]>::has_remaining', 'bytes::Buf::has_remaining', 'bytes::Buf::remaining')
def m_slice_remaining(A, fr, bb, st, c, args, t):
    n = seqlen(text(A, st, args[0]))
    return [(st, n if c['name'] == 'remaining' else c_ne(n))]


@model('<bytes::BytesMut as bytes::BufMut>::put', 'bytes::BufMut::put', '<std::vec::Vec as bytes::BufMut>::put')
def m_buf_put(A, fr, bb, st, c, args, t):
    q = text(A, st, args[1])
    if not isinstance(q, Seq):
        return NotImplemented
    append(A, st, args[0], q.segs)
    return [(st, A.UNIT())]


@model('<std::vec::Vec as std::io::Write>::write_all', '<impl std::io::Write for std::vec::Vec<u8, A>>::write_all')
def m_write_all(A, fr, bb, st, c, args, t):
    append(A, st, args[0], deref(A, st, args[1]).segs)
    ty = rty(t)
    return [(st, ok(A, ty, A.UNIT()))]


# ---------------------------------------------------------------- collecting an iterator
def vec_call(name):
    return {'o': 'const', 'ty': 0, 'v': {'fn': {'path': 'std::vec::Vec::' + name, 'raw': 'alloc::vec::Vec::' + name, 'name': name,
            'targs': [], 'rpath': 'std::vec::Vec::' + name, 'rraw': 'alloc::vec::Vec::' + name, 'ikind': 'item', 'key': 'none'}}}


def collect_body(P, c):
    """MIR of `loop { match it.next() { Some(x) => v.push(x), None => return v } }` for one iterator type"""
    if 'inext' not in c:
        return None
    ity, refty, oty = c['inext_ty'], c['inext_ref'], c['inext_opt']
    key = 'synthetic|collect|%d' % ity
    if key in P.bodies:
        return key
    f = {'o': 'const', 'ty': 0, 'v': {'fn': c['inext']}}
    item = None
    for v in P.types[oty]['variants']:
        if v['name'] == 'Some':
            item = v['fields'][0]['ty']
    isz = P.find_type('isize')
    sp = 'collect'
    L = lambda n, *p: {'l': n, 'p': list(p)}
    ref = lambda d, s: {'k': '=', 'pl': L(d), 'rv': {'r': 'ref', 'pl': L(s), 'mut': True}, 'sp': sp}
    use = lambda d, pl: {'k': '=', 'pl': L(d), 'rv': {'r': 'use', 'o': {'o': 'move', 'pl': pl}}, 'sp': sp}
    mv = lambda n: {'o': 'move', 'pl': L(n)}
    some_i = [i for i, v in enumerate(P.types[oty]['variants']) if v['name'] == 'Some'][0]
    unit = P.find_type('()')
    blocks = [
        {'s': [], 't': {'sp': sp, 'k': 'goto', 'to': 1}},
        {'s': [ref(4, 1)], 't': {'sp': sp, 'k': 'call', 'f': f, 'args': [mv(4)], 'rty': oty, 'dst': L(3), 'to': 2}},
        {'s': [{'k': '=', 'pl': L(5), 'rv': {'r': 'discr', 'pl': L(3)}, 'sp': sp}],
         't': {'sp': sp, 'k': 'switch', 'o': mv(5), 'ty': isz, 'targets': [[str(1 - some_i), 4], [str(some_i), 3]], 'otherwise': 5}},
        {'s': [use(6, L(3, ['d', some_i], ['f', 0, item])), ref(7, 2)],
         't': {'sp': sp, 'k': 'call', 'f': vec_call('push'), 'args': [mv(7), mv(6)], 'rty': unit, 'dst': L(8), 'to': 1}},
        {'s': [use(0, L(2))], 't': {'sp': sp, 'k': 'return'}},
        {'s': [], 't': {'sp': sp, 'k': 'unreachable'}}]
    P.bodies[key] = {'path': 'std::iter::Iterator::collect', 'raw': 'synthetic', 'local': False, 'kind': 'fn', 'phase': 'x', 'args': 2,
                     'spread': None, 'span': '', 'names': {}, 'blocks': blocks,
                     'locals': [item, ity, item, oty, refty, isz, item, refty, unit], 'key': key}
    return key


def collect_into(A, fr, bb, st, c, it, v):
    """[(state, Seq)]"""
    if isinstance(it, It) and it.kind == 'own':
        s = A.seq_slice(st, it.seq, it.pos, it.end - it.pos)
        return [(st, A.mkseq(st, v.ety, v.segs + s.segs))]
    key = collect_body(A.P, c)
    if key is None:
        return NotImplemented
    return A.inline(fr, ('collect', bb), st, key, [it, v])


@prefix('<std::vec::Vec as std::iter::FromIterator', '<std::collections::VecDeque as std::iter::FromIterator',
        '<std::collections::vec_deque::VecDeque as std::iter::FromIterator')
def m_from_iter(A, fr, bb, st, c, args, t):
    ty = rty(t)
    tt = A.P.types[ty]
    if tt.get('raw') not in interp.VECS:
        return NotImplemented
    return collect_into(A, fr, bb, st, c, args[0], Seq(tt['args'][0], ()))


@prefix('<std::vec::Vec as std::iter::Extend>::extend', '<bytes::BytesMut as std::iter::Extend>::extend',
        '<std::collections::VecDeque as std::iter::Extend>::extend')
def m_extend_iter(A, fr, bb, st, c, args, t):
    p, s = args[0], args[1]
    if isinstance(s, It):
        q = deref(A, st, s.seq) if isinstance(s.seq, Ptr) else s.seq
        append(A, st, p, A.seq_slice(st, q, s.pos, s.end - s.pos).segs)
        return [(st, A.UNIT())]
    q = deref(A, st, s) if isinstance(s, Ptr) else s
    if isinstance(q, Seq):
        append(A, st, p, q.segs)
        return [(st, A.UNIT())]
    v = deref(A, st, p)
    rs = collect_into(A, fr, bb, st, c, s, v)
    if rs is NotImplemented:
        return rs
    out = []
    for s2, r in rs:
        A.write(s2, p.alloc, p.path, r)
        out.append((s2, A.UNIT()))
    return out


models.PREF[:] = [x for x in models.PREF if x[1] is not models.m_extend_iter]


@prefix('<std::string::String as std::iter::FromIterator')
def m_string_from_iter(A, fr, bb, st, c, args, t):
    it = args[0]
    n = None
    if isinstance(it, It) and it.kind == 'own' and it.seq.segs and isinstance(it.seq.segs[0], X) and it.seq.segs[0].tag[0] == 'chars' \
            and len(it.seq.segs) == 1 and it.pos is ZERO and it.end is it.seq.segs[0].len:
        return [(st, Seq(A.u8(), it.seq.segs[0].tag[1]))]
    n = ('strfn', 'collect', models.snapshot(A, st, it))
    return [(st, Seq(A.u8(), (W(n, ZERO, A.len_sym(n)),)))]


# ---------------------------------------------------------------- integers
@intm('min', 'max')
def i_minmax(A, fr, bb, st, c, args, t, ty):
    return models.m_minmax(A, fr, bb, st, c, args, t)


@prefix('<impl std::cmp::Ord for ', 'std::cmp::impls::<impl std::cmp::Ord for ')
def m_int_ord(A, fr, bb, st, c, args, t):
    if c['name'] in ('min', 'max') and all(isinstance(a, Lin) for a in args):
        return models.m_minmax(A, fr, bb, st, c, args, t)
    if c['name'] == 'clamp' and all(isinstance(a, Lin) for a in args):
        v, lo, hi = args
        A.require(st, fr, c_ge(hi - lo), 'clamp with min > max', t['sp'] if t else None)
        if not A.decide(st, c_ge(v - lo)):
            return [(st, lo)]
        return [(st, v if A.decide(st, c_ge(hi - v)) else hi)]
    return NotImplemented


_old_intr = models.m_intrinsic


def m_intrinsic(A, fr, bb, st, c, args, t):
    n = c['name']
    if n in ('integer_min', 'integer_max'):
        return models.m_minmax(A, fr, bb, st, dict(c, name=n[8:]), args, t)
    if n in ('saturating_sub', 'saturating_add'):
        return models.i_saturating(A, fr, bb, st, c, args, t, rty(t))
    if n == 'select_unpredictable':
        return [(st, args[1] if A.decide(st, args[0]) else args[2])]
    return _old_intr(A, fr, bb, st, c, args, t)


models.PREF[:] = [(p, m_intrinsic if f is _old_intr else f) for p, f in models.PREF]


@model('std::collections::VecDeque::make_contiguous', 'std::collections::VecDeque::as_mut_slice')
def m_make_contiguous(A, fr, bb, st, c, args, t):
    return [(st, models.whole(A, st, args[0]))]
