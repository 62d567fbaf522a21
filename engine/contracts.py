"""Contract summaries for functions that are verified separately (C03)."""
from lin import *
from vals import *
import models
from models import ok, err, vfield, variant, fork
from interp import Unsupported

MAXVBI = 268435455


def vbi_syms(base, off):
    """(length class 1..5, value) of the variable byte integer at base[off..]; class 5: longer than four bytes"""
    return sym(('vbin', base, off), 1, 5), sym(('vbiv', base, off), 0, MAXVBI)


def find_root(P, trait, name, self_suffix):
    for r in P.roots:
        if r['name'] == name and (r.get('trait') or '').endswith(trait):
            st = r.get('self_ty')
            s = P.ts(st) if isinstance(st, int) else str(st)
            if s.endswith(self_suffix):
                return r
    return None


def vbi_decode_contract(A, fr, bb, st, c, args, t):
    p = models.whole(A, st, args[0])
    q = A.slice_of(st, p)
    if len(q.segs) != 1 or not isinstance(q.segs[0], W):
        if not q.segs:
            pass
        return NotImplemented
    s = q.segs[0]
    n, v = vbi_syms(s.base, st.store.norm(s.off))
    ty = A.vbi_ret
    out = []
    if A.decide(st, c_ge(s.len - n)):
        if A.decide(st, c_eq(n - 5)):
            et = vfield(A, ty, 'Err')
            tag = ('vbi-too-long', s.base, st.store.norm(s.off))
            return [(st, err(A, ty, variant(A, et, 'Other', (Seq(A.u8(), (X(tag, sym(('fmtlen',) + tag, 0, 1 << 60), None),)),))))]
        tup = vfield(A, ty, 'Ok')
        vt = A.P.types[tup]['elems'][0]
        return [(st, ok(A, ty, Agg(tup, None, (Agg(vt, 0, (v,)), n))))]
    et = vfield(A, ty, 'Err')
    return [(st, err(A, ty, variant(A, et, 'NotEnoughBytes')))]


def vbi_encode_contract(A, fr, bb, st, c, args, t):
    """the encoding of a value as a unit; only exact for values up to MAXVBI"""
    v = models.deref(A, st, args[0])
    if not isinstance(v, Agg) or len(v.fs) != 1 or not isinstance(v.fs[0], Lin):
        return NotImplemented
    n = st.store.norm(v.fs[0])
    if not n.t and n.c <= MAXVBI:
        out = []
        x = n.c
        while True:
            b = x % 128
            x //= 128
            out.append(E(const(b | (128 if x else 0))))
            if not x:
                break
        return [(st, Seq(A.u8(), tuple(out)))]
    if A.decide(st, c_ge(-n + MAXVBI)):
        return [(st, Seq(A.u8(), (vbi_seg(n),)))]
    return [(st, Seq(A.u8(), (X(('vbienc', n), const(5), None),)))]


def vbi_seg(n):
    return X(('vbienc', n), sym(('vbilen', n), 1, 4), None)


def install(A, dec=True, enc=True):
    P = A.P
    if dec:
        r = find_root(P, 'FromMqttBytes', 'convert_from_mqtt', 'VBI')
        if r and r['key'] in P.bodies:
            A.overrides[r['key']] = vbi_decode_contract
            A.vbi_ret = P.info(r['key']).locals[0]
    if enc:
        r = find_root(P, 'ToMqttBytes', 'convert_to_mqtt', 'VBI')
        if r and r['key'] in P.bodies:
            A.overrides[r['key']] = vbi_encode_contract
