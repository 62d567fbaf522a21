"""Reading MQTT out of symbolic bytes and comparing it with analysed values."""
import time
from lin import *
from lin import Infeasible
import lin as LIN
from vals import *
from interp import Split, Dead, Unsupported
import models
import contracts
import mqtt
from mqtt import nz


class Undecided(Exception):
    """the oracle could not decide this obligation"""


class Bad(Exception):
    """the bytes are not a well-formed packet"""
    def __init__(self, why, **kw):
        Exception.__init__(self, why)
        self.why = why
        self.__dict__.update(kw)


def forks(A, st, fn, limit=3000, stop=None, seconds=None, wide=False):
    """run fn over st, splitting it wherever fn needs a decision the state does not make"""
    work = [st]
    out = []
    n = 0
    t0 = time.time()
    while work:
        s = work.pop(0 if wide else -1)
        n += 1
        if n > limit or seconds is not None and time.time() - t0 > seconds:
            raise Undecided('case split too large')
        s2 = s.copy()
        try:
            r = fn(s2)
        except Split as e:
            for c in e.conds:
                s3 = s.copy()
                try:
                    A.assume(s3, c)
                except Infeasible:
                    continue
                if s3.store.feasible(True):
                    work.append(s3)
            continue
        except (Infeasible, Dead):
            continue
        out.append((s2, r))
        if stop is not None and stop(s2, r):
            break
    return out


class R:
    """reader over the bytes of one buffer in one state"""

    def __init__(self, A, st, base, contract=True):
        self.A, self.st, self.base, self.contract = A, st, base, contract

    def n(self, l):
        return self.st.store.norm(l)

    def u8(self, off):
        return byte(self.base, self.n(off))

    def uint(self, off, k):
        r = ZERO
        for i in range(k):
            r = r * 256 + self.u8(off + i)
        return r

    def ge(self, l):
        return self.A.decide(self.st, c_ge(self.n(l)))

    def eq(self, l):
        return self.A.decide(self.st, c_eq(self.n(l)))

    def cond(self, c):
        return self.A.decide(self.st, c)

    def div(self, l, k):
        return div(self.n(l), k, self.st.store.bounds)

    def bit(self, l, i):
        return self.div(l, 1 << i) - self.div(l, 2 << i) * 2

    def utf8(self, off, ln):
        q = self.A.mkseq(self.st, self.A.u8(), (W(self.base, self.n(off), self.n(ln)),))
        return self.A.decide(self.st, models.utf8_cond(self.st, q))

    def vbi(self, off, end):
        """(length, value), 'short' or 'long'"""
        off = self.n(off)
        room = end - off
        if self.contract:
            n, v = contracts.vbi_syms(self.base, off)
            if not self.ge(room - n):
                return 'short'
            if self.eq(n - 5):
                return 'long'
            return n, v
        v = ZERO
        for i in range(4):
            if not self.ge(room - i - 1):
                return 'short'
            b = self.u8(off + i)
            if not self.ge(b - 128):
                return const(i + 1), v + b * (128 ** i)
            v = v + (b - 128) * (128 ** i)
        return 'long' if self.ge(room - 5) else 'short'


# ---------------------------------------------------------------- expected values
class Exp:
    """expected value descriptors"""


def mk(kind):
    class K(Exp):
        def __init__(self, *a):
            self.a = a
    K.__name__ = kind
    return K


Int = mk('Int')      # Int(lin)
Buf = mk('Buf')      # Buf(off, len): bytes of the packet
Pair = mk('Pair')    # Pair(exp, exp)
Bool = mk('Bool')    # Bool(cond)
Opt = mk('Opt')      # Opt(None | exp)
Code = mk('Code')    # Code(kind, lin): reason code from a byte
Enum = mk('Enum')    # Enum(name): field-less variant by MQTT name


def show(e):
    if isinstance(e, Exp):
        return '%s(%s)' % (type(e).__name__, ', '.join(show(x) for x in e.a))
    return str(e)


def fields(A, v):
    """field name -> value of a struct value"""
    t = A.P.types[v.ty]
    vs = t['variants'][v.var or 0]
    return {f['name']: x for f, x in zip(vs['fields'], v.fs)}


def field(A, v, *names):
    fs = {nz(k): x for k, x in fields(A, v).items()}
    for n in names:
        if nz(n) in fs:
            return fs[nz(n)]
    raise Undecided('no field %s in %s' % (names[0], A.P.ts(v.ty)))


def vname(A, v):
    return A.P.types[v.ty]['variants'][v.var or 0]['name']


def is_seq_of(R_, v, off, ln):
    """does Seq v hold exactly base[off..off+ln]? None or a reason"""
    A, st = R_.A, R_.st
    if isinstance(v, Ptr):
        v = models.deref(A, st, v)
    if not isinstance(v, Seq):
        raise Undecided('not a byte sequence: %r' % (v,))
    pos = ZERO
    for s in v.segs:
        if isinstance(s, W):
            if s.base != R_.base:
                return 'bytes come from %s' % nm(s.base)
            if not R_.eq(s.len) and not R_.eq(s.off - off - pos):
                return 'bytes from offset %s instead of %s' % (R_.n(s.off), R_.n(off + pos))
        elif isinstance(s, E):
            if not isinstance(s.v, Lin) or not R_.eq(s.v - R_.u8(off + pos)):
                return 'byte %s is %r' % (R_.n(pos), s.v)
        elif not R_.eq(s.len):
            raise Undecided('bytes produced by %r' % (s,))
        pos = pos + seglen(s)
    if not R_.eq(pos - ln):
        return '%s bytes instead of %s' % (R_.n(pos), R_.n(ln))
    return None


def match(R_, v, e):
    """None when analysed value v is the expected one, else what differs. May raise Split/Undecided."""
    A, st = R_.A, R_.st
    if isinstance(v, Ptr):
        v = models.deref(A, st, v)
    if isinstance(e, Int):
        x = v
        while isinstance(x, Agg) and len(x.fs) == 1 and A.P.types[x.ty].get('kind') == 'struct':
            x = x.fs[0]
        if not isinstance(x, Lin):
            raise Undecided('expected an integer, have %r' % (v,))
        if R_.eq(x - e.a[0]):
            return None
        return 'is %s, not %s' % (R_.n(x), R_.n(e.a[0]))
    if isinstance(e, Bool):
        if isinstance(v, Lin):
            v = c_ne(v)
        if not isinstance(v, Cond):
            raise Undecided('expected a boolean, have %r' % (v,))
        x, y = R_.cond(v), R_.cond(e.a[0])
        return None if x == y else 'is %s instead of %s' % (x, y)
    if isinstance(e, Buf):
        x = v
        while isinstance(x, Agg) and len(x.fs) == 1:
            x = x.fs[0]
        return is_seq_of(R_, x, e.a[0], e.a[1])
    if isinstance(e, Pair):
        if not isinstance(v, Agg) or len(v.fs) != 2:
            raise Undecided('expected a pair, have %r' % (v,))
        for i in range(2):
            m = match(R_, v.fs[i], e.a[i])
            if m:
                return 'part %d %s' % (i, m)
        return None
    if isinstance(e, Opt):
        i = A.variant_idx(st, v)
        v = A.expand(st, v, i)
        nm_ = vname(A, v)
        if nm_ not in ('Some', 'None'):
            raise Undecided('expected an option, have %r' % (v,))
        if e.a[0] is None:
            return None if nm_ == 'None' else 'is present'
        if nm_ == 'None':
            return 'is absent'
        return match(R_, v.fs[0], e.a[0])
    if isinstance(e, Enum):
        i = A.variant_idx(st, v)
        have = A.P.types[v.ty]['variants'][i]['name']
        f = mqtt.name_fits(have, e.a[0])
        if f is None:
            raise Undecided('unknown name %s' % have)
        return None if f else 'is %s instead of %s' % (have, e.a[0])
    if isinstance(e, Code):
        kind, b = e.a
        table = mqtt.CODES.get(kind) or mqtt.QOS
        val = pin(R_, b)
        if val not in table:
            return 'accepts undefined code %d' % val
        return match(R_, v, Enum(table[val]))
    raise Undecided('no rule for %r' % (e,))


def pin(R_, b):
    """split on the concrete value of a byte; returns it"""
    x = R_.n(b)
    if not x.t:
        return x.c
    lo, hi = R_.st.store.bounds(x)
    vals = [i for i in range(max(lo, 0), min(hi, 255) + 1) if not R_.st.store.entails_ne(x - i)]
    if len(vals) == 1:
        R_.A.assume(R_.st, c_eq(x - vals[0]))
        return vals[0]
    raise Split([c_eq(x - i) for i in vals])


# ---------------------------------------------------------------- properties
class Prop:
    def __init__(self, pid, exp, start, end):
        self.pid, self.exp, self.start, self.end = pid, exp, start, end

    def name(self):
        return mqtt.PROPS[self.pid][0]


def parse_prop(R_, c, end, kind):
    """the property at offset c of a section ending at end; raises Bad"""
    if not R_.ge(end - c - 1):
        raise Bad('property identifier outside the section')
    b = R_.u8(c)
    allowed = mqtt.ALLOWED_IN[kind]
    pid = None
    for i in sorted(allowed):
        if R_.A.known(R_.st, c_eq(R_.n(b - i))) is True:
            pid = i
    if pid is None:
        poss = [i for i in sorted(allowed) if not R_.st.store.entails_ne(R_.n(b - i))]
        if poss:
            # one case per allowed identifier, one for all others
            x = R_.n(b)
            for i in poss:
                R_.A.decide(R_.st, c_eq(x - i))
            pid = [i for i in poss if R_.A.known(R_.st, c_eq(R_.n(b - i)))]
            pid = pid[0] if pid else None
    if pid is None:
        raise Bad('identifier not allowed', notallowed=True)
    name, wt, _ = mqtt.PROPS[pid]
    p = c + 1

    def need(x):
        if not R_.ge(end - x):
            raise Bad('%s truncated' % name, pid=pid)
    if wt in ('u8', 'u16', 'u32'):
        k = {'u8': 1, 'u16': 2, 'u32': 4}[wt]
        need(p + k)
        return Prop(pid, Int(R_.uint(p, k)), c, R_.n(p + k))
    if wt == 'vbi':
        r = R_.vbi(p, end)
        if isinstance(r, str):
            raise Bad('%s malformed' % name, pid=pid)
        return Prop(pid, Int(r[1]), c, R_.n(p + r[0]))

    def lenpref(p, text):
        need(p + 2)
        ln = R_.uint(p, 2)
        need(p + 2 + ln)
        if text and not R_.utf8(p + 2, ln):
            raise Bad('%s is not UTF-8' % name, pid=pid)
        return Buf(R_.n(p + 2), R_.n(ln)), R_.n(p + 2 + ln)
    if wt == 'str':
        x, q = lenpref(p, True)
        return Prop(pid, x, c, q)
    if wt == 'bin':
        x, q = lenpref(p, False)
        return Prop(pid, x, c, q)
    k, q = lenpref(p, True)
    v, q = lenpref(q, True)
    return Prop(pid, Pair(k, v), c, q)


def match_prop(R_, v, prop):
    """element v of a property list against the property on the wire"""
    A, st = R_.A, R_.st
    t = A.P.types[v.ty] if isinstance(v, (Agg, SymV)) else None
    if t is None:
        raise Undecided('property element %r' % (v,))
    if t['k'] == 'adt' and t['kind'] == 'enum':
        i = A.variant_idx(st, v)
        v = A.expand(st, v, i)
        have = vname(A, v)
        pid = mqtt.prop_of_variant(have)
        if pid is not None and pid != prop.pid:
            return 'is %s, the wire says %s' % (have, prop.name())
        fs = v.fs
        if pid is None:
            raise Undecided('unknown property variant %s' % have)
    else:
        fs = (v,)
    if isinstance(prop.exp, Pair) and len(fs) == 2:
        ms = [match(R_, fs[j], prop.exp.a[j]) for j in range(2)]
        m = ms[0] or ms[1]
    elif len(fs) == 1:
        m = match(R_, fs[0], prop.exp)
    else:
        raise Undecided('property element %r' % (v,))
    return m and '%s %s' % (prop.name(), m)


def loops_over(A, st, lst):
    """(loop, group, position leaf) of the loops on this path that walk over the whole of lst, one element a turn"""
    out = []
    n = seqlen(lst)
    for lid, g in st.loops:
        info = A.looplist.get(lid)
        if info is None:
            continue
        G = info.groups[g]
        for p, (kd, x) in G.leaves.items():
            if kd != 'lin' or not all(p in h.leaves for h in info.groups):
                continue
            if not all(A.known(b.state, c_eq(b.state.store.norm(b.vals[p] - info.groups[b.src].leaves[p][1] - 1))) is True
                       for b in info.backs):
                continue
            if any(A.known(info.entry, c_eq(info.entry.store.norm(v[p]))) is not True for v in info.entry_vals.values()):
                continue
            if A.known(st, c_eq(st.store.norm(x - n))) is True:
                out.append((info, G, p))
    return out


def stops_early(A, st, lst, info, g):
    """does this loop walk over lst from its first element on, one a turn, and leave before the end on this path"""
    if info is None or not info.backs:
        return False
    G = info.groups[g]
    n = seqlen(lst)
    for p, (kd, x) in G.leaves.items():
        if kd != 'lin' or not all(p in h.leaves for h in info.groups):
            continue
        if any(A.known(b.state, c_eq(b.state.store.norm(b.vals[p] - info.groups[b.src].leaves[p][1] - 1))) is not True
               or A.known(b.state, c_ge(b.state.store.norm(n - b.vals[p]))) is not True for b in info.backs):
            continue
        if any(A.known(info.entry, c_eq(info.entry.store.norm(v[p]))) is not True for v in info.entry_vals.values()):
            continue
        far = st.copy()
        try:
            A.assume(far, c_ge(far.store.norm(n - x - 1)))
        except (Infeasible, Dead):
            continue
        if far.store.feasible():
            return True
    return False


def walk(A, st, lst, each):
    """True when some loop establishes each(state, element) for every element"""
    if not all(isinstance(s, W) for s in lst.segs) or len(lst.segs) != 1:
        raise Undecided('property list %r' % (lst,))
    loops = loops_over(A, st, lst)
    for info, G, p in loops:
        good = True
        for b in info.backs:
            pos = info.groups[b.src].leaves[p][1]

            def f(s):
                if not A.decide(s, c_ge(s.store.norm(seqlen(lst) - pos - 1))):
                    raise Dead()
                return each(A, s, A.seq_get(s, lst, s.store.norm(pos)))
            for s2, r in forks(A, b.state, f, limit=200):
                if not r and s2.store.feasible():
                    good = False
        if good:
            return True
    whole = set(id(i) for i, G, p in loops)
    for lid, g in st.loops:
        info = A.looplist.get(lid)
        if id(info) not in whole and not stops_early(A, st, lst, info, g):
            raise Undecided('a loop that is not understood')
    return False
