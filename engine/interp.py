"""Abstract interpreter over MIR: path-sensitive (disjunctive) forward analysis with a polyhedral
numeric store, symbolic byte-sequence views, and widening at loop heads."""
import json, sys
from lin import *
import lin as LIN
from vals import *
from vals import _mk

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    def __str__(self):
        r = Exception.__str__(self)
        if hasattr(self, 'where'):
            r += ' [in ' + ' < '.join(x[:80] for x in self.where[:6]) + ']'
        return r


class Split(Exception):
    def __init__(self, conds):
        self.conds = conds


class Dead(Exception):
    """this path is impossible"""


ISIZE_MAX = (1 << 63) - 1


# ---------------------------------------------------------------- program
class Program:
    def __init__(self, path):
        D = json.load(open(path))
        self.D = D
        self.types = D['types']
        self.bodies = D['bodies']
        self.roots = D['roots']
        self._info = {}
        self._bystr = {}
        for i, t in enumerate(self.types):
            self._bystr.setdefault(t['s'], i)

    def T(self, i):
        return self.types[i]

    def ts(self, i):
        return self.types[i]['s']

    def only_value(self, ty, d=0):
        """the value of a type that has exactly one and no size, None for any other type"""
        t = self.types[ty]
        k = t['k']
        if d > 6:
            return None
        if k == 'fndef':
            return Fn(ty)
        if k == 'tuple':
            xs = [self.only_value(x, d + 1) for x in t['elems']]
            return None if any(x is None for x in xs) else Agg(ty, None, tuple(xs))
        if k == 'adt' and t['kind'] in ('struct', 'enum'):
            live = [i for i, v in enumerate(t['variants']) if not any(self.uninhabited(f['ty']) for f in v['fields'])]
            if len(live) != 1:
                return None
            xs = [self.only_value(f['ty'], d + 1) for f in t['variants'][live[0]]['fields']]
            return None if any(x is None for x in xs) else Agg(ty, live[0], tuple(xs))
        return None

    def uninhabited(self, ty, d=0):
        t = self.types[ty]
        if t['k'] == 'never':
            return True
        if t['k'] == 'adt' and t['kind'] == 'enum' and d < 6:
            return all(any(self.uninhabited(f['ty'], d + 1) for f in v['fields']) for v in t['variants'])
        return False

    def find_type(self, s):
        return self._bystr.get(s)

    def info(self, key):
        r = self._info.get(key)
        if r is None:
            r = BodyInfo(self, key, self.bodies[key])
            self._info[key] = r
        return r

    def int_bounds(self, ty):
        t = self.types[ty]
        if t['k'] == 'int':
            b = t['bits']
            if t['signed']:
                return -(1 << (b - 1)), (1 << (b - 1)) - 1
            return 0, (1 << b) - 1
        if t['k'] == 'bool':
            return 0, 1
        if t['k'] == 'char':
            return 0, 0x10ffff
        return None

    def adt_is(self, ty, *paths):
        t = self.types[ty]
        return t['k'] == 'adt' and t['raw'] in paths


VECS = {'alloc::vec::Vec': 0, 'alloc::collections::vec_deque::VecDeque': 0}
BYTES = {'alloc::string::String', 'bytes::bytes_mut::BytesMut', 'bytes::bytes::Bytes'}
NONZERO = 'core::num::nonzero::NonZero'
BOX = 'alloc::boxed::Box'
OPAQUE = {'core::fmt::Arguments', 'core::fmt::rt::Argument', 'std::io::error::Error', 'core::io::error::Error',
          'alloc::io::error::Error', 'core::task::wake::Context', 'core::task::wake::Waker',
          'core::str::error::Utf8Error', 'core::array::TryFromSliceError', 'core::num::error::TryFromIntError',
          'core::fmt::Formatter', 'core::fmt::Error'}


class BodyInfo:
    def __init__(self, prog, key, b):
        self.key = key
        self.b = b
        self.path = b['path']
        self.blocks = b['blocks']
        self.locals = b['locals']
        n = len(self.blocks)
        self.succ = [()] * n
        for i, bl in enumerate(self.blocks):
            if bl:
                self.succ[i] = tuple(x for x in self._succ(bl['t']) if self.blocks[x])
        self.npred = [0] * n
        for i in range(n):
            for s in self.succ[i]:
                self.npred[s] += 1
        self._live()
        self._scc = {}

    @staticmethod
    def _succ(t):
        k = t['k']
        if k == 'goto':
            return [t['to']]
        if k == 'switch':
            return [x[1] for x in t['targets']] + [t['otherwise']]
        if k in ('call', 'drop', 'assert', 'yield'):
            return [t['to']] if t.get('to') is not None else []
        return []

    def _live(self):
        """liveness of non-address-taken locals; address-taken ones live until StorageDead"""
        n = len(self.blocks)
        addr = set()
        use = [set() for _ in range(n)]
        dfn = [set() for _ in range(n)]

        def place_uses(pl, u, d):
            if pl['l'] not in d:
                u.add(pl['l'])
            for e in pl['p']:
                if e[0] == 'i' and e[1] not in d:
                    u.add(e[1])

        def ops(o, u, d):
            if isinstance(o, dict):
                if 'pl' in o and isinstance(o['pl'], dict) and 'l' in o['pl']:
                    place_uses(o['pl'], u, d)
                for k, v in o.items():
                    if k not in ('pl', 'dst'):
                        ops(v, u, d)
            elif isinstance(o, list):
                for x in o:
                    ops(x, u, d)
        for i, bl in enumerate(self.blocks):
            if not bl:
                continue
            u, d = use[i], dfn[i]
            for s in bl['s']:
                if s['k'] == '=':
                    r = s['rv']
                    if r['r'] in ('ref', 'rawptr', 'addrof') or r['r'].startswith('raw'):
                        if not (r['pl']['p'] and any(e[0] == '*' for e in r['pl']['p'])):
                            addr.add(r['pl']['l'])
                    ops(r, u, d)
                    if s['pl']['p']:
                        place_uses(s['pl'], u, d)
                    else:
                        d.add(s['pl']['l'])
                elif s['k'] in ('live', 'dead'):
                    d.add(s['l'])
                else:
                    ops(s, u, d)
                    if s['k'] == 'setd':
                        place_uses(s['pl'], u, d)
            t = bl['t']
            for k, v in t.items():
                if k not in ('dst', 'pl'):
                    ops(v, u, d)
            if t['k'] == 'drop':
                pass   # drop glue has no modelled effect: not a use
            elif 'pl' in t and isinstance(t['pl'], dict):
                place_uses(t['pl'], u, d)
            if 'dst' in t and t['dst']:
                if t['dst']['p']:
                    place_uses(t['dst'], u, d)
                else:
                    d.add(t['dst']['l'])
            if t['k'] == 'return':
                if 0 not in d:
                    u.add(0)
        self.addr = addr
        livein = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                out = set()
                for s in self.succ[i]:
                    out |= livein[s]
                x = use[i] | (out - dfn[i])
                if x != livein[i]:
                    livein[i] = x
                    ch = True
        al = range(len(self.locals))
        self.dead_at = [tuple(l for l in al if l not in livein[i] and l not in addr) for i in range(n)]

    def sccs(self, blocks, cut):
        """SCCs of the subgraph without edges into cut, in topological order"""
        k = (blocks, cut)
        r = self._scc.get(k)
        if r is not None:
            return r
        idx = {}
        low = {}
        st = []
        on = set()
        out = []
        cnt = [0]

        def succs(v):
            return [w for w in self.succ[v] if w in blocks and w != cut]

        for root in sorted(blocks):
            if root in idx:
                continue
            work = [(root, iter(succs(root)))]
            idx[root] = low[root] = cnt[0]
            cnt[0] += 1
            st.append(root)
            on.add(root)
            while work:
                v, it = work[-1]
                adv = False
                for w in it:
                    if w not in idx:
                        idx[w] = low[w] = cnt[0]
                        cnt[0] += 1
                        st.append(w)
                        on.add(w)
                        work.append((w, iter(succs(w))))
                        adv = True
                        break
                    elif w in on:
                        low[v] = min(low[v], idx[w])
                if adv:
                    continue
                work.pop()
                if work:
                    u = work[-1][0]
                    low[u] = min(low[u], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    loop = len(c) > 1 or v in succs(v)
                    out.append((frozenset(c), loop))
        out.reverse()
        self._scc[k] = out
        return out


# ---------------------------------------------------------------- state
class State:
    __slots__ = ('mem', 'store', 'cnt', 'trace', 'loops', 'aux')

    def __init__(self):
        self.mem = {}
        self.store = Store()
        self.cnt = {}
        self.trace = ()
        self.loops = ()
        self.aux = {}

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.store = self.store.copy()
        s.cnt = self.cnt
        s.trace = self.trace
        s.loops = self.loops
        s.aux = self.aux
        return s

    def ident(self):
        return (frozenset(self.mem.items()), self.store.ident(), self.trace, self.loops,
                frozenset(self.cnt.items()), frozenset(self.aux.items()))

    def ident0(self):
        """identity up to which fresh names are used up"""
        return (frozenset(self.mem.items()), self.store.ident(), self.trace, self.loops,
                frozenset(self.aux.items()))

    def mergecnt(self, o):
        if o.cnt != self.cnt:
            c = dict(self.cnt)
            for k, v in o.cnt.items():
                if v > c.get(k, 0):
                    c[k] = v
            self.cnt = c

    def setaux(self, k, v):
        self.aux = dict(self.aux)
        self.aux[k] = v


class Frame:
    __slots__ = ('id', 'info', 'parent', 'bb', 'results', 'depth', 'key', 'coro')

    def name(self):
        return self.info.path or self.info.key


class PanicRec:
    def __init__(self, kind, fn, site, state, stack):
        self.kind = kind
        self.fn = fn
        self.site = site
        self.state = state
        self.stack = stack

    def key(self):
        return '%s: %s' % (self.fn, self.kind)


class LoopInfo:
    pass


MEM_MAX = 1 << 47        # user address space: no sequence in memory is longer


class Analyzer:
    def __init__(self, prog, models, limits=None):
        self.P = prog
        self.models = models
        self.frames = {}
        self.nframes = 0
        self.framelist = []
        self.panics = []
        self.incomplete = []
        self.visited = {}        # body key -> visits
        self.loopmode = {}
        self.loopmemo = {}
        self.looplist = {}
        self.stats = {'states': 0, 'calls': 0, 'loops': 0, 'joins': 0, 'asserts': 0}
        self.overrides = {}      # body key -> model function
        self.on_yield = None
        self.suspended = {}
        self.retains = {}
        self.coro_loop = None    # custom loop handling
        self.some_turns = None   # what to do with a loop that widening cannot summarise because of what it does
        self.max_states = 400000
        self.unroll = 24
        self.hooks = {}          # body key -> fn(A, fr, st, args) called at entry

    # ------------------------------------------------------------ helpers
    def frame(self, parent, bb, key):
        pid = parent.id if parent else -1
        k = (pid, bb, key)
        f = self.frames.get(k)
        if f is None:
            f = Frame()
            f.id = self.nframes
            self.nframes += 1
            f.info = self.P.info(key)
            f.parent = parent
            f.bb = bb
            f.key = key
            f.depth = parent.depth + 1 if parent else 0
            f.coro = False
            self.frames[k] = f
            self.framelist.append(f)
            if f.depth > 60:
                raise Unsupported('call depth (recursion?) in %s' % f.info.path)
        return f

    def stack(self, fr):
        r = []
        while fr:
            r.append(fr.name())
            fr = fr.parent
        return r

    def fresh(self, st, fr, what):
        k = (fr.id if fr else -1, what)
        n = st.cnt.get(k, 0)
        st.cnt = dict(st.cnt)
        st.cnt[k] = n + 1
        return ('n',) + k + (n,)

    def decide(self, st, c):
        o = c.op
        if o == 'const':
            return c.x
        if o == 'and':
            for x in c.x:
                if not self.decide(st, x):
                    return False
            return True
        if o == 'or':
            for x in c.x:
                if self.decide(st, x):
                    return True
            return False
        s = st.store
        l = c.x
        if o == 'ge':
            if s.entails_ge(l):
                return True
            if s.entails_ge(-l - 1):
                return False
        elif o in ('eq', 'ne'):
            if s.entails_eq(l):
                return o == 'eq'
            if s.entails_ne(l):
                return o == 'ne'
        raise Split([c, c_not(c)])

    def known(self, st, c):
        """True/False/None without splitting"""
        try:
            return self.decide(st, c)
        except Split:
            return None

    def assume(self, st, c):
        o = c.op
        if o == 'const':
            if not c.x:
                raise Infeasible()
        elif o == 'ge':
            st.store.assume_ge(c.x)
        elif o == 'eq':
            st.store.assume_eq(c.x)
        elif o == 'ne':
            st.store.assume_ne(c.x)
        elif o == 'and':
            for x in c.x:
                self.assume(st, x)
        elif o == 'or':
            raise Unsupported('assume or')

    def panic(self, st, fr, kind, site):
        if not st.store.feasible():
            return
        self.panics.append(PanicRec(kind, fr.name(), site, st.copy(), self.stack(fr)))

    def require(self, st, fr, cond, kind, site):
        """obligation: cond must hold; otherwise a panic is possible. Continues under cond."""
        self.stats['asserts'] += 1
        k = self.known(st, cond)
        if k is True:
            return
        if k is False:
            self.panic(st, fr, kind, site)
            raise Dead()
        # split into leaf cases
        for bad in self._dnf(c_not(cond)):
            s2 = st.copy()
            try:
                for x in bad:
                    self.assume(s2, x)
            except Infeasible:
                continue
            self.panic(s2, fr, kind, site)
        self.assume_split(st, cond)

    def assume_split(self, st, cond):
        d = self._dnf(cond)
        if len(d) == 1:
            for x in d[0]:
                self.assume(st, x)
            return
        # keep it simple: decide (splits), then require truth
        if not self.decide(st, cond):
            raise Dead()

    def _dnf(self, c):
        if c.op == 'or':
            r = []
            for x in c.x:
                r += self._dnf(x)
            return r
        if c.op == 'and':
            r = [[]]
            for x in c.x:
                r = [a + b for a in r for b in self._dnf(x)]
            return r
        if c.op == 'const':
            return [[]] if c.x else []
        return [[c]]

    # ------------------------------------------------------------ symbolic values
    def sym_value(self, name, ty):
        P = self.P
        t = P.types[ty]
        k = t['k']
        b = P.int_bounds(ty)
        if k == 'bool':
            return c_ne(sym(name, 0, 1))
        if b is not None:
            return sym(name, b[0], b[1])
        if k in ('ref', 'ptr'):
            return self.sym_ptr(name, t['to'])
        if k == 'tuple':
            return Agg(ty, None, tuple(self.sym_value(name + (i,), x) for i, x in enumerate(t['elems'])))
        if k == 'array':
            n = t['len']
            if isinstance(n, int) and n <= 64:
                return Seq(t['elem'], tuple(E(self.elem(name, const(i), t['elem'])) for i in range(n)))
            return Seq(t['elem'], (W(name, ZERO, const(n)),))
        if k in ('slice', 'str'):
            e = t['elem'] if k == 'slice' else self.u8()
            return Seq(e, (W(name, ZERO, self.len_sym(name)),))
        if k in ('closure', 'coroutine'):
            return Agg(ty, None, tuple(self.sym_value(name + (i,), x) for i, x in enumerate(t['upvars'])))
        if k == 'fndef':
            return Fn(ty)
        if k == 'adt':
            raw = t['raw']
            if raw == NONZERO:
                lo, hi = P.int_bounds(t['args'][0])
                return sym(name, 1 if lo == 0 else lo, hi)
            if raw in VECS:
                return Seq(t['args'][0], (W(name, ZERO, self.len_sym(name)),))
            if raw in BYTES:
                return Seq(self.u8(), (W(name, ZERO, self.len_sym(name)),))
            if raw == BOX:
                return self.sym_ptr(name, t['args'][0])
            if raw in OPAQUE or not (t['local'] or raw.split('::')[0] in ('core', 'alloc', 'std')):
                return Opq('sym', (name,))
            if t['kind'] == 'enum':
                if len(t['variants']) == 0:
                    return Opq('sym', (name,))
                return SymV(name, ty)
            if t['kind'] == 'struct':
                return Agg(ty, 0, tuple(self.sym_value(name + (i,), f['ty'])
                                        for i, f in enumerate(t['variants'][0]['fields'])))
        return Opq('sym', (name,))

    def u8(self):
        r = getattr(self, '_u8', None)
        if r is None:
            r = self._u8 = self.P.find_type('u8')
        return r

    def len_sym(self, name):
        return sym(('len', name), 0, MEM_MAX)

    def sym_ptr(self, name, to):
        t = self.P.types[to]
        n2 = name + ('*',)
        if t['k'] in ('slice', 'str'):
            return Ptr(('S', n2, to), (), (ZERO, self.len_sym(n2)))
        if t['k'] == 'dyn':
            return Ptr(('S', n2, to), (), ('dyn', to))
        return Ptr(('S', n2, to), (), None)

    def elem(self, base, off, ety):
        if ety == self.u8():
            return byte(base, off)
        return self.sym_value(('el', base, off), ety)

    def variants(self, ty):
        return self.P.types[ty]['variants']

    def enum_of(self, v):
        """(ty) of an enum value"""
        return v.ty

    def discr(self, st, v):
        if isinstance(v, Agg):
            vs = self.variants(v.ty)
            return const(int(vs[v.var or 0]['discr']))
        if isinstance(v, SymV):
            if v.name[0] == 'tab':
                return mapped(st.store.norm(v.name[1]), v.name[2])
            ds = [int(x['discr']) for x in self.variants(v.ty)]
            r = sym(('discr', v.name), min(ds), max(ds))
            if max(ds) - min(ds) + 1 != len(ds):
                for x in range(min(ds), max(ds)):
                    if x not in ds:
                        st.store.assume_ne(r - x)
            return r
        raise Unsupported('discriminant of %r' % (v,))

    def variant_idx(self, st, v):
        """decided variant index (may split)"""
        if isinstance(v, Agg):
            return v.var
        d = self.discr(st, v)
        vs = self.variants(v.ty)
        n = st.store.norm(d)
        if not n.t:
            for i, x in enumerate(vs):
                if int(x['discr']) == n.c:
                    return i
            raise Dead()
        cs = [c_eq(d - int(x['discr'])) for x in vs if not st.store.entails_ne(d - int(x['discr']))]
        if len(cs) == 1:
            self.assume(st, cs[0])
            return self.variant_idx(st, v)
        raise Split(cs)

    def expand(self, st, v, var):
        """SymV known to be variant var -> Agg"""
        if isinstance(v, Agg):
            if v.var != var:
                raise Dead()
            return v
        if isinstance(v, SymV):
            fs = self.variants(v.ty)[var]['fields']
            return Agg(v.ty, var, tuple(self.sym_value(v.name + (('v', var), i), f['ty']) for i, f in enumerate(fs)))
        raise Unsupported('downcast of %r' % (v,))

    # ------------------------------------------------------------ sequences
    def mkseq(self, st, ety, segs):
        out = []
        nz = st.store.norm
        for s in segs:
            if isinstance(s, W):
                s = W(s.base, nz(s.off), nz(s.len))
                if s.len is ZERO:
                    continue
                if out and isinstance(out[-1], W) and out[-1].base == s.base:
                    p = out[-1]
                    if nz(p.off + p.len - s.off) is ZERO:
                        out[-1] = W(p.base, p.off, nz(p.len + s.len))
                        continue
            elif isinstance(s, X):
                s = X(s.tag, nz(s.len), s.info)
                if s.len is ZERO:
                    continue
            elif isinstance(s, S):
                s = S(s.star, nz(s.len))
            out.append(s)
        return Seq(ety, tuple(out))

    def seq_locate(self, st, q, idx):
        """(segment number, offset within it); may split; None if past the end"""
        pos = ZERO
        for i, s in enumerate(q.segs):
            L = seglen(s)
            if self.decide(st, c_ge(pos + L - idx - 1)):
                return i, st.store.norm(idx - pos)
            pos = pos + L
        return None

    def seg_elem(self, st, q, s, off):
        if isinstance(s, E):
            return s.v
        if isinstance(s, W):
            return self.elem(s.base, st.store.norm(s.off + off), q.ety)
        if isinstance(s, X):
            return self.elem(('x', s.tag), st.store.norm(off), q.ety)
        return self.elem(s.star, st.store.norm(off), q.ety)

    def seq_get(self, st, q, idx):
        r = self.seq_locate(st, q, idx)
        if r is None:
            raise Dead()
        return self.seg_elem(st, q, q.segs[r[0]], r[1])

    def seg_cut(self, s, off, n):
        """part [off, off+n) of a W/X segment"""
        if isinstance(s, W):
            return W(s.base, s.off + off, n)
        if isinstance(s, X):
            if off is ZERO and n is s.len:
                return s
            return W(('x', s.tag), off, n)
        raise Unsupported('cut of a loop-built sequence')

    def seq_split(self, st, q, at):
        """(segs before, segs after) position at; may split"""
        at = st.store.norm(at)
        pos = ZERO
        segs = q.segs
        for i, s in enumerate(segs):
            if self.decide(st, c_eq(at - pos)):
                return segs[:i], segs[i:]
            L = seglen(s)
            if self.decide(st, c_ge(at - pos - L)):
                pos = pos + L
                continue
            # strictly inside s
            n = st.store.norm(at - pos)
            a = self.seg_cut(s, ZERO, n)
            b = self.seg_cut(s, n, st.store.norm(L - n))
            return segs[:i] + (a,), (b,) + segs[i + 1:]
        if self.decide(st, c_eq(at - pos)):
            return segs, ()
        raise Dead()

    def seq_slice(self, st, q, off, n):
        nz = st.store.norm
        off, n = nz(off), nz(n)
        if off is ZERO and nz(seqlen(q)) is n:
            return self.mkseq(st, q.ety, q.segs)
        if len(q.segs) == 1 and isinstance(q.segs[0], W):
            s = q.segs[0]
            return self.mkseq(st, q.ety, (W(s.base, s.off + off, n),))
        _, tail = self.seq_split(st, q, off)
        head, _ = self.seq_split(st, Seq(q.ety, tail), n)
        return self.mkseq(st, q.ety, head)

    # ------------------------------------------------------------ memory
    def load(self, st, alloc):
        v = st.mem.get(alloc)
        if v is None:
            if alloc[0] == 'S':
                return self.sym_value(alloc[1], alloc[2])
            if alloc[0] == 'C':
                return alloc[1]
            if alloc[0] == 'L' and len(alloc) == 3 and isinstance(alloc[1], int) and alloc[1] < len(self.framelist):
                z = self.P.only_value(self.framelist[alloc[1]].info.locals[alloc[2]])
                if z is not None:
                    return z
            raise Unsupported('read of uninitialised %r' % (alloc,))
        return v

    def child(self, st, v, e):
        if isinstance(e, int):
            if isinstance(v, Agg):
                return v.fs[e]
            if isinstance(v, Ptr):
                return v          # Box/Unique/NonNull internals
            if isinstance(v, SymV):
                # struct-like access on a single-variant enum
                return self.expand(st, v, 0).fs[e]
            if isinstance(v, (Opq,)):
                return Opq('field', (v, e))
            if isinstance(v, Lin):
                return v          # newtype internals (NonZero)
            if isinstance(v, Seq) and e in (0,):
                return v          # String.vec, ManuallyDrop etc.
            raise Unsupported('field %d of %r' % (e, v))
        if e[0] == 'v':
            return self.expand(st, v, e[1])
        if e[0] == 'i':
            if isinstance(v, Seq):
                return self.seq_get(st, v, e[1])
            raise Unsupported('index into %r' % (v,))
        raise Unsupported('projection %r' % (e,))

    def read(self, st, alloc, path):
        v = self.load(st, alloc)
        for e in path:
            v = self.child(st, v, e)
        return v

    def update(self, st, v, path, new):
        if not path:
            return new
        e = path[0]
        if isinstance(e, int):
            if isinstance(v, SymV):
                v = self.expand(st, v, 0)
            if isinstance(v, Agg):
                c = self.update(st, v.fs[e], path[1:], new)
                return Agg(v.ty, v.var, v.fs[:e] + (c,) + v.fs[e + 1:])
            if isinstance(v, (Ptr, Lin, Seq)):
                return self.update(st, v, path[1:], new)
            if isinstance(v, Opq) and v.tag == 'uninit':      # MaybeUninit/ManuallyDrop layers
                return self.update(st, v, path[1:], new)
            raise Unsupported('field update of %r' % (v,))
        if e[0] == 'v':
            return self.update(st, self.expand(st, v, e[1]), path[1:], new)
        if e[0] == 'i':
            r = self.seq_locate(st, v, e[1])
            if r is None:
                raise Dead()
            i, off = r
            s = v.segs[i]
            c = self.update(st, self.seg_elem(st, v, s, off), path[1:], new)
            if isinstance(s, E):
                return Seq(v.ety, v.segs[:i] + (E(c),) + v.segs[i + 1:])
            n = seglen(s)
            a = self.seg_cut(s, ZERO, off)
            b = self.seg_cut(s, st.store.norm(off + 1), st.store.norm(n - off - 1))
            return self.mkseq(st, v.ety, v.segs[:i] + (a, E(c), b) + v.segs[i + 1:])
        raise Unsupported('update through %r' % (e,))

    def write(self, st, alloc, path, val):
        if not path:
            st.mem[alloc] = val
            return
        st.mem[alloc] = self.update(st, self.load(st, alloc), path, val)

    def slice_of(self, st, p):
        """Seq with the contents a slice/str pointer denotes"""
        q = self.read(st, p.alloc, p.path)
        if not isinstance(q, Seq):
            raise Unsupported('slice of %r' % (q,))
        if p.meta is None:
            return q
        return self.seq_slice(st, q, p.meta[0], p.meta[1])

    def ptr_len(self, st, p):
        if p.meta is not None and p.meta[0] != 'dyn':
            return p.meta[1]
        q = self.read(st, p.alloc, p.path)
        return seqlen(q)

    # place -> (alloc, path, meta, ty)
    def place(self, fr, st, pl):
        alloc = ('L', fr.id, pl['l'])
        path = ()
        meta = None
        for e in pl['p']:
            k = e[0]
            if k == '*':
                v = self.read(st, alloc, path)
                if isinstance(v, Agg) and len(v.fs) == 1:
                    v = v.fs[0]
                if isinstance(v, Opq):
                    v = Ptr(('C', Opq('*', (v,))), (), None)
                if not isinstance(v, Ptr):
                    raise Unsupported('deref of %r in %s' % (v, fr.name()))
                alloc, path, meta = v.alloc, v.path, v.meta
            elif k == 'f':
                path = path + (e[1],)
                meta = None
            elif k == 'd':
                path = path + (('v', e[1]),)
            elif k == 'i':
                i = self.read(st, ('L', fr.id, e[1]), ())
                off = meta[0] if meta is not None else ZERO
                path = path + (('i', st.store.norm(off + i)),)
                meta = None
            elif k == 'ci':
                off = meta[0] if meta is not None else ZERO
                if e[3]:
                    n = meta[1] if meta is not None else seqlen(self.read(st, alloc, path))
                    i = off + n - e[1]
                else:
                    i = off + e[1]
                path = path + (('i', st.store.norm(i if isinstance(i, Lin) else const(i))),)
                meta = None
            elif k == 'ss':
                if meta is not None:
                    off, n = meta
                else:
                    off, n = ZERO, seqlen(self.read(st, alloc, path))
                lo, hi, fe = e[1], e[2], e[3]
                meta = (st.store.norm(off + lo), st.store.norm(n - lo - hi if fe else const(hi - lo)))
            else:
                raise Unsupported('projection %r' % (e,))
        return alloc, path, meta

    def read_place(self, fr, st, pl):
        a, p, m = self.place(fr, st, pl)
        return self.read(st, a, p)

    def const_val(self, ty, v, fr=None, st=None):
        P = self.P
        t = P.types[ty]
        k = t['k']
        if 'int' in v:
            n = int(v['int'])
            if k == 'bool':
                return TRUE if n else FALSE
            if k == 'int' and t['signed']:
                b = t['bits']
                n &= (1 << b) - 1
                if n >> (b - 1):
                    n -= 1 << b
            return const(n)
        if 'fn' in v:
            return Fn(ty)
        if 'zst' in v:
            return self.zst(ty)
        if 'bytes' in v:
            q = Seq(self.u8(), tuple(E(const(b)) for b in v['bytes']))
            to = P.types[t['to']] if k in ('ref', 'ptr') else None
            if to and to['k'] == 'array':
                return Ptr(('C', q), (), None)
            return Ptr(('C', q), (), (ZERO, const(len(v['bytes']))))
        if 'ref' in v:
            inner = self.const_val(v['to'], v['ref'], fr, st)
            to = P.types[v['to']]
            want = P.types[t['to']] if k in ('ref', 'ptr') else None
            meta = None
            if isinstance(inner, Seq) and want and want['k'] in ('slice', 'str'):
                meta = (ZERO, seqlen(inner))
            return Ptr(('C', inner), (), meta)
        if 'refslice' in v:
            inner = self.const_val(v['arr_ty'], v['refslice'], fr, st)
            return Ptr(('C', inner), (), (ZERO, seqlen(inner)))
        if 'agg' in v:
            xs = v['agg']
            if k == 'array':
                return Seq(t['elem'], tuple(E(self.const_val(t['elem'], x, fr, st)) for x in xs))
            if k == 'tuple':
                return Agg(ty, None, tuple(self.const_val(e, x, fr, st) for e, x in zip(t['elems'], xs)))
            if k == 'adt':
                if t['raw'] == NONZERO:
                    y = xs[0]
                    while 'agg' in y:
                        y = y['agg'][0]
                    return const(int(y['int']))
                if t['raw'] in VECS or t['raw'] in BYTES:
                    e = t['args'][0] if t['raw'] in VECS else self.u8()
                    return Seq(e, ())
                if 'variants' not in t:
                    return Opq('const', (ty, json.dumps(v, sort_keys=True)[:120]))
                var = v.get('variant') or 0
                fs = t['variants'][var]['fields']
                return Agg(ty, var, tuple(self.const_val(f['ty'], x, fr, st) for f, x in zip(fs, xs)))
            if k == 'closure':
                return Agg(ty, None, ())
        if 'promoted' in v:
            key = v['promoted']
            if key in P.bodies:
                # evaluate the promoted body
                f2 = self.frame(fr, 'prom' + key, key)
                s2 = st.copy()
                rs = self.run(f2, s2, [], keep=True)
                if len(rs) == 1:
                    m = rs[0][0].mem

                    def freeze(x):
                        if isinstance(x, Ptr) and x.alloc[0] != 'C' and x.alloc in m:
                            y = m[x.alloc]
                            return Ptr(('C', rebuild(y, freeze)), x.path, x.meta)
                        return None
                    return rebuild(rs[0][1], freeze)
        if k == 'adt' and t['raw'] in OPAQUE or k in ('param', 'alias', 'other', 'dyn', 'fnptr'):
            return Opq('const', (ty, json.dumps(v, sort_keys=True)[:80]))
        if 'name' in v or 'uneval' in v or 'opaque' in v:
            return Opq('const', (ty, json.dumps(v, sort_keys=True)[:120]))
        raise Unsupported('constant %s of type %s' % (json.dumps(v)[:100], t['s']))

    def zst(self, ty):
        t = self.P.types[ty]
        if t['k'] == 'fndef':
            return Fn(ty)
        if t['k'] in ('closure',):
            return Agg(ty, None, tuple(self.zst(x) for x in t['upvars']))
        if t['k'] == 'tuple':
            return Agg(ty, None, tuple(self.zst(x) for x in t['elems']))
        if t['k'] == 'array':
            return Seq(t['elem'], ())
        if t['k'] == 'adt' and t['kind'] == 'struct':
            return Agg(ty, 0, tuple(self.zst(f['ty']) for f in t['variants'][0]['fields']))
        if t['k'] == 'adt' and t['kind'] == 'enum' and len(t['variants']) == 1:
            return Agg(ty, 0, tuple(self.zst(f['ty']) for f in t['variants'][0]['fields']))
        return Opq('zst', (ty,))

    def operand(self, fr, st, o):
        k = o['o']
        if k in ('move', 'copy'):
            a, p, m = self.place(fr, st, o['pl'])
            v = self.read(st, a, p)
            return v
        if k == 'const':
            return self.const_val(o['ty'], o['v'], fr, st)
        if k == 'rtcheck':
            return FALSE
        raise Unsupported('operand %s' % k)

    def optype(self, fr, o):
        """static type of an operand if cheap"""
        if o['o'] == 'const':
            return o['ty']
        return self.pltype(fr, o['pl'])

    def pltype(self, fr, pl):
        ty = fr.info.locals[pl['l']]
        var = None
        for e in pl['p']:
            t = self.P.types[ty]
            if e[0] == '*':
                if t['k'] in ('ref', 'ptr'):
                    ty = t['to']
                else:
                    ty = t['args'][0]
                var = None
            elif e[0] == 'f':
                ty = e[2]
                var = None
            elif e[0] in ('i', 'ci'):
                ty = t['elem'] if 'elem' in t else ty
            elif e[0] == 'd':
                var = e[1]
        return ty

    # ------------------------------------------------------------ arithmetic
    def as_lin(self, st, v):
        if isinstance(v, Lin):
            return v
        if isinstance(v, Cond):
            return ONE if self.decide(st, v) else ZERO
        raise Unsupported('integer expected, got %r' % (v,))

    def wrap(self, st, l, ty):
        b = self.P.int_bounds(ty)
        if b is None:
            return l
        lo, hi = b
        s = st.store
        l = s.norm(l)
        if s.entails_ge(l - lo) and s.entails_ge(hi - l):
            return l
        if lo == 0:
            return mod(l, hi + 1, s.bounds)
        if self.decide(st, c_ge(l - lo)) and self.decide(st, c_ge(hi - l)):
            return l
        return sym(('wrapped', l, ty), lo, hi)

    def inrange(self, l, ty):
        lo, hi = self.P.int_bounds(ty)
        return c_and(c_ge(l - lo), c_ge(hi - l))

    def arith(self, st, op, a, b, ty):
        """exact integer result (unwrapped)"""
        s = st.store
        if op == 'Add':
            return a + b
        if op == 'Sub':
            return a - b
        if op == 'Mul':
            a, b = s.norm(a), s.norm(b)
            if not b.t:
                return a * b.c
            if not a.t:
                return b * a.c
            alo, ahi = s.bounds(a)
            blo, bhi = s.bounds(b)
            lo = hi = None
            if None not in (alo, ahi, blo, bhi):
                ps = [alo * blo, alo * bhi, ahi * blo, ahi * bhi]
                lo, hi = min(ps), max(ps)
            x, y = (a, b) if repr(a) <= repr(b) else (b, a)
            return sym(('mul', x, y), lo, hi)
        raise Unsupported(op)

    def binop(self, fr, st, op, a, b, ta, tb):
        P = self.P
        s = st.store
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return self.compare(st, op, a, b)
        if op == 'Cmp':
            d = self.as_lin(st, a) - self.as_lin(st, b)
            if self.decide(st, c_ge(d - 1)):
                return ('ord', 1)
            if self.decide(st, c_eq(d)):
                return ('ord', 0)
            return ('ord', -1)
        if isinstance(a, Cond) and isinstance(b, Cond) and op in ('BitAnd', 'BitOr', 'BitXor'):
            if op == 'BitAnd':
                return c_and(a, b)
            if op == 'BitOr':
                return c_or(a, b)
            return self.compare(st, 'Ne', a, b)
        if isinstance(a, Ptr) and op == 'Offset':
            raise Unsupported('pointer arithmetic')
        if not isinstance(a, (Lin, Cond)) or not isinstance(b, (Lin, Cond)):
            raise Unsupported('%s on %r, %r in %s' % (op, a, b, fr.name()))
        a = self.as_lin(st, a)
        b = self.as_lin(st, b)
        if op.endswith('WithOverflow'):
            r = self.arith(st, op[:-12], a, b, ta)
            ok = self.inrange(r, ta)
            k = self.known(st, ok)
            tt = None
            if k is True:
                return ('ov', r, FALSE)
            if k is False:
                return ('ov', self.wrap(st, r, ta), TRUE)
            # value only used when the assert passes (or by wrapping ops that check the flag)
            self.decide(st, ok)   # splits
            raise Unsupported('unreachable')
        if op in ('Add', 'Sub', 'Mul'):
            return self.wrap(st, self.arith(st, op, a, b, ta), ta)
        if op in ('AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
            return s.norm(self.arith(st, op[:-9], a, b, ta))
        a, b = s.norm(a), s.norm(b)
        signed = P.types[ta].get('signed')
        bits = P.types[ta].get('bits', 64)
        if op in ('Div', 'Rem'):
            if not b.t and b.c > 0 and s.entails_ge(a):
                return div(a, b.c, s.bounds) if op == 'Div' else mod(a, b.c, s.bounds)
            if not a.t and not b.t and b.c != 0:
                q = abs(a.c) // abs(b.c)
                q = q if (a.c < 0) == (b.c < 0) else -q
                return const(q if op == 'Div' else a.c - q * b.c)
            lo, hi = P.int_bounds(ta)
            return sym((op, a, b), lo, hi)
        if op in ('Shr', 'ShrUnchecked'):
            if not b.t and s.entails_ge(a):
                return div(a, 1 << (b.c % bits), s.bounds)
        if op in ('Shl', 'ShlUnchecked'):
            if not b.t:
                return self.wrap(st, a * (1 << (b.c % bits)), ta)
            if not a.t and s.bounds(b)[1] is not None and s.bounds(b)[1] < bits and s.bounds(b)[0] >= 0:
                lo, hi = s.bounds(b)
                if hi - lo <= 64:
                    return mapped(b, tuple((i, (a.c << i) & ((1 << bits) - 1)) for i in range(lo, hi + 1)))
        if op in ('BitAnd', 'BitOr', 'BitXor') and not signed:
            if not a.t and b.t:
                a, b = b, a
            if not b.t and s.entails_ge(a):
                n = band(a, b.c, bits, s.bounds)
                if op == 'BitAnd':
                    return n
                if op == 'BitOr':
                    return a + b - n
                return a + b - n * 2
            if op != 'BitAnd':
                for x, y in ((a, b), (b, a)):
                    hi = s.bounds(y)[1]
                    if hi is not None:
                        k = hi.bit_length()
                        if mod(x, 1 << k, s.bounds) is ZERO or s.entails_eq(mod(x, 1 << k, s.bounds)):
                            return x + y
            lo, hi = P.int_bounds(ta)
            return sym((op, a, b), lo, hi)
        lo, hi = P.int_bounds(ta)
        return sym((op, a, b), lo, hi)

    def compare(self, st, op, a, b):
        if isinstance(a, Lin) and isinstance(b, Lin):
            if op == 'Eq':
                return c_eq(a - b)
            if op == 'Ne':
                return c_ne(a - b)
            if op == 'Lt':
                return c_ge(b - a - 1)
            if op == 'Le':
                return c_ge(b - a)
            if op == 'Gt':
                return c_ge(a - b - 1)
            return c_ge(a - b)
        if a is NOISE or b is NOISE:
            return NOISE
        if isinstance(a, Cond) and isinstance(b, Cond):
            if op in ('Eq', 'Ne'):
                if b.op == 'const':
                    a, b = b, a
                if a.op == 'const':
                    r = b if a.x else c_not(b)
                else:
                    r = b if self.decide(st, a) else c_not(b)
                return r if op == 'Eq' else c_not(r)
            return self.compare(st, op, self.as_lin(st, a), self.as_lin(st, b))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op in ('Eq', 'Ne'):
            if a is b:
                return TRUE if op == 'Eq' else FALSE
        if isinstance(a, Opq) or isinstance(b, Opq):
            return NOISE
        raise Unsupported('compare %r %r' % (a, b))

    def cast(self, fr, st, k, v, fty, ty):
        P = self.P
        t = P.types[ty]
        if k == 'IntToInt':
            if isinstance(v, Cond):
                v = self.as_lin(st, v)
            if isinstance(v, SymV) or isinstance(v, Agg):
                v = self.discr(st, v)
            if not isinstance(v, Lin):
                raise Unsupported('int cast of %r' % (v,))
            if t['k'] == 'bool':
                return c_ne(v)
            return self.wrap(st, v, ty)
        if k.startswith('PointerCoercion'):
            if 'Unsize' in k:
                return self.unsize(st, v, fty, ty)
            return v     # reify fn pointer, closure to fn pointer
        if k in ('PtrToPtr', 'Transmute', 'BoxDerefTransmute', 'Subtype'):
            if isinstance(v, Ptr):
                if t['k'] in ('ptr', 'ref') and P.types[t['to']]['k'] not in ('slice', 'str', 'dyn') and v.meta is not None:
                    return Ptr(v.alloc, v.path, None) if not (v.meta[0] == 'dyn') else v
                return v
            if isinstance(v, Lin):
                if t['k'] == 'int':
                    return self.wrap(st, v, ty)
                if t['k'] == 'adt' and t['raw'] == NONZERO:
                    return v
                if t['k'] == 'bool':
                    return c_ne(v)
            if fty == ty:
                return v
            if isinstance(v, (Opq, Seq)):
                return v
            if isinstance(v, Agg) and len(v.fs) == 1:
                return v.fs[0]
        raise Unsupported('cast %s of %r to %s in %s' % (k, v, t['s'], fr.name()))

    def unsize(self, st, v, fty, ty):
        P = self.P
        t = P.types[ty]
        if isinstance(v, Agg) and len(v.fs) >= 1:
            # Pin<Box<T>> -> Pin<Box<dyn>>
            return Agg(ty, v.var, (self.unsize(st, v.fs[0], None, ty),) + v.fs[1:])
        if not isinstance(v, Ptr):
            return v
        to = None
        if t['k'] in ('ref', 'ptr'):
            to = P.types[t['to']]
        if to and to['k'] == 'slice':
            q = self.read(st, v.alloc, v.path)
            if v.meta is not None:
                return v
            return Ptr(v.alloc, v.path, (ZERO, seqlen(q)))
        return v

    # ------------------------------------------------------------ rvalues and statements
    def rvalue(self, fr, st, r, dty):
        k = r['r']
        P = self.P
        if k == 'use':
            return self.operand(fr, st, r['o'])
        if k == 'copyderef':
            return self.read_place(fr, st, r['pl'])
        if k == 'ref' or k.startswith('raw') or k == 'addrof':
            a, p, m = self.place(fr, st, r['pl'])
            return Ptr(a, p, m)
        if k == 'bin':
            a = self.operand(fr, st, r['a'])
            b = self.operand(fr, st, r['b'])
            ta = self.optype(fr, r['a'])
            tb = self.optype(fr, r['b'])
            v = self.binop(fr, st, r['op'], a, b, ta, tb)
            if isinstance(v, tuple):
                if v[0] == 'ov':
                    return Agg(dty, None, (v[1], v[2]))
                if v[0] == 'ord':
                    return self.ordering(dty, v[1])
            return v
        if k == 'un':
            v = self.operand(fr, st, r['a'])
            op = r['op']
            if op == 'Not':
                if isinstance(v, Cond):
                    return c_not(v)
                lo, hi = P.int_bounds(dty)
                return const(hi) - v if lo == 0 else -v - 1
            if op == 'Neg':
                return self.wrap(st, -v, dty)
            if op == 'PtrMetadata':
                if isinstance(v, Ptr):
                    if v.meta is None:
                        return Agg(dty, None, ())
                    return v.meta[1] if v.meta[0] != 'dyn' else Opq('vtable', (v,))
            raise Unsupported('unop %s %r' % (op, v))
        if k == 'cast':
            v = self.operand(fr, st, r['o'])
            return self.cast(fr, st, r['k'], v, self.optype(fr, r['o']), r['ty'])
        if k == 'discr':
            v = self.read_place(fr, st, r['pl'])
            if isinstance(v, Opq):
                raise Unsupported('discriminant of opaque %r in %s' % (v, fr.name()))
            return self.discr(st, v)
        if k == 'agg':
            xs = tuple(self.operand(fr, st, o) for o in r['ops'])
            kk = r['k']
            if kk == 'tuple':
                return Agg(dty, None, xs)
            if kk == 'array':
                return Seq(r['ty'], tuple(E(x) for x in xs))
            if kk == 'adt':
                t = P.types[r['ty']]
                if t['raw'] == NONZERO:
                    return xs[0]
                var = r.get('variant') or 0
                if r.get('field') is not None:     # union
                    return xs[0]
                return Agg(r['ty'], var, xs)
            if kk in ('closure', 'coroutine'):
                return Agg(r['ty'], None, xs)
            if kk == 'rawptr':
                p = xs[0]
                if isinstance(p, Ptr) and isinstance(xs[1], Lin):
                    return Ptr(p.alloc, p.path, ((p.meta[0] if p.meta else ZERO), xs[1]))
                return p
            raise Unsupported('aggregate %s' % kk)
        if k == 'repeat':
            v = self.operand(fr, st, r['o'])
            t = P.types[dty]
            n = t['len']
            if isinstance(n, int) and n <= 256:
                return Seq(t['elem'], tuple(E(v) for _ in range(n)))
            return Seq(t['elem'], (X(('repeat', v), const(n), None),))
        raise Unsupported('rvalue %s in %s' % (json.dumps(r)[:120], fr.name()))

    def ordering(self, ty, n):
        for i, v in enumerate(self.P.types[ty]['variants']):
            d = int(v['discr'])
            if d == n:
                return Agg(ty, i, ())
        raise Unsupported('ordering type')

    def stmt(self, fr, st, s):
        k = s['k']
        if k == '=':
            pl = s['pl']
            dty = self.pltype(fr, pl)
            v = self.rvalue(fr, st, s['rv'], dty)
            a, p, m = self.place(fr, st, pl)
            self.write(st, a, p, v)
        elif k in ('live', 'dead'):
            st.mem.pop(('L', fr.id, s['l']), None)
        elif k == 'setd':
            a, p, m = self.place(fr, st, s['pl'])
            v = self.read(st, a, p)
            var = s.get('v', s.get('variant'))
            self.write(st, a, p, self.expand(st, v, var))
        elif k == 'intrinsic':
            pass
        elif k in ('nop',):
            pass
        else:
            raise Unsupported('statement %s' % k)

    # ------------------------------------------------------------ control flow
    def exec_block(self, fr, bb, st):
        """returns [(target, state)]; returns of the body go to fr.results (via self._results)"""
        self.stats['states'] += 1
        if self.stats['states'] > self.max_states:
            e = Unsupported('state budget exhausted')
            e.fatal = True
            raise e
        bl = fr.info.blocks[bb]
        ss = bl['s']
        n = len(ss)
        outs = []
        work = [(st, 0)]
        while work:
            st, i = work.pop()
            try:
                while i < n:
                    self.stmt(fr, st, ss[i])
                    i += 1
                outs += self.term(fr, bb, st, bl['t'])
            except Split as e:
                for c in e.conds:
                    s2 = st.copy()
                    try:
                        if isinstance(c, tuple):
                            for x in c:
                                self.assume(s2, x)
                        else:
                            self.assume(s2, c)
                    except Infeasible:
                        continue
                    work.append((s2, i))
            except (Dead, Infeasible):
                pass
            except Unsupported as e:
                if not hasattr(e, 'where'):
                    e.where = self.stack(fr)
                if getattr(e, 'fatal', False):
                    raise
                self.incomplete.append(e)     # this path is not decided; others go on
        return outs

    def term(self, fr, bb, st, t):
        k = t['k']
        if k == 'goto':
            return [(t['to'], st)]
        if k == 'drop':
            return [(t['to'], st)]
        if k == 'return':
            v = st.mem.get(('L', fr.id, 0))
            if v is None:
                v = self.zst(fr.info.locals[0])
            self._results[-1].append((st, v))
            return []
        if k == 'unreachable':
            return []
        if k == 'switch':
            return self.switch(fr, st, t)
        if k == 'assert':
            v = self.operand(fr, st, t['o'])
            c = v if t['expected'] else c_not(v)
            if t['msg'].startswith('resumed'):
                return []
            self.require(st, fr, c, 'assert %s' % t['msg'], t['sp'])
            return [(t['to'], st)]
        if k == 'call':
            return self.call(fr, bb, st, t)
        if k == 'yield':
            if self.on_yield:
                return self.on_yield(self, fr, bb, st, t)
            return []
        if k == 'other':
            return []
        raise Unsupported('terminator %s' % k)

    def switch(self, fr, st, t):
        v = self.operand(fr, st, t['o'])
        if isinstance(v, Cond):
            if v is NOISE:
                outs = []
                seen = set()
                for _, b in t['targets'] + [[None, t['otherwise']]]:
                    if b not in seen:
                        seen.add(b)
                        outs.append((b, st.copy()))
                return outs
            d = 1 if self.decide(st, v) else 0
            for val, b in t['targets']:
                if int(val) == d:
                    return [(b, st)]
            return [(t['otherwise'], st)]
        if isinstance(v, (SymV, Agg)):
            v = self.discr(st, v)
        if not isinstance(v, Lin):
            raise Unsupported('switch on %r in %s' % (v, fr.name()))
        s = st.store
        l = s.norm(v)
        ty = t.get('ty')
        tt = self.P.types[ty] if ty is not None else None
        vals = []
        for val, b in t['targets']:
            val = int(val)
            if tt and tt['k'] == 'int' and tt['signed'] and val >> (tt['bits'] - 1):
                val -= 1 << tt['bits']
            vals.append((val, b))
        if not l.t:
            for val, b in vals:
                if l.c == val:
                    return [(b, st)]
            return [(t['otherwise'], st)]
        outs = []
        rest = st.copy()
        dead = False
        for val, b in vals:
            if s.entails_ne(l - val):
                continue
            s2 = st.copy()
            try:
                s2.store.assume_eq(l - val)
                outs.append((b, s2))
            except Infeasible:
                pass
            try:
                if not dead:
                    rest.store.assume_ne(l - val)
            except Infeasible:
                dead = True
        ob = fr.info.blocks[t['otherwise']]
        if not dead and ob and not (ob['t']['k'] == 'unreachable' and not ob['s']):
            outs.append((t['otherwise'], rest))
        return outs

    # ------------------------------------------------------------ calls
    def call(self, fr, bb, st, t):
        f = t['f']
        c = None
        fv = None
        if f['o'] == 'const' and 'fn' in f['v']:
            c = f['v']['fn']
        else:
            fv = self.operand(fr, st, f)
            if isinstance(fv, Fn):
                c = self.P.types[fv.ty]['callee']
        s = st.copy()
        args = [self.operand(fr, s, a) for a in t['args']]
        if c is None:
            rs = self.call_value(fr, ('ptr', bb), s, fv, args, t)
        else:
            rs = self.invoke(fr, bb, s, c, args, t)
        outs = []
        to = t.get('to')
        for s2, v in rs:
            if to is None:
                continue
            try:
                a, p, m = self.place(fr, s2, t['dst'])
                self.write(s2, a, p, v)
                outs.append((to, s2))
            except (Dead, Infeasible):
                pass
        return outs

    def invoke(self, fr, bb, st, c, args, t=None):
        """call a resolved callee; returns [(state, value)]"""
        self.stats['calls'] += 1
        key = c.get('key')
        if key in self.overrides:
            r = self.overrides[key](self, fr, bb, st, c, args, t)
            if r is not NotImplemented:
                return r
        m = self.models.lookup(self, c)
        if m is not None:
            r = m(self, fr, bb, st, c, args, t)
            if r is not NotImplemented:
                return r
        ik = c.get('ikind')
        if ik == 'ctor':
            ty = c['ctor_ty']
            return [(st, Agg(ty, c.get('ctor_variant') or 0, tuple(args)))]
        if ik == 'clone_shim':
            return [(st, self.clone_val(fr, bb, st, args[0]))]
        if ik == 'drop_glue':
            return [(st, Agg(self.unit(), None, ()))]
        if ik in ('closure_once', 'fnptr_shim') or (c.get('trait') or '').startswith(('std::ops::Fn', 'core::ops::Fn', 'std::ops::function::Fn')):
            xs = args[1].fs if len(args) > 1 and isinstance(args[1], Agg) else ()
            return self.call_value(fr, bb, st, args[0], list(xs), t)
        if args and c.get('default_key') in self.P.bodies and self.is_iter(st, args[0]):
            return self.inline(fr, bb, st, c['default_key'], args)
        if key is not None and key in self.P.bodies and not c.get('stopped'):
            return self.inline(fr, bb, st, key, args)
        dk = c.get('default_key')
        if dk is not None and dk in self.P.bodies:
            return self.inline(fr, bb, st, dk, args)
        raise Unsupported('call to %s (%s) from %s' % (c.get('rpath') or c['path'], ik, fr.name()))

    def is_iter(self, st, v):
        if isinstance(v, Ptr) and v.meta is None:
            try:
                v = self.read(st, v.alloc, v.path)
            except Unsupported:
                return False
        return isinstance(v, It)

    def unit(self):
        r = getattr(self, '_unit', None)
        if r is None:
            r = self._unit = self.P.find_type('()')
        return r

    def UNIT(self):
        return Agg(self.unit(), None, ())

    def call_value(self, fr, bb, st, f, args, t=None):
        """call a closure / fn item value with untupled args"""
        if isinstance(f, Ptr):
            inner = self.read(st, f.alloc, f.path)
            if isinstance(inner, Fn):
                f = inner
            elif isinstance(inner, Ptr):
                return self.call_value(fr, bb, st, inner, args, t)
            elif isinstance(inner, Agg):
                return self.call_closure(fr, bb, st, inner, f, args)
            else:
                raise Unsupported('call of %r' % (inner,))
        if isinstance(f, Fn):
            return self.invoke(fr, bb, st, self.P.types[f.ty]['callee'], args, t)
        if isinstance(f, Agg):
            a = ('T', fr.id, 'clo', bb)
            st.mem[a] = f
            return self.call_closure(fr, bb, st, f, Ptr(a, (), None), args)
        raise Unsupported('call of %r' % (f,))

    def call_closure(self, fr, bb, st, clo, ptr, args):
        t = self.P.types[clo.ty]
        if t['k'] != 'closure':
            raise Unsupported('call of non-closure %s' % t['s'])
        key = t['body']
        if key not in self.P.bodies:
            raise Unsupported('closure body %s' % key)
        b = self.P.bodies[key]
        envt = self.P.types[b['locals'][1]]
        env = ptr if envt['k'] in ('ref', 'ptr') else clo
        if key in self.overrides:
            return self.overrides[key](self, fr, bb, st, None, [env] + list(args), None)
        n = b['args']
        if b.get('spread') is not None and b['spread'] >= 0:
            # remaining args are one tuple local
            raise Unsupported('spread closure')
        return self.inline(fr, bb, st, key, [env] + list(args))

    def inline(self, fr, bb, st, key, args):
        f2 = self.frame(fr, bb, key)
        return self.run(f2, st, args)

    def run(self, f2, st, args, keep=False):
        info = f2.info
        self.visited[info.key] = self.visited.get(info.key, 0) + 1
        n = info.b['args']
        sp = info.b.get('spread')
        if sp is not None and sp not in (False, -1) and sp > 0 and len(args) != n:
            # pack trailing args
            pre = args[:sp - 1]
            tup = Agg(info.locals[sp], None, tuple(args[sp - 1:]))
            args = list(pre) + [tup]
        if len(args) != n:
            if len(args) == 2 and isinstance(args[1], Agg) and len(args[1].fs) == n - 1 and info.b['kind'] == 'closure':
                args = [args[0]] + list(args[1].fs)
            else:
                raise Unsupported('arity %d/%d calling %s' % (len(args), n, info.path))
        for i, a in enumerate(args):
            st.mem[('L', f2.id, i + 1)] = a
        h = self.hooks.get(info.key)
        if h:
            h(self, f2, st, args)
        self._results = getattr(self, '_results', [])
        self._results.append([])
        entry = st.copy()
        try:
            blocks = frozenset(i for i, b in enumerate(info.blocks) if b)
            self.exec_region(f2, blocks, {0: [st]}, None)
        finally:
            rs = self._results.pop()
        out = []
        fid = f2.id
        nl = len(info.locals)
        for s, v in rs:
            m = s.mem
            if not keep:
                for l in range(nl):
                    m.pop(('L', fid, l), None)
            out.append((s, v))
        if len(out) > 1:
            out = self.join_results(entry, out, f2)
        return out

    def resume(self, f2, st, to, locs, dst):
        """continue a suspended coroutine body at block `to` with the locals it was left with"""
        for i, v in locs.items():
            st.mem[('L', f2.id, i)] = v
        a, p, m = self.place(f2, st, dst)
        self.write(st, a, p, Opq('ctx', ()))
        self._results.append([])
        try:
            self.exec_region(f2, frozenset(i for i, b in enumerate(f2.info.blocks) if b), {to: [st]}, None)
        finally:
            rs = self._results.pop()
        for s, v in rs:
            for l in range(len(f2.info.locals)):
                s.mem.pop(('L', f2.id, l), None)
        return rs

    def join_results(self, entry, rs, f2):
        """exact merges: identical states; result tables keyed by one integer"""
        seen = {}
        for s, v in rs:
            k = (s.ident0(), v)
            if k not in seen:
                seen[k] = (s, v)
            else:
                seen[k][0].mergecnt(s)
        rs = list(seen.values())
        if len(rs) > 1:
            rs = self.join_halves(entry, rs)
        if len(rs) > 2:
            rs = self.join_tables(entry, rs, f2)
        return rs

    def join_halves(self, entry, rs):
        """exact merge of two states that differ only by x == c against x < c (or x > c)"""
        es = entry.store
        groups = {}
        for i, (s, v) in enumerate(rs):
            k = (v, frozenset(s.mem.items()), s.trace, s.loops, frozenset(s.aux.items()))
            groups.setdefault(k, []).append(i)
        dead = set()
        for idx in groups.values():
            if len(idx) < 2 or len(idx) > 4:
                continue
            for i in idx:
                if i in dead:
                    continue
                s1 = rs[i][0].store
                new = [a for a in s1.sub if a not in es.sub]
                if len(new) != 1:
                    continue
                x = var(get_atom(new[0])) - s1.sub[new[0]]
                try:
                    e = es.copy()
                    e.assume_eq(x)
                    if e.ident() != s1.ident():
                        continue
                except Infeasible:
                    continue
                for j in idx:
                    if j == i or j in dead:
                        continue
                    s2 = rs[j][0].store
                    for sg in (1, -1):
                        try:
                            e = es.copy()
                            e.assume_ge(x * sg - 1)
                            if e.ident() != s2.ident():
                                continue
                            e = es.copy()
                            e.assume_ge(x * sg)
                        except Infeasible:
                            continue
                        st = rs[j][0].copy()
                        st.store = e
                        rs[j] = (st, rs[j][1])
                        dead.add(i)
                        self.stats['joins'] += 1
                        break
                    if i in dead:
                        break
        return [r for i, r in enumerate(rs) if i not in dead]

    def join_tables(self, entry, rs, f2):
        groups = {}
        fid = f2.id
        rest = []
        es = None
        for s, v in rs:
            sk = self.skeleton(v)
            if sk is None:
                rest.append((s, v))
                continue
            m = frozenset(x for x in s.mem.items())
            groups.setdefault((sk[0], m, s.trace, s.loops, frozenset(s.aux.items())), []).append((s, v, sk[1]))
        out = []
        for k, xs in groups.items():
            j = self._table(entry, xs) if len(xs) > 2 else None
            if j is None:
                out += [(s, v) for s, v, _ in xs]
            else:
                self.stats['joins'] += 1
                out.append(j)
        return out + rest

    def skeleton(self, v):
        """(skeleton, leaf) when v contains exactly one table-able leaf: constant int or field-less enum variant"""
        leaf = []

        def go(x, top):
            if isinstance(x, Lin) and not x.t:
                leaf.append(x)
                return 'LEAF'
            if isinstance(x, Agg):
                t = self.P.types[x.ty]
                if t['k'] == 'adt' and t['kind'] == 'enum' and len(t['variants']) > 2 and \
                        all(not y['fields'] for y in t['variants']):
                    leaf.append(x)
                    return ('LEAF', x.ty)
                return ('agg', x.ty, x.var, tuple(go(y, False) for y in x.fs))
            return x
        sk = go(v, True)
        if len(leaf) != 1:
            return None
        return sk, leaf[0]

    def _table(self, entry, xs):
        es = entry.store
        # find the atom fixed to a constant in every state and free at entry
        cand = None
        for s, v, lf in xs:
            c = set(a for a, e in s.store.sub.items() if not e.t and a not in es.sub)
            cand = c if cand is None else cand & c
        if not cand:
            return None
        for a in sorted(cand):
            x = var(get_atom(a))
            rows = []
            ok = True
            for s, v, lf in xs:
                n = s.store.norm(x)
                if n.t:
                    ok = False
                    break
                e2 = es.copy()
                try:
                    e2.assume_eq(x - n.c)
                except Infeasible:
                    ok = False
                    break
                if e2.ident() != s.store.ident():
                    ok = False
                    break
                out = lf.c if isinstance(lf, Lin) else int(self.variants(lf.ty)[lf.var]['discr'])
                rows.append((n.c, out))
            if not ok or len(set(i for i, _ in rows)) != len(rows):
                continue
            rows = tuple(sorted(rows))
            s = entry.copy()
            s0 = xs[0][0]
            s.mem = s0.mem
            s.trace, s.loops, s.aux = s0.trace, s0.loops, s0.aux
            s.cnt = s0.cnt
            ins = [i for i, _ in rows]
            try:
                s.store.assume_ge(x - min(ins))
                s.store.assume_ge(-x + max(ins))
            except Infeasible:
                return None
            x = s.store.norm(x)
            if max(ins) - min(ins) + 1 != len(ins):
                for i in range(min(ins) + 1, max(ins)):
                    if i not in ins:
                        s.store.assume_ne(x - i)
            lf = xs[0][2]
            if isinstance(lf, Lin):
                new = mapped(s.store.norm(x), rows)
            else:
                new = SymV(('tab', s.store.norm(x), rows), lf.ty)

            def go(y):
                if isinstance(y, Lin) and not y.t:
                    return new
                if isinstance(y, Agg):
                    if y is lf:
                        return new
                    return Agg(y.ty, y.var, tuple(go(z) for z in y.fs))
                return y
            return s, go(xs[0][1])
        return None

    # ------------------------------------------------------------ regions and loops
    def trim(self, fr, bb, st):
        m = st.mem
        fid = fr.id
        for l in fr.info.dead_at[bb]:
            k = ('L', fid, l)
            if k in m:
                del m[k]

    def exec_region(self, fr, blocks, pending, cut):
        """run states through the (loop-free modulo nested loops) region; returns edges leaving it"""
        info = fr.info
        outs = []
        pend = {b: list(ss) for b, ss in pending.items()}

        def route(b, s, comp=None):
            if b == cut or b not in blocks:
                outs.append((b, s))
            else:
                pend.setdefault(b, []).append(s)
        first = True
        for comp, loop in info.sccs(blocks, cut):
            if not loop:
                b = next(iter(comp))
                ss = pend.pop(b, None)
                if not ss:
                    continue
                for s in self.dedupe(fr, b, ss):
                    for b2, s2 in self.exec_block(fr, b, s):
                        route(b2, s2)
            else:
                heads = [b for b in comp if b in pend]
                if not heads:
                    continue
                if len(heads) > 1:
                    raise Unsupported('irreducible loop in %s' % fr.name())
                h = heads[0]
                ss = pend.pop(h)
                for b2, s2 in self.exec_loop(fr, comp, h, self.dedupe(fr, h, ss)):
                    route(b2, s2)
        return outs

    def dedupe(self, fr, b, ss):
        for s in ss:
            self.trim(fr, b, s)
        if len(ss) == 1:
            return ss
        seen = {}
        for s in ss:
            k = s.ident0()
            if k not in seen:
                seen[k] = s
            else:
                seen[k].mergecnt(s)
        return list(seen.values())

    def exec_loop(self, fr, comp, h, states):
        if self.coro_loop is not None:
            r = self.coro_loop(self, fr, comp, h, states)
            if r is not NotImplemented:
                return r
        mode = self.loopmode.get((fr.info.key, h), 'A')
        if mode == 'A':
            npan = len(self.panics)
            ninc = len(self.incomplete)
            nres = len(self._results[-1])
            seen = set()
            cur = states
            exits = []
            ok = True
            it = 0
            while cur:
                new = []
                for s in cur:
                    k = s.ident0()
                    if k not in seen:
                        seen.add(k)
                        new.append(s)
                if not new:
                    break
                it += 1
                if len(seen) > self.unroll * max(1, len(states)) or (it > 3 and len(new) > 4 * len(states)) or it > self.unroll:
                    ok = False
                    break
                outs = self.exec_region(fr, comp, {h: [s.copy() for s in new]}, h)
                cur = []
                for b, s in outs:
                    if b == h:
                        self.trim(fr, h, s)
                        cur.append(s)
                    else:
                        exits.append((b, s))
                cur = self.dedupe(fr, h, cur) if cur else []
            if ok:
                return exits
            del self.panics[npan:]
            del self.incomplete[ninc:]
            del self._results[-1][nres:]
            self.loopmode[(fr.info.key, h)] = 'B'
        import widen
        exits = []
        for s in states:
            mark = len(self.panics), len(self.incomplete), len(self._results[-1])
            try:
                exits += widen.run_loop(self, fr, comp, h, s)
            except Unsupported as e:
                if getattr(e, 'eventful', None) != (fr.id, h) or self.some_turns is None:
                    raise
                del self.panics[mark[0]:]
                del self.incomplete[mark[1]:]
                del self._results[-1][mark[2]:]
                exits += self.some_turns(self, fr, comp, h, [s])
        return exits

    # ------------------------------------------------------------ cloning
    def clone_val(self, fr, bb, st, p):
        v = self.read(st, p.alloc, p.path)
        return v
