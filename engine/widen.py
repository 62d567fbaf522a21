"""Widening at loop heads: anti-unification of head states into phi-states plus inductive
linear invariants (Houdini over octagon-style candidates)."""
from lin import *
import lin as LIN
from vals import *
from interp import Unsupported, Dead, Split, LoopInfo, State
import interp


def phi(lid, g, path):
    return var(atom('phi', (lid, g) + path))


MARK = {}


class Grp:
    def __init__(self):
        self.arr = []        # arrivals: (source, state)
        self.tree = None     # generalised mem
        self.leaves = {}     # path -> ('lin'|'cond'|'sym'|'opq', phi value)
        self.cands = None


class Back:
    """one back edge: from group src to group dst"""
    def __init__(self, src, dst, state, vals):
        self.src, self.dst, self.state, self.vals = src, dst, state, vals


def gc(A, st):
    """drop temporaries and heap cells not reachable from locals"""
    reach = set()
    work = [v for a, v in st.mem.items() if a[0] not in ('H', 'T')]
    seen = set()

    def ptrs(v, out):
        if isinstance(v, Ptr):
            out.append(v.alloc)
            if v.alloc[0] == 'C':
                return
        if isinstance(v, Val):
            for x in v.args():
                ptrs(x, out)
        elif isinstance(v, tuple):
            for x in v:
                if isinstance(x, (Val, tuple)):
                    ptrs(x, out)
    while work:
        v = work.pop()
        if v in seen:
            continue
        seen.add(v)
        o = []
        ptrs(v, o)
        for a in o:
            if a not in reach:
                reach.add(a)
                if a in st.mem:
                    work.append(st.mem[a])
    for a in [a for a in st.mem if a[0] in ('H', 'T') and a not in reach]:
        del st.mem[a]


def norm_val(st, v):
    n = st.store.norm

    def f(x):
        if isinstance(x, Lin):
            return n(x)
        return None
    return rebuild(v, f)


def shape(A, st, v):
    """hashable skeleton that decides which head states are merged"""
    if isinstance(v, Lin):
        return 'i'
    if isinstance(v, Cond):
        return v if v.op == 'const' else 'b'
    if isinstance(v, Agg):
        return ('A', v.ty, v.var, tuple(shape(A, st, x) for x in v.fs))
    if isinstance(v, Ptr):
        return ('P', v.alloc, tuple('i' if isinstance(e, tuple) and e[0] == 'i' else e for e in v.path),
                None if v.meta is None else v.meta if v.meta[0] == 'dyn' else 'm')
    if isinstance(v, It):
        return ('It', v.kind, shape(A, st, v.seq))
    if isinstance(v, Seq):
        return ('Seq', v.ety)
    if isinstance(v, SymV):
        return ('SymV', v.ty)
    if isinstance(v, Opq):
        return ('Opq', v.tag)
    if isinstance(v, Fn):
        return v
    return type(v).__name__


def state_shape(A, st, keep):
    return frozenset((a, shape(A, st, v)) for a, v in st.mem.items() if a in keep or a[0] not in ('C',))


class Runner:
    def __init__(self, A, fr, comp, h, s0, lid):
        self.A, self.fr, self.comp, self.h, self.lid = A, fr, comp, h, lid
        self.s0 = s0
        al = set()
        for v in s0.mem.values():
            al |= set(deps(v))
        for a, e in s0.store.sub.items():
            al.add(a)
            al |= lin_deps(e)
        for l in s0.store.ge | s0.store.ne:
            al |= lin_deps(l)
        al |= set(s0.store.lo) | set(s0.store.hi)
        self.allowed = al
        self.groups = {}
        self.order = []
        self.seqmode = {}    # path -> 'acc' | 'top'
        self.seqbase = {}    # path -> entry segs
        self.dropped = {}    # group -> set of refuted candidates
        self.backs = []

    # -------------------------------------------------- anti-unification
    def okdeps(self, v):
        return not (set(deps(v)) - self.allowed)

    def unify(self, g, path, vs):
        """generalise values vs (same shape)"""
        v0 = vs[0]
        same = all(v is v0 for v in vs)
        if isinstance(v0, Seq):
            return self.unify_seq(g, path, vs)
        if same and self.okdeps(v0) and not self.has_seq(v0):
            return v0
        if isinstance(v0, Lin):
            p = phi(self.lid, g, path)
            self.leafset[path] = ('lin', p)
            return p
        if isinstance(v0, Cond):
            if v0.op == 'const':
                return v0
            p = var(atom('phi', (self.lid, g) + path, 0, 1))
            self.leafset[path] = ('cond', p)
            return c_ne(p)
        if isinstance(v0, Agg):
            return Agg(v0.ty, v0.var, tuple(self.unify(g, path + (i,), [v.fs[i] for v in vs])
                                            for i in range(len(v0.fs))))
        if isinstance(v0, Ptr):
            np = []
            for i, e in enumerate(v0.path):
                if isinstance(e, tuple) and e[0] == 'i':
                    np.append(('i', self.unify(g, path + ('ix', i), [v.path[i][1] for v in vs])))
                else:
                    np.append(e)
            m = v0.meta
            if m is not None and m[0] != 'dyn':
                m = tuple(self.unify(g, path + ('meta', i), [v.meta[i] for v in vs]) for i in range(2))
            return Ptr(v0.alloc, tuple(np), m)
        if isinstance(v0, It):
            return It(v0.kind, self.unify(g, path + ('seq',), [v.seq for v in vs]),
                      self.unify(g, path + ('pos',), [v.pos for v in vs]),
                      self.unify(g, path + ('end',), [v.end for v in vs]))
        if isinstance(v0, SymV):
            self.leafset[path] = ('sym', None)
            return SymV(('phi', self.lid, g) + path, v0.ty)
        if isinstance(v0, Opq):
            self.leafset[path] = ('opq', None)
            return Opq('phi', (('phi', self.lid, g) + path,))
        if isinstance(v0, Fn):
            return v0
        raise Unsupported('loop-variant value %r' % (v0,))

    def has_seq(self, v):
        if isinstance(v, Seq):
            return True
        if isinstance(v, Val):
            return any(self.has_seq(x) for x in v.args() if isinstance(x, (Val, tuple)))
        if isinstance(v, tuple):
            return any(self.has_seq(x) for x in v if isinstance(x, (Val, tuple)))
        return False

    def unify_seq(self, g, path, vs):
        mode = self.seqmode.get(path)
        v0 = vs[0]
        if mode is None:
            if all(v is v0 for v in vs) and self.okdeps(v0):
                return v0
            r = self.leafwise(g, path, vs)
            if r is not None:
                return r
            raise Restart(path, 'acc')
        if mode == 'acc':
            P = self.seqbase.get(path)
            if P is None:
                raise Restart(path, 'top')
            ok = self.okdeps(P)
            lens = []
            star = ('star', self.lid) + path
            n = len(P.segs)
            for v in vs:
                if v.segs[:n] != P.segs:
                    ok = False
                    break
                rest = v.segs[n:]
                ln = ZERO
                for i, s in enumerate(rest):
                    if isinstance(s, S) and s.star == star and i > 0:
                        ok = False
                    ln = ln + seglen(s)
                lens.append(ln)
            if not ok:
                raise Restart(path, 'top')
            ln = self.unify(g, path + ('len',), lens)
            if ln is ZERO:
                return Seq(v0.ety, P.segs)
            return Seq(v0.ety, P.segs + (S(star, ln),))
        # top: nothing known but the length
        ln = self.unify(g, path + ('len',), [seqlen(v) for v in vs])
        tag = ('phi', self.lid, g) + path
        return Seq(v0.ety, (X(tag, ln, None),))

    def leafwise(self, g, path, vs):
        v0 = vs[0]
        n = len(v0.segs)
        for v in vs:
            if len(v.segs) != n:
                return None
            for a, b in zip(v.segs, v0.segs):
                if type(a) is not type(b):
                    return None
                if isinstance(a, W) and a.base != b.base:
                    return None
                if isinstance(a, S) and a.star != b.star:
                    return None
                if isinstance(a, X) and (a.tag != b.tag or a.info != b.info):
                    return None
                if isinstance(a, E) and shape(self.A, None, a.v) != shape(self.A, None, b.v):
                    return None
        out = []
        for i in range(n):
            a = v0.segs[i]
            p = path + ('seg', i)
            if isinstance(a, E):
                out.append(E(self.unify(g, p, [v.segs[i].v for v in vs])))
            elif isinstance(a, W):
                if not self.okdeps(a.base):
                    return None
                out.append(W(a.base, self.unify(g, p + ('off',), [v.segs[i].off for v in vs]),
                             self.unify(g, p + ('len',), [v.segs[i].len for v in vs])))
            elif isinstance(a, S):
                out.append(S(a.star, self.unify(g, p + ('len',), [v.segs[i].len for v in vs])))
            else:
                if not self.okdeps(a.tag):
                    return None
                out.append(X(a.tag, self.unify(g, p + ('len',), [v.segs[i].len for v in vs]), a.info))
        return Seq(v0.ety, tuple(out))

    # values of the leaves of a group in a concrete arrival
    def leaf_vals(self, g, st):
        out = {}
        for path, (k, p) in g.leaves.items():
            v = self.at(st, path)
            out[path] = v
        return out

    def at(self, st, path):
        a = path[0]
        v = st.mem.get(a)
        i = 1
        n = len(path)
        while i < n:
            e = path[i]
            if isinstance(v, Agg):
                v = v.fs[e]
            elif isinstance(v, Ptr):
                if e == 'meta':
                    i += 1
                    v = v.meta[path[i]]
                else:
                    i += 1
                    v = v.path[path[i]][1]
            elif isinstance(v, It):
                v = {'seq': v.seq, 'pos': v.pos, 'end': v.end}[e]
            elif isinstance(v, Seq):
                if e == 'len':
                    m = self.seqmode.get(path[:i])
                    if m == 'acc':
                        P = self.seqbase[path[:i]]
                        r = ZERO
                        for s in v.segs[len(P.segs):]:
                            r = r + seglen(s)
                        v = r
                    else:
                        v = seqlen(v)
                else:            # 'seg'
                    i += 1
                    s = v.segs[path[i]]
                    if isinstance(s, E):
                        v = s.v
                    else:
                        i += 1
                        v = s.off if path[i] == 'off' else s.len
            else:
                raise Unsupported('leaf path')
            i += 1
        if isinstance(v, Lin):
            return st.store.norm(v)
        return v

    # -------------------------------------------------- generalised head state
    def build(self, gi):
        g = self.order[gi]
        self.leafset = {}
        sts = [s for _, s in g.arr]
        st = self.s0.copy()
        st.mem = {}
        for a in sts[0].mem:
            vs = [s.mem[a] for s in sts]
            st.mem[a] = self.unify(gi, (a,), vs)
        g.leaves = dict(self.leafset)
        st.cnt = self.s0.cnt
        # candidates
        g.vals = [self.leaf_vals(g, s) for s in sts]
        lins = [(p, x) for p, (k, x) in sorted(g.leaves.items(), key=lambda t: repr(t[0])) if k == 'lin']
        drop = self.dropped.setdefault(gi, set())
        cands = self.candidates(g, lins, sts)
        held = []
        for c in cands:
            if c in drop:
                continue
            if self.holds(g, c, sts):
                held.append(c)
            else:
                drop.add(c)
        g.cands = held
        for kind, e in held:
            if kind == 'eq':
                st.store.assume_eq(e)
        for kind, e in held:
            if kind == 'ge' and not st.store.entails_ge(e):
                st.store.assume_ge(e)
        st.loops = self.s0.loops + ((self.lid, gi),)
        # normalise
        for a in st.mem:
            st.mem[a] = norm_val(st, st.mem[a])
        return st

    def subst(self, g, vals, e):
        """replace the group's phis in e by an arrival's leaf values"""
        r = const(e.c)
        byid = getattr(g, '_byid', None)
        if byid is None or g._bykey is not g.leaves:
            g._byid = byid = {x.t[0][0]: p for p, (k, x) in g.leaves.items() if k == 'lin'}
            g._bykey = g.leaves
        for a, k in e.t:
            p = byid.get(a)
            if p is None:
                r = r + var(LIN.get_atom(a)) * k
            else:
                r = r + vals[p] * k
        return r

    def holds(self, g, c, sts):
        kind, e = c
        for vals, s in zip(g.vals, sts):
            x = self.subst(g, vals, e)
            if kind == 'eq':
                if not s.store.entails_eq(x):
                    return False
            elif not s.store.entails_ge(x):
                return False
        return True

    def candidates(self, g, lins, sts):
        out = []
        seen = set()

        def add(kind, e):
            c = (kind, e)
            if c not in seen and e.t:
                seen.add(c)
                out.append(c)
        base = self.refs()
        # the arrival that says most: where a number is known to be 0, say, its name is lost
        inits = max(g.vals, key=lambda v: sum(1 for p, x in lins if v[p].t and not (lin_deps(v[p]) - self.allowed)))
        st0 = sts[0]

        def allowed(l):
            return not (lin_deps(l) - self.allowed)
        for p, x in lins:
            add('ge', x)
            add('ge', -x + interp.ISIZE_MAX)
            i = inits[p]
            if allowed(i):
                add('ge', x - i)
                add('ge', i - x)
            for b in base:
                add('ge', b - x)
        for i in range(len(lins)):
            for j in range(i):
                (p, x), (q, y) = lins[i], lins[j]
                a, b = inits[p], inits[q]
                d = a - b
                if allowed(d):
                    add('eq', x - y - d)
                    add('ge', x - y - d)
                    add('ge', y - x + d)
                s = a + b
                if allowed(s):
                    add('eq', x + y - s)
                    add('ge', s - x - y)
                add('ge', x - y)
                add('ge', y - x)
        # where a part of a buffer that was kept ends
        at = dict(lins)
        for p, x in lins:
            if p[-1] != 'off':
                continue
            y = at.get(p[:-1] + ('len',))
            if y is None:
                continue
            for q, z in lins:
                if q[-1] != 'len' and z is not x:
                    add('ge', z - x - y)
            for b in base:
                add('ge', b - x - y)
        return out

    def refs(self):
        """entry-time quantities a counter may be bounded by"""
        r = getattr(self, '_refs', None)
        if r is not None:
            return r
        s = set()

        def go(v, d=0):
            if isinstance(v, Lin):
                return
            if isinstance(v, Seq):
                s.add(self.s0.store.norm(seqlen(v)))
                if d > 6:
                    return
            if isinstance(v, Ptr):
                if v.meta is not None and v.meta[0] != 'dyn':
                    s.add(v.meta[1])
                    s.add(self.s0.store.norm(v.meta[0] + v.meta[1]))
                return
            if isinstance(v, It):
                s.add(v.end)
                return
            if isinstance(v, Agg):
                for x in v.fs:
                    go(x, d + 1)
                    if isinstance(x, Lin):
                        s.add(x)
        for a, v in self.s0.mem.items():
            go(v)
            if isinstance(v, Lin) and a[0] == 'L' and a[1] == self.fr.id:
                s.add(v)
        r = sorted((x for x in s if True), key=repr)[:48]
        self._refs = r
        return r

    # -------------------------------------------------- fixpoint
    def run(self):
        A = self.A
        A.stats['loops'] += 1
        npan = len(A.panics)
        self.ninc = len(A.incomplete)
        nres = len(A._results[-1])
        gc(A, self.s0)
        for a in list(self.s0.mem):
            self.s0.mem[a] = norm_val(self.s0, self.s0.mem[a])
        for rounds in range(60):
            try:
                r = self.attempt(npan, nres)
            except Restart as e:
                self.seqmode[e.path] = e.mode
                if e.mode == 'acc':
                    b = self.find_entry(e.path)
                    if b is None:
                        self.seqmode[e.path] = 'top'
                    else:
                        self.seqbase[e.path] = b
                if e.mode == 'top':
                    self.seqbase.pop(e.path, None)
                continue
            if r is not None:
                return r
        raise Unsupported('no stable loop invariant in %s' % self.fr.name())

    def find_entry(self, path):
        try:
            v = self.at(self.s0, path)
        except Exception:
            return None
        return v if isinstance(v, Seq) else None

    def attempt(self, npan, nres):
        A = self.A
        self.groups = {}
        self.order = []
        self.dropped = {}
        self.add_arrival(None, self.s0)
        for it in range(40):
            del A.panics[npan:]
            del A.incomplete[self.ninc:]
            del A._results[-1][nres:]
            ngr = len(self.order)
            heads = [self.build(i) for i in range(ngr)]
            sig = [(frozenset(h.mem.items()), h.store.ident()) for h in heads]
            exits = []
            backs = []
            for gi, hd in enumerate(heads):
                outs = A.exec_region(self.fr, self.comp, {self.h: [hd.copy()]}, self.h)
                for b, s in outs:
                    if b == self.h:
                        A.trim(self.fr, self.h, s)
                        gc(A, s)
                        for a in list(s.mem):
                            s.mem[a] = norm_val(s, s.mem[a])
                        if s.trace != hd.trace:
                            e = Unsupported('event inside a widened loop in %s' % self.fr.name())
                            e.eventful = (self.fr.id, self.h)
                            raise e
                        backs.append((gi, s))
                    else:
                        exits.append((b, s))
            # new arrivals replace the previous iteration's back edges
            for g in self.order:
                g.arr = [x for x in g.arr if x[0] is None]
            stable = True
            for gi, s in backs:
                self.add_arrival(gi, s)
            if len(self.order) > 24:
                raise Unsupported('too many loop head shapes in %s' % self.fr.name())
            self.order = [g for g in self.order]
            if len(self.order) != ngr:
                continue
            # check: does rebuilding give the same heads?
            live = [g for g in self.order if g.arr]
            if len(live) != len(self.order):
                raise Unsupported('vanishing loop head in %s' % self.fr.name())
            heads2 = [self.build(i) for i in range(len(self.order))]
            sig2 = [(frozenset(h.mem.items()), h.store.ident()) for h in heads2]
            if sig2 == sig:
                info = LoopInfo()
                info.lid = self.lid
                info.fn = self.fr.info.path
                info.body = self.fr.info.key
                info.head = self.h
                info.frame = self.fr
                info.entry = self.s0
                info.heads = heads2
                info.groups = self.order
                info.seqmode = dict(self.seqmode)
                info.seqbase = dict(self.seqbase)
                info.backs = []
                for gi, s in backs:
                    di = self.group_of(s)
                    info.backs.append(Back(gi, di, s, self.leaf_vals(self.order[di], s)))
                info.entry_vals = {gi: self.leaf_vals(g, self.s0) for gi, g in enumerate(self.order)
                                   if any(x[0] is None for x in g.arr)}
                info.exits = exits
                info.ranking = ranking(A, info)
                A.looplist[self.lid] = info
                return exits
        raise Unsupported('loop analysis does not converge in %s' % self.fr.name())

    def group_of(self, s):
        k = state_shape(self.A, s, ())
        return self.groups[k]

    def add_arrival(self, src, s):
        k = state_shape(self.A, s, ())
        gi = self.groups.get(k)
        if gi is None:
            gi = len(self.order)
            self.groups[k] = gi
            self.order.append(Grp())
        self.order[gi].arr.append((src, s))


class Restart(Exception):
    def __init__(self, path, mode):
        self.path = path
        self.mode = mode


def ranking(A, info):
    """a measure that strictly decreases on every back edge and is bounded below; None if not found"""
    if not info.backs:
        return 'no back edge'
    paths = None
    for g in info.groups:
        ps = set(p for p, (k, x) in g.leaves.items() if k == 'lin')
        paths = ps if paths is None else paths & ps
    paths = sorted(paths or (), key=repr)

    def val(gi, p):
        return info.groups[gi].leaves[p][1]

    def bounded(b, v):
        st = b.state.store
        if st.entails_ge(v):
            return True
        return False
    for p in paths:
        # decreasing and bounded below
        if all(b.state.store.entails_ge(val(b.src, p) - b.vals[p] - 1) and b.state.store.entails_ge(val(b.src, p))
               for b in info.backs):
            return 'decreasing %s' % pathstr(p)
    R = info.entry
    tmp = Runner.__new__(Runner)
    tmp.s0 = R
    tmp.fr = info.frame
    tmp._refs = None
    refs = Runner.refs(tmp)
    for p in paths:
        if all(b.state.store.entails_ge(b.vals[p] - val(b.src, p) - 1) for b in info.backs):
            for e in refs:
                if all(b.state.store.entails_ge(e - val(b.src, p)) for b in info.backs):
                    return 'increasing %s below %s' % (pathstr(p), e)
            # bounded by another leaf that never grows
            for q in paths:
                if q != p and all(b.state.store.entails_ge(val(b.src, q) - val(b.src, p)) and
                                  b.state.store.entails_ge(val(b.src, q) - b.vals[q]) for b in info.backs):
                    return 'increasing %s below %s' % (pathstr(p), pathstr(q))
    for p in paths:
        for q in paths:
            if p != q and all(b.state.store.entails_ge((val(b.src, p) - val(b.src, q)) - (b.vals[p] - b.vals[q]) - 1)
                              and b.state.store.entails_ge(val(b.src, p) - val(b.src, q)) for b in info.backs):
                return 'decreasing %s - %s' % (pathstr(p), pathstr(q))
    return None


def pathstr(p):
    a = p[0]
    return '_%s%s' % (a[2] if a[0] == 'L' else a, ''.join('.%s' % (x,) for x in p[1:]))


def run_loop(A, fr, comp, h, s0):
    s0 = s0.copy()
    gc(A, s0)
    key = (fr.id, h, s0.ident())
    r = A.loopmemo.get(key)
    if r is None:
        np = len(A.panics)
        ni = len(A.incomplete)
        nr = len(A._results[-1])
        n = A.__dict__.setdefault('_nlid', {})
        k = n.get((fr.id, h), 0)
        n[(fr.id, h)] = k + 1
        lid = ('loop', fr.id, h, k)
        ex = Runner(A, fr, comp, h, s0, lid).run()
        r = (ex, A.panics[np:], A._results[-1][nr:], A.incomplete[ni:])
        A.loopmemo[key] = r
    else:
        A.panics.extend(r[1])
        A.incomplete.extend(r[3])
        A._results[-1].extend((s.copy(), v) for s, v in r[2])
    return [(b, s.copy()) for b, s in r[0]]
