"""C15: the packet identifier allocator.

Every method is analysed from an arbitrary allocator state that satisfies the invariants of the
list of free ranges (local, per slot), and shown to leave a state that satisfies them again and
whose set of free identifiers differs exactly as the method promises:

  slot 0 is vacant; `start` is 0 or a taken slot
  a taken slot i holds first(i) <= last(i) within 1..max, next(i) is 0 or a taken slot with
  first(next(i)) > last(i); no two taken slots have the same successor, none precedes `start`,
  and every taken slot other than `start` has a predecessor

so the taken slots form one ascending chain from `start`, and the free identifiers are those
that some taken slot covers."""
from lin import *
from vals import *
from interp import Analyzer, State, Split, Dead, Unsupported
import models
import difflog
from spec import *
from decodecheck import Violation
from clientcheck import find

RANGEINC = 'std::ops::RangeInclusive'
MAXCLASSES = 10


class Loops(Exception):
    pass


class Slot:
    """what a slot holds: taken (a condition), first, last, used up, next"""
    __slots__ = ('idx', 'tk', 'vac', 'a', 'b', 'ex', 'n')


def atom_key(a):
    k = get_atom(a).key
    return k if isinstance(k, tuple) else ()


class IdsCheck:
    def __init__(self, P):
        self.P = P
        self.viol = []
        self.undecided = []
        self.obligations = [0, 0]
        self.samples = []
        self.analyzers = []
        self.nodes = 0
        self.queries = 0

    # ------------------------------------------------------------ representation
    def layout(self):
        P = self.P
        self.fn = {}
        for n in ('new', 'new_with_max', 'next_id', 'return_id'):
            b = find(P, 'PktIds', n)
            if b is None:
                raise Undecided('no single PktIds::%s' % n)
            self.fn[n] = b['key']
        self.ty = P.info(self.fn['new']).locals[0]
        t = P.types[self.ty]
        if t['k'] != 'adt' or t['kind'] != 'struct':
            raise Undecided('PktIds is not a struct')
        self.fstart = self.franges = None
        fs = t['variants'][0]['fields']
        for i, f in enumerate(fs):
            ft = P.types[f['ty']]
            if ft['s'] == 'usize' and self.fstart is None:
                self.fstart = i
            elif ft['k'] == 'adt' and ft['raw'].split('::')[-1] == 'Vec' and self.franges is None:
                self.franges = i
                self.node = ft['args'][0]
            else:
                raise Undecided('the representation of the allocator is not the list of ranges this check knows')
        if self.fstart is None or self.franges is None or P.types[self.node]['k'] != 'adt' or P.types[self.node]['kind'] != 'enum':
            raise Undecided('the representation of the allocator is not the list of ranges this check knows')
        vs = P.types[self.node]['variants']
        self.vtaken = None
        for i, v in enumerate(vs):
            if not v['fields']:
                continue
            if self.vtaken is not None:
                raise Undecided('a slot has more than one form with contents')
            self.vtaken = i
            self.frange = self.fnext = None
            for j, f in enumerate(v['fields']):
                ft = P.types[f['ty']]
                if ft['s'] == 'usize' and self.fnext is None:
                    self.fnext = j
                elif 'RangeInclusive<u16>' in ft['s'] and self.frange is None:
                    self.frange = j
                else:
                    raise Undecided('the contents of a slot are not a range and a successor')
            if self.frange is None or self.fnext is None:
                raise Undecided('the contents of a slot are not a range and a successor')
        if len(vs) != 2 or self.vtaken is None:
            raise Undecided('a slot is not vacant or taken')
        self.dtaken = int(vs[self.vtaken]['discr'])

    def outside(self):
        """methods that change the allocator and are reachable from elsewhere"""
        P = self.P
        own = set(k for k, b in P.bodies.items() if b['local'] and '::PktIds' in b['path'].replace('<', '').replace('>', ''))
        known = set(self.fn.values())
        for k, b in P.bodies.items():
            if not b['local'] or k in own or 'tests::' in b['path']:
                continue
            info = P.info(k)
            for bl in info.blocks:
                f = bl and bl['t']['k'] == 'call' and bl['t']['f']
                ck = f['v']['fn'].get('key') if f and f['o'] == 'const' and 'fn' in f['v'] else None
                if ck in own and ck not in known:
                    l = P.types[P.info(ck).locals[1]] if P.info(ck).b.get('args') else None
                    if l is not None and l['k'] == 'ref' and not l.get('mut', True):
                        continue
                    self.undecided.append('C15: %s changes the allocator through %s' % (b['path'], P.bodies[ck]['path']))

    # ------------------------------------------------------------ slots
    def slot(self, A, st, v, idx):
        r = Slot()
        r.idx = idx
        if isinstance(v, SymV):
            r.tk = c_eq(A.discr(st, v) - self.dtaken)
            v = A.expand(st, v, self.vtaken)
        elif isinstance(v, Agg):
            r.tk = TRUE if v.var == self.vtaken else FALSE
        else:
            raise Undecided('a slot holds %r' % (v,))
        r.vac = c_not(r.tk)
        if r.tk is FALSE:
            r.a = r.b = r.n = ZERO
            r.ex = FALSE
            return r
        g = v.fs[self.frange]
        if not isinstance(g, Agg) or len(g.fs) != 3:
            raise Undecided('a range is %r' % (g,))
        r.a, r.b, r.ex = g.fs
        r.n = v.fs[self.fnext]
        nz = st.store.norm
        r.a, r.b, r.n = nz(r.a), nz(r.b), nz(r.n)
        return r

    def old(self, A, st, i):
        return self.slot(A, st, A.elem(self.base, i, self.node), i)

    def named(self, A, st, extra=()):
        """indexes of slots the state says something about"""
        out = []
        seen = set()

        def idx(i):
            if i not in seen:
                seen.add(i)
                out.append(i)

        def key(k):
            if isinstance(k, tuple):
                if len(k) >= 3 and k[0] == 'el' and k[1] == self.base and isinstance(k[2], Lin):
                    idx(k[2])
                    lin(k[2])
                    return
                for x in k:
                    key(x)
            elif isinstance(k, Lin):
                lin(k)
        done = set()

        def at(a):
            if a not in done:
                done.add(a)
                key(get_atom(a).key)

        def lin(l):
            for a, _ in l.t:
                at(a)

        def val(v):
            if isinstance(v, Lin):
                lin(v)
            elif isinstance(v, SymV):
                key(v.name)
            elif isinstance(v, Val):
                for x in v.args():
                    val(x)
            elif isinstance(v, tuple):
                for x in v:
                    val(x)
        s = st.store
        for l in s.ge:
            lin(l)
        for l in s.ne:
            lin(l)
        for d in (s.lo, s.hi, s.sub):
            for a in d:
                at(a)
        for l in s.sub.values():
            lin(l)
        for e in extra:
            val(e)
        idx(self.start)
        return out

    def clauses(self, A, st, idxs):
        """the invariants, and what follows from them, for these slots of the allocator before the call"""
        N, mx, start = self.N, self.max, self.start
        sl = [self.old(A, st, i) for i in idxs]
        have = {s.idx: s for s in sl}
        for s in list(sl):
            if s.n not in have:
                x = self.old(A, st, s.n)
                have[s.n] = x
                sl.append(x)
        out = []
        for s in sl:
            beyond = c_ge(s.idx - N)
            out.append((beyond, c_ne(s.idx), s.vac))
            out.append((beyond, s.vac, c_and(c_ge(s.a - 1), c_ge(s.b - s.a), c_ge(mx - s.b), c_ge(N - s.n - 1))))
            out.append((beyond, s.vac, c_not(s.ex)))
            # the successor
            x = have.get(s.n)
            if x is not None:
                out.append((beyond, s.vac, c_eq(s.n), c_and(x.tk, c_ge(x.a - s.b - 1))))
            out.append((beyond, s.vac, c_eq(s.n), c_ne(s.n - start)))
            out.append((beyond, s.vac, c_ne(start)))
            x = have.get(start)
            if x is not None and x is not s:
                out.append((beyond, s.vac, c_eq(s.idx - start), c_ge(s.a - x.b - 1)))
        x = have.get(start)
        if x is not None:
            out.append((c_eq(start), x.tk))
        for i, s in enumerate(sl):
            for t in sl[:i]:
                beyond = (c_ge(s.idx - N), c_ge(t.idx - N))
                d = c_eq(s.idx - t.idx)
                if d is FALSE:
                    pass
                else:
                    eqs = [c_eq(s.a - t.a), c_eq(s.b - t.b), c_eq(s.n - t.n)]
                    if s.tk.op == 'eq' and t.tk.op == 'eq':
                        eqs.append(c_eq(s.tk.x - t.tk.x) if (s.tk.x.t[0][1] > 0) == (t.tk.x.t[0][1] > 0) else c_eq(s.tk.x + t.tk.x))
                    out.append((c_not(d), c_and(*eqs)))
                out.append(beyond + (s.vac, t.vac, d, c_ge(t.a - s.b - 1), c_ge(s.a - t.b - 1)))
                out.append(beyond + (s.vac, t.vac, d, c_ne(s.n - t.n), c_eq(s.n)))
                for p, q in ((s, t), (t, s)):
                    x = have.get(p.n)
                    if x is not None and x is not q:
                        out.append(beyond + (p.vac, q.vac, d, c_ge(p.a - q.b - 1), c_eq(q.idx - p.n),
                                             c_and(c_ne(p.n), c_ge(q.a - x.b - 1))))
                    else:
                        out.append(beyond + (p.vac, q.vac, d, c_ge(p.a - q.b - 1), c_ne(p.n)))
        return [c for c in out if TRUE not in c]

    # ------------------------------------------------------------ is the state impossible?
    def impossible(self, A, st, extra=(), more=()):
        """the invariants contradict the state (and the further clauses)"""
        self.queries += 1
        pb = difflog.Problem(A, st)
        for c in self.clauses(A, st, self.named(A, st, extra)) + list(more):
            pb.clause(c)
        try:
            r = pb.impossible(3000)
        except difflog.TooMuch as e:
            raise Undecided('too many cases in the identifier allocator')
        finally:
            self.nodes += pb.nodes
        if not r and not pb.exact:
            raise Undecided('numbers that are not compared only with each other in the identifier allocator')
        return r

    def entails(self, A, st, cond, extra=()):
        if cond is TRUE:
            return True
        neg = c_not(cond)
        return self.impossible(A, st, extra + ((neg,)), ((neg,),))

    # ------------------------------------------------------------ loops
    def leaves(self, v, f):
        """rebuild v with f applied to every number in it"""
        if isinstance(v, Lin):
            return f(v)
        if isinstance(v, Ptr):
            return Ptr(v.alloc, tuple((e[0], f(e[1])) if isinstance(e, tuple) and e[0] == 'i' else e for e in v.path),
                       v.meta if v.meta is None or v.meta[0] == 'dyn' else tuple(f(x) for x in v.meta))
        if isinstance(v, Agg):
            return Agg(v.ty, v.var, tuple(self.leaves(x, f) for x in v.fs))
        if isinstance(v, It):
            return It(v.kind, self.leaves(v.seq, f), f(v.pos), f(v.end) if isinstance(v.end, Lin) else v.end)
        if isinstance(v, Opq):
            return Opq(v.tag, tuple(self.leaves(x, f) if isinstance(x, (Val, Lin)) else x for x in v.xs))
        if isinstance(v, Cond) and v.op != 'const':
            raise Undecided('a loop that carries an undecided condition')
        return v

    def generalise(self, A, fr, nm, s, vary):
        """(class key, leaf values, state memory with leaf symbols)"""
        key = []
        vals = []
        mem = {}
        for a in vary:
            if a not in s.mem:
                key.append((a, None))
                continue
            mine = []

            def f(l):
                mine.append(s.store.norm(l))
                return sym(('leaf', nm, a, len(mine)), 0, None)
            v = self.leaves(s.mem[a], f)
            z = None
            if isinstance(v, Lin) and fr.info.b['local']:
                # an index that stands for nothing while it is zero
                z = 'zero' if mine[0] is ZERO else 'set' if self.entails(A, s, c_ge(mine[0] - 1), (mine[0],)) else None
            key.append((a, v, z))
            mem[a] = v
            vals += mine
        return tuple(key), vals, mem

    def facts(self, A, st, vals, nm):
        """candidate facts: (name, function of the leaf values)"""
        out = []
        N, start = self.N, self.start
        ids = [x for x in self.params]

        def sl(s, y):
            return self.old(A, s, y)
        n = len(vals)
        for i in range(n):
            if not any(nm in atom_key(a) for a in lin_deps(vals[i])):
                out.append((('is', i, vals[i]), lambda s, v, i=i, x=vals[i]: c_eq(v[i] - x)))
            out.append((('zero', i), lambda s, v, i=i: c_eq(v[i])))
            out.append((('one', i), lambda s, v, i=i: c_ge(v[i] - 1)))
            out.append((('in', i), lambda s, v, i=i: c_ge(N - v[i] - 1)))
            out.append((('upto', i), lambda s, v, i=i: c_ge(N - v[i])))
            out.append((('u16', i), lambda s, v, i=i: c_ge(65535 - v[i])))
            out.append((('start', i), lambda s, v, i=i: c_eq(v[i] - start)))
            out.append((('taken', i), lambda s, v, i=i: c_and(c_ge(N - v[i] - 1), sl(s, v[i]).tk)))
            out.append((('vacant', i), lambda s, v, i=i: c_and(c_ge(N - v[i] - 1), sl(s, v[i]).vac)))
            for k, x in enumerate(ids):
                out.append((('b<', i, k), lambda s, v, i=i, x=x: c_ge(x - sl(s, v[i]).b - 1)))
                out.append((('b>=', i, k), lambda s, v, i=i, x=x: c_ge(sl(s, v[i]).b - x)))
                out.append((('a>', i, k), lambda s, v, i=i, x=x: c_ge(sl(s, v[i]).a - x - 1)))
                out.append((('a<=', i, k), lambda s, v, i=i, x=x: c_ge(x - sl(s, v[i]).a)))
                out.append((('<', i, k), lambda s, v, i=i, x=x: c_ge(x - v[i] - 1)))
                out.append((('<=', i, k), lambda s, v, i=i, x=x: c_ge(x - v[i])))
                out.append((('>', i, k), lambda s, v, i=i, x=x: c_ge(v[i] - x - 1)))
            for j in range(n):
                if i == j:
                    continue
                out.append((('next', i, j), lambda s, v, i=i, j=j: c_eq(v[i] - sl(s, v[j]).n)))
                out.append((('first', i, j), lambda s, v, i=i, j=j: c_eq(v[i] - sl(s, v[j]).a)))
                out.append((('last', i, j), lambda s, v, i=i, j=j: c_eq(v[i] - sl(s, v[j]).b)))
                out.append((('le', i, j), lambda s, v, i=i, j=j: c_ge(v[i] - v[j])))
                d = st.store.norm(vals[i] - vals[j])
                if i < j and not d.t:
                    out.append((('diff', i, j, d.c), lambda s, v, i=i, j=j, d=d: c_eq(v[i] - v[j] - d)))
        return out

    def ranges_of(self, A, st):
        v = A.read(st, self.self_alloc, (self.franges,))
        return v

    def untouched(self, A, st):
        q = self.ranges_of(A, st)
        return (len(q.segs) == 1 and isinstance(q.segs[0], W) and q.segs[0].base == self.base
                and A.known(st, c_and(c_eq(q.segs[0].off), c_eq(q.segs[0].len - self.N))) is True)

    def loop(self, A, fr, comp, h, states):
        if self.self_alloc is None:
            return NotImplemented
        if any(not self.untouched(A, s) for s in states):
            return NotImplemented
        exits = []
        for s in states:
            r = self.loop1(A, fr, comp, h, s)
            if r is None:
                return NotImplemented
            exits += r
        return exits

    def loop1(self, A, fr, comp, h, entry):
        vary = []
        entry = entry.copy()
        nm = A.fresh(entry, fr, ('leaf', h))
        while True:
            classes = {}
            work = []
            grown = False

            def arrive(s, first):
                """returns True if a new cell turned out to vary"""
                for a, x in s.mem.items():
                    if a not in vary and x is not entry.mem.get(a):
                        if a == self.self_alloc:
                            raise Undecided('the allocator changes within a loop')
                        vary.append(a)
                        return True
                for a in entry.mem:
                    if a not in vary and a not in s.mem and a[0] != 'S':
                        vary.append(a)
                        return True
                key, vals, mem = self.generalise(A, fr, nm, s, vary)
                if self.impossible(A, s, tuple(vals)):
                    return False
                c = classes.get(key)
                if c is None:
                    if len(classes) >= MAXCLASSES:
                        raise Undecided('a loop of the allocator has too many different states')
                    fs = [(n, f) for n, f in self.facts(A, s, vals, nm) if self.entails(A, s, f(s, vals), tuple(vals))]
                    classes[key] = [fs, mem, len(vals)]
                    if key not in work:
                        work.append(key)
                else:
                    keep = [(n, f) for n, f in c[0] if self.entails(A, s, f(s, vals), tuple(vals))]
                    if len(keep) != len(c[0]):
                        c[0] = keep
                        if key not in work:
                            work.append(key)
                return False

            def body(key):
                fs, mem, n = classes[key]
                st = entry.copy()
                for a in vary:
                    st.mem.pop(a, None)
                st.mem.update(mem)
                vals = []
                for a in vary:
                    if a in mem:
                        k = [0]

                        def f(l):
                            vals.append(l)
                            return l
                        self.leaves(mem[a], f)
                for nme, f in fs:
                    c = f(st, vals)
                    if c.op == 'or':
                        continue
                    A.assume(st, c)
                # what the slots named here are
                return st, vals, A.exec_region(fr, comp, {h: [st.copy()]}, h)
            mark = (len(A.panics), len(A.incomplete), len(A._results[-1]))

            def undo():
                del A.panics[mark[0]:]
                del A.incomplete[mark[1]:]
                del A._results[-1][mark[2]:]
            grown = arrive(entry, True)
            turns = 0
            while work and not grown:
                turns += 1
                if turns > 60:
                    raise Undecided('the facts about a loop of the allocator do not settle')
                key = work.pop()
                st, vals, outs = body(key)
                undo()
                for b, s in outs:
                    if b == h:
                        A.trim(fr, h, s)
                        grown = arrive(s, False) or grown
                        if grown:
                            break
            if grown:
                if len(vary) > 12:
                    raise Undecided('a loop of the allocator carries too much')
                continue
            # settled: once more, for good
            exits = []
            for key in classes:
                st, vals, outs = body(key)
                for b, s in outs:
                    if b != h:
                        exits.append((b, s))
                        continue
                    A.trim(fr, h, s)
                    k2, v2, _ = self.generalise(A, fr, nm, s, vary)
                    if k2 == key and all(A.known(s, c_eq(x - y)) is True for x, y in zip(vals, v2)) and not self.impossible(A, s):
                        raise Loops(fr.name())
            self.invariants.append('%s: %s' % (fr.name().split('::')[-1], ' | '.join(
                ', '.join('.'.join(str(x) for x in n) for n, _ in c[0]) for c in classes.values())))
            return exits

    # ------------------------------------------------------------ running a method
    def begin(self, name):
        P = self.P
        A = Analyzer(P, models)
        self.analyzers.append(A)
        A.coro_loop = self.loop
        st = State()
        info = P.info(self.fn[name])
        n = info.b['args']
        args = [A.sym_value(('arg', i), info.locals[i + 1]) for i in range(n)]
        self.params = [x for x in args if isinstance(x, Lin)]
        self.max = sym(('greatest',), 1, 65535)
        self.invariants = []
        self.self_alloc = None
        self.where = P.bodies[self.fn[name]]['path']
        if args and isinstance(args[0], Ptr):
            p = args[0]
            self.self_alloc = p.alloc
            v = A.load(st, p.alloc)
            q = v.fs[self.franges]
            self.base = q.segs[0].base
            self.N = q.segs[0].len
            self.start = v.fs[self.fstart]
            A.assume(st, c_ge(self.N - 1))
            A.assume(st, c_ge(self.N - self.start - 1))
            A.write(st, p.alloc, (), v)
        return A, st, args

    def fail(self, what, detail=''):
        self.viol.append(Violation('C15', self.where, what, detail))

    def prove(self, ok, what, detail=''):
        self.obligations[1] += 1
        if ok:
            self.obligations[0] += 1
        else:
            self.fail(what, detail)
        return ok

    def finish(self, A, name):
        for p in A.panics:
            self.obligations[1] += 1
            if self.self_alloc is not None and self.impossible(A, p.state):
                self.obligations[0] += 1
                continue
            self.viol.append(Violation('C15', '%s %s' % (p.fn, p.site), 'panic: %s' % p.kind, 'in %s' % name))
        for e in A.incomplete:
            self.undecided.append('C15: %s: %s' % (name, e))
        if self.invariants:
            self.samples += ['%s, at the head of its loop: %s' % (name, i) for i in self.invariants]

    # ------------------------------------------------------------ construction
    def construct(self, name, mx):
        A, st, args = self.begin(name)
        n = 0
        for s, v in A.run(A.frame(None, 'c15', self.fn[name]), st, args):
            m = const(mx) if mx is not None else args[0]
            if not isinstance(v, Agg) or not isinstance(v.fs[self.franges], Seq) or not all(
                    isinstance(e, E) for e in v.fs[self.franges].segs):
                raise Undecided('%s builds %r' % (name, v))
            q = v.fs[self.franges].segs
            # walk the list
            for s2, got in forks(A, s, lambda x: self.walk(A, x, v.fs[self.fstart], q)):
                n += 1
                if got == 'lost':
                    self.prove(False, 'the initial list leads outside the allocator')
                    continue
                if got == 'cycle':
                    self.prove(False, 'the initial list never ends')
                    continue
                lo, ok = ONE, True
                for a, b in got:
                    if A.known(s2, c_and(c_eq(a - lo), c_ge(b - a))) is not True:
                        ok = False
                    lo = s2.store.norm(b + 1)
                ok = ok and A.known(s2, c_eq(lo - m - 1)) is True
                self.prove(ok, 'a new allocator does not have exactly the identifiers from 1 to its maximum free',
                           'free: %s, maximum %s' % (['%s..%s' % x for x in got], m))
                if ok and not self.shaped(A, s2, v):
                    raise Undecided('a new allocator is not in the form this check knows')
        self.finish(A, name)
        if not n and not A.incomplete:
            raise Undecided('%s never returns' % name)

    def walk(self, A, st, i, q):
        out = []
        for _ in range(len(q) + 1):
            if not A.decide(st, c_ge(len(q) - i - 1)):
                return 'lost'
            k = next(j for j in range(len(q)) if A.decide(st, c_eq(i - j)))
            s = self.slot(A, st, q[k].v, k)
            if not A.decide(st, s.tk):
                return out
            if A.decide(st, s.ex):
                return 'lost'
            out.append((s.a, s.b))
            i = s.n
        return 'cycle'

    def shaped(self, A, st, v):
        q = v.fs[self.franges].segs
        sl = [self.slot(A, st, e.v, const(i)) for i, e in enumerate(q)]
        start = v.fs[self.fstart]
        if not sl or start.t or any(s.tk.op != 'const' or s.n.t for s in sl):
            return False
        tk = [i for i, s in enumerate(sl) if s.tk is TRUE]
        if 0 in tk or start.c not in [0] + tk or (tk and start.c == 0):
            return False
        nexts = [sl[i].n.c for i in tk if sl[i].n.c]
        return (len(set(nexts)) == len(nexts) and start.c not in nexts and set(nexts) | {start.c} >= set(tk)
                and set(nexts) <= set(tk))

    # ------------------------------------------------------------ after a call
    def after(self, A, st, verdict, what, gone=None, come=None):
        """st: state after the call. gone: identifier that left the free set; come: one that joined"""
        ranges = self.ranges_of(A, st)
        start = A.read(st, self.self_alloc, (self.fstart,))
        nz = st.store.norm
        mods, keep = [], []
        pos = ZERO
        for g in ranges.segs:
            if isinstance(g, E):
                mods.append((nz(pos), g.v))
            elif isinstance(g, W) and g.base == self.base:
                if nz(g.off - pos) is not ZERO:
                    if A.known(st, c_eq(g.len)) is True:
                        continue
                    raise Undecided('slots move within the allocator')
                keep.append((nz(g.off), nz(g.len)))
            else:
                raise Undecided('the slots are %r' % (ranges,))
            pos = pos + seglen(g)
        length = nz(pos)
        new = [self.slot(A, st, v, p) for p, v in mods]
        # slots that are as they were
        same_ = []
        for k, (off, n) in enumerate(keep):
            j = sym(('slot', k), 0, None)
            s = st.copy()
            try:
                A.assume(s, c_ge(j - off))
                A.assume(s, c_ge(off + n - j - 1))
            except Infeasible:
                continue
            same_.append((s, j))
        ext = tuple(p for p, _ in mods)

        def now(s, i):
            """the slot at i after the call"""
            return self.slot(A, s, A.seq_get(s, A.read(s, self.self_alloc, (self.franges,)), i), s.store.norm(i))

        def each():
            """every slot after the call, known to be taken"""
            for m in new:
                s = st.copy()
                try:
                    A.assume(s, m.tk)
                except Infeasible:
                    continue
                yield s, m, True
            for s, j in same_:
                s = s.copy()
                m = self.old(A, s, j)
                try:
                    A.assume(s, m.tk)
                except Infeasible:
                    continue
                yield s, m, False

        def ensure(s, fn, msg):
            """fn(state) gives a condition that has to hold"""
            self.obligations[1] += 1
            for s2, c in forks(A, s, fn, limit=400):
                if not self.entails(A, s2, c, ext):
                    self.fail('%s: %s' % (what, msg), verdict)
                    return False
            self.obligations[0] += 1
            return True
        bad = len(self.viol)
        X = sym(('x',), 0, 65535)
        # -------- the set of free identifiers
        for s, m, changed in each():
            try:
                A.assume(s, c_and(c_ge(X - m.a), c_ge(m.b - X)))
            except Infeasible:
                continue

            def was(s2, m=m, changed=changed):
                olds = [o for i in (list(ext) if changed else [m.idx]) + self.named(A, s2) for o in [self.old(A, s2, i)]]
                c = c_or(*[c_and(c_ge(self.N - o.idx - 1), o.tk, c_ge(X - o.a), c_ge(o.b - X)) for o in olds])
                if gone is not None:
                    return c_and(c, c_ne(X - gone))
                return c_or(c, c_eq(X - come)) if come is not None else c
            ensure(s, was, 'an identifier is free afterwards that should not be')
        lost = [(st.copy(), i) for i in ext]
        i = sym(('cut',), 0, None)
        s = st.copy()
        try:
            A.assume(s, c_ge(i - length))
            A.assume(s, c_ge(self.N - i - 1))
            if not self.impossible(A, s):
                lost.append((s, i))
        except Infeasible:
            pass

        def isnow(s2):
            ns = [self.slot(A, s2, v, p) for p, v in mods]
            return c_or(*[c_and(x.tk, c_ge(X - x.a), c_ge(x.b - X)) for x in ns])
        for s, i in lost:
            o = self.old(A, s, i)
            try:
                A.assume(s, c_and(c_ge(self.N - i - 1), o.tk, c_ge(X - o.a), c_ge(o.b - X)))
                if gone is not None:
                    A.assume(s, c_ne(X - gone))
            except Infeasible:
                continue
            ensure(s, isnow, 'an identifier that was free is lost')
        if come is not None:
            s = st.copy()
            A.assume(s, c_eq(X - come))

            def there(s2):
                c = [isnow(s2)]
                for i in self.named(A, s2):
                    if any(A.known(s2, c_eq(i - p)) is not False for p in ext):
                        continue
                    if A.known(s2, c_ge(length - i - 1)) is not True:
                        continue
                    o = self.old(A, s2, i)
                    c.append(c_and(o.tk, c_ge(X - o.a), c_ge(o.b - X)))
                return c_or(*c)
            ensure(s, there, 'the identifier is not free afterwards')
        # -------- the list
        ensure(st.copy(), lambda s: c_and(c_ge(length - 1), now(s, ZERO).vac), 'the sentinel slot is taken')

        def head(s):
            if not A.decide(s, c_ge(length - start - 1)):
                return FALSE
            if A.decide(s, c_eq(start)):
                return TRUE
            return now(s, start).tk
        ensure(st.copy(), head, 'the first range is no range')
        for s, m, changed in each():
            def ordered(s2, m=m):
                c = c_and(c_not(m.ex), c_ge(m.a - 1), c_ge(m.b - m.a), c_ge(self.max - m.b))
                if not A.decide(s2, c_ge(length - m.n - 1)):
                    return FALSE
                if A.decide(s2, c_eq(m.n)):
                    return c
                x = now(s2, m.n)
                return c_and(c, x.tk, c_ge(x.a - m.b - 1))
            if not ensure(s, ordered, 'the ranges are no longer ascending'):
                break
            ensure(s, lambda s2, m=m: c_or(c_eq(m.n), c_ne(m.n - start)), 'a range precedes the first one')

            def reached(s2, m=m, changed=changed):
                if A.decide(s2, c_eq(m.idx - start)):
                    return TRUE
                cs = [c_and(x.tk, c_eq(x.n - m.idx)) for x in [self.slot(A, s2, v, p) for p, v in mods]]
                o = self.old(A, s2, m.idx)
                if A.decide(s2, c_ge(self.N - m.idx - 1)) and A.decide(s2, o.tk) and not A.decide(s2, c_eq(m.idx - self.start)):
                    q = sym(('before', m.idx), 0, None)
                    A.assume(s2, c_ge(self.N - q - 1))
                    p = self.old(A, s2, q)
                    A.assume(s2, p.tk)
                    A.assume(s2, c_eq(p.n - m.idx))
                    if A.decide(s2, c_ge(length - q - 1)):
                        x = now(s2, q)
                        cs.append(c_and(x.tk, c_eq(x.n - m.idx)))
                return c_or(*cs)
            ensure(s, reached, 'a range is cut off from the list')
            if not changed:
                for x in new:
                    s2 = s.copy()
                    try:
                        A.assume(s2, x.tk)
                    except Infeasible:
                        continue
                    ensure(s2, lambda s3, x=x, m=m: c_or(c_eq(x.n), c_ne(x.n - m.n)), 'two ranges have the same successor')
        for k, x in enumerate(new):
            for y in new[:k]:
                s = st.copy()
                try:
                    A.assume(s, c_and(x.tk, y.tk))
                except Infeasible:
                    continue
                ensure(s, lambda s3, x=x, y=y: c_or(c_eq(x.n), c_ne(x.n - y.n)), 'two ranges have the same successor')
        return len(self.viol) == bad

    def take(self):
        A, st, args = self.begin('next_id')
        n = 0
        for s, v in A.run(A.frame(None, 'c15', self.fn['next_id']), st, args):
            if self.impossible(A, s):
                continue
            for s2, r in forks(A, s, lambda x: A.expand(x, v, A.variant_idx(x, v))):
                if self.impossible(A, s2):
                    continue
                n += 1
                if not r.fs:
                    o = self.old(A, s2, self.start)
                    self.prove(self.entails(A, s2, o.vac), 'reports exhaustion while an identifier is free')
                    self.after(A, s2, 'when it reports exhaustion', 'taking an identifier')
                    self.samples.append('next_id: none, nothing free')
                    continue
                x = r.fs[0]
                olds = [self.old(A, s2, i) for i in self.named(A, s2, (x,))]
                ok = self.entails(A, s2, c_or(*[c_and(c_ge(self.N - o.idx - 1), o.tk, c_ge(x - o.a), c_ge(o.b - x)) for o in olds]), (x,))
                self.prove(ok, 'hands out an identifier that is not free', 'it returns %s' % x)
                if ok:
                    self.after(A, s2, 'when it returns %s' % x, 'taking an identifier', gone=x)
                self.samples.append('next_id: %s' % x)
        self.finish(A, 'next_id')
        if not n and not A.incomplete:
            self.undecided.append('C15: next_id never returns')

    def give(self):
        A, st, args = self.begin('return_id')
        x = args[1]
        A.assume(st, c_ge(self.max - x))
        n = 0
        for s, v in A.run(A.frame(None, 'c15', self.fn['return_id']), st, args):
            if self.impossible(A, s):
                continue
            n += 1
            self.after(A, s, 'in case %d' % n, 'returning an identifier', come=x)
            self.samples.append('return_id, case %d: %d slot(s) rewritten' % (
                n, sum(1 for g in self.ranges_of(A, s).segs if isinstance(g, E))))
        self.finish(A, 'return_id')
        if not n and not A.incomplete:
            self.undecided.append('C15: return_id never returns')

    def run(self):
        try:
            self.layout()
            self.outside()
            for f, a in ((self.construct, ('new_with_max', None)), (self.construct, ('new', 65535)), (self.take, ()), (self.give, ())):
                try:
                    f(*a)
                except Undecided as e:
                    self.undecided.append('C15: %s' % e)
                except Unsupported as e:
                    self.undecided.append('C15: %s' % e)
                except Loops as e:
                    self.prove(False, 'loops without end', str(e))
        except Undecided as e:
            self.undecided.append('C15: %s' % e)
