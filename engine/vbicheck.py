"""C03: variable byte integers, decoded and encoded, against the MQTT 5 definition."""
from lin import *
from vals import *
from interp import Analyzer, State, Split, Dead, Unsupported
import models
import contracts
import mqtt
from spec import *
from decodecheck import Violation, describe

MAXVBI = contracts.MAXVBI


class VbiCheck:
    def __init__(self, P):
        self.P = P
        self.viol, self.undecided = [], []
        self.oblig = {}
        self.analysed = []
        self.loops = 0

    def count(self, p, okk):
        x = self.oblig.setdefault(p, [0, 0])
        x[1] += 1
        x[0] += 1 if okk else 0

    def bad(self, msg, st, where, prop='C03', key=None):
        self.viol.append(Violation(prop, where, msg, describe(st) if st is not None else '', key))

    def start(self, key):
        A = Analyzer(self.P, models)
        b = self.P.bodies[key]
        fr = A.frame(None, None, key)
        st = State()
        args = [A.sym_value(('a%d' % i,), b['locals'][i + 1]) for i in range(b['args'])]
        where = '%s (%s)' % (b['path'], b['span'])
        self.analysed.append(where)
        return A, fr, st, args, where

    def finish(self, A, where):
        for p in A.panics:
            self.count('C03', False)
            self.viol.append(Violation('C01', '%s (%s)' % (p.fn, p.site), 'can panic: %s in %s' % (p.kind, p.fn),
                                       describe(p.state), p.key()))
            self.viol.append(Violation('C03', '%s (%s)' % (p.fn, p.site), 'can panic: %s in %s' % (p.kind, p.fn),
                                       describe(p.state), p.key()))
        x = self.oblig.setdefault('C01', [0, 0])
        x[0] += A.stats['asserts'] - len(A.panics)
        x[1] += A.stats['asserts']
        for l in A.looplist.values():
            self.loops += 1
            self.count('C01', l.ranking is not None)
            if l.ranking is None:
                self.bad('loop without progress', None, where, 'C01')

    def run(self):
        r = contracts.find_root(self.P, 'FromMqttBytes', 'convert_from_mqtt', 'VBI')
        if r is None or r['key'] not in self.P.bodies:
            self.undecided.append('C03: no decoder for variable byte integers found')
        else:
            try:
                self.decode(r['key'])
            except (Undecided, Unsupported) as e:
                self.undecided.append('C03: %s' % e)
        r = contracts.find_root(self.P, 'ToMqttBytes', 'convert_to_mqtt', 'VBI')
        if r is None or r['key'] not in self.P.bodies:
            self.undecided.append('C03: no encoder for variable byte integers found')
        else:
            try:
                self.encode(r['key'])
            except (Undecided, Unsupported) as e:
                self.undecided.append('C03: %s' % e)

    def value(self, v):
        while isinstance(v, Agg) and len(v.fs) == 1:
            v = v.fs[0]
        if not isinstance(v, Lin):
            raise Undecided('value %r' % (v,))
        return v

    def decode(self, key):
        A, fr, st, args, where = self.start(key)
        rs = A.run(fr, st, args)
        base = ('a0', '*')
        L = A.len_sym(base)

        def judge(st, v):
            R_ = R(A, st, base, False)
            x = R_.vbi(ZERO, L)
            v = A.expand(st, v, A.variant_idx(st, v))
            nm_ = vname(A, v)
            if nm_ == 'Ok':
                t = v.fs[0]
                if not isinstance(t, Agg) or len(t.fs) != 2:
                    raise Undecided('result %r' % (t,))
                val, n = self.value(t.fs[0]), self.value(t.fs[1])
                if isinstance(x, str):
                    return 'accepts an integer that %s' % ('is cut off' if x == 'short' else 'runs past four bytes')
                if not R_.eq(n - x[0]):
                    return 'reports %s bytes used instead of %s' % (R_.n(n), x[0])
                if not R_.eq(val - x[1]):
                    return 'yields %s for the %s-byte integer %s' % (R_.n(val), x[0], R_.n(x[1]))
                return None
            if nm_ == 'Err':
                e = v.fs[0]
                e = A.expand(st, e, A.variant_idx(st, e)) if isinstance(e, (Agg, SymV)) else e
                if not isinstance(e, Agg):
                    raise Undecided('error %r' % (e,))
                more = nz(vname(A, e)) in ('notenoughbytes', 'incomplete', 'needmore', 'needmorebytes', 'moredata',
                                           'unexpectedeof', 'eof', 'insufficientbytes', 'tooshort')
                if not isinstance(x, str):
                    return 'rejects a complete %s-byte integer' % x[0]
                if x == 'short':
                    cont4 = R_.ge(L - 4)
                    if not more and not cont4:
                        return 'an integer that is cut off is rejected instead of asking for more bytes'
                    return None
                if more:
                    return 'asks for more bytes although the integer already runs past four bytes'
                return None
            raise Undecided('result %r' % (v,))
        for s, v in rs:
            for st2, m in forks(A, s, lambda st: judge(st, v)):
                if m and not st2.store.feasible():
                    continue
                self.count('C03', not m)
                if m:
                    self.bad('decode %s' % m, st2, where)
        self.finish(A, where)

    def encode(self, key):
        A, fr, st, args, where = self.start(key)
        v0 = models.deref(A, st, args[0])
        n = self.value(v0)
        A.assume(st, c_ge(-n + MAXVBI))
        rs = A.run(fr, st, args)

        def judge(st, out):
            if isinstance(out, Agg) and out.var is not None and A.P.types[out.ty]['kind'] == 'enum':
                if vname(A, out) != 'Ok':
                    return 'refuses a value that can be encoded'
                out = out.fs[0]
            while isinstance(out, Agg) and len(out.fs) == 1:
                out = out.fs[0]
            if isinstance(out, Ptr):
                out = models.deref(A, st, out)
            if not isinstance(out, Seq):
                raise Undecided('output %r' % (out,))
            k = 1
            for i in (1, 2, 3):
                if A.decide(st, c_ge(n - (1 << (7 * i)))):
                    k = i + 1
                else:
                    break
            have = [s for s in out.segs]
            if not all(isinstance(s, E) for s in have):
                raise Undecided('output %r' % (out,))
            if len(have) != k:
                return 'writes %d bytes where %d are minimal' % (len(have), k)
            for i, s in enumerate(have):
                want = mod(div(st.store.norm(n), 1 << (7 * i), st.store.bounds), 128, st.store.bounds)
                if i < k - 1:
                    want = want + 128
                if not A.decide(st, c_eq(s.v - want)):
                    return 'byte %d of %d is wrong' % (i + 1, k)
            return None
        for s, v in rs:
            for st2, m in forks(A, s, lambda st: judge(st, v)):
                if m and not st2.store.feasible():
                    continue
                self.count('C03', not m)
                if m:
                    self.bad('encode %s' % m, st2, where)
        self.finish(A, where)


if __name__ == '__main__':
    from interp import Program
    import time
    t = time.time()
    V = VbiCheck(Program('/verif/.work/dump.json'))
    V.run()
    print(time.time() - t, V.oblig, V.undecided)
    for v in V.viol:
        print(v.prop, v.what, v.where, v.detail[:300])
