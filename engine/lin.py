"""Linear integer expressions over hash-consed atoms, and a polyhedral constraint store.

The store is the numeric abstract domain: conjunctions of linear (in)equalities and
disequalities.  Entailment is decided by an exact rational simplex over the connected
component of the query (sound: 'entailed' is only answered when the negation is infeasible
over the rationals, hence over the integers)."""
from fractions import Fraction
from math import gcd

# ---------------------------------------------------------------- atoms
_ATOMS = []          # id -> Atom
_BYKEY = {}


class Atom:
    __slots__ = ('id', 'kind', 'key', 'lo', 'hi')

    def __repr__(self):
        return atom_str(self.id)


def atom(kind, key, lo=None, hi=None):
    k = (kind, key)
    a = _BYKEY.get(k)
    if a is None:
        a = Atom()
        a.id = len(_ATOMS)
        a.kind = kind
        a.key = key
        a.lo = lo
        a.hi = hi
        _ATOMS.append(a)
        _BYKEY[k] = a
    elif (lo, hi) != (a.lo, a.hi) and lo is not None and a.lo is not None:
        raise RuntimeError('symbol %s with two ranges' % (key,))
    return a


def get_atom(i):
    return _ATOMS[i]


_STR = {}


def atom_str(i):
    r = _STR.get(i)
    if r is None:
        r = atom_str_(i)
        if len(r) > 240:
            r = '%s..#%d' % (r[:200], i)
        _STR[i] = r
    return r


def atom_str_(i):
    a = _ATOMS[i]
    if a.kind == 'byte':
        return '%s[%s]' % (name_str(a.key[0]), a.key[1])
    if a.kind == 'div':
        return '(%s)/%d' % (a.key[0], a.key[1])
    return '%s' % name_str((a.kind,) + (a.key if isinstance(a.key, tuple) else (a.key,)))


def name_str(n):
    if isinstance(n, tuple):
        return '.'.join(name_str(x) for x in n)
    return str(n)


class Lin:
    """c + sum coef*atom; immutable, interned"""
    __slots__ = ('c', 't', 'h', '_n')
    _tab = {}

    def __new__(cls, c, t):
        k = (c, t)
        r = Lin._tab.get(k)
        if r is None:
            r = object.__new__(cls)
            r.c = c
            r.t = t
            r.h = hash(k)
            Lin._tab[k] = r
        return r

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def is_const(self):
        return not self.t

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t) if o else self
        if not o.t:
            return Lin(self.c + o.c, self.t)
        if not self.t:
            return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for a, k in o.t:
            v = d.get(a, 0) + k
            if v:
                d[a] = v
            else:
                del d[a]
        return Lin(self.c + o.c, tuple(sorted(d.items())))
    __radd__ = __add__

    def __neg__(self):
        return Lin(-self.c, tuple((a, -k) for a, k in self.t))

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t) if o else self
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, k):
        if k == 0:
            return ZERO
        if k == 1:
            return self
        return Lin(self.c * k, tuple((a, c * k) for a, c in self.t))
    __rmul__ = __mul__

    def __repr__(self):
        if not self.t:
            return str(self.c)
        r = []
        for a, k in self.t:
            s = atom_str(a)
            if k == 1:
                r.append('+' + s)
            elif k == -1:
                r.append('-' + s)
            else:
                r.append('%+d*%s' % (k, s))
        if self.c:
            r.append('%+d' % self.c)
        s = ''.join(r)
        return s[1:] if s[0] == '+' else s


def const(n):
    return Lin(n, ())


ZERO = Lin(0, ())
ONE = Lin(1, ())


def var(a):
    return Lin(0, ((a.id, 1),))


def sym(key, lo=None, hi=None):
    return var(atom('s', key, lo, hi))


def byte(base, off):
    return var(atom('byte', (base, off), 0, 255))


def lin_utf8(parts):
    """1 when the bytes of the parts -- ('w', base, off, len), ('e', byte), ('o', other) -- are valid UTF-8"""
    parts = tuple(p for p in parts if not (p[0] == 'w' and p[3] == ZERO))
    if all(p[0] == 'e' and isinstance(p[1], Lin) and not p[1].t for p in parts):
        try:
            bytes(p[1].c for p in parts).decode('utf8')
            return ONE
        except UnicodeDecodeError:
            return ZERO
    return var(atom('utf8', parts, 0, 1))


def bounds0(l):
    """interval from atom bounds only"""
    lo = hi = l.c
    for a, k in l.t:
        at = _ATOMS[a]
        x, y = (at.lo, at.hi) if k > 0 else (at.hi, at.lo)
        lo = None if lo is None or x is None else lo + k * x
        hi = None if hi is None or y is None else hi + k * y
    return lo, hi


def div(l, k, bounds=bounds0):
    """floor division by a positive constant, canonicalised"""
    if k == 1:
        return l
    if not l.t:
        return const(l.c // k)
    # split off multiples of k
    q = {}
    r = {}
    for a, c in l.t:
        m = c // k
        rest = c - m * k
        if rest and abs(c) < k:
            m, rest = 0, c
        if m:
            q[a] = m
        if rest:
            r[a] = rest
    qc = l.c // k
    rc = l.c - qc * k
    ql = Lin(qc, tuple(sorted(q.items())))
    rl = Lin(rc, tuple(sorted(r.items())))
    if not rl.t:
        return ql + (rl.c // k)
    lo, hi = bounds(rl)
    if lo is not None and hi is not None and lo // k == hi // k:
        return ql + (lo // k)
    # common factor: floor((g*x + c)/(g*m)) = floor((x + floor(c/g))/m)
    g = k
    for _, c in rl.t:
        g = gcd(g, c)
    if g > 1:
        rl = Lin(rl.c // g, tuple((a, c // g) for a, c in rl.t))
        k //= g
        if k == 1:
            return ql + rl
    if len(rl.t) == 1 and rl.t[0][1] == 1 and rl.c == 0:
        at = _ATOMS[rl.t[0][0]]
        if at.kind == 'div':
            return ql + div(at.key[0], at.key[1] * k, bounds)
    lo, hi = bounds0(rl)
    a = atom('div', (rl, k), None if lo is None else lo // k, None if hi is None else hi // k)
    return ql + var(a)


def mod(l, k, bounds=bounds0):
    return l - div(l, k, bounds) * k


def mapped(l, table):
    """finite table lookup: table is a sorted tuple of (in, out) pairs; l is known to be one of the ins"""
    if not l.t:
        for i, o in table:
            if i == l.c:
                return const(o)
        return var(atom('map', (l, table), table[0][1], table[0][1]))
    d = set(o - i for i, o in table)
    if len(d) == 1:
        return l + d.pop()
    outs = [o for _, o in table]
    return var(atom('map', (l, table), min(outs), max(outs)))


def band(l, m, bits, bounds=bounds0):
    """l & m for non-negative l and constant m"""
    if m == 0:
        return ZERO
    if not l.t:
        return const(l.c & m)
    r = ZERO
    i = 0
    while m >> i:
        if (m >> i) & 1:
            j = i
            while (m >> j) & 1:
                j += 1
            # bits i..j-1
            x = div(l, 1 << i, bounds)
            if j < bits:
                x = x - div(l, 1 << j, bounds) * (1 << (j - i))
            r = r + x * (1 << i)
            i = j
        else:
            i += 1
    return r


# ---------------------------------------------------------------- exact LP feasibility
def lp_infeasible(rows, lows, ups, limit=400):
    """rows: list of (coefs dict var->int, c) meaning sum + c >= 0; lows/ups: var bounds or None.
    True iff the system has no rational solution (proved)."""
    # general simplex (Dutertre/de Moura): slack per row with lower bound -c
    lo = dict(lows)
    up = dict(ups)
    val = {}
    basic = {}
    names = set()
    for co, c in rows:
        names.update(co)
    for v in names:
        l, u = lo.get(v), up.get(v)
        if l is not None and u is not None and l > u:
            return True
        val[v] = Fraction(l if l is not None else (u if u is not None else 0))
    n = 0
    for co, c in rows:
        sname = ('S', n)
        n += 1
        basic[sname] = {v: Fraction(k) for v, k in co.items()}
        lo[sname] = -c
        up[sname] = None
        val[sname] = sum((k * val[v] for v, k in co.items()), Fraction(0))
    order = {v: i for i, v in enumerate(sorted(names, key=str))}
    for i in range(n):
        order[('S', i)] = len(order)
    it = 0
    while True:
        it += 1
        if it > limit:
            return False
        bad = None
        for b in sorted(basic, key=lambda v: order[v]):
            l, u = lo.get(b), up.get(b)
            if l is not None and val[b] < l:
                bad = (b, l, 1)
                break
            if u is not None and val[b] > u:
                bad = (b, u, -1)
                break
        if bad is None:
            return False
        b, target, sgn = bad
        row = basic[b]
        piv = None
        for v in sorted(row, key=lambda v: order[v]):
            k = row[v] * sgn
            if k > 0 and (up.get(v) is None or val[v] < up[v]):
                piv = v
                break
            if k < 0 and (lo.get(v) is None or val[v] > lo[v]):
                piv = v
                break
        if piv is None:
            return True
        a = row[piv]
        theta = (target - val[b]) / a
        val[b] = Fraction(target)
        val[piv] += theta
        for b2, r2 in basic.items():
            if b2 != b and piv in r2:
                val[b2] += r2[piv] * theta
        # pivot: piv = (b - sum others)/a
        del basic[b]
        new = {b: 1 / a}
        for v, k in row.items():
            if v != piv:
                new[v] = -k / a
        for b2, r2 in basic.items():
            k = r2.pop(piv, None)
            if k:
                for v, kk in new.items():
                    x = r2.get(v, 0) + k * kk
                    if x:
                        r2[v] = x
                    elif v in r2:
                        del r2[v]
        basic[piv] = new


class Infeasible(Exception):
    pass


class Store:
    """conjunction of linear constraints; persistent via copy()"""
    __slots__ = ('sub', 'ge', 'ne', 'lo', 'hi', 'key', '_cache')

    def __init__(self):
        self.sub = {}      # atom id -> Lin   (solved equalities)
        self.ge = frozenset()   # Lin >= 0, multi-variable
        self.ne = frozenset()   # Lin != 0
        self.lo = {}       # atom id -> int
        self.hi = {}
        self._cache = {}

    def copy(self):
        s = Store.__new__(Store)
        s.sub = self.sub
        s.ge = self.ge
        s.ne = self.ne
        s.lo = self.lo
        s.hi = self.hi
        s._cache = self._cache
        return s

    def ident(self):
        return (frozenset(self.sub.items()), self.ge, self.ne, frozenset(self.lo.items()), frozenset(self.hi.items()))

    # ---- normalisation
    def norm(self, l):
        if not l.t:
            return l
        sub = self.sub
        if not sub:
            return l
        ck = ('n', l)
        r = self._cache.get(ck)
        if r is not None:
            return r
        cur = l
        for _ in range(50):
            out = None
            for a, k in cur.t:
                s = sub.get(a)
                if s is None:
                    at = _ATOMS[a]
                    if at.kind == 'byte':
                        o = self.norm(at.key[1])
                        if o is not at.key[1]:
                            s = byte(at.key[0], o)
                    elif at.kind == 'div':
                        o = self.norm(at.key[0])
                        if o is not at.key[0]:
                            s = div(o, at.key[1], self.bounds)
                    elif at.kind == 'map':
                        o = self.norm(at.key[0])
                        if o is not at.key[0]:
                            s = mapped(o, at.key[1])
                    elif at.kind == 'utf8':
                        key = tuple(tuple(self.norm(y) if isinstance(y, Lin) else y for y in x) for x in at.key)
                        if key != at.key:
                            s = lin_utf8(key)
                if s is not None:
                    if out is None:
                        out = cur
                    out = out + (s - var(_ATOMS[a])) * k
            if out is None or out is cur:
                break
            cur = out
        self._cache[ck] = cur
        return cur

    def abounds(self, a):
        at = _ATOMS[a]
        lo = self.lo.get(a)
        hi = self.hi.get(a)
        if lo is None or (at.lo is not None and at.lo > lo):
            lo = at.lo
        if hi is None or (at.hi is not None and at.hi < hi):
            hi = at.hi
        if at.kind == 'map':
            l2, h2 = self.bounds(at.key[0])
            outs = [o for i, o in at.key[1] if (l2 is None or i >= l2) and (h2 is None or i <= h2)]
            if outs:
                if lo is None or min(outs) > lo:
                    lo = min(outs)
                if hi is None or max(outs) < hi:
                    hi = max(outs)
        if at.kind == 'div' and (lo is None or hi is None or a not in self.lo):
            l2, h2 = self.bounds(at.key[0])
            if l2 is not None:
                l2 = l2 // at.key[1]
                if lo is None or l2 > lo:
                    lo = l2
            if h2 is not None:
                h2 = h2 // at.key[1]
                if hi is None or h2 < hi:
                    hi = h2
        return lo, hi

    def bounds(self, l):
        lo = hi = l.c
        for a, k in l.t:
            x, y = self.abounds(a)
            if k < 0:
                x, y = y, x
            lo = None if lo is None or x is None else lo + k * x
            hi = None if hi is None or y is None else hi + k * y
        return lo, hi

    # ---- assuming
    def assume_ge(self, l):
        """l >= 0"""
        l = self.norm(l)
        if not l.t:
            if l.c < 0:
                raise Infeasible()
            return
        g = 0
        for _, k in l.t:
            g = gcd(g, k)
        if g > 1:
            l = Lin(l.c // g, tuple((a, k // g) for a, k in l.t))
        lo, hi = self.bounds(l)
        if hi is not None and hi < 0:
            raise Infeasible()
        if lo is not None and lo >= 0:
            return
        if -l in self.ge:
            self.assume_eq(l)
            return
        self._cache = {}
        if len(l.t) == 1:
            a, k = l.t[0]
            if k > 0:      # a >= ceil(-c/k)
                v = -(l.c // k)
                self.lo = dict(self.lo)
                self.lo[a] = v
            else:          # a <= floor(c/-k)
                v = l.c // (-k)
                self.hi = dict(self.hi)
                self.hi[a] = v
            lo, hi = self.abounds(a)
            if lo is not None and hi is not None:
                if lo > hi:
                    raise Infeasible()
                if lo == hi:
                    self.assume_eq(var(_ATOMS[a]) - lo)
                    return
            self._renorm_ne()
            at = _ATOMS[a]
            if at.kind == 'map' and a not in self.sub:
                for i, o in at.key[1]:
                    if k * o + l.c < 0:
                        self.assume_ne(at.key[0] - i)
            elif at.kind == 'div' and a not in self.sub:
                x, d = at.key
                if k > 0:
                    self.assume_ge(x - v * d)
                else:
                    self.assume_ge(-x + (v * d + d - 1))
            return
        if hi is not None:
            # atoms that cannot leave their extreme value
            fix = []
            for a, k in l.t:
                if hi // abs(k) == 0:
                    x, y = self.abounds(a)
                    fix.append((a, y if k > 0 else x))
            if fix:
                for a, v in fix:
                    self.assume_eq(var(_ATOMS[a]) - v)
                self.assume_ge(l)
                return
        self.ge = self.ge | {l}
        self._renorm_ne()

    def _renorm_ne(self):
        todo = []
        for l in self.ne:
            lo, hi = self.bounds(l)
            if (lo is not None and lo >= 0) or (hi is not None and hi <= 0):
                todo.append(l)
        for l in todo:
            if l in self.ne:
                self.ne = self.ne - {l}
                self._cache = {}
                lo, hi = self.bounds(l)
                if lo is not None and lo > 0 or hi is not None and hi < 0:
                    continue
                if lo is not None and lo >= 0:
                    self.assume_ge(l - 1)
                else:
                    self.assume_ge(-l - 1)

    def assume_eq(self, l):
        l = self.norm(l)
        if not l.t:
            if l.c:
                raise Infeasible()
            return
        lo, hi = self.bounds(l)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            raise Infeasible()
        g = 0
        for _, k in l.t:
            g = gcd(g, k)
        if l.c % g:
            raise Infeasible()
        if g > 1:
            l = Lin(l.c // g, tuple((a, k // g) for a, k in l.t))
        # pick an atom with unit coefficient; prefer plain symbols, latest first
        best = None
        for a, k in l.t:
            if abs(k) == 1:
                at = _ATOMS[a]
                r = ({'phi': 0}.get(at.kind, 1 if at.kind == 's' else 2 if at.kind != 'div' else 3), -a)
                # avoid a self reference through div/byte atoms
                if any(_mentions(x, a) for x, _ in l.t if x != a):
                    continue
                if best is None or r < best[0]:
                    best = (r, a, k)
        if best is None:
            self.ge = self.ge | {l, -l}
            self._cache = {}
            return
        _, a, k = best
        rhs = (var(_ATOMS[a]) * k - l) * k       # a = ...
        blo, bhi = self.abounds(a)
        self.sub = dict(self.sub)
        self.sub[a] = rhs
        self._cache = {}
        redo = [(x, e) for x, e in self.sub.items() if x != a and _mentions(x, a)]
        for x, _ in redo:
            del self.sub[x]
        for x, e in list(self.sub.items()):
            n = self.norm(e)
            if n is not e:
                self.sub[x] = n
        self._cache = {}
        oldge, oldne = self.ge, self.ne
        keep = frozenset(x for x in oldge if not _lin_mentions(x, a))
        self.ge = keep
        # bounds of atoms that mention a (div/byte) become constraints on their new form
        mv = [x for x in set(self.lo) | set(self.hi) if x == a or _mentions(x, a)]
        lo0, hi0 = self.lo, self.hi
        if mv:
            self.lo = {x: v for x, v in self.lo.items() if x not in mv}
            self.hi = {x: v for x, v in self.hi.items() if x not in mv}
        for x in mv:
            if x == a:
                continue
            n = self.norm(var(_ATOMS[x]))
            if x in lo0:
                self.assume_ge(n - lo0[x])
            if x in hi0:
                self.assume_ge(-n + hi0[x])
        for x, e in redo:
            self.assume_eq(var(_ATOMS[x]) - e)
        if blo is not None:
            self.assume_ge(rhs - blo)
        if bhi is not None:
            self.assume_ge(-rhs + bhi)
        for x in oldge - keep:
            self.assume_ge(x)
        ne = set()
        for x in oldne:
            n = self.norm(x)
            if not n.t:
                if n.c == 0:
                    raise Infeasible()
                continue
            ne.add(_canon_ne(n))
        self.ne = frozenset(ne)
        self._cache = {}
        self._renorm_ne()
        at = _ATOMS[a]
        if at.kind == 'div':
            x, k = at.key
            r = self.norm(rhs)
            self.assume_ge(x - r * k)
            self.assume_ge(r * k + (k - 1) - x)
        self._maps(a)

    def _maps(self, a):
        at = _ATOMS[a]
        if at.kind == 'map':
            v = self.norm(var(at))
            if not v.t:
                ins = [i for i, o in at.key[1] if o == v.c]
                if not ins:
                    raise Infeasible()
                if len(ins) == 1:
                    self.assume_eq(at.key[0] - ins[0])

    def assume_ne(self, l):
        l = self.norm(l)
        if not l.t:
            if l.c == 0:
                raise Infeasible()
            return
        lo, hi = self.bounds(l)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return
        l = _canon_ne(l)
        if self.entails_ge(l):
            self.assume_ge(l - 1)
        elif self.entails_ge(-l):
            self.assume_ge(-l - 1)
        else:
            self.ne = self.ne | {l}
            self._cache = {}
            if len(l.t) == 1:
                at = _ATOMS[l.t[0][0]]
                if at.kind == 'map':
                    for i, o in at.key[1]:
                        if l.t[0][1] * o + l.c == 0:
                            self.assume_ne(at.key[0] - i)
            if len(l.t) == 1 and abs(l.t[0][1]) == 1 and l.t[0][0] not in self.sub:
                # exhausted finite domains
                a = l.t[0][0]
                lo, hi = self.abounds(a)
                if lo is not None and hi is not None and hi - lo < 300:
                    ex = set()
                    for x in self.ne:
                        if len(x.t) == 1 and x.t[0][0] == a:
                            k = x.t[0][1]
                            if x.c % k == 0:
                                ex.add(-x.c // k)
                    vals = [v for v in range(lo, hi + 1) if v not in ex]
                    if not vals:
                        raise Infeasible()
                    if vals[0] > lo:
                        self.assume_ge(var(_ATOMS[a]) - vals[0])
                    if vals[-1] < hi:
                        self.assume_ge(-var(_ATOMS[a]) + vals[-1])

    # ---- queries
    def entails_ge(self, l):
        l = self.norm(l)
        if not l.t:
            return l.c >= 0
        g = 0
        for _, k in l.t:
            g = gcd(g, k)
        if g > 1:
            l = Lin(l.c // g, tuple((a, k // g) for a, k in l.t))
        lo, hi = self.bounds(l)
        if lo is not None and lo >= 0:
            return True
        if hi is not None and hi < 0:
            return False
        k = ('ge', l)
        r = self._cache.get(k)
        if r is None:
            r = self._lp(l)
            self._cache[k] = r
        return r

    def _lp(self, l):
        la = set(a for a, _ in l.t)
        for g in self.ge:
            for a, _ in g.t:
                if a in la:
                    break
            else:
                continue
            d = l - g
            if not d.t:
                if d.c >= 0:
                    return True
            else:
                lo, _ = self.bounds(d)
                if lo is not None and lo >= 0:
                    return True
        rows, lows, ups = self._component(l)
        neg = -l - 1
        rows.append((dict(neg.t), neg.c))
        return lp_infeasible(rows, lows, ups)

    def _component(self, l):
        seen = set(a for a, _ in l.t)
        work = list(seen)
        rows = []
        used = set()
        idx = {}
        for g in self.ge:
            for a, _ in g.t:
                idx.setdefault(a, []).append(g)
        while work:
            a = work.pop()
            at = _ATOMS[a]
            ex = list(idx.get(a, ()))
            if at.kind == 'div':
                x, k = at.key
                x = self.norm(x)
                ex.append(x - var(at) * k)
                ex.append(var(at) * k + (k - 1) - x)
            for g in ex:
                if g in used:
                    continue
                used.add(g)
                rows.append((dict(g.t), g.c))
                for b, _ in g.t:
                    if b not in seen:
                        seen.add(b)
                        work.append(b)
        # div atoms over atoms already seen
        lows, ups = {}, {}
        for a in seen:
            lo, hi = self.abounds(a)
            if lo is not None:
                lows[a] = lo
            if hi is not None:
                ups[a] = hi
        return rows, lows, ups

    def entails_eq(self, l):
        l = self.norm(l)
        if not l.t:
            return l.c == 0
        return self.entails_ge(l) and self.entails_ge(-l)

    def entails_ne(self, l):
        l = self.norm(l)
        if not l.t:
            return l.c != 0
        if _canon_ne(l) in self.ne:
            return True
        if self.entails_ge(l - 1) or self.entails_ge(-l - 1):
            return True
        g = 0
        for _, k in l.t:
            g = gcd(g, k)
        if g > 1 and l.c % g:
            return True
        return False

    def feasible(self, light=False):
        """False only if a contradiction is provable"""
        done = set()
        for g in self.ge:
            if g.t and g.t[0][0] in done:
                continue
            rows, lows, ups = self._component(g)
            for co, _ in rows:
                done.update(co)
            if lp_infeasible(rows, lows, ups):
                return False
        if light:
            return True
        for l in self.ne:
            if self.entails_eq(l):
                return False
        return True


_MEN = {}


def _mentions(x, a):
    """does atom x structurally mention atom a (inside div/byte keys)"""
    return a in atom_deps(x)


def atom_deps(x):
    r = _MEN.get(x)
    if r is None:
        at = _ATOMS[x]
        s = {x}
        if at.kind in ('div',):
            for b, _ in at.key[0].t:
                s |= atom_deps(b)
        elif at.kind == 'byte':
            for b, _ in at.key[1].t:
                s |= atom_deps(b)
            s |= key_deps(at.key[0])
        else:
            s |= key_deps(at.key)
        r = frozenset(s)
        _MEN[x] = r
    return r


def key_deps(k):
    s = set()
    if isinstance(k, Lin):
        for b, _ in k.t:
            s |= atom_deps(b)
    elif isinstance(k, tuple):
        for y in k:
            s |= key_deps(y)
    return s


def lin_deps(l):
    s = set()
    for a, _ in l.t:
        s |= atom_deps(a)
    return s


def _lin_mentions(l, a):
    return any(a in atom_deps(x) for x, _ in l.t)


def _canon_ne(l):
    if l.t and l.t[0][1] < 0:
        return -l
    return l
