"""Clauses over difference constraints between integers: is there a contradiction?

The numbers of the identifier allocator (identifiers, slot indexes, whether a slot is taken) are
only ever compared with each other up to constants, so a matrix of bounds on pairwise differences
decides them exactly."""
from lin import get_atom
from vals import c_ge

INF = 1 << 58


class TooMuch(Exception):
    pass


class Problem:
    def __init__(self, A, st):
        self.A = A
        self.st = st
        self.vars = {}       # atom id -> index (0 is the constant zero)
        self.clauses = []
        self.exact = True
        self.nodes = 0
        for l in st.store.ge:
            r = self.ge(l)
            if r is not None:
                self.clauses.append([r])
        for l in st.store.ne:
            self.clause([('ne', l)])
        for a in set(st.store.lo) | set(st.store.hi):
            if a not in st.store.sub:
                self.var(a)
        for a, l in st.store.sub.items():
            # a solved number keeps the range of its kind
            lo, hi = st.store.abounds(a)
            n = st.store.norm(l)
            if lo is not None and n.t:
                r = self.ge(n - lo)
                if r is not None:
                    self.clauses.append([r])
            if hi is not None and n.t:
                r = self.ge(-n + hi)
                if r is not None:
                    self.clauses.append([r])

    def var(self, a):
        i = self.vars.get(a)
        if i is None:
            i = self.vars[a] = len(self.vars) + 1
        return i

    def ge(self, l):
        """conjunction of (u, v, c), x_u - x_v + c >= 0, for l >= 0, or None if it is no difference constraint"""
        if not l.t:
            return [] if l.c >= 0 else [self.atom(0, 0, -1)]
        if len(l.t) == 1:
            a, k = l.t[0]
            if k > 0:
                return [self.atom(self.var(a), 0, l.c // k)]
            return [self.atom(0, self.var(a), l.c // -k)]
        if len(l.t) == 2:
            (a, k), (b, m) = l.t
            if k == -m and abs(k) == 1:
                if k > 0:
                    return [self.atom(self.var(a), self.var(b), l.c)]
                return [self.atom(self.var(b), self.var(a), l.c)]
        self.exact = False
        return None

    def atom(self, u, v, c):
        return (u, v, c)

    def alts(self, c):
        """alternatives, each a conjunction of atoms"""
        if isinstance(c, tuple):
            op, x = c
        else:
            op, x = c.op, c.x
        if op == 'const':
            return [[]] if x else []
        if op == 'or':
            return [y for z in x for y in self.alts(z)]
        if op == 'and':
            r = [[]]
            for z in x:
                r = [p + q for p in r for q in self.alts(z)]
            return r
        l = self.st.store.norm(x)
        if op == 'ge':
            g = self.ge(l)
            return [[]] if g is None else [g]
        if op == 'eq':
            p, q = self.ge(l), self.ge(-l)
            return [[]] if p is None or q is None else [p + q]
        if op == 'ne':
            p, q = self.ge(l - 1), self.ge(-l - 1)
            return [[]] if p is None or q is None else [p, q]
        raise TooMuch('condition %s' % op)

    def clause(self, lits):
        r = []
        for l in lits:
            a = self.alts(l)
            for x in a:
                if not x:
                    return
                r.append(x)
        self.clauses.append(r)

    def impossible(self, budget):
        n = len(self.vars) + 1
        up = [INF] * n
        down = [INF] * n
        up[0] = down[0] = 0
        for a, i in self.vars.items():
            lo, hi = self.st.store.abounds(a)
            if hi is not None:
                up[i] = hi
            if lo is not None:
                down[i] = -lo
            if up[i] + down[i] < 0:
                return True
        # D[i][j]: the greatest x_i - x_j
        D = [[up[i] + down[j] for j in range(n)] for i in range(n)]
        for i in range(n):
            D[i][i] = 0
        self.budget = budget
        return self.search(D, self.clauses)

    def search(self, D, cl):
        self.nodes += 1
        self.budget -= 1
        if self.budget < 0:
            raise TooMuch('cases')
        while True:
            left = []
            unit = []
            for c in cl:
                open_ = []
                for conj in c:
                    o = []
                    for u, v, k in conj:
                        if D[v][u] <= k:
                            continue
                        if D[u][v] + k < 0:
                            o = None
                            break
                        o.append((u, v, k))
                    if o is None:
                        continue
                    if not o:
                        open_ = None
                        break
                    open_.append(o)
                if open_ is None:
                    continue
                if not open_:
                    return True
                if len(open_) == 1:
                    unit += open_[0]
                else:
                    left.append(open_)
            cl = left
            if not unit:
                break
            for a in unit:
                D = self.add(D, a)
                if D is None:
                    return True
        if not cl:
            return False
        c = min(cl, key=len)
        rest = [x for x in cl if x is not c]
        for conj in c:
            E = D
            for a in conj:
                E = self.add(E, a)
                if E is None:
                    break
            if E is None:
                continue
            if not self.search(E, rest):
                return False
        return True

    def add(self, D, a):
        u, v, c = a                     # x_v - x_u <= c
        if D[v][u] <= c:
            return D
        Du = D[u]
        if Du[v] + c < 0:
            return None
        E = []
        for row in D:
            k = row[v] + c
            if k < row[u]:
                row = [x if x <= k + y else k + y for x, y in zip(row, Du)]
            E.append(row)
        return E
