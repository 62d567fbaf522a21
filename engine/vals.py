"""Interned abstract values."""
from lin import Lin, const, sym, byte, ZERO, ONE, var, atom, key_deps, lin_deps


class Val:
    __slots__ = ('h', '_deps')
    F = ()

    def __init__(self):
        pass

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def args(self):
        return tuple(getattr(self, f) for f in self.F)


def _mk(name, fields):
    tab = {}

    def __new__(cls, *a):
        r = tab.get(a)
        if r is None:
            r = object.__new__(cls)
            for f, v in zip(fields, a):
                setattr(r, f, v)
            r.h = hash((name, a))
            r._deps = None
            tab[a] = r
        return r
    return type(name, (Val,), {'__slots__': fields, '__new__': __new__, 'F': fields,
                               '__init__': lambda self, *a: None})


Agg = _mk('Agg', ('ty', 'var', 'fs'))          # struct/enum variant/tuple/closure
Seq = _mk('Seq', ('ety', 'segs'))              # array, vec, string, byte buffer, deque
Ptr = _mk('Ptr', ('alloc', 'path', 'meta'))    # reference/box; meta None | (off,len) | ('dyn',ty)
SymV = _mk('SymV', ('name', 'ty'))             # unknown enum value
It = _mk('It', ('kind', 'seq', 'pos', 'end'))  # slice iterator: seq is a Ptr ('ref') or Seq ('own')
Opq = _mk('Opq', ('tag', 'xs'))                # opaque token with arguments
Cond = _mk('Cond', ('op', 'x'))                # boolean
Fn = _mk('Fn', ('ty',))                        # function item
# segments of a Seq
E = _mk('E', ('v',))                           # one element
W = _mk('W', ('base', 'off', 'len'))           # elements base[off..off+len]
S = _mk('S', ('star', 'len'))                  # what a summarised loop appended
X = _mk('X', ('tag', 'len', 'info'))           # unknown content


def _repr(self):
    n = type(self).__name__
    if n == 'Agg':
        return 'Agg<%s>#%s%r' % (self.ty, self.var, self.fs)
    if n == 'E':
        return 'E(%r)' % (self.v,)
    if n == 'W':
        return '%s[%s;%s]' % (nm(self.base), self.off, self.len)
    if n == 'Cond':
        return '(%s %r)' % (self.op, self.x)
    if n == 'SymV':
        return '?%s:%s' % (nm(self.name), self.ty)
    return '%s%r' % (n, self.args())


def nm(x):
    if isinstance(x, tuple):
        return '.'.join(nm(y) for y in x)
    return str(x)


Val.__repr__ = _repr

TRUE = Cond('const', True)
FALSE = Cond('const', False)
NOISE = Cond('noise', None)


def c_ge(l):
    if not l.t:
        return TRUE if l.c >= 0 else FALSE
    return Cond('ge', l)


def c_eq(l):
    if not l.t:
        return TRUE if l.c == 0 else FALSE
    if l.t[0][1] < 0:
        l = -l
    return Cond('eq', l)


def c_ne(l):
    if not l.t:
        return TRUE if l.c != 0 else FALSE
    if l.t[0][1] < 0:
        l = -l
    return Cond('ne', l)


def c_not(c):
    o = c.op
    if o == 'const':
        return FALSE if c.x else TRUE
    if o == 'ge':
        return c_ge(-c.x - 1)
    if o == 'eq':
        return Cond('ne', c.x)
    if o == 'ne':
        return Cond('eq', c.x)
    if o == 'and':
        return c_or(*[c_not(x) for x in c.x])
    if o == 'or':
        return c_and(*[c_not(x) for x in c.x])
    if o == 'noise':
        return c
    raise ValueError(o)


def c_and(*xs):
    r = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x.op == 'and':
            r.extend(x.x)
        else:
            r.append(x)
    if not r:
        return TRUE
    if len(r) == 1:
        return r[0]
    return Cond('and', tuple(r))


def c_or(*xs):
    r = []
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        if x.op == 'or':
            r.extend(x.x)
        else:
            r.append(x)
    if not r:
        return FALSE
    if len(r) == 1:
        return r[0]
    return Cond('or', tuple(r))


def seglen(s):
    return ONE if isinstance(s, E) else s.len


def seqlen(q):
    r = ZERO
    for s in q.segs:
        r = r + seglen(s)
    return r


def deps(v):
    """atom ids a value depends on"""
    if isinstance(v, Lin):
        return lin_deps(v)
    if isinstance(v, Val):
        if v._deps is None:
            s = set()
            for x in v.args():
                s |= deps(x)
            v._deps = frozenset(s)
        return v._deps
    if isinstance(v, tuple):
        s = set()
        for x in v:
            s |= deps(x)
        return s
    return frozenset()


def rebuild(v, f):
    """apply f to every Lin / named value leaf bottom-up; f(x) returns replacement or None"""
    r = f(v)
    if r is not None:
        return r
    if isinstance(v, Val):
        a = v.args()
        b = tuple(rebuild(x, f) for x in a)
        if all(x is y for x, y in zip(a, b)):
            return v
        return type(v)(*b)
    if isinstance(v, tuple):
        b = tuple(rebuild(x, f) for x in v)
        if all(x is y for x, y in zip(v, b)):
            return v
        return b
    return v
