"""Maps with symbolic keys: std::map / std::unordered_map as a total function from key components to (present, value)."""
from .term import *
from .exec import *
from . import stl
from .stl import loc, iterval, _this, mkiter, kind_of, it_eqv

class SMap:
    """contents live in the region `obj`: cell 'pres' (key -> Bool), cell `voff` (key -> value); nix: number of key components"""
    __slots__ = ('obj', 'nix', 'voff', 'key', 'dflt', 'theend')
    def __init__(self, obj, nix, voff, key, dflt=0): self.obj, self.nix, self.voff, self.key, self.dflt = obj, nix, voff, key, dflt; self.theend = SEnd(self)
    # --- operations
    def kof(self, ex, st, p): return self.key.get(ex, st, p)
    def pres(self, st, k): return st.get(self.obj, 'pres').rd(*k)
    def val(self, st, k): return st.get(self.obj, self.voff).rd(*k)
    def find(self, ex, st, args, ci):
        sr = 1 if ci.sret else 0
        k = self.kof(ex, st, args[1+sr])
        return mkiter(st, ci, args, SIter(self, k, self.pres(st, k)))
    def count(self, ex, st, args, ci):
        return ite(self.pres(st, self.kof(ex, st, args[1])), 1, 0)
    def end(self, ex, st, args, ci): return mkiter(st, ci, args, self.theend)
    def begin(self, ex, st, args, ci):
        e = Enum(self, st)
        st.ghost['enums'] = st.ghost.get('enums', ()) + (e,)
        return mkiter(st, ci, args, IterVal(('enum', e), 0))
    def index(self, ex, st, args, ci):
        k = self.kof(ex, st, args[1])
        p, v = st.get(self.obj, 'pres'), st.get(self.obj, self.voff)
        had = p.rd(*k)
        if had is not True:
            d = self.dflt() if callable(self.dflt) else self.dflt
            st.put(self.obj, self.voff, v.store(tuple(k), ite(had, v.rd(*k), d)))
            st.put(self.obj, 'pres', p.store(tuple(k), True))
        return Ptr(self.obj, self.voff, tuple(k))
    def at(self, ex, st, args, ci):
        k = self.kof(ex, st, args[1])
        ex.oblige(st, self.pres(st, k), 'map-key-present')
        return Ptr(self.obj, self.voff, tuple(k))
    def erase(self, ex, st, args, ci):
        sr = 1 if ci.sret else 0
        x = args[1+sr]
        if 'iterator' in ci.q.params[0].lower():
            it = iterval(ex, st, x)
            if not isinstance(it, SIter): raise Unsupported('erase at %r' % (it,))
            ex.oblige(st, it.valid, 'erase-position-in-range')
            k = it.k
        else:
            k = self.kof(ex, st, x)
        st.put(self.obj, 'pres', st.get(self.obj, 'pres').store(tuple(k), False))
        return None
    def size(self, ex, st, args, ci):
        e = Enum(self, st)
        st.ghost['enums'] = st.ghost.get('enums', ()) + (e,)
        return e.n
    def clear(self, ex, st, args, ci):
        st.put(self.obj, 'pres', AConst(False)); return None
    def __repr__(self): return 'SMap(%r)' % (self.obj,)
class VecKey:
    """Funge::Vector keys: the coordinates (equality and hash of vectors see only those: C02)"""
    def __init__(self, n): self.n = n
    def get(self, ex, st, p):
        from .contracts import vec
        return vec(st, p).c
    def value(self, k):
        from .contracts import VecG
        return VecG(k)
class IntKey:
    n = 1
    def __init__(self, w=64): self.w = w
    def get(self, ex, st, p): return (ex.load(st, p, ('i', self.w), None),)
    def value(self, k): return k[0]

class SIter:
    """iterator at key k (meaningful when `valid`)"""
    __slots__ = ('m', 'k', 'valid')
    def __init__(self, m, k, valid): self.m, self.k, self.valid = m, tuple(k), valid
    def same(self, o):
        if isinstance(o, SEnd): return not_(self.valid)
        if isinstance(o, SIter): return and_(self.valid, o.valid, *[eq(a, b) for a, b in zip(self.k, o.k)])
        raise Unsupported('iterator comparison')
    def arrow(self, ex, st, args, ci):
        ex.oblige(st, self.valid, 'iterator-dereferenceable')
        return pair(st, self.m, self.k)
class SEnd:
    __slots__ = ('m',)
    def __init__(self, m): self.m = m
    def same(self, o):
        if isinstance(o, SEnd): return True
        if isinstance(o, SIter): return not_(o.valid)
        raise Unsupported('iterator comparison')
    def arrow(self, ex, st, args, ci):
        ex.oblige(st, False, 'iterator-dereferenceable'); raise PathEnd()
def pair(st, m, k):
    if st.get(m.obj, 0) is None: st.put(m.obj, 0, ALam(lambda *j: m.key.value(j)))
    return Ptr(m.obj, 0, tuple(k))

class Enum:
    """the order in which the entries of one state of the map are visited: key(0) .. key(n-1), every entry exactly once"""
    def __init__(self, m, st):
        self.m = m; self.p = st.get(m.obj, 'pres')
        nm = fresh_name('enum')
        self.kf = [uf('%s_k%d' % (nm, i), (64,)) for i in range(m.nix)]
        self.rank = uf(nm + '_rank', (64,)*m.nix)
        self.n = z3.BitVec(nm + '_n', 64)
        st.assume(z3.And(self.n >= 0, self.n < (1 << 60)))
    def feeds(self, x):
        from .loops import free_ids
        return z3.is_expr(x.e) and bool(free_ids(x.e) & {f.name() for f in self.kf})
    def key(self, i): return tuple(f(bv(i)) for f in self.kf)
    def at(self, st, i):
        """trusted: entry i of the enumeration is an entry of the map"""
        k = self.key(i)
        st.assume(or_(not_(and_(sle(0, i), slt(i, self.n))), self.p.rd(*k)))
        return k
    def complete(self, k):
        """trusted: entry k of the map is visited, at position rank(k)"""
        r = self.rank(*[bv(x) for x in k])
        return or_(not_(self.p.rd(*k)), and_(sle(0, r), slt(r, self.n), *[eq(a, b) for a, b in zip(self.key(r), k)])), r

def enum_deref(ex, st, it):
    e = it.cont[1]
    ex.oblige(st, and_(sle(0, it.pos), slt(it.pos, e.n)), 'iterator-dereferenceable')
    return pair(st, e.m, e.at(st, it.pos))

def _eqv(ex, st, a, b):
    a, b = iterval(ex, st, a), iterval(ex, st, b)
    if isinstance(a, SEnd) and isinstance(b, IterVal): a, b = b, a
    if isinstance(a, IterVal) and isinstance(b, SEnd) and a.cont[0] == 'enum': return eq(a.pos, a.cont[1].n)
    if isinstance(a, IterVal) and isinstance(b, IterVal):
        if a.cont != b.cont: raise Unsupported('iterators of different containers')
        return eq(a.pos, b.pos)
    if isinstance(a, (SIter, SEnd)): return a.same(b)
    if isinstance(b, (SIter, SEnd)): return b.same(a)
    if type(a) is not type(b): raise Unsupported('iterator comparison')
    return a.same(b)
stl.it_eqv_any = _eqv

def instantiate(st, keys=()):
    """assume what the enumerations and recurrences recorded on this path say about the given keys"""
    ws = []
    for e in st.ghost.get('enums', ()):
        for k in keys:
            c, r = e.complete(k); st.assume(c); ws.append((e, r))
    for x in st.ghost.get('exts', ()):
        for e, w in ws:
            if e.feeds(x): st.assume(x.bound(w))
    return st
