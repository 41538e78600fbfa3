"""Term layer.  Machine integers are Python ints (canonical unsigned) or z3 bit-vectors; i1 is bool or z3 Bool.
Everything folds on constants, so one spec function serves both the proofs and the concrete replay."""
import z3

class Unsupported(Exception):
    """the verifier cannot model this; never a verdict about the code"""

W = 64
def mask(w): return (1 << w) - 1
def isc(x): return isinstance(x, int)          # int or bool
def sgn(x, w=64):
    return x - (1 << w) if x >> (w-1) else x
def bv(x, w=64):
    if isinstance(x, bool): raise TypeError('bool as bv')
    return z3.BitVecVal(x, w) if isinstance(x, int) else x
def bl(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x
def fold(e):
    s = z3.simplify(e)
    if z3.is_bv_value(s): return s.as_long()
    if z3.is_true(s): return True
    if z3.is_false(s): return False
    return s
def s2u(x, w=64): return x & mask(w)

def add(a, b, w=64):
    if isc(a) and isc(b): return (a+b) & mask(w)
    if isc(a) and a == 0: return b
    if isc(b) and b == 0: return a
    return fold(bv(a, w)+bv(b, w))
def sub(a, b, w=64):
    if isc(a) and isc(b): return (a-b) & mask(w)
    if isc(b) and b == 0: return a
    return fold(bv(a, w)-bv(b, w))
def neg(a, w=64): return sub(0, a, w)
def mul(a, b, w=64):
    if isc(a) and isc(b): return (a*b) & mask(w)
    if isc(a) and a == 1: return b
    if isc(b) and b == 1: return a
    if (isc(a) and a == 0) or (isc(b) and b == 0): return 0
    return fold(bv(a, w)*bv(b, w))
def sdiv(a, b, w=64):
    if isc(a) and isc(b):
        x, y = sgn(a, w), sgn(b, w)
        if y == 0: return 0 if False else (mask(w) if x >= 0 else 1)
        q = abs(x)//abs(y)
        return (q if (x < 0) == (y < 0) else -q) & mask(w)
    if isc(b) and b == 1: return a
    return bv(a, w)/bv(b, w)
def srem(a, b, w=64):
    if isc(a) and isc(b):
        x, y = sgn(a, w), sgn(b, w)
        if y == 0: return a
        r = abs(x) % abs(y)
        return (r if x >= 0 else -r) & mask(w)
    return z3.SRem(bv(a, w), bv(b, w))
def udiv(a, b, w=64):
    if isc(a) and isc(b): return a//b if b else mask(w)
    return fold(z3.UDiv(bv(a, w), bv(b, w)))
def urem(a, b, w=64):
    if isc(a) and isc(b): return a % b if b else a
    return fold(z3.URem(bv(a, w), bv(b, w)))
def band(a, b, w=64):
    if isc(a) and isc(b): return a & b
    if (isc(a) and a == 0) or (isc(b) and b == 0): return 0
    return fold(bv(a, w) & bv(b, w))
def bor(a, b, w=64):
    if isc(a) and isc(b): return a | b
    if isc(a) and a == 0: return b
    if isc(b) and b == 0: return a
    return fold(bv(a, w) | bv(b, w))
def bxor(a, b, w=64):
    if isc(a) and isc(b): return a ^ b
    return fold(bv(a, w) ^ bv(b, w))
def shl(a, b, w=64):
    if isc(a) and isc(b): return (a << b) & mask(w) if b < w else 0
    return fold(bv(a, w) << bv(b, w))
def lshr(a, b, w=64):
    if isc(a) and isc(b): return a >> b if b < w else 0
    return fold(z3.LShR(bv(a, w), bv(b, w)))
def ashr(a, b, w=64):
    if isc(a) and isc(b): return (sgn(a, w) >> min(b, w)) & mask(w)
    return fold(bv(a, w) >> bv(b, w))
def trunc(a, w, to):
    if to == 1: return ne(band(a, 1, w), 0, w)
    if isc(a): return a & mask(to)
    return fold(z3.Extract(to-1, 0, a))
def zext(a, w, to):
    if w == 1: return ite(a, 1, 0, to)
    if isc(a): return a
    return fold(z3.ZeroExt(to-w, a))
def sext(a, w, to):
    if w == 1: return ite(a, mask(to), 0, to)
    if isc(a): return sgn(a, w) & mask(to)
    return fold(z3.SignExt(to-w, a))

def eq(a, b, w=64):
    if isinstance(a, bool) or isinstance(b, bool) or z3.is_bool(a) or z3.is_bool(b):
        if isc(a) and isc(b): return bool(a) == bool(b)
        if isinstance(a, bool): return b if a else not_(b)
        if isinstance(b, bool): return a if b else not_(a)
        return fold(a == b)
    if isc(a) and isc(b): return a == b
    if not isc(a) and not isc(b) and a.eq(b): return True
    return fold(bv(a, w) == bv(b, w))
def ne(a, b, w=64): return not_(eq(a, b, w))
def not_(a):
    if isinstance(a, bool): return not a
    return fold(z3.Not(a))
def and_(*xs):
    r = []
    for x in xs:
        if isinstance(x, bool):
            if not x: return False
        else: r.append(x)
    if not r: return True
    if len(r) == 1: return r[0]
    return z3.And(*r)
def or_(*xs):
    r = []
    for x in xs:
        if isinstance(x, bool):
            if x: return True
        else: r.append(x)
    if not r: return False
    if len(r) == 1: return r[0]
    return z3.Or(*r)
def implies(a, b): return or_(not_(a), b)
def slt(a, b, w=64):
    if isc(a) and isc(b): return sgn(a, w) < sgn(b, w)
    return fold(bv(a, w) < bv(b, w))
def sle(a, b, w=64):
    if isc(a) and isc(b): return sgn(a, w) <= sgn(b, w)
    return fold(bv(a, w) <= bv(b, w))
def sgt(a, b, w=64): return slt(b, a, w)
def sge(a, b, w=64): return sle(b, a, w)
def ult(a, b, w=64):
    if isc(a) and isc(b): return a < b
    return fold(z3.ULT(bv(a, w), bv(b, w)))
def ule(a, b, w=64):
    if isc(a) and isc(b): return a <= b
    return fold(z3.ULE(bv(a, w), bv(b, w)))
def ite(c, a, b, w=64):
    """if-then-else on scalars, bools, pointers and ghost values"""
    if isinstance(c, bool): return a if c else b
    if a is b: return a
    if isinstance(a, bool) or isinstance(b, bool) or z3.is_bool(a) or z3.is_bool(b):
        return fold(z3.If(c, bl(a), bl(b)))
    if (isc(a) or z3.is_expr(a)) and (isc(b) or z3.is_expr(b)):
        if isc(a) and isc(b):
            if a == b: return a
        elif not isc(a) and not isc(b) and a.eq(b): return a
        if not isc(a): w = a.size() if z3.is_bv(a) else w
        elif not isc(b): w = b.size() if z3.is_bv(b) else w
        return z3.If(c, bv(a, w) if not z3.is_fp(a) else a, bv(b, w) if not z3.is_fp(b) else b)
    if hasattr(a, 'ite'): return a.ite(c, b)
    if hasattr(b, 'ite'): return b.ite(not_(c), a)
    raise Unsupported('ite of %r and %r' % (a, b))
def smin(a, b): return ite(slt(a, b), a, b)
def umin(a, b): return ite(ult(a, b), a, b)
def smax(a, b): return ite(slt(a, b), b, a)

_cnt = [0]
def reset_names():
    _cnt[0] = 0
def fresh(name, w=64):
    _cnt[0] += 1
    if w == 1: return z3.Bool('%s!%d' % (name, _cnt[0]))
    return z3.BitVec('%s!%d' % (name, _cnt[0]), w)
def fresh_name(name):
    _cnt[0] += 1
    return '%s!%d' % (name, _cnt[0])
def uf(name, args, w=64):
    sorts = [z3.BitVecSort(x) if x > 1 else z3.BoolSort() for x in args]
    rs = z3.BitVecSort(w) if w > 1 else z3.BoolSort()
    return z3.Function(name, *sorts, rs)

# ---------------------------------------------------------------- closures (functional arrays)
class Arr:
    """total function from index tuples to values"""
    def rd(self, *i): raise NotImplementedError
    def store(self, i, v, w=64):
        if not isinstance(i, tuple): i = (i,)
        return AStore(self, i, v, w)
    def ite(self, c, o):
        if isinstance(c, bool): return self if c else o
        if self is o: return self
        return ALam(lambda *i: ite(c, self.rd(*i), o.rd(*i)))

class ABase(Arr):
    def __init__(self, name, w=64, dom=(64,)):
        self.name, self.w, self.dom = name, w, dom
        self.f = uf(name, dom, w)
    def rd(self, *i):
        return self.f(*[bv(x, d) for x, d in zip(i, self.dom)])
class AConst(Arr):
    def __init__(self, v): self.v = v
    def rd(self, *i): return self.v
class AList(Arr):
    """concrete contents, default elsewhere"""
    def __init__(self, vals, default=0): self.vals, self.d = list(vals), default
    def rd(self, i):
        if isc(i): return self.vals[i] if i < len(self.vals) else self.d
        r = self.d
        for k, v in enumerate(self.vals): r = ite(eq(i, k), v, r)
        return r
class ADict(Arr):
    def __init__(self, d, default=0): self.dct, self.d = dict(d), default
    def rd(self, *i):
        if all(isc(x) for x in i): return self.dct.get(tuple(i), self.d)
        r = self.d
        for k, v in self.dct.items(): r = ite(and_(*[eq(a, b) for a, b in zip(i, k)]), v, r)
        return r
SMALL = {'nstk', 'stackpos', 'deep'}      # symbols constrained (by an assumption of every unit that uses them) to [0, 2^61)
FRESH0 = 1 << 63      # ids of stacks created during the unit start here
def tiny(t):
    """t is a sum of small symbols and small constants, so (mod 2^64) it is none of the ids from FRESH0 on"""
    if isc(t): return t < 1 << 20 or t > mask(64)-(1 << 20)
    if z3.is_bv_value(t): return tiny(t.as_long())
    if z3.is_const(t): return t.decl().name().split('!')[0] in SMALL
    if z3.is_app_of(t, z3.Z3_OP_BADD): 
        cs = t.children()
        return len(cs) == 2 and any(z3.is_bv_value(c) for c in cs) and all(tiny(c) for c in cs)
    return False
def isdeep(t): return z3.is_const(t) and t.decl().name().startswith('deep!')
def top_of(t):
    """nstk - c with 0 <= c <= 4: positions above every `deep` stack (units that use `deep` assume deep < nstk-4)"""
    if z3.is_const(t): return t.decl().name() == 'nstk'
    if z3.is_app_of(t, z3.Z3_OP_BADD) and t.num_args() == 2:
        a, b = t.children()
        return z3.is_bv_value(a) and z3.is_const(b) and b.decl().name() == 'nstk' and a.as_long() >= mask(64)-3
    return False
def ideq(x, y):
    """equality of stack ids (and other keys): exact, but folds what the bounds on ids decide"""
    if not isc(x) and isc(y): x, y = y, x
    if isc(x) and not isc(y):
        if z3.is_app_of(y, z3.Z3_OP_ITE):
            c, a, b = y.children()
            a, b = fold(a), fold(b)
            ea, eb = ideq(x, a), ideq(x, b)
            if isinstance(ea, bool) or isinstance(eb, bool): return or_(and_(fold(c), ea), and_(not_(fold(c)), eb))
        if FRESH0 <= x < FRESH0+(1 << 20) and tiny(y): return False
    elif not isc(x) and not isc(y):
        if isdeep(y): x, y = y, x
        if isdeep(x) and top_of(y): return False
    return eq(x, y)
def keyeq(a, b):
    return and_(*[ideq(x, y) for x, y in zip(a, b)])
class AStore(Arr):
    def __init__(self, prev, i, v, w=64): self.prev, self.i, self.v = prev, i, v
    def rd(self, *i):
        # iterative down the chain
        cs = []
        cur = self
        while isinstance(cur, AStore):
            c = keyeq(i, cur.i)
            if c is True:
                r = cur.v
                break
            if c is not False: cs.append((c, cur.v))
            cur = cur.prev
        else:
            r = cur.rd(*i)
        for c, v in reversed(cs): r = ite(c, v, r)
        return r
class ALam(Arr):
    def __init__(self, f):
        self.f = f
        self.memo = {}
    def rd(self, *i):
        k = tuple(x if isc(x) else ('t', x.get_id()) for x in i)
        if k in self.memo: return self.memo[k][0]
        r = self.f(*i)
        self.memo[k] = (r, i)          # keep index alive so ids stay unique
        return r

# ---------------------------------------------------------------- pointers and ghost containers
class Ptr:
    """obj: hashable region id; off: int or term; idx: member index (term) for family regions"""
    __slots__ = ('obj', 'off', 'idx')
    def __init__(self, obj, off=0, idx=None): self.obj, self.off, self.idx = obj, off, idx
    def __repr__(self): return 'Ptr(%r+%r%s)' % (self.obj, self.off, '' if self.idx is None else ' #%s' % (self.idx,))
    def plus(self, d): return Ptr(self.obj, add(self.off, d) if not (isc(self.off) and isc(d)) else sgn((self.off + d) & mask(64)), self.idx)
    def ite(self, c, o):
        if isinstance(c, bool): return self if c else o
        if isinstance(o, Ptr) and o.obj == self.obj:
            if self.idx is None and o.idx is None: return Ptr(self.obj, ite(c, s2u(self.off) if isc(self.off) else self.off, s2u(o.off) if isc(o.off) else o.off))
            if isc(self.off) and isc(o.off) and self.off == o.off and self.idx is not None and o.idx is not None:
                return Ptr(self.obj, self.off, ite(c, self.idx, o.idx))
        raise Unsupported('pointer merge %r %r' % (self, o))
    def key(self): return (self.obj, self.off)
NULL = Ptr('null', 0)

class FnPtr:
    __slots__ = ('name',)
    def __init__(self, name): self.name = name
    def __repr__(self): return 'Fn(%s)' % self.name

def is_null(p): return isinstance(p, Ptr) and p.obj == 'null' and isc(p.off) and p.off == 0

class Seq:
    """ghost sequence container: elements arr[lo..hi)   (ek: element kind text)"""
    __slots__ = ('arr', 'lo', 'hi', 'ek')
    def __init__(self, arr, lo, hi, ek=64): self.arr, self.lo, self.hi, self.ek = arr, lo, hi, ek
    def size(self): return sub(self.hi, self.lo)
    def at(self, k): return self.arr.rd(add(self.lo, k))
    def empty(self): return eq(self.lo, self.hi)
    def push_back(self, v): return Seq(self.arr.store(self.hi, v), self.lo, add(self.hi, 1), self.ek)
    def push_front(self, v):
        l = sub(self.lo, 1)
        return Seq(self.arr.store(l, v), l, self.hi, self.ek)
    def pop_back(self): return Seq(self.arr, self.lo, sub(self.hi, 1), self.ek)
    def pop_front(self): return Seq(self.arr, add(self.lo, 1), self.hi, self.ek)
    def set(self, k, v): return Seq(self.arr.store(add(self.lo, k), v), self.lo, self.hi, self.ek)
    def back(self): return self.arr.rd(sub(self.hi, 1))
    def front(self): return self.arr.rd(self.lo)
    def insert(self, k, v):
        p = add(self.lo, k)
        a = self.arr
        f = lambda i: ite(slt(i, p), a.rd(i), ite(eq(i, p), v, a.rd(sub(i, 1))))
        return Seq(ALam(f), self.lo, add(self.hi, 1), self.ek)
    def erase(self, k):
        p = add(self.lo, k)
        a = self.arr
        f = lambda i: ite(slt(i, p), a.rd(i), a.rd(add(i, 1)))
        return Seq(ALam(f), self.lo, sub(self.hi, 1), self.ek)
    def ite(self, c, o):
        if isinstance(c, bool): return self if c else o
        if self is o: return self
        if not isinstance(o, Seq): raise Unsupported('ite seq')
        return Seq(self.arr.ite(c, o.arr), ite(c, self.lo, o.lo), ite(c, self.hi, o.hi), self.ek)
    def __repr__(self): return 'Seq[%s..%s)' % (self.lo, self.hi)

def seq_of(vals, ek=64): return Seq(AList(vals), 0, len(vals), ek)
