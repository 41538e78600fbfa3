"""Assumed contracts of the C++ standard library / libc, stated on ghost containers.  This file is part of the trusted base."""
import re
from .term import *
from .exec import *

MODELS = {}
def model(*names_):
    def d(f):
        for n in names_: MODELS[n] = f
        return f
    return d
SEQ = ['std::list', 'std::vector', 'std::deque', 'std::basic_string']
def smodel(*ms, classes=None):
    def d(f):
        for c in classes or (SEQ + ['std::stack', 'std::queue']):
            for m in ms: MODELS[c + '::' + m] = f
        return f
    return d

SCALAR = {'long': 64, 'unsigned long': 64, 'int': 32, 'unsigned int': 32, 'char': 8, 'unsigned char': 8, 'bool': 8, 'short': 16, 'long long': 64}
def ekind(q):
    """element kind of the container class in q: bit width, 'ptr', 'f' or ('obj', type text)"""
    comps = q.comps
    cls = comps[-2] if len(comps) > 1 else ''
    if cls == 'basic_string' or (comps[-1] == 'basic_string') or 'basic_string' in cls: return 8
    t = q.cargs[0] if q.cargs else None
    return kind_of(t)
def kind_of(t):
    if t is None: return None
    t = t.strip()
    if t.endswith(' const'): t = t[:-6]
    if t in SCALAR: return SCALAR[t]
    if t.endswith('*'): return 'ptr'
    if t == 'double': return 64
    if t in ('float', 'long double'): return 'f'
    if t.startswith('Funge::') and t.split('::')[-1] in ('FungeError', 'FungeMode', 'FungeTopo', 'FungeString', 'FungeCell', 'FungeThread'): return 32
    return ('obj', t)

class OSeq:
    """concretely sized container of objects; items are region ids"""
    __slots__ = ('items', 'et')
    def __init__(self, items, et=None): self.items, self.et = tuple(items), et
    def size(self): return len(self.items)
    def __repr__(self): return 'OSeq%r' % (self.items,)

def loc(p):
    if isinstance(p, EPtr): raise Unsupported('container inside a sequence element')
    return locof(p)
def getseq(ex, st, p, q=None):
    l = loc(p)
    if isinstance(l[0], tuple) and l[0][0] == 'g': ex.init_global(st, l[0])
    s = st.cell(l)
    if s is None:
        hook = getattr(ex, 'lazy_container', None)
        if hook: s = hook(ex, st, p, q)
        if s is None:
            # zero-initialised / default state of a container that was never constructed: unknown
            raise Unsupported('container at %r has no ghost state' % (p,))
    return s
def objsize(ex, et):
    n = {'std::function': 32}
    for k, v in (('std::function<', 32), ('std::basic_string<', 32), ('std::__cxx11::basic_string<', 32), ('std::shared_ptr<', 16), ('std::vector<', 24), ('std::list<', 24), ('std::thread', 8)):
        if et.startswith(k): return v
    s = ex.prog.sizeof_class(et)
    if s is None: raise Unsupported('size of class %s' % et)
    return s
def newnode(ex, st, et, src=None):
    sz = objsize(ex, et)
    o = st.new('node', sz)
    if src is not None: ex.copy_region(st, Ptr(o, 0), src, sz)
    return o
def empty_for(k): return Seq(AConst(NULL if k == 'ptr' else 0), 0, 0, k) if not (isinstance(k, tuple)) else OSeq((), k[1])

def deep_copy(ex, st, v):
    """value of a copied container"""
    if isinstance(v, OSeq):
        return OSeq([newnode(ex, st, v.et, Ptr(n, 0)) for n in v.items], v.et)
    return v

LIMIT = 1 << 60
def grow(ex, st, s):
    """trusted: an allocation that does not fail leaves the container below 2^60 elements"""
    if isinstance(s, Seq) and not (isc(s.lo) and isc(s.hi)):
        st.assume(slt(sub(s.hi, s.lo), LIMIT)); 

# ---- construction / destruction / assignment
@smodel('list', 'vector', 'deque', 'basic_string', 'stack', 'queue')
def c_ctor(ex, st, args, ci):
    k = ekind(ci.q)
    this = args[0]
    ps = ci.q.params
    if len(args) == 1 or (len(ps) == 1 and 'allocator' in ps[0] and not any(x in ps[0] for x in ('list<', 'vector<', 'basic_string<', 'deque<'))):
        st.setcell(loc(this), empty_for(k)); return None
    p0 = ps[0]
    if 'initializer_list' in p0:
        # {ptr, len} passed as two arguments
        base, n = args[1], args[2]
        if not isc(n): raise Unsupported('initializer_list length')
        vals = [ex.load(st, base.plus(k//8*i), ('i', k) if k != 'ptr' else 'ptr', None) if not isinstance(k, tuple) else None for i in range(n)]
        if isinstance(k, tuple):
            sz = objsize(ex, k[1])
            st.setcell(loc(this), OSeq([newnode(ex, st, k[1], base.plus(sz*i)) for i in range(n)], k[1])); return None
        st.setcell(loc(this), seq_of(vals, k)); return None
    if ('list<' in p0 or 'vector<' in p0 or 'deque<' in p0 or 'basic_string<' in p0 or 'stack<' in p0) and ('&' in p0) and not isinstance(k, tuple) or (p0.endswith('&') and re.search(r'(list|vector|deque|stack|queue)<', p0)):
        if ci.q.last == 'basic_string' and len(ps) >= 3:
            s = getseq(ex, st, args[1], ci.q)
            return c_substr_into(ex, st, this, s, args[2], args[3])
        v = getseq(ex, st, args[1], ci.q)
        st.setcell(loc(this), deep_copy(ex, st, v)); return None
    if ci.q.last == 'basic_string':
        if p0.startswith('char const*') and (len(ps) == 1 or 'allocator' in ps[1]):
            st.setcell(loc(this), cstring(ex, st, args[1])); return None
        if p0.startswith('char const*') and 'unsigned long' in ps[1]:
            raise Unsupported('string(ptr,n)')
        if p0 == 'unsigned long':
            st.setcell(loc(this), Seq(AConst(args[2]), 0, args[1], 8)); return None
    if p0 == 'unsigned long' and not isinstance(k, tuple):
        n = args[1]
        v = 0 if k != 'ptr' else NULL
        if len(ps) > 1 and 'allocator' not in ps[1]: v = ex.load(st, args[2], ('i', k) if k != 'ptr' else 'ptr', None)
        ex.oblige(st, ult(n, LIMIT), 'container-size-valid')
        st.setcell(loc(this), Seq(AConst(v), 0, n, k)); return None
    raise Unsupported('constructor %s' % ci.q.full)

def c_substr_into(ex, st, this, s, pos, n):
    raise Unsupported('substring constructor')

def cstring(ex, st, p):
    if isinstance(p, EPtr):
        s = st.cell(p.cont)
        if isc(p.pos) and isc(s.lo) and p.pos == s.lo: return Seq(s.arr, s.lo, s.hi, 8)
        raise Unsupported('c string in the middle of a string')
    vals = []
    q = p
    while True:
        b = ex.load(st, q, ('i', 8), None)
        if not isc(b): raise Unsupported('symbolic C string')
        if b == 0: break
        vals.append(b)
        q = q.plus(1)
        if len(vals) > 4096: raise Unsupported('long C string')
    return seq_of(vals, 8)

@smodel('~list', '~vector', '~deque', '~basic_string', '~stack', '~queue')
def c_dtor(ex, st, args, ci):
    return None

@smodel('operator=', 'assign')
def c_assign(ex, st, args, ci):
    p0 = ci.q.params[0] if ci.q.params else ''
    k = ekind(ci.q)
    if 'initializer_list' in p0:
        n = args[2]
        vals = [ex.load(st, args[1].plus(k//8*i), ('i', k), None) for i in range(n)]
        st.setcell(loc(args[0]), seq_of(vals, k)); return args[0]
    if p0.startswith('char const*'):
        st.setcell(loc(args[0]), cstring(ex, st, args[1])); return args[0]
    if p0.endswith('&'):
        st.setcell(loc(args[0]), deep_copy(ex, st, getseq(ex, st, args[1], ci.q))); return args[0]
    raise Unsupported(ci.q.full)

# ---- observers
@smodel('size', 'length')
def c_size(ex, st, args, ci): return getseq(ex, st, args[0], ci.q).size()
@smodel('empty')
def c_empty(ex, st, args, ci):
    s = getseq(ex, st, args[0], ci.q)
    return len(s.items) == 0 if isinstance(s, OSeq) else s.empty()
@smodel('clear')
def c_clear(ex, st, args, ci):
    s = getseq(ex, st, args[0], ci.q)
    st.setcell(loc(args[0]), OSeq((), s.et) if isinstance(s, OSeq) else Seq(AConst(NULL if s.ek == 'ptr' else 0), 0, 0, s.ek)); return None

def nonempty(ex, st, s):
    ex.oblige(st, slt(s.lo, s.hi), 'container-not-empty')
@smodel('front')
def c_front(ex, st, args, ci):
    s = getseq(ex, st, args[0], ci.q)
    if isinstance(s, OSeq):
        if not s.items: ex.oblige(st, False, 'container-not-empty'); raise PathEnd()
        return Ptr(s.items[0], 0)
    nonempty(ex, st, s)
    return EPtr(loc(args[0]), s.lo)
@smodel('back', 'top')
def c_back(ex, st, args, ci):
    s = getseq(ex, st, args[0], ci.q)
    if isinstance(s, OSeq):
        if not s.items: ex.oblige(st, False, 'container-not-empty'); raise PathEnd()
        return Ptr(s.items[-1], 0)
    nonempty(ex, st, s)
    return EPtr(loc(args[0]), sub(s.hi, 1))
MODELS['std::queue::front'] = c_front
@smodel('operator[]', 'at')
def c_index(ex, st, args, ci):
    s = getseq(ex, st, args[0], ci.q)
    if isinstance(s, OSeq):
        if not isc(args[1]): raise Unsupported('symbolic index into object container')
        if args[1] >= len(s.items): ex.oblige(st, False, 'container-index-in-range'); raise PathEnd()
        return Ptr(s.items[args[1]], 0)
    if ci.q.comps[-2] == 'basic_string':      # s[size()] is the terminator
        ex.oblige(st, ule(args[1], s.size()), 'container-index-in-range')
    else:
        ex.oblige(st, ult(args[1], s.size()), 'container-index-in-range')
    return EPtr(loc(args[0]), add(s.lo, args[1]))
@smodel('data', 'c_str')
def c_data(ex, st, args, ci):
    s = getseq(ex, st, args[0], ci.q)
    return EPtr(loc(args[0]), s.lo)

# ---- modifiers
def elemval(ex, st, s, a, ci):
    """value of a pushed element: argument is a reference except for chars in string"""
    if isinstance(a, (Ptr, EPtr)) and not (s.ek == 'ptr' and not ci.q.params[0].endswith('&') and not ci.q.params[-1].endswith('&')):
        return ex.load(st, a, 'ptr' if s.ek == 'ptr' else 'double' if s.ek == 'f' else ('i', s.ek), None)
    return a
@smodel('push_back', 'push', 'emplace_back')
def c_push_back(ex, st, args, ci):
    s = getseq(ex, st, args[0], ci.q)
    if isinstance(s, OSeq):
        n = newnode(ex, st, s.et, args[1] if len(args) > 1 else None)
        st.setcell(loc(args[0]), OSeq(s.items + (n,), s.et))
        return Ptr(n, 0)
    v = elemval(ex, st, s, args[1], ci)
    s2 = s.push_back(v)
    grow(ex, st, s2)
    st.setcell(loc(args[0]), s2)
    return EPtr(loc(args[0]), s.hi)
@smodel('push_front', 'emplace_front')
def c_push_front(ex, st, args, ci):
    s = getseq(ex, st, args[0], ci.q)
    v = elemval(ex, st, s, args[1], ci)
    s2 = s.push_front(v)
    grow(ex, st, s2)
    st.setcell(loc(args[0]), s2)
    return None
@smodel('pop_back')
def c_pop_back(ex, st, args, ci):
    s = getseq(ex, st, args[0], ci.q)
    if isinstance(s, OSeq):
        if not s.items: ex.oblige(st, False, 'container-not-empty'); raise PathEnd()
        st.setcell(loc(args[0]), OSeq(s.items[:-1], s.et)); return None
    nonempty(ex, st, s)
    st.setcell(loc(args[0]), s.pop_back()); return None
MODELS['std::stack::pop'] = c_pop_back
@smodel('pop_front')
def c_pop_front(ex, st, args, ci):
    s = getseq(ex, st, args[0], ci.q)
    if isinstance(s, OSeq):
        if not s.items: ex.oblige(st, False, 'container-not-empty'); raise PathEnd()
        st.setcell(loc(args[0]), OSeq(s.items[1:], s.et)); return None
    nonempty(ex, st, s)
    st.setcell(loc(args[0]), s.pop_front()); return None
MODELS['std::queue::pop'] = c_pop_front
@smodel('reserve', 'shrink_to_fit')
def c_reserve(ex, st, args, ci): return None
@smodel('resize')
def c_resize(ex, st, args, ci):
    s = getseq(ex, st, args[0], ci.q)
    if isinstance(s, OSeq): raise Unsupported('resize objects')
    n = args[1]
    v = 0
    if len(args) > 2: v = elemval(ex, st, s, args[2], ci)
    ex.oblige(st, ult(n, LIMIT), 'container-size-valid')
    hi = s.hi; a = s.arr
    st.setcell(loc(args[0]), Seq(ALam(lambda i: ite(slt(i, hi), a.rd(i), v, s.ek if isinstance(s.ek, int) else 64)), s.lo, add(s.lo, n), s.ek)); return None
@smodel('swap')
def c_swap(ex, st, args, ci):
    a, b = getseq(ex, st, args[0], ci.q), getseq(ex, st, args[1], ci.q)
    st.setcell(loc(args[0]), b); st.setcell(loc(args[1]), a); return None
@smodel('insert', 'emplace')
def c_insert(ex, st, args, ci):
    s = getseq(ex, st, args[0], ci.q)
    it = args[1]
    it = iterval(ex, st, it)
    if len(args) != 3: raise Unsupported('range insert')
    if isinstance(s, OSeq): raise Unsupported('insert objects')
    ex.oblige(st, and_(sle(s.lo, it.pos), sle(it.pos, s.hi)), 'insert-position-in-range')
    v = elemval(ex, st, s, args[2], ci)
    s2 = s.insert(sub(it.pos, s.lo), v)
    grow(ex, st, s2)
    st.setcell(loc(args[0]), s2)
    return IterVal(it.cont, it.pos)
@smodel('erase')
def c_erase(ex, st, args, ci):
    s = getseq(ex, st, args[0], ci.q)
    if len(args) != 2: raise Unsupported('range erase')
    it = iterval(ex, st, args[1])
    if isinstance(s, OSeq):
        if not isc(it.pos): raise Unsupported('erase objects')
        if it.pos >= len(s.items): ex.oblige(st, False, 'erase-position-in-range'); raise PathEnd()
        st.setcell(loc(args[0]), OSeq(s.items[:it.pos]+s.items[it.pos+1:], s.et))
        return IterVal(it.cont, it.pos)
    ex.oblige(st, and_(sle(s.lo, it.pos), slt(it.pos, s.hi)), 'erase-position-in-range')
    st.setcell(loc(args[0]), s.erase(sub(it.pos, s.lo)))
    return IterVal(it.cont, it.pos)
@smodel('operator+=', 'append', classes=['std::basic_string'])
def s_append(ex, st, args, ci):
    s = getseq(ex, st, args[0], ci.q)
    p0 = ci.q.params[0]
    if p0 == 'char':
        s2 = s.push_back(args[1]); grow(ex, st, s2)
    else:
        if p0 == 'unsigned long': raise Unsupported(ci.q.full)
        t = getseq(ex, st, args[1], ci.q) if p0.endswith('&') else cstring(ex, st, args[1])
        s2 = concat(s, t); grow(ex, st, s2)
    st.setcell(loc(args[0]), s2); return args[0]
def concat(a, b):
    n = a.size(); 
    aa, ba = a.arr, b.arr
    alo, ahi, blo = a.lo, a.hi, b.lo
    if isc(b.lo) and isc(b.hi) and b.hi-b.lo <= 64:
        r = a
        for k in range(b.hi-b.lo): r = r.push_back(ba.rd(blo+k))
        return r
    return Seq(ALam(lambda i: ite(slt(i, ahi), aa.rd(i), ba.rd(add(blo, sub(i, ahi))), a.ek if isinstance(a.ek, int) else 64)), alo, add(ahi, b.size()), a.ek)

# ---- iterators
def mkiter(st, ci, args, it):
    """return an iterator value: in register, or through the sret slot"""
    if ci.sret:
        st.setcell(loc(args[0]), it); return None
    return it
def iterval(ex, st, x):
    """an iterator passed by value (coerced pointer), or by reference to its object"""
    if isinstance(x, IterVal) or hasattr(x, 'same'): return x
    if isinstance(x, Ptr):
        v = st.cell(loc(x))
        if isinstance(v, IterVal): return v
        if v is not None: return v
    raise Unsupported('iterator expected: %r' % (x,))
def _this(ci, args): return args[1] if ci.sret else args[0]
def _bounds(s): return (0, len(s.items)) if isinstance(s, OSeq) else (s.lo, s.hi)
@smodel('begin', 'cbegin')
def c_begin(ex, st, args, ci):
    t = _this(ci, args); s = getseq(ex, st, t, ci.q)
    return mkiter(st, ci, args, IterVal(loc(t), _bounds(s)[0]))
@smodel('end', 'cend')
def c_end(ex, st, args, ci):
    t = _this(ci, args); s = getseq(ex, st, t, ci.q)
    return mkiter(st, ci, args, IterVal(loc(t), _bounds(s)[1]))
@smodel('rbegin', 'crbegin')
def c_rbegin(ex, st, args, ci):
    t = _this(ci, args); s = getseq(ex, st, t, ci.q)
    return mkiter(st, ci, args, IterVal(loc(t), _bounds(s)[1], True))
@smodel('rend', 'crend')
def c_rend(ex, st, args, ci):
    t = _this(ci, args); s = getseq(ex, st, t, ci.q)
    return mkiter(st, ci, args, IterVal(loc(t), _bounds(s)[0], True))
ITC = ['std::_List_iterator', 'std::_List_const_iterator', '__gnu_cxx::__normal_iterator', 'std::reverse_iterator', 'std::_Deque_iterator']
def itmodel(*ms):
    return smodel(*ms, classes=ITC)
def deref(ex, st, it):
    s = st.cell(it.cont)
    pos = sub(it.pos, 1) if it.rev else it.pos
    if isinstance(s, OSeq):
        if not isc(pos) or sgn(pos) >= len(s.items) or sgn(pos) < 0: ex.oblige(st, False, 'iterator-dereferenceable'); raise PathEnd()
        return Ptr(s.items[pos], 0)
    ex.oblige(st, and_(sle(s.lo, pos), slt(pos, s.hi)), 'iterator-dereferenceable')
    return EPtr(it.cont, pos)
@itmodel('operator*', 'operator->')
def it_deref(ex, st, args, ci): return deref(ex, st, iterval(ex, st, args[0]))
def step(it, d): return IterVal(it.cont, (sub if it.rev else add)(it.pos, d), it.rev)
@itmodel('operator++')
def it_inc(ex, st, args, ci):
    t = _this(ci, args)
    it = iterval(ex, st, t)
    st.setcell(loc(t), step(it, 1))
    if ci.q.params: return mkiter(st, ci, args, it)
    return t
@itmodel('operator--')
def it_dec(ex, st, args, ci):
    t = _this(ci, args)
    it = iterval(ex, st, t)
    st.setcell(loc(t), step(it, mask(64)))
    if ci.q.params: return mkiter(st, ci, args, it)
    return t
@itmodel('operator+=')
def it_adda(ex, st, args, ci):
    it = iterval(ex, st, args[0]); st.setcell(loc(args[0]), step(it, args[1])); return args[0]
@itmodel('operator-=')
def it_suba(ex, st, args, ci):
    it = iterval(ex, st, args[0]); st.setcell(loc(args[0]), step(it, neg(args[1]))); return args[0]
@itmodel('operator+')
def it_add(ex, st, args, ci):
    t = _this(ci, args)
    return mkiter(st, ci, args, step(iterval(ex, st, t), args[-1]))
@itmodel('operator-')
def it_sub(ex, st, args, ci):
    t = _this(ci, args)
    return mkiter(st, ci, args, step(iterval(ex, st, t), neg(args[-1])))
@itmodel('_List_iterator', '_List_const_iterator', '__normal_iterator', 'reverse_iterator', '_Deque_iterator')
def it_ctor(ex, st, args, ci):
    if len(args) == 1: return None
    x = args[1]
    v = iterval(ex, st, x)
    if ci.q.comps[-2] == 'reverse_iterator' and not v.rev and 'reverse_iterator' not in ci.q.params[0]: v = IterVal(v.cont, v.pos, True)
    st.setcell(loc(args[0]), v); return None
@itmodel('base')
def it_base(ex, st, args, ci):
    it = iterval(ex, st, _this(ci, args))
    it = IterVal(it.cont, it.pos, False)
    if ci.sret: return mkiter(st, ci, args, it)
    if '__normal_iterator' in ci.q.comps[-2]: return _this(ci, args)
    return it
@itmodel('_M_const_cast')
def it_cc(ex, st, args, ci): return iterval(ex, st, _this(ci, args))
def it_eqv(ex, st, a, b):
    from . import smap
    return smap._eqv(ex, st, a, b)
@itmodel('operator==')
def it_eq(ex, st, args, ci): return it_eqv(ex, st, args[0], args[1])
@itmodel('operator!=')
def it_ne(ex, st, args, ci): return not_(it_eqv(ex, st, args[0], args[1]))
@model('std::operator==', '__gnu_cxx::operator==')
def op_eq(ex, st, args, ci):
    p = ci.q.params[0]
    if 'iterator' in p or '_Self' in p or '_Node' in p: return it_eqv(ex, st, args[0], args[1])
    if 'basic_string' in p or 'char const*' in p: return str_eq(ex, st, args, ci)
    if 'function<' in p: return fn_isnull(ex, st, args[0])
    return NotImplemented
@model('std::operator!=', '__gnu_cxx::operator!=')
def op_ne(ex, st, args, ci):
    r = op_eq(ex, st, args, ci)
    return r if r is NotImplemented else not_(r)
@model('__gnu_cxx::operator-')
def op_itdiff(ex, st, args, ci):
    a, b = iterval(ex, st, args[0]), iterval(ex, st, args[1])
    return sub(a.pos, b.pos) if not a.rev else sub(b.pos, a.pos)
def as_string(ex, st, a, p):
    if 'basic_string' in p: return getseq(ex, st, a)
    return cstring(ex, st, a)
def str_eq(ex, st, args, ci):
    a = as_string(ex, st, args[0], ci.q.params[0]); b = as_string(ex, st, args[1], ci.q.params[1])
    if isc(b.lo) and isc(b.hi) and not (isc(a.lo) and isc(a.hi)): a, b = b, a
    if isc(a.lo) and isc(a.hi):
        n = a.hi-a.lo
        return and_(eq(b.size(), n), *[eq(a.arr.rd(a.lo+k), b.arr.rd(add(b.lo, k)), 8) for k in range(n)])
    raise Unsupported('comparison of two symbolic strings')

# ---- std::map / unordered_map with concrete integer keys
class OMap:
    __slots__ = ('d', 'vt')
    def __init__(self, d, vt=None): self.d, self.vt = d, vt
class MIter:
    __slots__ = ('cont', 'key', 'node')
    def __init__(self, cont, key, node): self.cont, self.key, self.node = cont, key, node
    def same(self, o): return self.key == o.key
MAPC = ['std::map', 'std::unordered_map']
def mkey(ex, st, p, q):
    k = kind_of(q.cargs[0])
    if isinstance(k, int):
        return ex.load(st, p, ('i', k), None)
    if k == 'ptr':
        v = ex.load(st, p, 'ptr', None)
        return (v.obj, v.off, v.idx if v.idx is None or isc(v.idx) else None)
    raise Unsupported('map key type %s' % (q.cargs[0],))
def bykey(ex, st, m, k, f):
    """f(state, key) for the key, or for every key of the map (and 'another') a symbolic key may be"""
    if not z3.is_bv(k): return f(st, k)
    r = []
    for c in m.d:
        if not isc(c) or not ex.maybe(st, eq(k, c, k.size())): continue
        s = st.copy(); s.assume(eq(k, c, k.size()))
        if not ex.feasible(s): continue
        r.append((s, f(s, c)))
    s = st.copy()
    for c in m.d:
        x = ne(k, c, k.size())
        if x is not True: s.assume(x)
    if ex.feasible(s): r.append((s, f(s, None)))
    return Outs(r)
def getmap(ex, st, p, q):
    m = st.cell(loc(p))
    if m is None:
        hook = getattr(ex, 'lazy_map', None)
        if hook: m = hook(ex, st, p, q)
        if m is None: raise Unsupported('map without ghost state')
    return m
def isom(m): return isinstance(m, OMap)
def defer(m, name, *a):
    f = getattr(m, name, None)
    if f is None: raise Unsupported('map operation %s' % name)
    return f(*a)
@smodel('map', 'unordered_map', classes=MAPC)
def m_ctor(ex, st, args, ci):
    if len(args) == 1: 
        hook = getattr(ex, 'map_ctor', None)
        v = hook(ex, st, args, ci) if hook else None
        st.setcell(loc(args[0]), v if v is not None else OMap({}, ci.q.cargs[1])); return None
    if ci.q.params[0].endswith('&'):
        m = getmap(ex, st, args[1], ci.q)
        if isom(m): m = OMap({k: newnode2(ex, st, m.vt, n) for k, n in m.d.items()}, m.vt)
        st.setcell(loc(args[0]), m); return None
    raise Unsupported(ci.q.full)
def newnode2(ex, st, vt, src):
    sz = st.sizes.get(src)
    o = st.new('node', sz)
    st.mem[o] = dict(st.mem[src])
    return o
@smodel('~map', '~unordered_map', classes=MAPC)
def m_dtor(ex, st, args, ci): return None
@smodel('find', classes=MAPC)
def m_find(ex, st, args, ci):
    m = getmap(ex, st, args[0], ci.q)
    if not isom(m): return defer(m, 'find', ex, st, args, ci)
    return bykey(ex, st, m, mkey(ex, st, args[1], ci.q), lambda s, k: MIter(loc(args[0]), k, m.d[k]) if k in m.d else MIter(loc(args[0]), 'end', None))
@smodel('end', 'cend', classes=MAPC)
def m_end(ex, st, args, ci):
    m = getmap(ex, st, args[0], ci.q)
    if not isom(m): return defer(m, 'end', ex, st, args, ci)
    return MIter(loc(args[0]), 'end', None)
@smodel('begin', 'cbegin', classes=MAPC)
def m_begin(ex, st, args, ci):
    m = getmap(ex, st, args[0], ci.q)
    if not isom(m): return defer(m, 'begin', ex, st, args, ci)
    if not m.d: return MIter(loc(args[0]), 'end', None)
    raise Unsupported('iteration over a map')
@smodel('operator[]', classes=MAPC)
def m_index(ex, st, args, ci):
    m = getmap(ex, st, args[0], ci.q)
    if not isom(m): return defer(m, 'index', ex, st, args, ci)
    def at(st, k):
        if k in m.d: return Ptr(m.d[k], 0)
        if k is None: raise Unsupported('symbolic new map key')
        o = mapnode(ex, st, m.vt)
        d = dict(m.d); d[k] = o
        st.setcell(loc(args[0]), OMap(d, m.vt))
        return Ptr(o, 0)
    return bykey(ex, st, m, mkey(ex, st, args[1], ci.q), at)
def mapnode(ex, st, vt):
    k = kind_of(vt)
    if not isinstance(k, tuple):
        o = st.new('node', 8)
        st.put(o, 0, NULL if k == 'ptr' else 0.0 if k == 'f' else 0)
        return o
    if vt.startswith('std::stack<') or vt.startswith('std::vector<') or vt.startswith('std::list<') or vt.startswith('std::deque<'):
        from .names import split_top
        et = split_top(vt[vt.index('<')+1:vt.rindex('>')])[0]
        o = st.new('node', 80)
        st.put(o, 0, empty_for(kind_of(et)))
        return o
    if 'basic_string' in vt:
        o = st.new('node', 32); st.put(o, 0, seq_of([], 8)); return o
    if vt == 'Funge::Vector':
        o = st.new('node', 24); st.put(o, 0, Seq(AConst(0), 0, 0, 64)); return o
    raise Unsupported('map value type %s' % vt)
@smodel('count', classes=MAPC)
def m_count(ex, st, args, ci):
    m = getmap(ex, st, args[0], ci.q)
    if not isom(m): return defer(m, 'count', ex, st, args, ci)
    return bykey(ex, st, m, mkey(ex, st, args[1], ci.q), lambda s, k: 1 if k in m.d else 0)
@smodel('contains', classes=MAPC)
def m_contains(ex, st, args, ci):
    m = getmap(ex, st, args[0], ci.q)
    if not isom(m): return defer(m, 'contains', ex, st, args, ci)
    return bykey(ex, st, m, mkey(ex, st, args[1], ci.q), lambda s, k: 1 if k in m.d else 0)
@smodel('at', classes=MAPC)
def m_at(ex, st, args, ci):
    m = getmap(ex, st, args[0], ci.q)
    if not isom(m): return defer(m, 'at', ex, st, args, ci)
    k = mkey(ex, st, args[1], ci.q)
    if z3.is_bv(k): raise Unsupported('symbolic map key')
    if k not in m.d: ex.oblige(st, False, 'map-key-present'); raise PathEnd()
    return Ptr(m.d[k], 0)
@smodel('clear', classes=MAPC)
def m_clear(ex, st, args, ci):
    m = getmap(ex, st, args[0], ci.q)
    if not isom(m): return defer(m, 'clear', ex, st, args, ci)
    st.setcell(loc(args[0]), OMap({}, m.vt)); return None
@smodel('empty', classes=MAPC)
def m_empty(ex, st, args, ci):
    m = getmap(ex, st, args[0], ci.q)
    if not isom(m): return eq(defer(m, 'size', ex, st, args, ci), 0)
    return not m.d
@smodel('size', classes=MAPC)
def m_size(ex, st, args, ci):
    m = getmap(ex, st, args[0], ci.q)
    if not isom(m): return defer(m, 'size', ex, st, args, ci)
    return len(m.d)
@smodel('erase', classes=MAPC)
def m_erase(ex, st, args, ci):
    m = getmap(ex, st, args[0], ci.q)
    if not isom(m): return defer(m, 'erase', ex, st, args, ci)
    d = dict(m.d)
    x = args[1]
    if 'iterator' in ci.q.params[0].lower():
        it = iterval(ex, st, x)
        if it.key == 'end': ex.oblige(st, False, 'erase-position-in-range'); raise PathEnd()
        del d[it.key]
    else:
        k = mkey(ex, st, x, ci.q)
        if z3.is_bv(k): raise Unsupported('symbolic map key')
        d.pop(k, None)
    st.setcell(loc(args[0]), OMap(d, m.vt)); return None
for _c in ('std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', 'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator', 'std::__detail::_Node_iterator_base'):
    def _mk(cn):
        def it_ctor2(ex, st, args, ci):
            if len(args) == 1: return None
            v = iterval(ex, st, args[1])
            st.setcell(loc(args[0]), v); return None
        def it_arrow(ex, st, args, ci):
            it = iterval(ex, st, args[0])
            if isinstance(it, IterVal):
                from . import smap
                return smap.enum_deref(ex, st, it)
            if isinstance(it, MIter):
                if it.key == 'end': ex.oblige(st, False, 'iterator-dereferenceable'); raise PathEnd()
                # pair<const K, V>: first at 0, second behind it
                return pairptr(ex, st, it, ci)
            return it.arrow(ex, st, args, ci)
        def it_eq2(ex, st, args, ci): return it_eqv(ex, st, args[0], args[1])
        def it_ne2(ex, st, args, ci): return not_(it_eqv(ex, st, args[0], args[1]))
        def it_inc2(ex, st, args, ci):
            t = _this(ci, args)
            it = iterval(ex, st, t)
            if isinstance(it, MIter): raise Unsupported('map iteration')
            if isinstance(it, IterVal):
                st.setcell(loc(t), IterVal(it.cont, add(it.pos, 1)))
                if ci.q.params: return mkiter(st, ci, args, it)
                return t
            return it.inc(ex, st, args, ci)
        last = cn.split('::')[-1]
        MODELS[cn + '::' + last] = it_ctor2
        MODELS[cn + '::operator->'] = it_arrow
        MODELS[cn + '::operator*'] = it_arrow
        MODELS[cn + '::operator=='] = it_eq2
        MODELS[cn + '::operator!='] = it_ne2
        MODELS[cn + '::operator++'] = it_inc2
    _mk(_c)
MODELS['std::__detail::operator=='] = lambda ex, st, args, ci: it_eqv(ex, st, args[0], args[1])
MODELS['std::__detail::operator!='] = lambda ex, st, args, ci: not_(it_eqv(ex, st, args[0], args[1]))
def pairptr(ex, st, it, ci):
    # view {key @0, value @8...} aliasing the node: nodes hold the value at offset 0, so present them at -8
    k = it.key
    st.put(it.node, -8, k if isc(k) else None)
    return Ptr(it.node, -8)

# ---- smart pointers: the pointer cell at offset 0
for _c in ('std::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr'):
    def _mk2(c):
        last = c.split('::')[-1]
        def ctor(ex, st, args, ci):
            if len(args) == 1: st.setcell(loc(args[0]), NULL); return None
            p = ci.q.params[0]
            if p.endswith('&') or p.endswith('&&'):
                if p.startswith('std::nullptr_t') : st.setcell(loc(args[0]), NULL); return None
                st.setcell(loc(args[0]), st.cell(loc(args[1])))
            elif p == 'decltype(nullptr)': st.setcell(loc(args[0]), NULL)
            else: st.setcell(loc(args[0]), args[1])
            return None
        def get(ex, st, args, ci): return st.cell(loc(args[0]))
        def asg(ex, st, args, ci):
            st.setcell(loc(args[0]), st.cell(loc(args[1]))); return args[0]
        MODELS[c + '::' + last] = ctor
        MODELS[c + '::~' + last] = lambda ex, st, args, ci: None
        for m in ('get', 'operator->', 'operator*'): MODELS[c + '::' + m] = get
        MODELS[c + '::operator='] = asg
        MODELS[c + '::operator bool'] = lambda ex, st, args, ci: not_(ex.ptr_eq(st.cell(loc(args[0])), NULL))
    _mk2(_c)
MODELS['std::__shared_ptr_access::operator*'] = MODELS['std::shared_ptr::get']
MODELS['std::__shared_ptr_access::operator->'] = MODELS['std::shared_ptr::get']
MODELS['std::__shared_ptr_access::get'] = MODELS['std::shared_ptr::get']

# ---- std::function (value = callable descriptor kept in one cell): (target functor region, invoker) or None
class FnVal:
    __slots__ = ('obj', 'size', 'invoke', 'tag')
    def __init__(self, obj, size, invoke, tag=None): self.obj, self.size, self.invoke, self.tag = obj, size, invoke, tag
    def __repr__(self): return 'FnVal(%r,%s)' % (self.obj, self.invoke)
def fn_isnull(ex, st, p):
    v = st.cell(loc(p))
    return v is None or v == 'nofn'
@model('std::function::function')
def fn_ctor(ex, st, args, ci):
    if len(args) == 1: st.setcell(loc(args[0]), 'nofn'); return None
    p = ci.q.params[0] if ci.q.params else ''
    if 'nullptr' in p: st.setcell(loc(args[0]), 'nofn'); return None
    if p.startswith('std::function<'):
        v = st.cell(loc(args[1]))
        st.setcell(loc(args[0]), v if v is not None else 'nofn'); return None
    return mkfn(ex, st, args, ci, p)
def mkfn(ex, st, args, ci, p):
    # find the functor's call operator: the _Function_handler<Sig, F>::_M_invoke instantiated by this constructor's body
    fn = ex.prog.fn(ci.name).parse()
    inv = None
    for b in fn.blocks.values():
        for ins in b:
            if ins.op == 'store' and ins.a[1][0] == 'g' and '_M_invoke' in ins.a[1][1]: inv = ins.a[1][1]
    if inv is None: raise Unsupported('std::function constructor without an invoker')
    a = args[1]
    if isinstance(a, FnPtr) or is_null(a):
        o = st.new('fnobj', 8); st.put(o, 0, a)
    else:
        src = a
        sz = st.sizes.get(src.obj) if src.off == 0 else None
        o = st.new('fnobj', sz or 64)
        if src.obj[0] != 'undef':
            ex.copy_region(st, Ptr(o, 0), src, sz or 64)
    st.setcell(loc(args[0]), FnVal(o, 0, inv)); return None
@model('std::function::~function')
def fn_dtor(ex, st, args, ci): return None
@model('std::function::operator=')
def fn_assign(ex, st, args, ci):
    p = ci.q.params[0]
    if 'nullptr' in p: st.setcell(loc(args[0]), 'nofn'); return args[0]
    if p.startswith('std::function<'):
        v = st.cell(loc(args[1]))
        st.setcell(loc(args[0]), v if v is not None else 'nofn'); return args[0]
    mkf = None
    for b in ex.prog.fn(ci.name).parse().blocks.values():
        for ins in b:
            if ins.op == 'call' and ins.a[1][0] == 'g' and 'St8function' in ins.a[1][1] and 'C2' in ins.a[1][1]: mkf = ins.a[1][1]
    if mkf is None: raise Unsupported('function assignment')
    return Outs([(s, args[0]) for s, r in ex.call(st, mkf, args)])
@model('std::function::operator bool')
def fn_bool(ex, st, args, ci): return not fn_isnull(ex, st, args[0])
@model('std::function::swap')
def fn_swap(ex, st, args, ci):
    a, b = st.cell(loc(args[0])), st.cell(loc(args[1]))
    st.setcell(loc(args[0]), b); st.setcell(loc(args[1]), a); return None
@model('std::function::operator()')
def fn_call(ex, st, args, ci):
    k = 1 if ci.sret else 0
    v = st.cell(loc(args[k]))
    hook = getattr(ex, 'fn_hook', None)
    if hook:
        r = hook(ex, st, v, args, ci)
        if r is not None: return r
    if v is None or v == 'nofn':
        ex.oblige(st, False, 'empty-function-called'); raise PathEnd()
    # _M_invoke(const _Any_data&, args&&...): the functor is held in the any-data slot (pointer or local); scalars by reference
    fn = ex.prog.fn(v.invoke).parse()
    holder = st.new('anydata', 16)
    # both storage policies: local functors live in the buffer, others behind a pointer -> _M_get_pointer is modelled below
    st.put(holder, '#fn', v.obj)
    a2 = []
    if ci.sret: a2.append(args[0])
    a2.append(Ptr(holder, 0))
    for (t, nm, at), x in zip(fn.params[len(a2):], args[k+1:]):
        if t == 'ptr' and not isinstance(x, (Ptr, EPtr)):
            o = st.new('argtmp', 8); st.put(o, 0, x); a2.append(Ptr(o, 0))
        else: a2.append(x)
    return Outs(ex.call(st, v.invoke, a2))
@model('std::_Function_base::_Base_manager::_M_get_pointer')
def fn_getptr(ex, st, args, ci):
    o = st.get(args[0].obj, '#fn')
    if o is None: return NotImplemented
    return Ptr(o, 0)

# ---- concurrency primitives: single-threaded reasoning (assumption)
def noop(ex, st, args, ci): return None
for n in ('std::mutex::lock', 'std::mutex::unlock', 'std::mutex::mutex', 'std::mutex::~mutex', 'std::lock_guard::lock_guard', 'std::lock_guard::~lock_guard',
          'std::unique_lock::unique_lock', 'std::unique_lock::~unique_lock', 'std::unique_lock::lock', 'std::unique_lock::unlock', 'std::scoped_lock::scoped_lock', 'std::scoped_lock::~scoped_lock',
          'std::condition_variable::condition_variable', 'std::condition_variable::~condition_variable', 'std::condition_variable::notify_all', 'std::condition_variable::notify_one',
          'std::thread::thread', 'std::thread::~thread', 'std::allocator::allocator', 'std::allocator::~allocator', 'std::__new_allocator::__new_allocator', 'std::__new_allocator::~__new_allocator',
          'std::linear_congruential_engine::linear_congruential_engine', 'std::mersenne_twister_engine::mersenne_twister_engine', 'operator delete', 'operator delete[]',
          'std::this_thread::yield', 'sched_yield', 'std::recursive_mutex::lock', 'std::recursive_mutex::unlock', 'free', '_ZdlPv', '_ZdlPvm', '_ZdaPv', '__cxa_atexit', '__cxa_guard_release'):
    MODELS[n] = noop
MODELS['std::linear_congruential_engine::operator()'] = lambda ex, st, args, ci: fresh('lcg', 64)
MODELS['__cxa_guard_acquire'] = lambda ex, st, args, ci: 1

# ---- allocation
@model('operator new', 'operator new[]')
def op_new(ex, st, args, ci):
    n = args[0]
    if isc(n) and n in ex.fam_sizes:
        fam = ex.fam_sizes[n]
        k = st.nalloc.get(fam, 0)
        st.nalloc[fam] = k+1
        return Ptr(fam, 0, (1 << 63) + k)
    if not isc(n): raise Unsupported('symbolic allocation')
    return Ptr(st.new('heap', n), 0)

# ---- small libc
@model('abs')
def c_abs(ex, st, args, ci):
    return ite(slt(args[0], 0, 32), neg(args[0], 32), args[0], 32)
@model('labs', 'llabs')
def c_labs(ex, st, args, ci):
    return ite(slt(args[0], 0), neg(args[0]), args[0])
@model('exit', 'abort', '_exit', '_Exit', 'std::terminate', 'quick_exit')
def c_exit(ex, st, args, ci):
    if ci.q.base in ('abort', 'std::terminate'): ex.oblige(st, False, 'abort-reached')
    st.done = (ci.q.base, args[0] if args else None)
    st.event(('exit', args[0] if args else None))
    return None
@model('std::__throw_length_error', 'std::__throw_bad_alloc', 'std::__throw_out_of_range', 'std::__throw_out_of_range_fmt', 'std::__throw_logic_error', 'std::__throw_bad_function_call', 'std::__throw_bad_array_new_length', 'std::__throw_invalid_argument')
def c_throw(ex, st, args, ci):
    ex.oblige(st, False, 'uncaught-exception'); raise PathEnd()
@model('std::__glibcxx_assert_fail', '__assert_fail')
def c_assert(ex, st, args, ci):
    ex.oblige(st, False, 'assertion'); raise PathEnd()

# ---- stdin as an input history: byte k is inp(k) in [0,255] or EOF(-1)
def inchar(st, k):
    f = uf('stdin', (64,), 32)
    c = f(bv(k, 64))
    st.assume(z3.And(z3.BitVecVal(mask(32), 32) <= c, c <= 255))
    return c
def inpos(st): return st.ghost.get('inpos', 0)
@model('getchar')
def c_getchar(ex, st, args, ci):
    inp = st.ghost.get('stdin')        # concrete replay input
    p = inpos(st)
    st.ghost['inpos'] = add(p, 1)
    if inp is not None: return inp[p] if p < len(inp) else mask(32)
    return inchar(st, p)
@model('ungetc')
def c_ungetc(ex, st, args, ci):
    # push-back of the character just read (anything else is not modelled); EOF pushes nothing back
    p = inpos(st)
    c = args[0]
    r = []
    for s2, e in ex.branch(st, eq(c, mask(32), 32)):
        if not e:
            ex.oblige(s2, eq(c, inchar(s2, sub(p, 1)) if s2.ghost.get('stdin') is None else s2.ghost['stdin'][p-1], 32), 'ungetc-of-last-character')
            s2.ghost['inpos'] = sub(p, 1)
        r.append((s2, c))
    return Outs(r)
for n in ('tcgetattr', 'tcsetattr', 'fflush', 'isatty'):
    MODELS[n] = lambda ex, st, args, ci: 0
ctype = {'isspace': lambda c: or_(eq(c, 32, 32), and_(ule(9, c, 32), ule(c, 13, 32))), 'isdigit': lambda c: and_(ule(48, c, 32), ule(c, 57, 32))}
for n, f in ctype.items():
    def _mk3(f, n):
        def h(ex, st, args, ci):
            # C precondition: the argument is EOF or representable as unsigned char (glibc also tolerates -128..-2)
            ex.oblige(st, and_(sle(-128 & mask(32), args[0], 32), sle(args[0], 255, 32)), n + '-argument-in-range')
            return ite(f(args[0]), 1, 0, 32)
        return h
    MODELS[n] = _mk3(f, n)

# ---- output streams: each formatted insertion is an observable event
def stream_name(ex, p):
    if isinstance(p, Ptr) and isinstance(p.obj, tuple) and p.obj[0] == 'g':
        return {'_ZSt4cout': 'cout', '_ZSt4cerr': 'cerr', '_ZSt4clog': 'cerr', '_ZSt3cin': 'cin'}.get(p.obj[1], p.obj[1])
    if isinstance(p, Ptr): return p.obj
    raise Unsupported('stream')
def emit(ex, st, strm, kind, v):
    n = stream_name(ex, strm)
    if n == 'cerr': return
    st.event(('out', n, kind, v))
@model('std::basic_ostream::operator<<')
def os_insert(ex, st, args, ci):
    p = ci.q.params[0]
    if '(*)' in p:       # manipulator
        f = args[1]
        if isinstance(f, FnPtr) and 'endl' in f.name: emit(ex, st, args[0], 'char', 10)
        elif isinstance(f, FnPtr) and names.qname(f.name).base in ('std::hex', 'std::dec', 'std::oct'): st.event(('manip', stream_name(ex, args[0]), names.qname(f.name).base))
        elif isinstance(f, FnPtr) and 'flush' in f.name: pass
        else: raise Unsupported('manipulator %r' % (f,))
    elif p in ('int', 'short'): emit(ex, st, args[0], 'dec', sext(args[1], 32, 64))
    elif p in ('long', 'long long'): emit(ex, st, args[0], 'dec', args[1])
    elif p in ('unsigned int',): emit(ex, st, args[0], 'udec', zext(args[1], 32, 64))
    elif p in ('unsigned long', 'unsigned long long'): emit(ex, st, args[0], 'udec', args[1])
    elif p in ('double', 'float'): emit(ex, st, args[0], 'fp', args[1])
    elif p == 'bool': emit(ex, st, args[0], 'dec', zext(bl_(args[1]), 1, 64))
    else: raise Unsupported('insertion of ' + p)
    return args[0]
@model('std::operator<<')
def os_insert2(ex, st, args, ci):
    p = ci.q.params[1]
    if p in ('char', 'signed char', 'unsigned char'): emit(ex, st, args[0], 'char', args[1])
    elif p.startswith('char const*'):
        s = cstring(ex, st, args[1])
        if stream_name(ex, args[0]) != 'cerr':
            for k in range(s.hi): emit(ex, st, args[0], 'char', s.arr.rd(k))
    elif 'basic_string' in p: emit(ex, st, args[0], 'str', getseq(ex, st, args[1]))
    elif '_Set' in p: st.event(('manip', stream_name(ex, args[0]), p, args[1]))
    else: raise Unsupported('insertion of ' + p)
    return args[0]
@model('std::basic_ostream::put')
def os_put(ex, st, args, ci):
    emit(ex, st, args[0], 'char', args[1]); return args[0]
@model('std::endl')
def os_endl(ex, st, args, ci):
    emit(ex, st, args[0], 'char', 10); return args[0]
@model('std::flush', 'std::basic_ostream::flush')
def os_flush(ex, st, args, ci): return args[0]
@model('putchar')
def c_putchar(ex, st, args, ci):
    st.event(('out', 'cout', 'char', trunc(args[0], 32, 8))); return args[0]
