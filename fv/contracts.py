"""Contracts of the repository's own modules, used when a caller is verified (each is itself verified: Stack C01, Vector C02, Field C03/C04, IP C05)."""
from .term import *
from .exec import *
from .stl import OSeq, OMap, loc, getseq, emit, stream_name, mkiter
from . import stackmod as SM

CONTRACTS = {}
def contract(*ns):
    def d(f):
        for n in ns: CONTRACTS['Funge::' + n] = f
        return f
    return d

# ---------------------------------------------------------------- Vector: coordinates (zero beyond), plus "no components at all"
NC = 3
class VecG:
    __slots__ = ('c', 'e')
    def __init__(self, c, e=False): self.c, self.e = tuple(c) + (0,)*(NC-len(c)), e
    def get(self, d):
        if isc(d): return self.c[d] if d < NC else 0
        r = 0
        for k in range(NC): r = ite(eq(d, k), self.c[k], r)
        return r
    def size(self):
        r = ite(self.e, 0, 1)
        for k in range(1, NC): r = ite(ne(self.c[k], 0), k+1, r)
        return r
    def ite(self, c, o):
        if not isinstance(o, VecG): raise Unsupported('vector merge')
        return VecG([ite(c, a, b) for a, b in zip(self.c, o.c)], ite(c, self.e, o.e))
    def value_eq(self, o):
        return [(eq(a, b), ()) for a, b in zip(self.c, o.c)]
    def map2(self, o, f): return VecG([f(a, b) for a, b in zip(self.c, o.c)], and_(self.e, o.e) if (self.e is not False or o.e is not False) else False)
    def subst(self, f): return VecG([f(x) for x in self.c], self.e)
    def havoc(self, name):
        xs = [fresh(name) for _ in self.c]
        return VecG(xs, False), {x.decl().name() for x in xs}
    def __repr__(self): return 'Vec%r' % (self.c,)
    def add(self, o): return self.map2(o, add)
    def sub(self, o): return self.map2(o, sub)
    def neg(self): return VecG([neg(a) for a in self.c], self.e)
def vec(st, p):
    if isinstance(p, EPtr): raise Unsupported('vector inside a sequence')
    v = st.cell(loc(p))
    if v is None: raise Unsupported('vector at %r unknown' % (p,))
    if not isinstance(v, VecG): raise Unsupported('not a vector: %r' % (v,))
    return v
def setvec(st, p, v): st.setcell(loc(p), v)
def initlist(ex, st, base, n):
    if not isc(n): raise Unsupported('initializer_list length')
    if n > NC: raise Unsupported('more than %d dimensions' % NC)
    return [ex.load(st, base.plus(8*i), ('i', 64), None) for i in range(n)]
@contract('Vector::Vector')
def v_ctor(ex, st, a, ci):
    ps = ci.q.params
    if not ps: setvec(st, a[0], VecG((), True))
    elif 'initializer_list' in ps[0]:
        l = initlist(ex, st, a[1], a[2])
        setvec(st, a[0], VecG(l, len(l) == 0))
    elif ps[0].startswith('Funge::Vector'): setvec(st, a[0], vec(st, a[1]))
    else: return NotImplemented
@contract('Vector::~Vector')
def v_dtor(ex, st, a, ci): return None
@contract('Vector::operator=')
def v_asg(ex, st, a, ci):
    if 'initializer_list' in ci.q.params[0]:
        l = initlist(ex, st, a[1], a[2]); setvec(st, a[0], VecG(l, len(l) == 0))
    else: setvec(st, a[0], vec(st, a[1]))
    return a[0]
@contract('Vector::size')
def v_size(ex, st, a, ci): return vec(st, a[0]).size()
@contract('Vector::get', 'Vector::operator[]')
def v_get(ex, st, a, ci): return vec(st, a[0]).get(a[1])
@contract('Vector::set')
def v_set(ex, st, a, ci):
    v = vec(st, a[0]); d = a[1]
    if isc(d):
        if d >= NC: raise Unsupported('vector beyond %d dimensions' % NC)
        c = list(v.c); c[d] = a[2]
    else:
        if not ex.proves(st, ult(d, NC)): raise Unsupported('vector component index not bounded')
        c = [ite(eq(d, k), a[2], v.c[k]) for k in range(NC)]
    setvec(st, a[0], VecG(c, False))
@contract('Vector::reverse')
def v_rev(ex, st, a, ci): setvec(st, a[0], vec(st, a[0]).neg())
def v_turn(sx, sy):
    def f(ex, st, a, ci):
        v = vec(st, a[0])
        setvec(st, a[0], VecG((neg(v.c[1]) if sx else v.c[1], neg(v.c[0]) if sy else v.c[0]) + v.c[2:], False))
    return f
CONTRACTS['Funge::Vector::left'] = v_turn(False, True)
CONTRACTS['Funge::Vector::right'] = v_turn(True, False)
def v_acc(op):
    def f(ex, st, a, ci):
        setvec(st, a[0], vec(st, a[0]).map2(vec(st, a[1]), op)); return a[0]
    return f
CONTRACTS['Funge::Vector::operator+='] = v_acc(add)
CONTRACTS['Funge::Vector::operator-='] = v_acc(sub)
def v_bin(op):
    def f(ex, st, a, ci):
        if len(ci.q.params) != 2 or 'Vector' not in ci.q.params[0]: return NotImplemented
        setvec(st, a[0], vec(st, a[1]).map2(vec(st, a[2]), op)); return None
    return f
CONTRACTS['Funge::operator+'] = v_bin(add)
CONTRACTS['Funge::operator-'] = v_bin(sub)
def vless(a, b, eqv):
    r = eqv
    for k in range(NC): r = ite(slt(a.c[k], b.c[k]), True, ite(slt(b.c[k], a.c[k]), False, r))
    return r
CONTRACTS['Funge::Vector::operator<'] = lambda ex, st, a, ci: vless(vec(st, a[0]), vec(st, a[1]), False)
CONTRACTS['Funge::Vector::operator<='] = lambda ex, st, a, ci: vless(vec(st, a[0]), vec(st, a[1]), True)
CONTRACTS['Funge::Vector::operator=='] = lambda ex, st, a, ci: and_(*[eq(x, y) for x, y in zip(vec(st, a[0]).c, vec(st, a[1]).c)])
CONTRACTS['Funge::Vector::operator!='] = lambda ex, st, a, ci: not_(and_(*[eq(x, y) for x, y in zip(vec(st, a[0]).c, vec(st, a[1]).c)]))

# ---------------------------------------------------------------- Stack
class StackLoc:
    def __init__(self, lay):
        self.MO = lay.bytype('Funge::Stack', lambda t: t == 'FungeMode')
        self.SO = lay.bytype('Funge::Stack', lambda t: t.startswith(('std::list<', 'std::deque<', 'std::vector<')))
        self.OO = lay.bytype('Funge::Stack', lambda t: t in ('size_t', 'unsigned long'))
def stk(ex, st, p):
    if isinstance(p, EPtr): raise Unsupported('stack by element reference')
    if is_null(p): ex.oblige(st, False, 'null-dereference'); raise PathEnd()
    L = ex.sl
    obj, off, idx = loc(p)
    if off != 0: raise Unsupported('stack inside an object')
    return (obj, L.SO, idx), (obj, L.MO, idx), (obj, L.OO, idx)
def aged(st, lo):
    st.setcell(lo, add(st.cell(lo), 1))
def log(st, op, l, v, m):
    if 'oplog' in st.ghost: st.ghost['oplog'] = st.ghost['oplog'] + ((op, l, v, m),)
@contract('Stack::pop')
def s_pop(ex, st, a, ci):
    s, m, o = stk(ex, st, a[0])
    mode = st.cell(m)
    v, s2 = SM.pop(st.cell(s), mode)
    st.setcell(s, s2); aged(st, o)
    log(st, 'pop', s, v, mode)
    return v
@contract('Stack::push')
def s_push(ex, st, a, ci):
    s, m, o = stk(ex, st, a[0])
    mode = st.cell(m)
    s2 = SM.push(st.cell(s), mode, a[1])
    st.setcell(s, s2); aged(st, o)
    log(st, 'push', s, a[1], mode)
    return 1
@contract('Stack::peek')
def s_peek(ex, st, a, ci):
    s, m, o = stk(ex, st, a[0])
    return SM.popval(st.cell(s), st.cell(m), 0)
@contract('Stack::get', 'Stack::operator[]')
def s_get(ex, st, a, ci):
    s, m, o = stk(ex, st, a[0])
    return SM.get(st.cell(s), st.cell(m), a[1])
@contract('Stack::clear')
def s_clear(ex, st, a, ci):
    s, m, o = stk(ex, st, a[0])
    q = st.cell(s)
    st.setcell(s, Seq(AConst(0), 0, 0, 64)); aged(st, o)
    log(st, 'other', s, None, None)
@contract('Stack::size')
def s_size(ex, st, a, ci):
    s, m, o = stk(ex, st, a[0])
    n = st.cell(s).size()
    return n
@contract('Stack::setMode')
def s_mode(ex, st, a, ci):
    s, m, o = stk(ex, st, a[0])
    st.setcell(m, a[1])
    log(st, 'other', s, None, None)

@contract('StackStack::setMode')
def ss_mode(ex, st, a, ci):
    w = ex.world
    if not hasattr(w, 'ss'): return NotImplemented      # while the runner is being constructed
    obj, off, idx = loc(a[0])
    if off == 0 and ('copyof', obj) in st.mem:
        fam = ('copyof', obj)
        if w.SSM is not None: st.put(obj, w.SSM, a[1])
        m = a[1]; st.put(fam, ex.sl.MO, ALam(lambda i: m)); return None
    if obj != w.ss or off != 0: raise Unsupported('mode of another stack stack')
    m = a[1]
    if w.SSM is not None: st.put(w.ss, w.SSM, m)
    d = dict(st.mem[w.fam]); d[ex.sl.MO] = ALam(lambda i: m); st.mem[w.fam] = d

@contract('StackStack::StackStack')
def ss_copy(ex, st, a, ci):
    """copy: as many stacks, with the same contents, the same one selected, default mode"""
    w = ex.world
    if not hasattr(w, 'ss') or not ci.q.params: return NotImplemented
    src, dst = loc(a[1]), loc(a[0])
    if src[0] != w.ss or src[1] != 0 or dst[1] != 0 or dst[2] is not None: raise Unsupported('copy of another stack stack')
    L = ex.sl
    s, so = st.get(w.ss, w.STK), st.mem[w.fam][L.SO]
    fam = ('copyof', dst[0])
    st.put(dst[0], w.STK, Seq(ALam(lambda j: Ptr(fam, 0, j)), 0, s.size(), 'ptr'))
    st.put(dst[0], w.SEL, st.get(w.ss, w.SEL))
    if w.SSM is not None: st.put(dst[0], w.SSM, 0)
    st.mem[fam] = {L.SO: ALam(lambda j: so.rd(s.at(j).idx)), L.MO: AConst(0), L.OO: AConst(0)}
    return None

# ---------------------------------------------------------------- Field: cells + version token (bounds and motion depend on it)
CELLS = lambda st: st.ghost['field']
def cellnorm(ex, st, v):
    return ite(eq(ex.world.cellsize(st), 1, 32), sext(trunc(v, 64, 8), 8, 64), v)
PUTF = uf('PUT', (64,)*(NC+2))
def field_put(ex, st, p, v):
    v = cellnorm(ex, st, v)
    st.ghost['field'] = st.ghost['field'].store(p.c, v)
    st.ghost['ftok'] = PUTF(st.ghost['ftok'], *[bv(x) for x in p.c], bv(v))
@contract('Field::put')
def f_put(ex, st, a, ci): field_put(ex, st, vec(st, a[1]), a[2])
@contract('Field::get', 'Field::operator[]')
def f_get(ex, st, a, ci): return CELLS(st).rd(*vec(st, a[1]).c)
MINF, MAXF = uf('FMIN', (64, 64)), uf('FMAX', (64, 64))
@contract('Field::min')
def f_min(ex, st, a, ci): return MINF(st.ghost['ftok'], bv(a[1]))
@contract('Field::max')
def f_max(ex, st, a, ci): return MAXF(st.ghost['ftok'], bv(a[1]))
@contract('Field::size')
def f_size(ex, st, a, ci): return ex.world.dims
# ---------------------------------------------------------------- motion
NEXTF = [uf('NEXT%d' % k, (64,)*(2*NC+1)) for k in range(NC)]
def advance(ex, st, pos, delta):
    w = ex.world
    topo = w.topo(st)
    s = pos.add(delta)
    def wrap(x, n): return ite(sle(n, x), 0, ite(slt(x, 0), n-1, x))
    tor = VecG((wrap(s.c[0], 80), wrap(s.c[1], 25)) + s.c[2:])
    args = [bv(st.ghost['ftok'])] + [bv(x) for x in pos.c + delta.c]
    lah = VecG([f(*args) for f in NEXTF])
    return VecG([ite(eq(topo, 0, 32), a, b) for a, b in zip(tor.c, lah.c)])
@contract('InstructionPointer::inField')
def ip_infield(ex, st, a, ci):
    w = ex.world
    base = loc(a[0])
    p = st.cell((base[0], base[1]+w.IPP, base[2]))
    return and_(*[and_(sle(f_min(ex, st, (None, d), ci), p.c[d]), sle(p.c[d], f_max(ex, st, (None, d), ci))) for d in range(w.dims)])
@contract('InstructionPointer::next')
def ip_next(ex, st, a, ci):
    w = ex.world
    base = loc(a[0])
    def at(o): return (base[0], base[1]+o, base[2])
    stopped = st.cell(at(w.IPS))
    stopped = ne(stopped, 0, 8) if not (isinstance(stopped, bool) or z3.is_bool(stopped)) else stopped
    p = st.cell(at(w.IPP))
    st.setcell(at(w.IPP), advance(ex, st, p, st.cell(at(w.IPD))).ite(not_(stopped), p))
    if 'nextlog' in st.ghost: st.ghost['nextlog'] = st.ghost['nextlog']+1

# ---------------------------------------------------------------- an instruction executed by an instruction: any effect, recorded as a token
EXE, EXR = uf('EXECUTED', (64, 64)), uf('EXECRESULT', (64, 64), 32)
def abstract_execute(ex, st, a, ci):
    if not any('FungeRunner::execute' in str(s) for s in ex.stack): return NotImplemented
    t = st.ghost['etok']
    st.ghost['etok'] = EXE(bv(t), bv(a[1]))
    return EXR(bv(t), bv(a[1]))

# the whole machine as the instruction leaves it: what a tick looks at afterwards is arbitrary, a function of the machine before
STEP = uf('STEP', (64,)*(2*NC+4))
def machine_step(ex, st, i):
    w = ex.world
    def at(o): return (w.runner, w.RIP+o, None)
    p, d = st.cell(at(w.IPP)), st.cell(at(w.IPD))
    s = st.cell(at(w.IPS))
    s = ite(s, 1, 0) if isinstance(s, bool) or z3.is_bool(s) else zext(s, 8, 64) if not isc(s) else s
    t = STEP(bv(st.ghost['etok']), bv(i), bv(st.ghost['ftok']), bv(s), *[bv(x) for x in p.c + d.c])
    st.ghost['etok'] = t
    for n, o in (('POS', w.IPP), ('DELTA', w.IPD)): st.setcell(at(o), VecG([uf('X%s%d' % (n, k), (64,))(t) for k in range(w.dims)]))
    stp = uf('XSTOP', (64,), 8)(t); st.assume(z3.ULE(stp, 1)); st.setcell(at(w.IPS), stp)
    st.ghost['field'] = ALam(lambda *k: uf('XCELL', (64,)*(1+NC))(t, *[bv(x) for x in k]))
    st.ghost['ftok'] = uf('XFIELD', (64,))(t)
    return uf('XRESULT', (64,), 32)(t)
def abstract_step(ex, st, a, ci): return machine_step(ex, st, a[1])
# ---------------------------------------------------------------- randomness
RAND = uf('RAND', (64,))
@contract('FungeStrategy::random')
def rnd(ex, st, a, ci):
    k = st.ghost.get('rnd', 0)
    st.ghost['rnd'] = k+1
    st.ghost['rlo'], st.ghost['rhi'] = a[1], a[2]
    r = RAND(z3.BitVecVal(k, 64))
    ex.oblige(st, and_(sle(a[1], a[2]), sle(-(1 << 31) & mask(64), a[1]), slt(a[2], 1 << 31)), 'random-range-valid')
    st.assume(z3.And(bv(a[1]) <= r, r <= bv(a[2])))
    return r
# ---------------------------------------------------------------- debugger hooks: no effect on Funge state unless debugging (FungeDebugger is outside the properties)
for n in ('FungeDebugger::tick', 'FungeDebugger::trap', 'FungeDebugger::endThread'):
    CONTRACTS['Funge::' + n] = lambda ex, st, a, ci: None
def shown(ex, st, a, ci):
    if stream_name(ex, a[0]) != 'cerr': return NotImplemented
    return a[0]
CONTRACTS['Funge::operator<<'] = shown          # messages on the error stream are not part of any property
CONTRACTS['ScopedTermios::ScopedTermios'] = lambda ex, st, a, ci: None
CONTRACTS['ScopedTermios::~ScopedTermios'] = lambda ex, st, a, ci: None

# ---------------------------------------------------------------- the system call
SYSRET = uf('SYSRET', (64,), 32)
def system_(ex, st, a, ci):
    from .stl import cstring
    st.event(('system', cstring(ex, st, a[0])))
    k = st.ghost.get('sysn', 0); st.ghost['sysn'] = k+1
    return SYSRET(bv(k))
CONTRACTS['system'] = system_
