"""The ><> and *><> dialects: every value is a double.  Doubles are bit patterns here, and the operations on them functions of which only the
meaning on constants is known: what is proved is which operation is applied to which values in which order, and what becomes of the result."""
from .units import *
from .world import NONE, SKIP, UNIMP, UNSPEC, V
from . import case as K
from .exec import F_FROM, F_INT, F_LT, F_EQ, fp_op, dbits
from . import specs as s, fpspecs as f, contracts as C
from .contracts import VecG
FISH, SFISH = -1, -2
UNI = Exception
def need(n, spec):
    """fails when fewer than n values are there"""
    def g(S):
        if S(ult(S.size(), n)): return UNSPEC
        return spec(S)
    return g
def dims(S): return S.w.dims
def needv(spec, more=0):
    def g(S): return need(dims(S)+more, spec)(S)
    return g
def turning(to):
    """a change of direction; the fisherman of *><> remembers the last horizontal one"""
    def g(S):
        S.turn(to(S))
        if (S.st.get(S.w.uni, 'standard') == SFISH & mask(32)) if concrete(S) else S.w.standard == SFISH:
            d = S.delta
            S.setfp('cache', d.ite(and_(ne(d.c[0], 0), eq(d.c[1], 0)), S.fp('cache')))
        return NONE
    return g
def concrete(S): return getattr(S, 'concrete', False)
def const(n): return lambda S: (S.push(F_FROM(n)), NONE)[1]
def arith(op): return need(2, lambda S: (S.push((lambda x, y: op(y, x))(S.pop(), S.pop())), NONE)[1])
def fop(n): return lambda y, x: fp_op(n, y, x)
def div(S):
    x = S.pop(); y = S.pop()
    if S(F_EQ(x, 0)): return UNSPEC
    S.push(fp_op('fdiv', y, x)); return NONE
def mod(S):
    x = F_INT(S.pop()); y = F_INT(S.pop())
    if S(eq(x, 0)): return UNSPEC
    S.push(0 if S(eq(x, s.M1)) else F_FROM(srem(y, x))); return NONE
def truth(c): return F_FROM(ite(c, 1, 0))
def cond(S):
    if S(F_EQ(S.pop(), 0)): S.next()
    return NONE
def popv(S):
    v = S.popvec()
    return VecG([F_INT(x) for x in v.c])
def jump(S): S.pos = popv(S); return NONE
def get(S): S.push(F_FROM(S.cell(popv(S).add(S.storage)))); return NONE
def put(S):
    v = popv(S).add(S.storage); S.store(v, F_INT(S.pop())); return NONE
def length(S): S.push(F_FROM(S.size())); return NONE
def outchar(S): S.out('char', trunc(F_INT(S.pop()), 64, 8)); return NONE
def outnum(S):
    x = S.pop(); i = F_INT(x)
    if S(F_EQ(x, F_FROM(i))): S.out('dec', i)
    else: S.out('fp', x)
    return NONE
def read(S):
    """the next character; -1 at the end of the input"""
    c = S.inch(S.inpos); S.inpos = add(S.inpos, 1)
    S.push(F_FROM(s.M1 if S(eq(c, s.EOFC, 32)) else sext(c, 32, 64))); return NONE
def string(end):
    def g(S): S.strend = ord(end); S.setstate(True); return NONE
    return g
# the registers: one per stack, the topmost last
def regs(S): return list(S.st.ghost.get('regs', ((0, 0),)))
def setregs(S, r): S.st.ghost['regs'] = tuple(r)
def register(S):
    r = regs(S)
    if not r and concrete(S): raise K.Skip()
    full, v = r[-1]
    if S(ne(full, 0, 8)):
        S.push(v); setregs(S, r[:-1] + [(0, 0)]); return NONE
    if S(ult(S.size(), 1)): return UNSPEC
    setregs(S, r[:-1] + [(1, S.pop())]); return NONE
def newstack(S):
    """a new stack with an empty register; the n topmost values move there and stay in order"""
    n = F_INT(S.pop())
    S.newstack()
    if S(ult(S.size(1), n)): return UNSPEC
    g = S.reader(1); S.popn(n, 1)
    S.pushn(n, lambda j: g(sub(sub(n, 1), j)))
    setregs(S, regs(S) + [(0, 0)]); return NONE
def endstack(S):
    """back to the stack below, which gets the values in order; the register goes"""
    if S(sle(S.nstacks(), 1)): return UNSPEC
    n = S.size(); g = S.reader()
    S.popn(n); S.pushn(n, lambda j: g(sub(sub(n, 1), j)), 1)
    S.dropstack()
    if not regs(S) and concrete(S): raise K.Skip()
    setregs(S, regs(S)[:-1]); return NONE
# *><>
def callsub(S):
    """the position is kept on a stack of its own below"""
    p = S.pos
    S.newstack(1)
    for k in range(dims(S)): S.push(F_FROM(p.c[k]), 1)
    if S(ult(S.size(), dims(S))): return UNSPEC
    S.pos = popv(S); return NONE
def endsub(S):
    if S(ult(S.size(1), dims(S))): return UNSPEC
    v = [0]*dims(S)
    for k in range(dims(S)-1, -1, -1): v[k] = F_INT(S.pop(1))
    S.pos = VecG(v); S.dropstack(1); return NONE
def under(S): return slt(add(S.sel, 1), S.nstacks())

def fish(w, st):
    """the object of the dialect, with arbitrary registers (and fisherman)"""
    L = w.lay
    o = L.bytype('Funge::FungeRunner', lambda t: t.startswith(('std::vector<', 'std::deque<', 'std::list<')) and 'Strategy' in t)
    q = st.get(w.runner, o)
    c = 'Funge::FishStrategy' if w.standard == FISH else 'Funge::StarfishStrategy'
    for k in range(q.size()):
        p = q.at(k)
        if st.sizes.get(p.obj) == L.size[c]: return p.obj, c
    raise Unsupported('no object of the dialect')
def regoff(w, c):
    mo = [o for o, t, n in w.lay.members(c) if t.startswith('std::stack<') or 'reg>' in t]
    if len(mo) != 1: raise Unsupported('registers')
    return mo[0]
def arbitrary(w, st):
    obj, c = fish(w, st)
    L = w.lay
    ro = regoff(w, c)
    old = st.get(obj, ro)
    if not isinstance(old, OSeq) or old.size() != 1: raise Unsupported('registers')
    top = old.items[0]
    rs = []
    for k in range(2):
        n = st.new('node', 16)
        a, b = z3.BitVec('regset%d' % k, 8), z3.BitVec('regval%d' % k, 64)
        st.assume(z3.ULE(a, 1))
        offs = sorted(x for x in st.mem[top] if isinstance(x, int))
        if offs != [0, 8]: raise Unsupported('layout of the registers')
        st.put(n, 0, a); st.put(n, 8, b)
        rs.append((n, a, b))
    st.put(obj, ro, OSeq([n for n, a, b in rs], old.et))
    st.ghost['regs'] = tuple((a, b) for n, a, b in rs)
    w.fishobj, w.fishreg, w.regnodes = obj, ro, {n for n, a, b in rs}
    if w.standard == SFISH:
        fo = L.bytype(c, lambda t: 'enum' in t or t == 'bool'); co = L.bytype(c, lambda t: t in ('Vector', 'Funge::Vector'))
        st.put(obj, fo, z3.BitVec('fisherstate', 32)); st.assume(z3.ULE(z3.BitVec('fisherstate', 32), 1))
        st.put(obj, co, VecG((z3.BitVec('fcache0', 64), z3.BitVec('fcache1', 64))))
        w.fpmem['up'], w.fpmem['cache'] = (obj, fo), (obj, co)
def cmpregs(w):
    def post(ex, code, S, rv, want):
        q = code.get(w.fishobj, w.fishreg)
        if not isinstance(q, OSeq): raise Unsupported('registers')
        r = regs(S)
        unit.goal(ex, code, S.st, q.size() == len(r), (), 'post: number of registers', '')
        for n, (a, b) in zip(q.items, r):
            x, v = code.mem[n].get(0), code.mem[n].get(8)
            x = ite(x, 1, 0) if isinstance(x, bool) or z3.is_bool(x) else x
            unit.goal(ex, code, S.st, eq(ne(x, 0, 8), ne(a, 0, 8)) if not isinstance(ne(a, 0, 8), bool) or not isinstance(ne(x, 0, 8), bool) else ne(x, 0, 8) == ne(a, 0, 8), (), 'post: a register holds a value or not', '')
            unit.goal(ex, code, S.st, or_(eq(a, 0, 8), eq(v, b)), (), 'post: the value of a register', '')
    return post

# ------------------------------------------------------------------ concrete cases
NUMS = [0, 0, 0, 1, 1, 2, 3, -1, -1, -2, 4, 5, 0.5, 0.25, -0.5, 1.5, 2.75, 7, 8, 10, 13, 65, 97, 100, -7.25, 1e6, 123456, 255, 256, 1e15]
def doubles(rng, c, top=()):
    c['stacks'] = [[sgn(dbits(float(rng.choice(NUMS)))) for _ in st] for st in c['stacks']]
    t = c['stacks'][-1-c.get('sel', 0)]
    for k, vs in enumerate(top):
        q = c['smode'] & 0x8000
        if k < len(t): t[k if q else len(t)-1-k] = sgn(dbits(float(rng.choice(vs))))
FEW = list(range(-1, 6))
SPECS = {}
def edit(std, chars, top=(), seq=()):
    def g(rng, c):
        doubles(rng, c, top)
        if rng.random() < .6: c['mode'] &= ~0x32000
        if chars in 'uO': c['smode'] = c['mode']
        if seq and rng.random() < .7: c['calls'] = [(0, ord(rng.choice(seq))) for _ in range(rng.choice([1, 2, 3, 4]))] + c['calls']
    return g
def seqs(S):
    ch = chr(S.called[1])
    sp, mv = SPECS[ch]
    if not mv and S(S.ismode(0x20000)): return SKIP
    return sp(S)
def F(ch, spec, movement=False, top=(), seq=(), std=FISH, split=False, **kw):
    SPECS[ch] = (spec, movement)
    hint = dict(small=.9, edit=edit(std, ch, top, seq), **kw.pop('hint', {}))
    return FishI(ch, ch, spec, movement=movement, worlds=((2, std),), hint=hint, split=split, cspec=seqs, **kw)
class FishI(Instr):
    also = None
    def cspec(self, S): return seqs(S)
    def run(self, ctx, arg):
        key, sp = arg
        w = ctx.world(key)
        def ghost(w, st):
            arbitrary(w, st)
            if self.also: self.also(w, st)
        self.ghost = ghost
        self.post = cmpregs(w)
        self.dontcare = (lambda obj, off: obj == w.fishobj and off == w.fishreg, lambda obj, off: obj in w.regnodes)     # compared by cmpregs
        return Instr.run(self, ctx, arg)
from .stl import OSeq
V2 = lambda a, b: (lambda S: V(a, b))
def mirror(g): return lambda S: V(*g(S.delta.c[0], S.delta.c[1]))
def rnd(S):
    r = S.random(0, 3)
    return V(*[ite(eq(band(r, (1 << 32)-2), 2*k), ite(eq(band(r, 1), 1), s.M1, 1), 0) for k in range(2)])
M1 = s.M1
DIRS = {'>': V2(1, 0), '<': V2(M1, 0), 'v': V2(0, 1), '^': V2(0, M1), '\\': mirror(lambda x, y: (y, x)), '/': mirror(lambda x, y: (neg(y), neg(x))),
        '|': mirror(lambda x, y: (neg(x), y)), '_': mirror(lambda x, y: (x, neg(y))), '#': mirror(lambda x, y: (neg(x), neg(y)))}
UNITS = [F(ch, const(k)) for k, ch in enumerate('0123456789abcdef')]
UNITS += [F(' ', s.skip), F(';', s.stop)]
UNITS += [F(ch, turning(t), movement=True) for ch, t in DIRS.items()]
UNITS += [F('x', turning(rnd)), F('!', s.trampoline), F('?', need(1, cond), top=([0, 0, 1, .5],)), F('.', needv(jump), top=(FEW, FEW))]
UNITS += [F('+', arith(fop('fadd'))), F('-', arith(fop('fsub'))), F('*', arith(fop('fmul'))), F(',', need(2, div)), F('%', need(2, mod)),
          F('=', arith(lambda y, x: truth(F_EQ(y, x)))), F(')', arith(lambda y, x: truth(F_LT(x, y)))), F('(', arith(lambda y, x: truth(F_LT(y, x))))]
UNITS += [F("'", string("'")), F('"', string('"'))]
UNITS += [F(':', need(1, s.dup)), F('~', need(1, s.pop1)), F('$', need(2, s.swap)), F('@', need(3, f.swap3)), F('l', length),
          F('{', f.shiftl, split=True), F('}', f.shiftr, split=True), F('r', f.reverse, split=True)]
UNITS += [F('[', need(1, newstack), split=True, requires=lambda S: or_(ult(S.size(), 1), sle(0, F_INT(S.peekn(0)))), top=([0, 1, 2, 3, 4, 5],)), F(']', endstack, split=True, seq='[[&]&11', hint=dict(nstacks=[1, 2, 2, 3]))]
UNITS += [F('o', need(1, outchar), top=([65, 97, 10, 0, 65.5, 300],)), F('n', need(1, outnum)), F('i', read, hint=dict(stdin=lambda rng: bytes(rng.choice([0, 10, 13, 65, 255]) for _ in range(rng.choice([0, 1, 1, 2])))))]
UNITS += [F('&', register, seq='&&1:0[]'), F('g', needv(get), top=(FEW, FEW)), F('p', needv(put, 1), top=(FEW, FEW, [65, 32, 32, 5.5]))]
SUNITS = [F('`', f.fisherman, movement=True, std=SFISH, seq='><^v`/#_', hint=dict(delta=lambda rng, c: (1, 0, 0)))]
SUNITS += [F(ch, turning(DIRS[ch]), movement=True, std=SFISH, seq='><^v`', hint=dict(delta=lambda rng, c: (1, 0, 0))) for ch in '><v^']
SUNITS += [F('C', callsub, std=SFISH, top=(FEW, FEW)), F('R', endsub, std=SFISH, requires=under, hint=dict(nstacks=[2, 2, 3]), top=(FEW, FEW)),
           F('u', f.dive(True), movement=True, std=SFISH, seq='uO'), F('O', f.dive(False), movement=True, std=SFISH, seq='uO1'),
           F('I', f.ss_next(-1), std=SFISH, hint=dict(sel=True)), F('D', f.ss_next(1), std=SFISH, hint=dict(sel=True))]
# what an instruction that fails leads to
def errspec(S):
    e = z3.BitVec('err', 32)
    w, st = S.w, S.st
    if S(ule(e, 2, 32)): return e
    if S(and_(eq(e, 3, 32), S.ismode(DIVE))): return NONE
    L = w.lay
    st.put(w.uni, L.off('Funge::FungeUniverse', 'running'), 0)
    st.put(w.uni, L.off('Funge::FungeUniverse', 'exitcode'), 1)
    S.stop(); return e
class Fails(FishI):
    def fullspec(self, S): return errspec(S)
    def jobs(self, tier): return [('failing instruction [%s]' % self.lbl(k), self, (k, None)) for k in self.worldkeys(tier)]
    def diff(self, rep, n, seed, pool): return progdiff(self, rep, n, seed, pool)
def failcall(w, st):
    fn = w.prog.find('Funge::FishStrategy::errorHandler', 1)
    if fn is None: raise Unsupported('no error handler')
    return w.ex.call(st, fn, [Ptr(w.fishobj, 0), z3.BitVec('err', 32)])
def failing(std):
    from . import usched
    return Fails('failing instruction', 0, errspec, movement=True, worlds=((2, std),), call=failcall, requires=lambda S: ule(z3.BitVec('err', 32), 5, 32), loops=usched.schedcontracts, ghost=None)
# string mode: every cell is pushed as a number
def fstr(i):
    def g(S):
        if S(eq(i, S.strend)):
            S.strprev = 0; S.setstate(False); return NONE
        style = S.cfg('strings')
        if S(eq(style, 0, 32)): S.push(F_FROM(i))
        elif S(eq(style, 1, 32)):
            if S(and_(s.white(i), s.white(S.strprev))): return SKIP
            S.push(F_FROM(i)); S.strprev = i
        elif S(eq(i, ord('\\'))):
            S.next(); S.push(F_FROM(s.escaped(S.cell(S.pos))))
        else: S.push(F_FROM(i))
        return NONE
    return g
ANYC = z3.BitVec('instr', 64)
def instring(w, st):
    S = w.ispec(w.ex, st, [])
    S.setstate(True); S.strend = z3.BitVec('strend', 64); S.strprev = z3.BitVec('strprev', 64)
class InString(FishI):
    also = staticmethod(instring)
    def cspec(self, S):
        k, a = S.called
        if k == 3: S.strend = a & mask(64); S.setstate(True); return 0
        if S.st.ghost.get('instring'): return fstr(a & mask(64))(S)
        raise K.Skip()
def strings():
    from . import props
    def g(rng, c):
        props.strcase(rng, c); doubles(rng, c)
        if c['calls'][0][0] == 0: c['calls'][0] = (3, 34)
    return InString('a cell in string mode', 0, fstr(ANYC), movement=True, worlds=((2, FISH),), call=lambda w, st: w.execute(st, ANYC), hint=dict(edit=g))
class Unknown(FishI):
    def cspec(self, S): return UNIMP
def unknown(std):
    known = s.FISHSET if std == FISH else s.SFISHSET
    def g(rng, c): c['calls'] = [(0, rng.choice([x for x in range(0, 256) if chr(x) not in known] + [-1, -32, 1 << 40, 256+43, (1 << 32)+43, 1 << 63]))]
    return Unknown('an unknown instruction', 0, lambda S: UNIMP, movement=True, requires=lambda S: True if concrete(S) else and_(*[ne(ANYC, ord(c)) for c in known]), call=lambda w, st: w.execute(st, ANYC),
                   hint=dict(edit=g), worlds=((2, std),))
# a turn of the pointer
def ftick(S):
    """like a turn in the other dialects, but an instruction that fails ends the program"""
    r = S.execute_any(S.cell(S.pos))
    if S(eq(r, SKIP, 32)): s.step(S); S.again()
    elif S(eq(r, NONE, 32)): s.step(S)
    elif S(ne(r, 2, 32)):
        if S(and_(eq(r, UNIMP, 32), S.ismode(DIVE))): s.step(S)
        else: failed(S)
    return None
def failed(S):
    w, st = S.w, S.st
    st.put(w.uni, w.lay.off('Funge::FungeUniverse', 'running'), 0)
    st.put(w.uni, w.lay.off('Funge::FungeUniverse', 'exitcode'), 1)
    S.stop()
class Tick(FishI):
    also = staticmethod(lambda w, st: st.ghost.__setitem__('etok', z3.BitVec('etok', 64)))
    def fullspec(self, S): return ftick(S)
    def jobs(self, tier): return [('FungeRunner::tick [%s]' % self.lbl(k), self, (k, None)) for k in self.worldkeys(tier)]
    def diff(self, rep, n, seed, pool): return progdiff(self, rep, n, seed, pool)
def ticking(std):
    def call(w, st):
        from . import props
        return props.tickcall(w, st)
    def loops(w, ex):
        from . import usched
        usched.schedcontracts(w, ex); ex.contracts['Funge::FungeRunner::execute'] = C.abstract_step
    return Tick('FungeRunner::tick', 0, ftick, movement=True, worlds=((2, std),), call=call, loops=loops)
# whole programs
def ptick(S):
    for _ in range(300):
        c = S.cell(S.pos)
        ch = chr(c) if 0 <= c < 128 else None
        if ch == ';' and not S(S.ismode(DIVE)): S.stop(); return
        if ch in SPECS and ch not in '"\'':
            sp, mv = SPECS[ch]
            if ch in STAR and S.st.get(S.w.uni, 'standard') != SFISH & mask(32): e = UNIMP
            else: e = SKIP if not mv and S(S.ismode(DIVE)) else sp(S)
        elif ch in '"\'FShms': raise K.Skip()
        else: e = UNIMP
        if e == UNIMP and S(S.ismode(DIVE)): e = NONE
        if e == SKIP: S.next(); continue
        if e == NONE: S.next()
        elif e != 2: S.sim.exit = 1; S.sim.ended = True
        return
    raise K.Skip()
STAR = 'CDFIORSu`mhs'
LINES = list('0123456789abcdef') + list('+-*,%=)(:~$@lr{}on&gp!?[]') * 2 + ['2[', '1[', '&1&', 'nn', 'ln', 'aao', 'z', 'w', '03g', '5510p', '1+']
SLINES = ['uO', 'O', '`', 'I', 'D', 'uzzO', 'u1>2O', 'u+O']
def progcase(std):
    def gen(rng, pool):
        body = ''.join(rng.choice(LINES + (SLINES*3 if std == SFISH else [])) for _ in range(rng.randint(3, 16)))
        rows = [rng.choice(['', '12345', '123', '99', '5a']) + body + rng.choice([';', 'n;', 'nnn;', 'lnn;', '', 'v;'])]
        for _ in range(rng.randint(0, 3)): rows.append(''.join(rng.choice(LINES+['<', '>', '^', 'v', '|', '/', '\\', '#', '_', ';', ' ', ' ']) for _ in range(rng.randint(2, 14))))
        cells = [((x, y, 0), ord(c)) for y, r in enumerate(rows) for x, c in enumerate(r) if c != ' ']
        case = dict(dims=2, standard=std, topo=1, strings=0, cells=8, mode=0, smode=0, flags=dict(concurrent=True, execute=False, filesystem=False, fingerprint=False, inverthl=False),
                    stacks=[[]], fcells=cells, pos=(0, 0, 0), delta=(1, 0, 0), sto=(0, 0, 0), calls=[])
        from . import uprog
        try: r = uprog.Sim(case, ptick).run()
        except (K.Skip, PathEnd, K.Random, Unsupported, RecursionError, OverflowError, AttributeError, z3.Z3Exception): return None
        t = ['P', 2, std, 1, len(cells)]
        for p, v in cells: t += list(p) + [v]
        t += [0, 0, 0, 1, 0, 0]
        return ' '.join(map(str, t)), [len(r.out)] + list(r.out) + [r.exit, 0]
    return gen
def progdiff(u, rep, n, seed, pool):
    from .ubase import run_lines
    return run_lines(rep, progcase(u.worlds[0][1]), max(n, 200), seed, pool, u.name)
UNITS += [failing(FISH), strings(), unknown(FISH), ticking(FISH)]; SUNITS += [failing(SFISH), unknown(SFISH), ticking(SFISH)]
