"""The interpreter state for instruction-level contracts: the real FungeRunner constructor is executed on the real strategies to
obtain the semantics map; then every data component (stacks, position, delta, storage, field, flags) is generalised to an arbitrary value."""
import z3
from .term import *
from .exec import *
from .stl import OSeq, OMap, MODELS, FnVal
from . import unit, contracts as C, stackmod as SM, names
from .contracts import VecG, StackLoc, CONTRACTS
BOUND = 1 << 60
TORUS, LAHEY = 0, 1

class World:
    def __init__(self, prog, dims, standard, solver=None, setup=None):
        self.prog, self.dims, self.standard = prog, dims, standard
        self.lay = L = prog.lay
        ex = self.ex = Exec(prog, solver)
        ex.models = MODELS
        ex.contracts = dict(CONTRACTS)
        ex.world = self
        ex.sl = StackLoc(L)
        ex.fam_sizes = {L.size['Funge::Stack']: ('fam', 'Stack')}
        self.fam = ('fam', 'Stack')
        ip = 'Funge::InstructionPointer'
        self.IPP, self.IPD, self.IPG, self.IPS = L.off(ip, 'pos'), L.off(ip, 'delta'), L.off(ip, 'storage'), L.off(ip, 'stopped')
        self.RIP = L.off('Funge::FungeRunner', 'ip')
        u = 'Funge::FungeUniverse'
        self.cfg = {n: L.off(u, 'config.'+n) for n in ('dimensions', 'standard', 'topo', 'strings', 'cells', 'threads', 'mode', 'concurrent', 'execute', 'filesystem', 'fingerprint', 'inverthl', 'args', 'env', 'fingerprints', 'name')}
        self.setup = setup
        self.fpmem = {}
        self.build()
    # ---------------------------------------------------------------- construction
    def build(self):
        ex, L = self.ex, self.lay
        st = State()
        self.uni = st.new('uni', L.size['Funge::FungeUniverse'])
        cfg = self.cfg
        st.put(self.uni, 0, NULL)
        for n, w in (('topo', 32), ('strings', 32), ('cells', 32), ('threads', 32), ('mode', 32), ('concurrent', 8), ('execute', 8), ('filesystem', 8), ('fingerprint', 8), ('inverthl', 8)):
            st.put(self.uni, cfg[n], z3.BitVec('cfg_' + n, w))
        st.put(self.uni, cfg['dimensions'], self.dims)
        st.put(self.uni, cfg['standard'], self.standard & mask(32))
        st.put(self.uni, cfg['fingerprints'], Seq(AConst(0), 0, 0, 64))
        u = 'Funge::FungeUniverse'
        st.put(self.uni, L.off(u, 'creator'), NULL)
        self.RUN = L.off(u, 'runners')
        st.put(self.uni, L.off(u, 'running'), 1)
        st.put(self.uni, L.off(u, 'exitcode'), 0)
        for n in ('concurrent', 'execute', 'filesystem', 'fingerprint', 'inverthl'):
            st.assume(z3.ULE(z3.BitVec('cfg_' + n, 8), 1))
        st.assume(z3.ULE(z3.BitVec('cfg_topo', 32), 1))
        st.assume(z3.ULE(z3.BitVec('cfg_strings', 32), 2))
        st.assume(z3.Or(z3.BitVec('cfg_cells', 32) == 1, z3.BitVec('cfg_cells', 32) == 8))
        self.runner = st.new('runner', L.size['Funge::FungeRunner'])
        st.ghost['field'] = C.ABase('cell', 64, (64,)*C.NC)
        st.ghost['ftok'] = z3.BitVec('ftok', 64)
        for d in ('fam',):
            st.mem[self.fam] = {ex.sl.SO: ALam(lambda i: Seq(AConst(0), 0, 0, 64)), ex.sl.MO: AConst(0), ex.sl.OO: AConst(0)}
        # arguments pos and delta of the constructor
        a = st.new('ctorarg', 24); st.put(a, 0, VecG((0,)))
        b = st.new('ctorarg', 24); st.put(b, 0, VecG((1,)))
        name = self.prog.find('Funge::FungeRunner::FungeRunner', 3)
        st.put(('g', self._count()), 0, 0) if False else None
        ex.stack = ['FungeRunner']
        outs = ex.call(st, name, [Ptr(self.runner, 0), Ptr(self.uni, 0), Ptr(a, 0), Ptr(b, 0)])
        if not outs: raise Unsupported('runner construction has no path')
        # paths may differ only in the (generalised) mode: any of them supplies the semantics
        st = outs[0][0]
        if self.setup: st = self.setup(self, st)
        self.ctor_obls = ex.obls
        ex.obls = []
        self.st0 = self.generalise(st)
    def _count(self): return '_ZN5Funge11FungeRunner5countE'
    def ss_loc(self, st):
        o = self.lay.off('Funge::FungeRunner', 'stack')
        p = st.get(self.runner, o)
        return p
    def generalise(self, st):
        st = st.copy()
        ex, L = self.ex, self.lay
        self.smode0 = z3.BitVec('smode', 32)
        st.pc = [c for c in st.pc if 'cfg_' in str(c) and 'mode' not in str(c)]
        st.ev = ()
        r = self.runner
        for n, o in (('pos', self.IPP), ('delta', self.IPD), ('sto', self.IPG)):
            st.put(r, self.RIP+o, VecG([z3.BitVec('%s%d' % (n, k), 64) for k in range(self.dims)]))
        st.put(r, self.RIP+self.IPS, 0)
        ssp = self.ss_loc(st)
        self.ss = ssp.obj
        n = z3.BitVec('nstk', 64)
        st.assume(z3.And(n >= 1, n < BOUND))
        fam = self.fam
        self.SEL = L.off('Funge::StackStack', 'select'); self.STK = L.bytype('Funge::StackStack', lambda t: t.startswith(('std::vector<', 'std::deque<')))
        st.put(self.ss, self.STK, Seq(ALam(lambda i: Ptr(fam, 0, i)), 0, n, 'ptr'))
        self.alloc0 = dict(st.nalloc)
        st.nalloc[fam] = 0
        stkf, lof, hif = uf('stk', (64, 64)), (lambda i: 0), uf('stkn', (64,))
        self.stkf, self.lof, self.hif = stkf, lof, hif
        self.SSM = L.bytype('Funge::StackStack', lambda t: t == 'FungeMode')
        mode = self.smode0
        if self.SSM is not None: st.put(self.ss, self.SSM, mode)
        opsf = uf('stkops', (64,))
        st.mem[fam] = {ex.sl.SO: ALam(lambda i: Seq(ALam(lambda k: stkf(bv(i), bv(k))), lof(bv(i)), hif(bv(i)), 64)),
                       ex.sl.MO: ALam(lambda i: mode), ex.sl.OO: ALam(lambda i: opsf(bv(i)))}
        st.put(self.ss, self.SEL, 0)
        self.cur_stacks = [sub(n, 1), sub(n, 2)]
        for i in self.cur_stacks: self.stack_wf(st, i)
        st.put(self.uni, self.RUN, seq_of([Ptr(r, 0)], 'ptr'))
        # cells of uninitialised scalars of strategies etc. stay as constructed
        return st
    def stack_wf(self, st, i):
        lo, hi = self.lof(bv(i)), self.hif(bv(i))
        st.assume(z3.And(hi >= 0, hi < BOUND))
    # ---------------------------------------------------------------- accessors used by contracts
    def ucell(self, st, n): return st.get(self.uni, self.cfg[n])
    def topo(self, st): return self.ucell(st, 'topo')
    def cellsize(self, st): return self.ucell(st, 'cells')
    def state_ptr(self, string):
        L = self.lay
        return self.runner, L.off('Funge::FungeRunner', 'state'), Ptr(self.runner, L.off('Funge::FungeRunner', 'stringState' if string else 'normalState'))
    # ---------------------------------------------------------------- instruction execution
    def exec_fn(self): return self.prog.find('Funge::FungeRunner::execute')
    def execute(self, st, c):
        return self.ex.call(st, self.exec_fn(), [Ptr(self.runner, 0), c & mask(64) if isc(c) else c])
    def ispec(self, ex, st, dec): return ISpec(self, ex, st, dec)
    def fresh_exec(self):
        ex = self.ex
        ex.contracts = dict(CONTRACTS)
        ex.obls = []; ex.loop_hints = []; ex.univ_facts = (); ex.witness = [x for k in range(2) for x in (z3.BitVec('first%d' % k, 64), z3.BitVec('first%d' % k, 64)-1)]; ex.stop_at = (); ex.merge = False; ex.heavy = {}; ex.recs = []
        return ex
    def post(self, ex, code, S, rv, want):
        """stacks are compared by what they hold, position by position"""
        w = self
        a, b = code.get(w.ss, w.STK), S.st.get(w.ss, w.STK)
        if a is b and code.mem.get(w.fam) is S.st.mem.get(w.fam): return
        na, nb = a.size(), b.size()
        unit.goal(ex, code, S.st, eq(na, nb), (), 'post: number of stacks', '')
        n0 = z3.BitVec('nstk', 64)
        deep = fresh('deep')
        cases = [(deep, [sle(0, deep), slt(deep, sub(n0, 4))])]
        for c in range(5): cases.append((sub(n0, c), []))
        # every position: below nstk-4, nstk-4 .. nstk, and above (stacks added)
        top = fold(bv(na) - n0)
        if isc(top):
            for c in range(1, sgn(top)): cases.append((add(n0, c), []))
        else: raise Unsupported('number of stacks')
        for j, hyp in cases:
            s = code.copy(); s.pc = list(S.st.pc)
            for h in hyp + [sle(0, j), slt(j, na), slt(j, nb)]:
                if h is not True: s.assume(h)
            if False in [h for h in hyp] or not ex.maybe(s, and_(slt(j, na), sle(0, j), *hyp)): continue
            pa, pb = a.at(j), b.at(j)
            if not (isinstance(pa, Ptr) and isinstance(pb, Ptr)): raise Unsupported('stack pointers')
            fa, fb = code.mem[w.fam], S.st.mem[w.fam]
            ex.oblige(s.copy(), eq(pa.idx, pb.idx), 'post: identity of every stack on the stack stack', '', assume=False) if False else None
            for p in (pa, pb):
                if not isc(p.idx): self.stack_wf(s, p.idx)
            sa, sb = fa[ex.sl.SO].rd(pa.idx), fb[ex.sl.SO].rd(pb.idx)
            for c, h in unit.value_eq(sa, sb):
                s2 = s.copy()
                for x in h: s2.assume(x)
                ex.oblige(s2, c, 'post: contents of every stack on the stack stack', '', assume=False)
            ma, mb = fa[ex.sl.MO].rd(pa.idx), fb[ex.sl.MO].rd(pb.idx)
            for c, h in unit.value_eq(ma, mb, 32): ex.oblige(s.copy(), c, 'post: mode of every stack on the stack stack', '', assume=False)
            if a is not b and not (a.arr is b.arr):
                j2 = fresh('stackpos')
                s2 = s.copy()
                s2.assume(sle(0, j2)); s2.assume(slt(j2, na)); s2.assume(ne(j, j2))
                ex.oblige(s2, ne(pa.idx, a.at(j2).idx), 'post: stacks on the stack stack are distinct', '', assume=False)
    RESULT_FIELD = False
    def with_smode(self, st, inv, que):
        """the state with the INVERT and QUEUE bits of the stack mode decided"""
        st = st.copy()
        m = self.smode0
        m = fold((m & z3.BitVecVal(mask(32) & ~0xC000, 32)) | z3.BitVecVal((0x4000 if inv else 0) | (0x8000 if que else 0), 32))
        d = dict(st.mem[self.fam]); d[self.ex.sl.MO] = ALam(lambda i: m); st.mem[self.fam] = d
        if self.SSM is not None: st.put(self.ss, self.SSM, m)
        return st
    def verify(self, name, c, spec, pre=None, dontcare=(), call=None, post=None, loops=None, **kw):
        kw.setdefault('retw', 32)
        ex = self.fresh_exec()
        if loops: loops(self, ex)
        st = (pre or self.st0).copy()
        w = self
        def dc(obj, off):
            return obj == w.fam or (obj == w.ss and off == w.STK) or (obj == w.uni and off == '#')
        def cmp(ex_, code, S, rv, want):
            w.post(ex_, code, S, rv, want)
            w.cmp_field(ex_, code, S)
            if post: post(ex_, code, S, rv, want)
        call = call or (lambda s: w.execute(s, c))
        return unit.verify(ex, name, st, call, spec, mk=w.ispec, dontcare=[dc] + list(dontcare), ghosts=('inpos', 'rnd', 'rlo', 'rhi', 'etok', 'sysn'), post=cmp, **kw)
    def cmp_field(self, ex, code, S):
        a, b = code.ghost['field'], S.st.ghost['field']
        if a is b: return
        k = [fresh('c') for _ in range(C.NC)]
        unit.goal(ex, code, S.st, eq(a.rd(*k), b.rd(*k)), (), 'post: every Funge-space cell', '')

NONE, SKIP, BLOCK, UNIMP, NOTAVAIL, UNSPEC = range(6)
class ISpec(unit.Spec):
    """vocabulary of the instruction specifications"""
    def __init__(self, w, ex, st, dec):
        super().__init__(ex, st, dec)
        self.w = w
    # stacks by position from the top (0 = TOSS, 1 = SOSS)
    def sid(self, k=0):
        s = self.st.get(self.w.ss, self.w.STK)
        sel = self.st.get(self.w.ss, self.w.SEL)
        return s.at(sub(sub(sub(s.size(), 1), sel), k)).idx
    def _loc(self, k):
        L = self.ex.sl
        i = self.sid(k)
        return (self.w.fam, L.SO, i), (self.w.fam, L.MO, i)
    def stack(self, k=0): return self.st.cell(self._loc(k)[0])
    def mode_of(self, k=0): return self.st.cell(self._loc(k)[1])
    def setstack(self, s, k=0): self.st.setcell(self._loc(k)[0], s)
    def pop(self, k=0):
        l, m = self._loc(k)
        v, s2 = SM.pop(self.st.cell(l), self.st.cell(m))
        self.st.setcell(l, s2)
        return v
    def push(self, v, k=0):
        l, m = self._loc(k)
        if isinstance(v, bool) or z3.is_bool(v): v = ite(v, 1, 0)
        self.st.setcell(l, SM.push(self.st.cell(l), self.st.cell(m), v))
    def popn(self, n, k=0):
        """drop n >= 0 values"""
        l, m = self._loc(k)
        self.st.setcell(l, SM.popn(self.st.cell(l), self.st.cell(m), n))
    def peekn(self, j, k=0):
        l, m = self._loc(k)
        return SM.popval(self.st.cell(l), self.st.cell(m), j)
    def reader(self, k=0):
        """function j -> value the (j+1)-th pop from here would deliver (fixed at this moment)"""
        l, m = self._loc(k)
        s, mm = self.st.cell(l), self.st.cell(m)
        return lambda j: SM.popval(s, mm, j)
    def pushn(self, n, f, k=0):
        l, m = self._loc(k)
        self.st.setcell(l, SM.pushseq(self.st.cell(l), self.st.cell(m), n, f))
    def size(self, k=0): return self.stack(k).size()
    def nstacks(self): return self.st.get(self.w.ss, self.w.STK).size()
    @property
    def sel(self): return self.st.get(self.w.ss, self.w.SEL)
    @sel.setter
    def sel(self, v): self.st.put(self.w.ss, self.w.SEL, v)
    def setmode(self, m):
        """the mode of the universe, and so of every stack"""
        w = self.w
        self.st.put(w.uni, w.cfg['mode'] if not getattr(self, 'concrete', False) else 'mode', m)
        if w.SSM is not None: self.st.put(w.ss, w.SSM, m)
        d = dict(self.st.mem[w.fam]); d[self.ex.sl.MO] = ALam(lambda i: m); self.st.mem[w.fam] = d
    def clear(self, k=0): self.setstack(Seq(AConst(0), 0, 0, 64), k)
    def newstack(self, k=0):
        st, w = self.st, self.w
        n = st.nalloc.get(w.fam, 0); st.nalloc[w.fam] = n+1
        i = (1 << 63) + n
        L = self.ex.sl
        st.setcell((w.fam, L.SO, i), Seq(AConst(0), 0, 0, 64))
        st.setcell((w.fam, L.MO, i), self.smode())
        s = st.get(w.ss, w.STK)
        # above the selected stack, counted from there: insert(0); k stacks further down: insert(k)
        st.put(w.ss, w.STK, s.insert(sub(sub(s.size(), self.sel), k), Ptr(w.fam, 0, i)))
    def dropstack(self, k=0):
        s = self.st.get(self.w.ss, self.w.STK)
        s2 = s.erase(sub(sub(sub(s.size(), 1), self.sel), k))
        self.st.put(self.w.ss, self.w.STK, s2)
    def below(self):
        """there is a stack below the selected one"""
        return slt(add(self.sel, 1), self.nstacks())
    # members of the fingerprint objects
    def fp(self, k):
        if getattr(self, 'concrete', False):
            v = FP0.get(k, 0)
            return self.st.ghost.get('fp_'+k, v(self.st.ghost['case']) if callable(v) else v)
        return self.st.get(*self.w.fpmem[k])
    def setfp(self, k, v):
        if getattr(self, 'concrete', False): self.st.ghost['fp_'+k] = v
        else: self.st.put(*self.w.fpmem[k], v)
    # configuration
    def cfg(self, n): return self.w.ucell(self.st, n)
    def flag(self, n): return ne(self.cfg(n), 0, 8)
    def ismode(self, bit): return ne(band(self.cfg('mode'), bit, 32), 0, 32)
    def smode(self):
        """mode of the stack stack (every stack on it has it)"""
        return self.st.get(self.w.ss, self.w.SSM) if self.w.SSM is not None else self.w.smode0
    # instruction pointer
    def _ip(self, o): return self.st.get(self.w.runner, self.w.RIP+o)
    def _setip(self, o, v): self.st.put(self.w.runner, self.w.RIP+o, v)
    @property
    def pos(self): return self._ip(self.w.IPP)
    @pos.setter
    def pos(self, v): self._setip(self.w.IPP, v)
    @property
    def delta(self): return self._ip(self.w.IPD)
    @delta.setter
    def delta(self, v): self._setip(self.w.IPD, v)
    @property
    def storage(self): return self._ip(self.w.IPG)
    @storage.setter
    def storage(self, v): self._setip(self.w.IPG, v)
    def turn(self, v):
        """set the delta (added to the current one in hover mode)"""
        self.delta = self.delta.add(v).ite(self.ismode(0x2000), v)
    def stop(self): self._setip(self.w.IPS, 1)
    def next(self): self.pos = C.advance(self.ex, self.st, self.pos, self.delta)
    def reflect(self): self.delta = self.delta.neg()
    # string mode
    def _strloc(self, n): return (self.w.runner, self.w.lay.off('Funge::FungeRunner', 'stringState')+self.w.lay.off('Funge::FungeStateString', n))
    def _sget(self, n): return self.st.ghost.get('str_'+n, 0) if getattr(self, 'concrete', False) else self.st.get(*self._strloc(n))
    def _sput(self, n, v):
        if getattr(self, 'concrete', False): self.st.ghost['str_'+n] = v
        else: self.st.put(*self._strloc(n), v)
    strend = property(lambda S: S._sget('end'), lambda S, v: S._sput('end', v))
    strprev = property(lambda S: S._sget('previous'), lambda S, v: S._sput('previous', v))
    def setstate(self, string):
        if getattr(self, 'concrete', False): self.st.ghost['instring'] = string
        else: self.st.put(*self.w.state_ptr(string))
    # Funge-space
    def bmin(self, d): return C.MINF(self.st.ghost['ftok'], bv(d))
    def bmax(self, d): return C.MAXF(self.st.ghost['ftok'], bv(d))
    def inbounds(self, v): return and_(*[and_(sle(self.bmin(d), v.c[d]), sle(v.c[d], self.bmax(d))) for d in range(self.w.dims)])
    def torus(self): return eq(self.cfg('topo'), 0, 32)
    def cell(self, v): return self.st.ghost['field'].rd(*v.c)
    def store(self, v, x): C.field_put(self.ex, self.st, v, x)
    def iterate(self, v0, step):
        """k -> v0 advanced k times by step"""
        from . import loops
        ws = [64]*C.NC
        h = VecG(loops.HC(ws))
        r = loops.recurrence(self.ex, self.st, list(v0.c), list(step(h).c), ws)
        def at(k):
            if not isc(k): self.st.assume(r.axiom(k))
            return VecG(r.at(k))
        return at
    # standard input
    @property
    def inpos(self): return self.st.ghost.get('inpos', 0)
    @inpos.setter
    def inpos(self, v): self.st.ghost['inpos'] = v
    def inch(self, k):
        if getattr(self, 'concrete', False):
            b = self.st.ghost['stdin']
            return b[k] if k < len(b) else mask(32)
        from .stl import inchar
        return inchar(self.st, k)
    def foldseq(self, v0, f):
        """j -> f(...f(f(v0, 0), 1)..., j-1)"""
        from . import loops
        r = loops.recurrence(self.ex, self.st, [v0], [f(loops.HC([64])[0], loops.RT)], [64], loose=True)
        def at(k):
            if not isc(k): self.st.assume(r.axiom(k))
            return r.at(k)[0]
        return at
    def adv(self, p, d): return C.advance(self.ex, self.st, p, d)
    def execute_many(self, n, c):
        """the instruction c, n > 0 times: what it does is not looked into (see contracts.abstract_execute)"""
        at = self.iterate_tok(self.st.ghost['etok'], lambda t: C.EXE(bv(t), bv(c)))
        self.st.ghost['etok'] = at(n)
    def iterate_tok(self, t0, step):
        from . import loops
        r = loops.recurrence(self.ex, self.st, [t0], [step(loops.HC([64])[0])], [64])
        def at(k):
            if not isc(k): self.st.assume(r.axiom(k))
            return r.at(k)[0]
        return at
    def first(self, pred):
        """the least k >= 0 with pred(k); that there is one is an obligation (witnesses: where the loops of the code left off)"""
        its = list(self.st.ghost.get('its', ()))
        its = [x for i in its[::-1] for x in (i, add(i, 1))] + [0, 1, 2, 3, 4, 5, 6]
        K = self.ex.witness[2*self.nfirst]; self.nfirst += 1
        quick = lambda s, c: c is True or self.ex.solver.check(s.pc, not_(c), timeout=700)[0] == 'unsat'
        self.st.assume(sle(0, K))
        base = self.st.copy()
        self.st.assume(pred(K))
        hit = False
        for i in its:
            if len(its) > 7 and quick(base, and_(sle(0, i), pred(i))):
                if not hit: self.ex.oblige(base.copy(), and_(sle(0, i), pred(i)), 'spec: the place sought is reached')
                hit = True
                self.st.assume(sle(K, i))
                if quick(self.st, eq(K, i)): return i
        if not hit: self.ex.oblige(base, or_(*[and_(sle(0, i), pred(i)) for i in its]), 'spec: the place sought is reached')
        for i in its: self.st.assume(or_(slt(i, 0), not_(pred(i)), sle(K, i)))
        return K
    nfirst = 0
    def popvec(self, k=0):
        c = [0]*self.w.dims
        for d in range(self.w.dims-1, -1, -1): c[d] = self.pop(k)
        return VecG(c)
    def pushvec(self, v, k=0):
        for d in range(self.w.dims): self.push(v.c[d], k)
    @property
    def stopped(self): return ne(self.st.get(self.w.runner, self.w.RIP+self.w.IPS), 0, 8)
    def execute_any(self, i): return C.machine_step(self.ex, self.st, i)
    def again(self): self.st.done = ('again',)
    def random(self, lo, hi):
        """an arbitrary value in lo..hi (the same range must be asked for)"""
        if getattr(self, 'concrete', False): raise unit.Random()
        k = self.st.ghost.get('rnd', 0); self.st.ghost['rnd'] = k+1
        self.st.ghost['rlo'], self.st.ghost['rhi'] = lo, hi
        return C.RAND(z3.BitVecVal(k, 64))
    def string(self, n, f):
        if getattr(self, 'concrete', False): return bytes(f(j) for j in range(n))
        return Seq(ALam(f), 0, n, 8)
    def system(self, c):
        """run a command: the value is what the system call returns"""
        if getattr(self, 'concrete', False): c = c.split(b'\0')[0]
        self.st.event(('system', c))
        if getattr(self, 'concrete', False): return self.st.ghost['case'].get('sysret', 0) & mask(64)
        k = self.st.ghost.get('sysn', 0); self.st.ghost['sysn'] = k+1
        return sext(C.SYSRET(bv(k)), 32, 64)
    # output events
    def out(self, kind, v): self.st.event(('out', 'cout', kind, v))
    def outs(self, text):
        for ch in text: self.out('char', ord(ch))
def V(*c): return VecG(c)
FP0 = {}
