"""Pointers in a universe: splitting, the turns of the pointers, transfer and quitting."""
from .units import *
from .ubase import need, run_lines
from .world import NONE, SKIP, UNIMP, NOTAVAIL, V, BOUND
from . import contracts as C, simul, names, stl
from .stl import Seq
COPY0 = 1 << 62
PROGRAMS = [None]        # generator of whole programs
def programs(rng, pool): return PROGRAMS[0](rng, pool)
class Custom(Unit):
    worlds = ((2, 98),)
    def __init__(self, name, fn, worlds=((2, 98),), weight=1.0, cases=None): self.name, self.fn, self.worlds, self.weight, self._cases = name, fn, list(worlds), weight, cases or programs; self.setgroup()
    def setgroup(self):
        if self._cases is programs: self.difgroup = 'programs'
    def worldkeys(self, tier): return [(d, s, None) for d, s in self.worlds]
    def jobs(self, tier): return [('%s [%s]' % (self.name, Instr.lbl(k)) if len(self.worlds) > 1 else self.name, self, k) for k in self.worldkeys(tier)]
    def run(self, ctx, arg): return self.fn(ctx, ctx.world(arg), self.name)
    def diff(self, rep, n, seed, pool): return run_lines(rep, self._cases, n, seed, pool, self.name) if self._cases else (0, [])

def ctor(P, base, pred):
    r = sorted(n for n in P.by_base(base) if pred(names.qname(n).params))
    if not r: raise Unsupported('no such constructor of ' + base)
    return r[-1]
# ---------------------------------------------------------------- the copy of a stack stack
def sscopy(ctx, w, name):
    ex = w.fresh_exec(); L = ex.sl
    ex.contracts.pop('Funge::StackStack::StackStack', None)
    fn = ctor(ctx.P, 'Funge::StackStack::StackStack', lambda p: len(p) == 1 and 'StackStack' in p[0])
    st = w.st0.copy(); anysel(w, st)
    new = ('obj', 'copy'); st.mem[new] = {}; st.sizes[new] = w.lay.size['Funge::StackStack']
    src = st.get(w.ss, w.STK); n = src.size(); so = st.mem[w.fam][L.SO]
    def held(so_, j): return so.rd(src.at(j).idx)
    def general(h, s1, k):
        h.assume(sle(k, n))
        simul.advance_locals(h, s1, k)
        h.put(new, w.STK, Seq(ALam(lambda j: Ptr(w.fam, 0, add(j, COPY0))), 0, k, 'ptr'))
        iscopy = lambda i: and_(sle(COPY0, i), slt(i, add(COPY0, k)))
        d = dict(h.mem[w.fam])
        for o, f in ((L.SO, lambda i: held(so, sub(i, COPY0))), (L.MO, lambda i: 0), (L.OO, lambda i: 0)):
            old = d[o]
            d[o] = ALam(lambda i, old=old, f=f: ite(iscopy(i), f(i), old.rd(i)))
        h.mem[w.fam] = d
    def same_stack(s, p, j, kind):
        if not isinstance(p, Ptr) or p.obj != w.fam: raise Unsupported('stack pointer')
        s = s.copy()
        if not isc(j): w.stack_wf(s, j)
        for c, hyp in unit.value_eq(s.mem[w.fam][L.SO].rd(p.idx), held(so, j)):
            s2 = s.copy()
            for x in hyp: s2.assume(x)
            ex.oblige(s2, c, kind, '', assume=False)
    def check(h, s, k):
        a, b = h.get(new, w.STK), s.get(new, w.STK)
        ex.oblige(s.copy(), eq(b.size(), add(k, 1)), 'invariant: one more stack', '', assume=False)
        same_stack(s, b.at(k), k, 'invariant: the next stack is a copy of the next one')
        j = fresh('below'); s2 = s.copy(); s2.assume(sle(0, j)); s2.assume(slt(j, k))
        ex.oblige(s2, eq(b.at(j).idx, a.at(j).idx), 'invariant: the copies made so far stay where they are', '', assume=False)
        same_stack(s2, a.at(j), j, 'invariant: the copies made so far keep their contents')
        ex.oblige(s2, ne(b.at(k).idx, a.at(j).idx), 'invariant: copies are distinct', '', assume=False)
        i = fresh('other'); s3 = s.copy(); s3.assume(slt(i, COPY0)); s3.assume(sle(0, i)); w.stack_wf(s3, i)
        for c, hyp in unit.value_eq(s3.mem[w.fam][L.SO].rd(i), so.rd(i)):
            s4 = s3.copy()
            for x in hyp: s4.assume(x)
            ex.oblige(s4, c, 'invariant: the original stacks are unchanged', '', assume=False)
        unit.cmp_states(ex, s, h, h, 'iteration', [lambda o, off: o == w.fam or (o == new and off == w.STK)])
    loop = simul.Loop('StackStack::StackStack', general, check)
    def call(s):
        simul.install(ex, loop)
        try: return ex.call(s, fn, [Ptr(new, 0), Ptr(w.ss, 0)])
        finally: simul.remove(ex)
    def spec(S):
        C.ss_copy(S.ex, S.st, [Ptr(new, 0), Ptr(w.ss, 0)], C_CI)
    def post(ex_, code, S, rv, want):
        a, b = code.get(new, w.STK), src
        ex.oblige(code.copy(), eq(a.size(), b.size()), 'post: as many stacks', '', assume=False)
        j = fresh('deep'); s = code.copy(); s.assume(sle(0, j)); s.assume(slt(j, n)); w.stack_wf(s, src.at(j).idx)
        same_stack(s, a.at(j), j, 'post: every stack of the copy holds what the original holds')
    dc = lambda o, off: o == w.fam or (o == new and off not in (w.SEL, w.SSM))
    r = unit.verify(ex, name, st, call, spec, mk=w.ispec, dontcare=[dc], ignore_ret=True, post=post)
    if r.status == 'proved' and loop.stage == 0: r.status, r.reason = 'unsupported', 'the loop of the copy constructor was not found'
    return r
class _CI:
    class q: params = ['Funge::StackStack const&']
C_CI = _CI

# ---------------------------------------------------------------- t: the pointer that splits off
def sem(v):
    def f(ex, st, a, ci): st.ghost['released'] = v
    return f
def schedcontracts(w, ex):
    ex.contracts['FungeSem::release'] = sem(1); ex.contracts['FungeSem::acquire'] = sem(0)
def fungethreads(w, st):
    """cooperative threads"""
    st.ghost['released'] = 0
    st.put(w.uni, w.cfg['threads'], 0)
def owned(st, w, r):
    """objects of a pointer: itself, its stack stack, its strategies"""
    L = w.lay
    o = [r, st.get(r, L.off('Funge::FungeRunner', 'stack')).obj]
    q = st.get(r, L.bytype('Funge::FungeRunner', lambda t: t.startswith(('std::vector<', 'std::deque<', 'std::list<')) and 'Strategy' in t))
    return o + [q.at(k).obj for k in range(q.size())]
def foreign(st, start, bad):
    """pointers to objects of `bad` reachable from the cells `start`"""
    seen, todo, hit = set(), list(start), []
    def see(v):
        if isinstance(v, Ptr):
            if v.obj in bad: hit.append(v)
            elif v.obj not in seen and isinstance(v.obj, tuple) and v.obj[0] not in ('g', 'uni'): seen.add(v.obj); todo.extend(st.mem.get(v.obj, {}).values())
        elif isinstance(v, Seq):
            if v.ek == 'ptr' and isc(v.size()):
                for k in range(v.size()): see(v.at(k))
        elif hasattr(v, 'obj') and not isinstance(v, (Ptr, EPtr)): see(Ptr(v.obj, 0))      # function object
        elif hasattr(v, 'd') and isinstance(v.d, dict):
            for x in v.d.values(): see(Ptr(x, 0) if isinstance(x, tuple) else x)
    while todo: see(todo.pop())
    return hit
def newrunner(ex, code, S, w, pos, delta, storage, stack, parent, own):
    """obligations on the pointer at the end of the list"""
    L = w.lay
    R = 'Funge::FungeRunner'
    q0, q = S.st.get(w.uni, w.RUN), code.get(w.uni, w.RUN)
    def ob(c, what): ex.oblige(code.copy(), c, 'post: new pointer: ' + what, '', assume=False)
    def same(x, y, what, wd=64):
        for c, hyp in unit.value_eq(x, y, wd):
            s = code.copy()
            for h in hyp: s.assume(h)
            ex.oblige(s, c, 'post: new pointer: ' + what, '', assume=False)
    ob(eq(q.size(), add(q0.size(), 1)), 'it is added to the universe')
    for j in range(q0.size()): same(q.at(j), q0.at(j), 'the other pointers keep their turns')
    p = q.at(q0.size())
    if not isinstance(p, Ptr): raise Unsupported('new pointer')
    ob(p.off == 0 and p.obj not in S.st.mem and p.idx is None, 'it is a new one, last in turn')
    o = p.obj
    if o not in code.mem or p.idx is not None: return
    g = lambda off: code.get(o, off)
    same(g(w.RIP+w.IPP), pos, 'position'); same(g(w.RIP+w.IPD), delta, 'delta'); same(g(w.RIP+w.IPG), storage, 'storage offset')
    stp = g(w.RIP+w.IPS)
    ob(eq(stp, 0, 8) if not isinstance(stp, bool) else not stp, 'it runs')
    same(g(L.off(R, 'universe')), Ptr(w.uni, 0), 'universe')
    same(g(L.off(R, 'parent')), parent, 'parent')
    same(g(L.off(R, 'state')), Ptr(o, L.off(R, 'normalState')), 'it executes instructions')
    ip = 'Funge::InstructionPointer'
    for cls, base in ((ip, w.RIP),):
        same(g(base+L.off(cls, 'runner')), Ptr(o, 0), 'its own instruction pointer')
    bad = set(own) - {o}
    ns = L.off(R, 'normalState')
    start = [v for k, v in code.mem[o].items() if isinstance(k, int) and k >= ns]
    code.put(o, L.off(R, 'parent'), NULL)
    ob(not foreign(code, start, bad), 'its instructions act on itself')
    stack(g(L.off(R, 'stack')), ob, same)
def split_post(w):
    def post(ex, code, S, rv, want):
        if want != NONE: return
        code = code.copy()
        ex.oblige(code.copy(), eq(code.ghost['released'], 1), 'post: the universe wakes up', '', assume=False)
        st = S.st; L = ex.sl
        def stack(p, ob, same):
            if not isinstance(p, Ptr) or p.obj == w.ss: ob(False, 'it has stacks of its own'); return
            fam = ('copyof', p.obj)
            if fam not in code.mem: raise Unsupported('stacks of the new pointer')
            src = st.get(w.ss, w.STK)
            same(code.get(p.obj, w.SEL), st.get(w.ss, w.SEL), 'selected stack')
            q = code.get(p.obj, w.STK)
            ob(eq(q.size(), src.size()), 'as many stacks')
            j = fresh('deep'); s = code.copy(); s.assume(sle(0, j)); s.assume(slt(j, src.size())); w.stack_wf(s, src.at(j).idx)
            for c, hyp in unit.value_eq(code.mem[fam][L.SO].rd(q.at(j).idx), st.mem[w.fam][L.SO].rd(src.at(j).idx)):
                s2 = s.copy()
                for x in hyp: s2.assume(x)
                ex.oblige(s2, c, 'post: new pointer: contents of every stack', '', assume=False)
            same(code.mem[fam][L.MO].rd(j), S.cfg('mode'), 'mode of its stacks', 32)
            if w.SSM is not None: same(code.get(p.obj, w.SSM), S.cfg('mode'), 'mode of its stacks', 32)
        d = S.delta.neg()
        newrunner(ex, code, S, w, C.advance(ex, st, S.pos, d), d, S.storage, stack, Ptr(w.runner, 0), owned(code, w, w.runner))
    return post
def notrun(w): return lambda o, off: o == w.uni and off in (w.RUN, '#')
class Split(Instr):
    """t"""
    def run(self, ctx, arg):
        w = ctx.world(arg[0])
        self.post = split_post(w); self.dontcare = (notrun(w), lambda o, off: isinstance(o, tuple) and o[0] == 'g')
        return super().run(ctx, arg)
    def diff(self, rep, n, seed, pool): return run_lines(rep, programs, n, seed, pool, self.name)
def splitspec(S):
    """the new pointer is described by the postcondition; the old one changes nothing"""
    if not S(S.flag('concurrent')): return NOTAVAIL
    return NONE
SPLIT = Split('t', 't', splitspec, ghost=fungethreads, loops=schedcontracts, worlds=((1, 98), (2, 98), (3, 98)))

# ---------------------------------------------------------------- the turns of the pointers
RFAM = ('fam', 'Runner')
TMOVE, TNEW, TRUN = uf('TMOVE', (64,), 8), uf('TNEW', (64,)), uf('TRUN', (64,), 8)
TOTHER = uf('TOTHER', (64, 64), 8)
NR = z3.BitVec('nrunners', 64)
TOK = z3.BitVec('turn', 64)
def mutexloc(w):
    L = w.lay
    lo = L.off('Funge::FungeUniverse', 'mutex')
    return lo
def islock(w, p): return isinstance(p, Ptr) and p.obj == w.uni and p.off == mutexloc(w)
def lockcontracts(w, ex):
    def lock(ex_, st, a, ci):
        if islock(w, a[0]):
            ex.oblige(st, eq(st.ghost['locked'], 0), 'lock not held twice (the universe would hang)'); st.ghost['locked'] = 1
    def unlock(ex_, st, a, ci):
        if islock(w, a[0]): ex.oblige(st, eq(st.ghost['locked'], 1), 'lock held when it is released'); st.ghost['locked'] = 0
    def guard(ex_, st, a, ci):
        if len(a) > 1 and isinstance(a[0], Ptr) and isinstance(a[1], Ptr):
            st.put(a[0].obj, '#guard', a[1]); lock(ex_, st, [a[1]], ci)
    def unguard(ex_, st, a, ci):
        m = st.get(a[0].obj, '#guard')
        if m is not None: unlock(ex_, st, [m], ci)
    c = ex.contracts
    c['std::mutex::lock'], c['std::mutex::unlock'] = lock, unlock
    for n in ('lock_guard', 'unique_lock', 'scoped_lock'): c['std::%s::%s' % (n, n)] = guard; c['std::%s::~%s' % (n, n)] = unguard
    c['std::unique_lock::lock'] = lambda ex_, st, a, ci: lock(ex_, st, [st.get(a[0].obj, '#guard')], ci)
    c['std::unique_lock::unlock'] = lambda ex_, st, a, ci: unlock(ex_, st, [st.get(a[0].obj, '#guard')], ci)
def notify(ex, st, a, ci): st.ghost['notified'] = 1
def schedstate(w, ex, st, n=NR, front=True):
    """any list of pointers; the one at the front is the one the world knows"""
    st.put(w.uni, w.cfg['threads'], 0)
    st.put(w.uni, w.lay.off('Funge::FungeUniverse', 'running'), z3.BitVec('running', 8)); st.assume(z3.ULE(z3.BitVec('running', 8), 1))
    st.put(w.uni, w.lay.off('Funge::FungeUniverse', 'exitcode'), z3.BitVec('exitcode', 32))
    st.assume(z3.And(n >= (1 if front else 0), n < BOUND))
    st.put(w.uni, w.RUN, Seq(ALam(lambda j: Ptr(RFAM, 0, j)), 0, n, 'ptr'))
    so = w.RIP+w.IPS
    f = uf('rstop', (64,), 8)
    st.mem[RFAM] = {so: ALam(lambda i: f(bv(i))), universe_of(w): AConst(Ptr(w.uni, 0)), 0: AConst(st.get(w.runner, 0))}
    st.assume(z3.ULE(f(bv(0)), 1))
    st.ghost['locked'] = 0; st.ghost['released'] = 0; st.ghost['notified'] = 0; st.ghost['turn'] = TOK
    if ('other', 0) not in st.mem: st.mem[('other', 0)] = {}
def turned(w, st):
    """what one tick of the front pointer may do to the universe: stop pointers, add new ones at the end of the list, move to another universe, quit"""
    t = st.ghost['turn']
    so = w.RIP+w.IPS
    L = w.lay
    st.assume(z3.ULE(TOTHER(t, bv(0)), 1))
    st.put(RFAM, so, ALam(lambda i: TOTHER(t, bv(i))))
    m = TNEW(t); st.assume(z3.And(m >= 0, m < BOUND))
    q = st.get(w.uni, w.RUN)
    st.put(w.uni, w.RUN, Seq(q.arr, q.lo, add(q.hi, m), 'ptr'))
    r = TRUN(t); st.assume(z3.ULE(r, 1)); st.put(w.uni, L.off('Funge::FungeUniverse', 'running'), r)
    st.ghost['turn'] = uf('TURN', (64,))(t)
    mv = TMOVE(t); st.assume(z3.ULE(mv, 1))
    return mv
def universe_of(w): return w.lay.off('Funge::FungeRunner', 'universe')
def isfront(p): return isinstance(p, Ptr) and p.obj == RFAM and isc(p.idx) and p.idx == 0
def tickcontract(w, ex):
    def tick(ex_, st, a, ci):
        ex.oblige(st, eq(st.ghost['locked'], 0), 'the lock is free while a pointer executes (it may start another)')
        ex.oblige(st, isfront(a[0]), 'the pointer at the front has its turn')
        if not isfront(a[0]): raise Unsupported('turn of another pointer')
        st.event(('tick',))
        mv = turned(w, st)
        s2 = st.copy(); st.assume(mv == 0); s2.assume(mv != 0)
        s2.setcell((RFAM, universe_of(w), 0), Ptr(('other', 0), 0))
        return Outs([(st, None), (s2, None)])
    def dtor(ex_, st, a, ci):
        if not isfront(a[0]): raise Unsupported('end of another pointer')
        st.event(('delete',))
    ex.contracts['Funge::FungeRunner::tick'] = tick
    ex.contracts['Funge::FungeRunner::~FungeRunner'] = dtor
    for n in ('notify_all', 'notify_one'): ex.contracts['std::condition_variable::' + n] = notify
def turnspec(S):
    """one turn: the front pointer executes one tick if it runs; then it goes to the end of the list, or leaves it for good when it has stopped or moved away"""
    w, st = S.w, S.st
    so = w.RIP+w.IPS
    q = st.get(w.uni, w.RUN)
    moved = False
    if S(eq(st.cell((RFAM, so, 0)), 0, 8)):
        st.event(('tick',))
        moved = S(ne(turned(w, st), 0, 8))
        if moved: st.setcell((RFAM, universe_of(w), 0), Ptr(('other', 0), 0))
    q = st.get(w.uni, w.RUN).pop_front()
    if moved: st.ghost['notified'] = 1
    elif S(eq(st.cell((RFAM, so, 0)), 0, 8)): q = q.push_back(Ptr(RFAM, 0, 0))
    else: st.event(('delete',)); st.ghost['notified'] = 1
    st.put(w.uni, w.RUN, q)
    S.again()
def schedule(part):
    def f(ctx, w, name):
        ex = w.fresh_exec()
        schedcontracts(w, ex); lockcontracts(w, ex); tickcontract(w, ex)
        fn = need(ctx.P.find('Funge::FungeUniverse::operator()', 0), 'FungeUniverse::operator()')
        st = w.st0.copy(); schedstate(w, ex, st, front=part != 'idle')
        run = w.lay.off('Funge::FungeUniverse', 'running')
        pre = st
        if part == 'idle': st.put(w.uni, w.RUN, Seq(AConst(NULL), 0, 0, 'ptr'))
        loop = simul.AnyIteration('FungeUniverse::operator()', multi=True)
        def call(s):
            if part == 'turn': s.put(w.uni, run, 1)
            return loop.run(ex, lambda t: ex.call(t, fn, [Ptr(w.uni, 0)]), s)
        def spec(S):
            if part == 'turn': S.st.put(w.uni, run, 1)
            elif not S(ne(S.st.get(w.uni, run), 0, 8)): return None
            if part == 'idle': S.again(); return None
            turnspec(S)
        def post(ex_, code, S, rv, want):
            ex.oblige(code.copy(), or_(eq(S.st.ghost['notified'], 0), ne(code.ghost['notified'], 0)), 'post: whoever waits for the universe is told', '', assume=False)
            for c, hyp in unit.value_eq(code.cell((RFAM, universe_of(w), 0)), S.st.cell((RFAM, universe_of(w), 0))): ex.oblige(code.copy(), c, 'post: the universe of the pointer', '', assume=False)
            if code.done is None: ex.oblige(code.copy(), eq(code.ghost['locked'], 0), 'post: the lock is free in the end', '', assume=False)
        r = unit.verify(ex, name, st, call, spec, mk=w.ispec, ghosts=('turn',), post=post, ignore_ret=True, dontcare=[lambda o, off: o == RFAM and off == universe_of(w)])
        if r.status == 'proved' and not loop.again: r.status, r.reason = 'unsupported', 'no turn found'
        return r
    return f
TURN, IDLE, START = Custom('one turn of the pointers', schedule('turn')), Custom('a universe without pointers', schedule('idle')), Custom('the universe starts or ends', schedule('start'))

# ---------------------------------------------------------------- quit
def killall(ctx, w, name):
    ex = w.fresh_exec()
    schedcontracts(w, ex); lockcontracts(w, ex); tickcontract(w, ex)
    fn = need(ctx.P.find('Funge::FungeUniverse::killAll', 1), 'FungeUniverse::killAll')
    st = w.st0.copy(); schedstate(w, ex, st, front=False)
    L = w.lay; so = w.RIP+w.IPS
    code_ = z3.BitVec('ret', 32)
    def spec(S):
        S.st.put(w.uni, L.off('Funge::FungeUniverse', 'running'), 0)
        S.st.put(w.uni, L.off('Funge::FungeUniverse', 'exitcode'), code_)
        old = S.st.mem[RFAM][so]
        S.st.put(RFAM, so, ALam(lambda i: ite(and_(sle(0, i), slt(i, NR)), 1, old.rd(i), 8)))
        S.st.ghost['notified'] = 1; S.st.ghost['released'] = 1
    def post(ex_, code, S, rv, want):
        for g in ('notified', 'released'): ex.oblige(code.copy(), ne(code.ghost[g], 0), 'post: whoever waits for the universe is told', '', assume=False)
        ex.oblige(code.copy(), eq(code.ghost['locked'], 0), 'post: the lock is free in the end', '', assume=False)
    return unit.verify(ex, name, st, lambda s: ex.call(s, fn, [Ptr(w.uni, 0), code_]), spec, mk=w.ispec, ghosts=('turn',), post=post, ignore_ret=True)
KILL = Custom('FungeUniverse::killAll', killall)
def quitspec(S):
    v = S.pop()
    w, st = S.w, S.st
    if getattr(S, 'concrete', False): st.ghost['exitcode'] = sgn(sext(trunc(v, 64, 32), 32, 64)); S.stop(); return NONE
    L = w.lay
    st.put(w.uni, L.off('Funge::FungeUniverse', 'running'), 0)
    st.put(w.uni, L.off('Funge::FungeUniverse', 'exitcode'), trunc(v, 64, 32))
    S.stop()
    return NONE
class Quit(Instr):
    difgroup = 'programs'
    def diff(self, rep, n, seed, pool): return run_lines(rep, programs, n, seed, pool, self.name)
QUIT = Quit('q', 'q', quitspec, ghost=fungethreads, loops=schedcontracts, thorough_worlds=((1, 98), (3, 98)))

# ---------------------------------------------------------------- adding pointers
def transfer(same):
    def f(ctx, w, name):
        ex = w.fresh_exec()
        schedcontracts(w, ex); lockcontracts(w, ex); tickcontract(w, ex)
        ex.contracts['Funge::FungeRunner::setMode'] = lambda ex_, st, a, ci: st.event(('mode', a[1]))
        fn = need(ctx.P.find('Funge::FungeUniverse::transferRunner', 1), 'FungeUniverse::transferRunner')
        st = w.st0.copy(); schedstate(w, ex, st, front=False)
        X = z3.BitVec('newcomer', 64)
        uo = universe_of(w)
        if not same:
            st.assume(z3.Or(X < 0, X >= NR))
            st.setcell((RFAM, uo, X), Ptr(('other', 0), 0)) if False else None
            st.put(RFAM, uo, AConst(Ptr(('other', 0), 0)))
        def spec(S):
            if same: return
            t = S.st
            t.event(('mode', S.cfg('mode')))
            t.put(w.uni, w.RUN, t.get(w.uni, w.RUN).push_back(Ptr(RFAM, 0, X)))
            t.ghost['released'] = 1
        def post(ex_, code, S, rv, want):
            ex.oblige(code.copy(), or_(eq(S.st.ghost['released'], 0), ne(code.ghost['released'], 0)), 'post: the universe wakes up', '', assume=False)
            ex.oblige(code.copy(), eq(code.ghost['locked'], 0), 'post: the lock is free in the end', '', assume=False)
            if not same:
                u = code.get(RFAM, uo).rd(X)
                ex.oblige(code.copy(), isinstance(u, Ptr) and u.obj == w.uni, 'post: the pointer belongs to the universe', '', assume=False)
        def call(s): return ex.call(s, fn, [Ptr(w.uni, 0), Ptr(RFAM, 0, X)])
        return unit.verify(ex, name, st, call, spec, mk=w.ispec, ghosts=('turn',), post=post, ignore_ret=True, dontcare=[lambda o, off: o == RFAM and off == uo])
    return f
MOVE, STAY = Custom('FungeUniverse::transferRunner from another universe', transfer(False)), Custom('FungeUniverse::transferRunner within the universe', transfer(True))
def create(three):
    def f(ctx, w, name):
        ex = w.fresh_exec()
        schedcontracts(w, ex); lockcontracts(w, ex)
        fns = [n for n in ctx.P.by_base('Funge::FungeUniverse::createRunner') if len(names.qname(n).params) == (3 if three else 2)]
        if not fns: raise Unsupported('no createRunner')
        st = w.st0.copy(); fungethreads(w, st)
        st.ghost['locked'] = 0
        m0 = st.get(w.uni, w.cfg['mode'])
        st.assume(eq(band(m0, 0x2000, 32), 0, 32))      # hover mode would add to the delta the pointer is made with
        p, d = st.new('arg', 24), st.new('arg', 24)
        pv, dv = [C.VecG([z3.BitVec('%s%d' % (x, k), 64) for k in range(w.dims)]) for x in ('argpos', 'argdelta')]
        st.put(p, 0, pv); st.put(d, 0, dv)
        args = [Ptr(w.uni, 0), Ptr(p, 0), Ptr(d, 0)] + ([Ptr(w.runner, 0)] if three else [])
        def stack(q, ob, same): pass
        def post(ex_, code, S, rv, want):
            code = code.copy()
            ex.oblige(code.copy(), ne(code.ghost['released'], 0), 'post: the universe wakes up', '', assume=False)
            ex.oblige(code.copy(), eq(code.ghost['locked'], 0), 'post: the lock is free in the end', '', assume=False)
            own = owned(code, w, w.runner)
            def stack(q, ob, same):
                if three: ob(isinstance(q, Ptr) and q.obj == w.ss, 'it shares the stacks'); return
                if not isinstance(q, Ptr) or q.obj == w.ss: ob(False, 'it has stacks of its own'); return
                sq = code.get(q.obj, w.STK)
                ob(eq(sq.size(), 1), 'one stack')
                e = sq.at(0)
                ob(eq(code.mem[w.fam][ex.sl.SO].rd(e.idx).size(), 0), 'an empty stack')
                same(code.mem[w.fam][ex.sl.MO].rd(e.idx), S.cfg('mode'), 'mode of its stack', 32)
            if three: own = [o for o in own if o != w.ss]
            newrunner(ex, code, S, w, pv, dv, C.VecG((0,)), stack, Ptr(w.runner, 0) if three else NULL, own)
        def setmode(ex_, st_, a, ci):
            L = ex.sl
            o = a[0].obj
            if o == w.ss: return C.ss_mode(ex_, st_, a, ci)
            return NotImplemented
        ex.contracts['Funge::StackStack::setMode'] = setmode
        return unit.verify(ex, name, st, lambda s: ex.call(s, fns[0], args), lambda S: None, mk=w.ispec, ghosts=(), post=post, ignore_ret=True,
                           dontcare=[notrun(w), lambda o, off: o == w.fam or isinstance(o, tuple) and o[0] == 'g', lambda o, off: three and o == w.ss and off == w.SSM])
    return f
CREATE, CREATE3 = Custom('FungeUniverse::createRunner', create(False), worlds=((1, 98), (2, 98), (3, 98), (2, 93))), Custom('FungeUniverse::createRunner sharing the stacks', create(True))
def isrunning(ctx, w, name):
    ex = w.fresh_exec()
    fn = need(ctx.P.find('Funge::FungeUniverse::isRunning', 0), 'FungeUniverse::isRunning')
    st = w.st0.copy(); schedstate(w, ex, st, front=False)
    return unit.verify(ex, name, st, lambda s: ex.call(s, fn, [Ptr(w.uni, 0)]), lambda S: and_(eq(z3.BitVec('running', 8), 1, 8), slt(0, NR)), mk=w.ispec, ghosts=('turn',), retw=1)
ALIVE = Custom('FungeUniverse::isRunning', isrunning)
from .ustackstack import ss_case
SSCOPY = Custom('StackStack copy', sscopy, cases=ss_case)
