"""StackStack: every method against its contract, for every number of stacks, contents, selected stack and mode."""
from .units import *
from .ubase import run_lines, need
from .world import NONE, UNSPEC, V
from . import stackmod as SM
U64 = (1 << 64)-1

class SSUnit(Unit):
    worlds = [(2, 98)]
    def __init__(self, name, meth, spec, nargs=0, requires=None, argw=64, contracts_off=(), bounded=False):
        self.name, self.meth, self.spec, self.nargs, self.requires, self.argw, self.off, self.bounded = name, meth, spec, nargs, requires, argw, contracts_off, bounded
    def worldkeys(self, tier): return [(2, 98, None)]
    def jobs(self, tier): return [] if self.bounded else [(self.name, self, None)]
    def run(self, ctx, arg):
        w = ctx.world((2, 98))
        fns = [n for n in ctx.P.by_base('Funge::StackStack::' + self.meth)]
        if not fns: raise Unsupported('no StackStack::' + self.meth)
        args = [z3.BitVec('a%d' % k, self.argw) for k in range(self.nargs)]
        res = None
        for fn in sorted(fns):
            st = w.st0.copy()
            anysel(w, st)
            if self.requires:
                S = w.ispec(w.ex, st, [])
                st.assume(self.requires(S, *args))
            for k in args:
                if self.argw == 64:
                    i = sub(sub(sub(z3.BitVec('nstk', 64), 1), z3.BitVec('sel', 64)), k)
                    w.stack_wf(st, i)
            r = w.verify(self.name, None, lambda S: self.spec(S, *args), pre=st, call=lambda s: w.ex.call(s, fn, [Ptr(w.ss, 0)] + args), loops=lambda w_, ex: [ex.contracts.pop(c, None) for c in self.off])
            if res is None: res = r
            else:
                res.obls += r.obls; res.paths += r.paths; res.time += r.time
                if r.status != 'proved': res.status, res.reason = r.status, r.reason
        return res
    def diff(self, rep, n, seed, pool): return run_lines(rep, ss_case, n, seed, pool, self.name)

def pop_(S):
    S.dropstack()
    n, s = S.nstacks(), S.sel
    S.sel = ite(and_(slt(0, s), sle(n, s)), sub(s, 1), s)
def at_(S, x): return Ptr(S.w.fam, 0, S.st.get(S.w.ss, S.w.STK).at(sub(sub(S.nstacks(), 1), x)).idx)
def ref(k):
    def f(S): return Ptr(S.w.fam, 0, S.sid(k))
    return f
def setmode_(S, m):
    w = S.w
    if w.SSM is not None: S.st.put(w.ss, w.SSM, m)
    d = dict(S.st.mem[w.fam])
    old = d[S.ex.sl.MO]
    # every stack on the stack stack
    s = S.st.get(w.ss, w.STK)
    d[S.ex.sl.MO] = ALam(lambda i: m); S.st.mem[w.fam] = d
def inc_(S):
    s = S.sel
    if not S(ult(0, s)): return UNSPEC
    S.sel = sub(s, 1); return NONE
def dec_(S):
    s = S.sel
    if not S(ult(s, sub(S.nstacks(), 1))): return UNSPEC
    S.sel = add(s, 1); return NONE
def inrange(S, x): return z3.And(z3.ULT(bv(x), bv(S.nstacks()))) 
def inpos(S, x): return z3.ULE(bv(x), bv(sub(S.nstacks(), S.sel)))
def rmpos(S, x): return z3.ULT(bv(x), bv(sub(S.nstacks(), S.sel)))

def ss_case(rng, pool):
    """a history of operations on one stack stack (and copies of it)"""
    stacks = [[]]; sel = 0; mode = 0; modes = [0]
    def Q(s): return Seq(AList([x & U64 for x in s]), 0, len(s), 64)
    def L(q): return [q.at(k) for k in range(q.size())]
    v = lambda: rng.choice(pool) if rng.random() < .7 else rng.getrandbits(64)-(1 << 63)
    at = lambda x: len(stacks)-1-x
    ops, out = [], []
    def push(i, a): stacks[i] = L(SM.push(Q(stacks[i]), modes[i], a & U64))
    for k in range(rng.randint(3, 25)):
        o = rng.choice([0, 0, 1, 2, 3, 4, 4, 4, 5, 5, 6, 6, 7, 8, 8, 9, 9, 9, 10, 11, 12, 12])
        a = 0
        if o == 0: stacks.insert(len(stacks)-sel, []); modes.insert(len(modes)-sel, mode)
        elif o in (1, 3):
            if len(stacks) < 2: continue
            a = 0 if o == 1 else rng.randint(0, len(stacks)-1-sel)
            del stacks[at(sel+a)]; del modes[len(modes)-1-sel-a]
            if sel > 0 and sel >= len(stacks):
                if o == 3: sel_bad = True
                sel -= 1
                if o == 3: return None          # the selected stack is gone: outside the precondition of remove
        elif o == 2: a = rng.randint(0, len(stacks)-sel); stacks.insert(len(stacks)-sel-a, []); modes.insert(len(modes)-sel-a, mode)
        elif o == 4: a = v(); push(at(sel), a)
        elif o == 5:
            if sel+1 >= len(stacks): continue
            a = v(); push(at(sel+1), a)
        elif o == 6:
            i = at(sel); x, q = SM.pop(Q(stacks[i]), modes[i]); stacks[i] = L(q); out.append(x)
        elif o == 7: a = mode = rng.choice([0, 0x4000, 0x8000, 0xC000, 0x10000]); modes = [mode]*len(stacks)
        elif o == 8:
            if sel > 0: sel -= 1; out.append(NONE)
            else: out.append(UNSPEC)
        elif o == 9:
            if sel < len(stacks)-1: sel += 1; out.append(NONE)
            else: out.append(UNSPEC)
        elif o == 10: mode = 0; modes = [0]*len(stacks)
        elif o == 11: out.append(len(stacks))
        elif o == 12: a = rng.randrange(len(stacks)); push(at(a), len(ops)+1000)
        ops.append((o, a))
    out.append(len(stacks))
    for i in range(len(stacks)):
        j = len(stacks)-1-i
        push(j, 777001); push(j, 777002)
        x, q = SM.pop(Q(stacks[j]), modes[j]); stacks[j] = L(q)
        out.append(x); out.append(len(stacks[j])); out += stacks[j]
    return 'T %d ' % len(ops) + ' '.join('%d %d' % (o, sgn(a & U64)) for o, a in ops), [sgn(x & U64) for x in out]

def stackstack_units():
    SM_ = ('Funge::StackStack::setMode',)
    return [SSUnit('StackStack::push', 'push', lambda S: S.newstack()), SSUnit('StackStack::pop', 'pop', pop_),
            SSUnit('StackStack::insert', 'insert', lambda S, k: S.newstack(k), 1, inpos), SSUnit('StackStack::remove', 'remove', lambda S, k: S.dropstack(k), 1, rmpos),
            SSUnit('StackStack::at', 'at', at_, 1, inrange), SSUnit('StackStack::top', 'top', ref(0)), SSUnit('StackStack::second', 'second', ref(1), 0, lambda S: bl(S.below())),
            SSUnit('StackStack::size', 'size', lambda S: S.nstacks()),
            SSUnit('StackStack::increment', 'increment', inc_), SSUnit('StackStack::decrement', 'decrement', dec_),
            SSUnit('StackStack::setMode', 'setMode', setmode_, 1, None, 32, SM_)]
