"""Stack and StackStack: every method against its contract, for stacks of every size, contents and mode."""
from .ubase import *
U64 = (1 << 64)-1
OBJ = ('obj', 'stack')
def stackstate(ctx):
    ex = newex(ctx)
    L = ex.sl
    st = State()
    st.mem[OBJ] = {}
    lo, hi = z3.BitVec('lo', 64), z3.BitVec('hi', 64)
    st.assume(z3.And(lo >= -(1 << 60), hi < (1 << 60), lo <= hi))
    st.put(OBJ, L.SO, Seq(ABase('stk'), lo, hi, 64)); st.put(OBJ, L.MO, z3.BitVec('mode', 32)); st.put(OBJ, L.OO, z3.BitVec('ops', 64))
    return ex, st
def smeth(meth, nargs, spec, w=(64,)):
    def build(ctx):
        ex, st = stackstate(ctx)
        fn = need(ctx.P.find('Funge::Stack::' + meth), meth)
        args = [z3.BitVec('a%d' % k, w[k]) for k in range(nargs)]
        return ex, st, lambda s: ex.call(s, fn, [Ptr(OBJ, 0)] + args), lambda S: spec(S, ex.sl, *args), dict(dontcare=[lambda o, off: o == OBJ and off == ex.sl.OO])
    return build
def _s(S, L): return S.st.get(OBJ, L.SO), S.st.get(OBJ, L.MO)
def spop(S, L):
    s, m = _s(S, L); v, s2 = SM.pop(s, m); S.st.put(OBJ, L.SO, s2); return v
def spush(S, L, a):
    s, m = _s(S, L); S.st.put(OBJ, L.SO, SM.push(s, m, a)); return 1
def speek(S, L): s, m = _s(S, L); return SM.popval(s, m, 0)
def sget(S, L, p): s, m = _s(S, L); return SM.get(s, m, p)
def sclear(S, L): S.st.put(OBJ, L.SO, Seq(AConst(0), 0, 0, 64))
def ssize(S, L): return _s(S, L)[0].size()
def ssetmode(S, L, m): S.st.put(OBJ, L.MO, m)

# concrete: sequences of operations on one stack
def stack_case(rng, pool):
    v = lambda: rng.choice(pool) if rng.random() < .7 else rng.getrandbits(64)-(1 << 63)
    init = [v() for _ in range(rng.choice([0, 1, 2, 3, 5]))]
    mode = mode0 = rng.choice([0, 0x4000, 0x8000, 0xC000, 0x2000])
    q = Seq(AList([x & U64 for x in init]), 0, len(init), 64)
    ops, out = [], []
    for _ in range(rng.randint(1, 10)):
        o = rng.choice([0, 0, 0, 1, 1, 1, 2, 3, 4, 5, 6, 7, 8])
        a = 0
        if o == 0: x, q = SM.pop(q, mode); out.append(x)
        elif o == 1: a = v(); q = SM.push(q, mode, a & U64)
        elif o == 2: out.append(SM.popval(q, mode, 0))
        elif o in (3, 4): a = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, U64, -1, 1 << 62]); out.append(SM.get(q, mode, a & U64))
        elif o == 5:
            if rng.random() < .3: q = Seq(AConst(0), 0, 0, 64)
            else: continue
        elif o == 6: out.append(q.size())
        elif o == 7: a = mode = rng.choice([0, 0x4000, 0x8000, 0xC000, 0x10000])
        elif o == 8: out.append(q.size()); out += [SM.get(q, 0, k) for k in range(1, q.size()+1)]
        ops.append((o, a))
    out.append(q.size()); out += [q.at(k) for k in range(q.size())]
    t = [len(init)] + init + [mode0, len(ops)] + [x for o in ops for x in o]
    return 'S ' + ' '.join(str(sgn(x & U64)) for x in t), [sgn(x & U64) for x in out]

def scopy_build(ctx):
    """copy constructor: same contents, default mode"""
    ex, st = stackstate(ctx)
    L = ex.sl
    q = [n for n in ctx.P.by_base('Funge::Stack::Stack') if len(prog_q(n).params) == 1]
    if not q: raise Unsupported('no copy constructor')
    new = ('obj', 'copy')
    st.mem[new] = {}
    def spec(S):
        s, m = _s(S, L)
        S.st.put(new, L.SO, s); S.st.put(new, L.MO, 0); S.st.put(new, L.OO, 0)
    return ex, st, lambda s: ex.call(s, sorted(q)[-1], [Ptr(new, 0), Ptr(OBJ, 0)]), spec, dict(ignore_ret=True, dontcare=[lambda o, off: off not in (L.SO, L.MO)])
def prog_q(n):
    from . import names
    return names.qname(n)
def sctor_build(ctx):
    ex, st = stackstate(ctx)
    L = ex.sl
    q = [n for n in ctx.P.by_base('Funge::Stack::Stack') if len(prog_q(n).params) == 0]
    if not q: raise Unsupported('no constructor')
    new = ('obj', 'new')
    st.mem[new] = {}
    def spec(S):
        S.st.put(new, L.SO, Seq(AConst(0), 0, 0, 64)); S.st.put(new, L.MO, 0)
    return ex, st, lambda s: ex.call(s, sorted(q)[-1], [Ptr(new, 0)]), spec, dict(ignore_ret=True, dontcare=[lambda o, off: off not in (L.SO, L.MO)])

def stack_units():
    U = [('pop', 0, spop), ('push', 1, spush), ('peek', 0, speek), ('get', 1, sget), ('operator[]', 1, sget), ('clear', 0, sclear), ('size', 0, ssize)]
    r = [FnUnit('Stack::' + n, smeth(n, k, f), cases=stack_case) for n, k, f in U]
    r.append(FnUnit('Stack::setMode', smeth('setMode', 1, ssetmode, (32,)), cases=stack_case))
    r.append(FnUnit('Stack::Stack(copy)', scopy_build, cases=stack_case))
    r.append(FnUnit('Stack::Stack()', sctor_build, cases=stack_case))
    return r
