"""Fingerprint instructions: the specifications."""
from .specs import *
B60 = 1 << 40
def small(S, x): return and_(sle(-B60 & ((1 << 64)-1), x), sle(x, B60))
# ---- BITW, BOOL, ORTH
def shl_(b, a): return shl(b, a)
def sar_(b, a): return ashr(b, a)
def shift_ok(S):
    a = S.peekn(0); return and_(sle(0, a), slt(a, 64))
def bnot_(a): return bxor(a, (1 << 64)-1)
# ---- FRTH
def depth(S): S.push(S.size()); return NONE
def roll(S):
    u = S.pop()
    neg_ = S(slt(u, 0))
    n = neg(u) if neg_ else u
    f = S.reader(); S.popn(add(n, 1))
    if neg_:
        S.push(f(0)); S.pushn(n, lambda j: f(sub(n, j)))
    else:
        S.pushn(n, lambda j: f(sub(sub(n, 1), j))); S.push(f(n))
    return NONE
def over(S):
    b = S.pop(); a = S.pop(); S.push(a); S.push(b); S.push(a); return NONE
def pick(S):
    u = S.pop()
    if S(slt(u, 0)): return UNSPEC
    S.push(S.peekn(u)); return NONE
def rot(S):
    c = S.pop(); b = S.pop(); a = S.pop(); S.push(b); S.push(c); S.push(a); return NONE
# ---- ORTH
def oget(S):
    x = S.pop(); y = S.pop(); S.push(S.cell(V(x, y))); return NONE
def oput(S):
    x = S.pop(); y = S.pop(); i = S.pop(); S.store(V(x, y), i); return NONE
def setc(v, k, x):
    c = list(v.c); c[k] = x; return V(*c)
def odelta(k):
    def f(S): x = S.pop(); S.turn(setc(S.delta, k, x)); return NONE
    return f
def opos(k):
    def f(S): x = S.pop(); S.pos = setc(S.pos, k, x); return NONE
    return f
def ramp(S):
    if S(eq(S.pop(), 0)): S.next()
    return NONE
# ---- TOYS
def gable(S):
    n = S.pop(); a = S.pop()
    if S(slt(0, n)): S.pushn(n, lambda j: a)
    return NONE
def butterfly(S):
    b = S.pop(); a = S.pop(); S.push(add(a, b)); S.push(sub(a, b)); return NONE
def bump(d):
    def f(S): S.push(add(S.pop(), d)); return NONE
    return f
def toysshift(S):
    b = S.pop(); a = S.pop()
    S.push(ite(slt(0, b), shl(a, b), ashr(a, neg(b)))); return NONE
def toysshift_ok(S):
    b = S.peekn(0); return and_(slt(M1*64 & ((1 << 64)-1), b), slt(b, 64))
def chicane(rotate):
    def f(S): S.push(S.cell(S.pos.add(rotate(S.delta)))); return NONE
    return f
def boomerang(S):
    x = S.pop(); S.store(S.pos.sub(S.delta), x); return NONE
def barstool(S):
    """pops the dimension, then the direction (nonzero: backwards)"""
    n = S.pop(); b = S.pop()
    if not S(ult(n, S.w.dims)): return UNSPEC
    x = ite(eq(b, 0), 1, M1)
    S.turn(V(*[ite(eq(n, k), x, 0) for k in range(3)])); return NONE
def corner(S):
    v = S.popvec(); x = S.pop(); c = S.cell(v)
    if S(slt(c, x)):
        S.push(x); S.pushvec(v); return BLOCK
    if S(slt(x, c)): S.reflect()
    return NONE
def inc(k):
    def f(S):
        if S.w.dims <= k: return UNSPEC
        S.pos = setc(S.pos, k, add(S.pos.c[k], 1)); return NONE
    return f
# ---- MODE
def toggle(bit):
    def f(S):
        m = S.w.ucell(S.st, 'mode')
        m2 = bxor(m, bit, 32)
        S.setmode(m2); return NONE
    return f
# ---- FISH
def fturn(S, v):
    """a turn; the fisherman remembers the last horizontal delta"""
    S.turn(v)
    d = S.delta
    S.setfp('cache', d.ite(and_(ne(d.c[0], 0), eq(d.c[1], 0)), S.fp('cache')))
def fset(f_):
    def f(S): fturn(S, f_(S.delta)); return NONE
    return f
def fisherman(S):
    """down and up alternately while moving horizontally; back to the last horizontal delta otherwise"""
    if S(eq(S.delta.c[1], 0)):
        if S(eq(S.fp('up'), 0, 32)): fturn(S, V(0, 1)); S.setfp('up', 1)
        else: fturn(S, V(0, M1)); S.setfp('up', 0)
    else: fturn(S, S.fp('cache'))
    return NONE
def shiftl(S):
    """the bottom value comes to the top... of a stack read from the top: the top value goes to the bottom"""
    n = S.size(); f = S.reader()
    if S(slt(0, n)):
        S.popn(n); S.pushn(sub(n, 1), lambda j: f(sub(sub(n, 2), j))); S.push(f(sub(n, 1)))
    return NONE
def shiftr(S):
    n = S.size(); f = S.reader()
    if S(slt(0, n)):
        S.popn(n); S.push(f(0)); S.pushn(sub(n, 1), lambda j: f(sub(sub(n, 1), j)))
    return NONE
def reverse(S):
    n = S.size(); f = S.reader()
    S.popn(n); S.pushn(n, lambda j: f(j)); return NONE
def swap3(S):
    x = S.pop(); y = S.pop(); z = S.pop(); S.push(x); S.push(z); S.push(y); return NONE
def dive(on):
    def f(S):
        m = S.w.ucell(S.st, 'mode')
        S.setmode(bor(m, DIVE, 32) if on else band(m, ~DIVE & 0xffffffff, 32)); return NONE
    return f
def ss_next(d):
    """+1: the stack below becomes current; -1: the stack above"""
    def f(S):
        s = S.sel
        if d > 0:
            if not S(ult(s, sub(S.nstacks(), 1))): return UNSPEC
            S.sel = add(s, 1)
        else:
            if not S(ult(0, s)): return UNSPEC
            S.sel = sub(s, 1)
        return NONE
    return f
# ---- SUBR
def soffset(v):
    def f(S): S.setfp('offset', v); return NONE
    return f
def isoff(S): return S(ne(S.fp('offset'), 0, 8))
def scall(S):
    n = S.pop()
    if S(slt(n, 0)): return UNSPEC
    va = S.popvec(); f_ = S.reader()
    S.popn(n); S.pushvec(S.pos); S.pushvec(S.delta)
    S.pushn(n, lambda j: f_(sub(sub(n, 1), j)))
    if isoff(S): va = va.add(S.pos)
    S.pos = va.sub(V(1)); S.turn(V(1)); return NONE
def sjump(S):
    va = S.popvec()
    if isoff(S): va = va.add(S.pos)
    S.pos = va; S.turn(V(1)); return NONE
def sreturn(S):
    n = S.pop()
    if S(slt(n, 0)): return UNSPEC
    f_ = S.reader(); S.popn(n)
    vd = S.popvec(); va = S.popvec()
    S.pushn(n, lambda j: f_(sub(sub(n, 1), j)))
    S.pos = va; S.turn(vd); return NONE
def seqspec(**d):
    """concrete cases call several instructions in a row: the specification of each"""
    def f(S): return d[chr(S.called[1])](S)
    return f
# ---- JSTR
def jget(S):
    n = S.pop(); va = S.popvec(); vd = S.popvec(); p = va.add(S.storage)
    S.push(0)
    if S(slt(0, n)): S.pushn(n, lambda j: S.cell(V(*[add(a, mul(j, d)) for a, d in zip(p.c, vd.c)])))
    return NONE
from . import world as _W
def cache0(case):
    d = case['delta']
    return V(*[x & M1 for x in d]) if d[0] and not d[1] else V(1)
_W.FP0.update(up=0, cache=cache0)
