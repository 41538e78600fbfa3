"""What every instruction does: the specifications, written from the Funge-98 / Befunge-93 / *><> documents and the project's own documentation.
`S` is the state (see world.ISpec); each function performs the specified effect and returns the specified result."""
from .term import *
from .world import NONE, SKIP, BLOCK, UNIMP, NOTAVAIL, UNSPEC, V
HOVER, INVERT, QUEUE, SWITCH, DIVE = 0x2000, 0x4000, 0x8000, 0x10000, 0x20000
MIN = 1 << 63

def skip(S): return SKIP
def noop(S): return NONE
def push(n):
    def f(S): S.push(n); return NONE
    return f
def binop(op):
    """pops a, then b; pushes b op a"""
    def f(S):
        a = S.pop(); b = S.pop(); S.push(op(b, a)); return NONE
    return f
def unop(op):
    def f(S):
        a = S.pop(); S.push(op(a)); return NONE
    return f
def quo(b, a): return ite(eq(a, 0), 0, sdiv(b, a))
def rem(b, a): return ite(eq(a, 0), 0, srem(b, a))
def gt(b, a): return ite(slt(a, b), 1, 0)
def lnot(a): return ite(eq(a, 0), 1, 0)
def pop1(S): S.pop(); return NONE
def dup(S):
    x = S.pop(); S.push(x); S.push(x); return NONE
def swap(S):
    a = S.pop(); b = S.pop(); S.push(a); S.push(b); return NONE
def clear(S): S.clear(); return NONE
# ---- motion
def turn(*c):
    def f(S): S.turn(V(*c)); return NONE
    return f
def neg1(S): return (1 << 64)-1
M1 = (1 << 64)-1
def choose(a, b):
    """pop: zero -> a, anything else -> b"""
    def f(S):
        x = S.pop(); z = eq(x, 0)
        S.turn(V(*[ite(z, p, q) for p, q in zip(a, b)])); return NONE
    return f
def stop(S): S.stop(); return NONE
def trampoline(S): S.next(); return NONE
def reflect(S): S.reflect(); return NONE
def goaway(S):
    """? : one of the directions along an axis, each of them possible"""
    n = 2*S.w.dims
    r = S.random(0, n-1)
    S.turn(V(*[ite(eq(band(r, (1 << 32)-2), 2*k), ite(eq(band(r, 1), 1), M1, 1), 0) for k in range(S.w.dims)])); return NONE
def absolute(S): S.turn(S.popvec()); return NONE
def lft(v): return V(v.c[1], neg(v.c[0]), *v.c[2:])
def rgt(v): return V(neg(v.c[1]), v.c[0], *v.c[2:])
def switch(S, ch):
    if S(S.ismode(SWITCH)): S.store(S.pos, ord(ch))
def left(S): S.delta = lft(S.delta); switch(S, ']'); return NONE
def right(S): S.delta = rgt(S.delta); switch(S, '['); return NONE
def compare(S):
    b = S.pop(); a = S.pop()
    S.delta = lft(S.delta).ite(slt(a, b), rgt(S.delta).ite(slt(b, a), S.delta))
    return NONE
def hl(s):
    def f(S):
        i = S.flag('inverthl')
        S.turn(V(0, 0, ite(i, neg(s), s))); return NONE
    return f
# ---- Funge-space
def get(S):
    v = S.popvec(); S.push(S.cell(v.add(S.storage))); return NONE
def put(S):
    v = S.popvec(); x = S.pop(); S.store(v.add(S.storage), x); return NONE
def fetch(S): S.next(); S.push(S.cell(S.pos)); return NONE
def store(S):
    S.next(); S.store(S.pos, S.pop()); return NONE
# ---- stack stack
def begin(S):
    n = S.pop(); S.newstack()
    if S(slt(0, n)):
        f = S.reader(1); S.popn(n, 1); S.pushn(n, lambda j: f(sub(sub(n, 1), j)), 0)
    elif S(ne(n, MIN)): S.pushn(neg(n), lambda j: 0, 1)
    S.pushvec(S.storage, 1)
    S.storage = S.pos.add(S.delta)
    switch(S, '}')
    return NONE
def end(S):
    r = UNSPEC
    if S(S.below()):
        n = S.pop()
        S.storage = S.popvec(1)
        if S(slt(0, n)):
            f = S.reader(0); S.popn(n, 0); S.pushn(n, lambda j: f(sub(sub(n, 1), j)), 1)
        elif S(ne(n, MIN)): S.popn(neg(n), 1)
        S.dropstack()
        r = NONE
    switch(S, '{')
    return r
def under(S):
    if not S(S.below()): return UNSPEC
    n = S.pop()
    if S(slt(0, n)):
        f = S.reader(1); S.popn(n, 1); S.pushn(n, f, 0)
    elif S(ne(n, MIN)):
        f = S.reader(0); S.popn(neg(n), 0); S.pushn(neg(n), f, 1)
    return NONE
# ---- output
def numout(S):
    x = S.pop(); S.out('dec', x); S.out('char', 32); return NONE
def charout(S):
    x = S.pop(); S.out('char', trunc(x, 64, 8)); return NONE

# ---- a tick
def step(S):
    """the pointer's own step after an instruction (a stopped pointer stays)"""
    st = S.stopped
    p = S.pos; S.next()
    S.pos = S.pos.ite(not_(st), p)
def tick(S):
    """execute the cell under the pointer; move on; an instruction that takes no time is followed by the next one; one that fails reflects"""
    r = S.execute_any(S.cell(S.pos))
    if S(eq(r, SKIP, 32)): step(S); S.again()
    elif S(eq(r, NONE, 32)): step(S)
    elif S(ne(r, BLOCK, 32)): S.reflect(); step(S)
    return None
# ---- the instruction sets (the tab is accepted as a blank)
SET93 = ' \t!"#$%&*+,-./0123456789:<>?@\\_`gp~'
SET98 = SET93 + "'();=abcdefijknoqrstuxyz{}"
def iset(dims, std):
    r = SET98 if std >= 98 else SET93
    if dims >= 2: r += '^v|' + ('[]w' if std >= 98 else '')
    if dims >= 3: r += 'hlm'
    return r
FISHSET = ' !"#$%&\'()*+,-./0123456789:;<=>?@[\\]^_abcdefgilnoprvx{|}~'
SFISHSET = FISHSET + 'CDFIORSu`mhs'
# ---- strings
ESC = {'0': 0, 'a': 7, 'b': 8, 't': 9, 'n': 10, 'v': 11, 'f': 12, 'r': 13, 'e': 27}
def escaped(c):
    for k, v in ESC.items(): c = ite(eq(c, ord(k)), v, c)
    return c
def white(c): return or_(eq(c, 32), and_(sle(9, c), sle(c, 13)))
def strchar(i):
    """a cell met in string mode"""
    def f(S):
        if S(eq(i, S.strend)):
            S.strprev = 0; S.setstate(False); return NONE
        style = S.cfg('strings')
        if S(eq(style, 0, 32)): S.push(i)
        elif S(eq(style, 1, 32)):
            if S(and_(white(i), white(S.strprev))): return SKIP
            S.push(i); S.strprev = i
        elif S(eq(i, ord('\\'))):
            S.next(); S.push(escaped(S.cell(S.pos)))
        else: S.push(i)
        return NONE
    return f
def strbegin(S): S.strend = 34; S.setstate(True); return NONE

# ---- input
EOFC = mask(32)
def isdig(c): return and_(sle(48, c, 32), sle(c, 57, 32))
def numin(S):
    """& : the next run of digits, whatever comes before it skipped and what ends it left; end of input first: fails"""
    p = S.inpos
    k = S.first(lambda k: or_(eq(S.inch(add(p, k)), EOFC, 32), isdig(S.inch(add(p, k)))))
    q = add(p, k)
    if S(eq(S.inch(q), EOFC, 32)):
        S.inpos = add(q, 1); return UNSPEC
    m = S.first(lambda j: not_(isdig(S.inch(add(q, j)))))
    S.push(S.foldseq(0, lambda h, j: add(mul(h, 10), sub(sext(S.inch(add(q, j)), 32, 64), 48)))(m))
    S.inpos = add(add(q, m), ite(eq(S.inch(add(q, m)), EOFC, 32), 1, 0)); return NONE
def charin(S):
    """~ : the next character, a carriage return before it skipped; end of input: fails"""
    p = S.inpos
    c = S.inch(p); cr = eq(c, 13, 32)
    c2 = S.inch(add(p, 1))
    x = ite(cr, c2, c, 32)
    S.inpos = add(p, ite(cr, 2, 1))
    if S(eq(x, EOFC, 32)): return UNSPEC
    S.push(sext(x, 32, 64)); return NONE

# ---- topology
def step_inside(S): return or_(S.torus(), S.inbounds(S.pos))
def ipnext(S):
    """one step of the pointer"""
    p, d = S.pos, S.delta
    q = p.add(d)
    if S(S.torus()):
        wrap = lambda x, n: ite(sle(n, x), 0, ite(slt(x, 0), n-1, x))
        S.pos = V(wrap(q.c[0], 80), wrap(q.c[1], 25), *q.c[2:])
    elif S(S.inbounds(q)): S.pos = q
    else:
        back = S.iterate(p, lambda v: v.sub(d))
        S.pos = back(S.first(lambda k: not_(S.inbounds(back(k))))).add(d)
    return None
def jumpover(S):
    """; : to the next ; on the way, taking no time"""
    at = S.iterate(S.pos, lambda p: S.adv(p, S.delta))
    k = S.first(lambda k: eq(S.cell(at(add(k, 1))), 59))
    S.pos = at(add(k, 1))
    return SKIP
def jumpforward(S):
    """j : n cells forward, or backward for a negative n"""
    n = S.pop()
    if S(slt(n, 0)):
        if S(ne(n, MIN)):
            d = S.delta.neg()
            S.pos = S.iterate(S.pos, lambda p: S.adv(p, d))(neg(n))
    else: S.pos = S.iterate(S.pos, lambda p: S.adv(p, S.delta))(n)
    return NONE
def plain_next(S):
    c = S.cell(S.adv(S.pos, S.delta))
    return and_(ne(c, 32), ne(c, 59))
def iterate(S):
    """k : the next instruction, n times from here; 0 skips it"""
    c = S.cell(S.adv(S.pos, S.delta))
    n = S.pop()
    if S(slt(0, n)): S.execute_many(n, c)
    elif S(eq(n, 0)): S.next()
    return NONE

# ---- strings on the stack
def popstring(S):
    """a string ends with a 0 (taken off too); each character is the low byte of a value"""
    f = S.reader()
    k = S.first(lambda k: eq(f(k), 0))
    S.popn(add(k, 1))
    return S.string(k, lambda j: trunc(f(j), 64, 8))
def execute(S):
    """= : runs the command, pushes what the system call returned"""
    if not S(S.flag('execute')): return NOTAVAIL
    c = popstring(S)
    S.push(S.system(c)); return NONE
