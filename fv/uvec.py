"""Vector: every operation against componentwise arithmetic, for every value of the components (vectors of up to 3 components; 4 in the thorough tier)."""
from .ubase import *
from .world import V
U64 = (1 << 64)-1
def voff(ctx): return ctx.P.lay.bytype('Funge::Vector', lambda t: t.startswith(('std::vector<', 'std::deque<')))
class VA:
    """abstract value: coordinates, number of components kept"""
    def __init__(self, c): self.c = list(c)
    def at(self, k): return self.c[k] if k < len(self.c) else 0
def norm_len(c, least=1):
    """number of components of a normalised vector with these coordinates (trailing zeros dropped)"""
    r = least
    for k in range(len(c)): r = ite(ne(c[k], 0), max(k+1, least), r)
    return r
def mkvec(ctx, st, obj, n, tag):
    xs = [z3.BitVec('%s%d' % (tag, k), 64) for k in range(n)]
    st.mem.setdefault(obj, {})
    st.put(obj, voff(ctx), seq_of(xs, 64))
    st.sizes[obj] = ctx.P.lay.size['Funge::Vector']
    if n > 1: st.assume(xs[-1] != 0)
    return VA(xs)
def check_vec(ex, st, ctx, obj, want, least, label):
    s = st.get(obj, voff(ctx))
    if not isinstance(s, Seq) or not isc(s.size()): raise Unsupported('size of the result is not decided')
    n = s.size()
    m = max(n, len(want.c)) + 1
    for k in range(m):
        got = s.at(k) if k < n else 0
        ex.oblige(st.copy(), eq(got, want.at(k)), 'post: %s, component %d' % (label, k), '')
    ex.oblige(st.copy(), eq(n, norm_len([want.at(k) for k in range(m)], least)), 'post: %s keeps no trailing zero' % label, '')

class VecUnit(Unit):
    weight = 2.0
    def __init__(self, name, meth, kind, spec, nargs=1, const=False, alias=False, maxn=3):
        self.name, self.meth, self.kind, self.spec, self.nargs, self.const, self.alias, self.maxn = name, meth, kind, spec, nargs, const, alias, maxn
    def jobs(self, tier): return [(self.name, self, tier)]
    def run(self, ctx, tier):
        top = self.maxn + (1 if tier == 'thorough' else 0)
        res = unit.UnitResult(self.name); res.status = 'proved'
        cases = [(n, m, False) for n in range(top+1) for m in (range(top+1) if self.nargs == 2 else [0])]
        if self.alias: cases += [(n, n, True) for n in range(top+1)]
        ex = newex(ctx)
        for n, m, al in cases:
            r = self.one(ctx, ex, n, m, al)
            res.obls += r.obls; res.paths += r.paths
            if r.status != 'proved':
                if res.status != 'unsupported': res.status = r.status
                res.reason = res.reason or r.reason
                if hasattr(r, 'tb'): res.tb = r.tb
                if r.status == 'unsupported': break
        return res
    def one(self, ctx, ex, n, m, al):
        st = State()
        A, B = ('obj', 'a'), ('obj', 'b')
        a = mkvec(ctx, st, A, n, 'a')
        b = a if al else mkvec(ctx, st, B, m, 'b') if self.nargs == 2 else None
        if al: B = A
        fn, call, ret = self.kind(self, ctx, ex, st, A, B)
        out = []
        pre = st.copy()
        want = self.spec(a, b) if self.nargs == 2 else self.spec(a)
        def post(ex_, code, S, rv, w):
            if ret == 'value':
                for c, h in unit.value_eq(rv, want, 64): ex_.oblige(code.copy(), c, 'post: result', '')
            else:
                least = (0 if len(b.c) == 0 else 1) if self.rhsonly else 0 if (n == 0 and (self.nargs == 1 or m == 0 or al)) and self.keepempty else 1
                check_vec(ex_, code, ctx, ret, want, least, 'result')
            if A != ret: check_vec(ex_, code, ctx, A, a, min(n, 1), 'operand unchanged')
            if b is not None and B != ret and B != A: check_vec(ex_, code, ctx, B, b, min(m, 1), 'second operand unchanged')
        return unit.verify(ex, self.name, pre, call, lambda S: None, ignore_ret=True, dontcare=[lambda o, off: True], post=post)
    keepempty = True
    rhsonly = False
    def diff(self, rep, n, seed, pool): return run_lines(rep, vec_case, n, seed, pool, self.name)

def method(nm, npar=None):
    """this->meth(other?)"""
    def k(u, ctx, ex, st, A, B):
        fn = need(ctx.P.find('Funge::Vector::' + nm, npar, (lambda q: 'initializer_list' not in ''.join(q.params))), nm)
        return fn, (lambda s: ex.call(s, fn, [Ptr(A, 0)] + ([Ptr(B, 0)] if u.nargs == 2 else []))), A
    return k
def predicate(nm):
    def k(u, ctx, ex, st, A, B):
        fn = need(ctx.P.find('Funge::Vector::' + nm, 1), nm)
        return fn, (lambda s: ex.call(s, fn, [Ptr(A, 0), Ptr(B, 0)])), 'value'
    return k
def free(nm):
    def k(u, ctx, ex, st, A, B):
        fn = need(ctx.P.find('Funge::' + nm, 2, lambda q: all('Vector' in p for p in q.params)), nm)
        R = ('obj', 'r'); st.mem[R] = {}; st.sizes[R] = ctx.P.lay.size['Funge::Vector']
        return fn, (lambda s: ex.call(s, fn, [Ptr(R, 0), Ptr(A, 0), Ptr(B, 0)], {'sret': True})), R
    return k
def copyctor(u, ctx, ex, st, A, B):
    fn = need(ctx.P.find('Funge::Vector::Vector', 1, lambda q: 'initializer_list' not in q.params[0]), 'copy constructor')
    R = ('obj', 'r'); st.mem[R] = {}; st.sizes[R] = ctx.P.lay.size['Funge::Vector']
    return fn, (lambda s: ex.call(s, fn, [Ptr(R, 0), Ptr(A, 0)])), R
def assign(u, ctx, ex, st, A, B):
    fn = need(ctx.P.find('Funge::Vector::operator=', 1, lambda q: 'initializer_list' not in q.params[0]), 'operator=')
    return fn, (lambda s: ex.call(s, fn, [Ptr(A, 0), Ptr(B, 0)])), A
def initctor(op):
    """from a list of components, trailing zeros allowed"""
    def k(u, ctx, ex, st, A, B):
        base = 'Vector' if not op else 'operator='
        fn = need(ctx.P.find('Funge::Vector::' + base, 1, lambda q: 'initializer_list' in q.params[0]), 'initializer list ' + base)
        n = st.get(A, voff(ctx)).size()
        L = st.new('heap', 8*max(n, 1))
        for i in range(n): st.put(L, 8*i, z3.BitVec('l%d' % i, 64))
        R = ('obj', 'r'); st.mem[R] = {}; st.sizes[R] = ctx.P.lay.size['Funge::Vector']
        if op: st.put(R, voff(ctx), seq_of([7, 8], 64))
        return fn, (lambda s: ex.call(s, fn, [Ptr(R, 0), Ptr(L, 0), n])), R
    return k
def settr(u, ctx, ex, st, A, B):
    fn = need(ctx.P.find('Funge::Vector::set', 2), 'set')
    return fn, (lambda s: ex.call(s, fn, [Ptr(A, 0), u.index, z3.BitVec('x', 64)])), A
def gettr(nm):
    def k(u, ctx, ex, st, A, B):
        fn = need(ctx.P.find('Funge::Vector::' + nm, 1), nm)
        return fn, (lambda s: ex.call(s, fn, [Ptr(A, 0), z3.BitVec('d', 64)])), 'value'
    return k
def cw(f): return lambda a, b: VA([f(a.at(k), b.at(k)) for k in range(max(len(a.c), len(b.c)))])
def lex(eqv):
    """compared from the last component down"""
    def f(a, b):
        r = eqv
        for k in range(max(len(a.c), len(b.c))): r = ite(slt(a.at(k), b.at(k)), True, ite(slt(b.at(k), a.at(k)), False, r))
        return r
    return f
def same_(a, b): return and_(*[eq(a.at(k), b.at(k)) for k in range(max(len(a.c), len(b.c)))])
def setspec(k):
    def f(a):
        c = [a.at(j) for j in range(max(len(a.c), k+1))]; c[k] = z3.BitVec('x', 64); return VA(c)
    return f
def getspec(a):
    d = z3.BitVec('d', 64); r = 0
    for k in range(len(a.c)): r = ite(eq(d, k), a.at(k), r)
    return r

# concrete
def vec_case(rng, pool):
    val = lambda: rng.choice([0, 0, 1, -1, 2, 5]) if rng.random() < .5 else rng.choice(pool) if rng.random() < .6 else rng.getrandbits(64)-(1 << 63)
    def vec():
        v = [val() for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 3, 4]))]
        while len(v) > 1 and v[-1] == 0: v.pop()
        return v
    a, b = vec(), vec()
    if rng.random() < .3: b = list(a)
    if rng.random() < .2 and b: b[rng.randrange(len(b))] = val()
    while len(b) > 1 and b[-1] == 0: b.pop()
    op, d, x = rng.choice(list(range(17)) + [17, 19]), rng.choice([0, 1, 2, 3, 4]), val()
    A, B = VA([q & U64 for q in a]), VA([q & U64 for q in b])
    def show(c, least=1):
        c = list(c.c)
        while len(c) > least and c[-1] == 0: c.pop()
        if least and not c: c = [0]
        return [len(c)] + c
    le = 0 if not a and not b else 1
    le_a = min(1, len(a))
    neg_ = lambda v: VA([neg(c) for c in v.c])
    ops = {0: lambda: show(cw(add)(A, B), le), 1: lambda: show(cw(sub)(A, B), le), 2: lambda: show(cw(add)(A, B), le), 3: lambda: show(cw(sub)(A, B), le),
           4: lambda: show(neg_(A), min(1, len(a))), 5: lambda: show(VA([A.at(1), neg(A.at(0))] + A.c[2:])), 6: lambda: show(VA([neg(A.at(1)), A.at(0)] + A.c[2:])),
           7: lambda: [int(bool(same_(A, B)))], 8: lambda: [int(not same_(A, B))], 9: lambda: [int(bool(lex(False)(A, B)))], 10: lambda: [int(bool(lex(True)(A, B)))],
           11: lambda: show(VA([x & U64 if k == d else A.at(k) for k in range(max(len(a), d+1))])), 12: lambda: [A.at(d)], 13: lambda: [A.at(d)],
           14: lambda: show(A, min(1, len(a))) + show(B, min(1, len(b))), 15: lambda: [len(a)], 17: lambda: show(cw(add)(A, A), le_a) + show(cw(sub)(A, A), le_a), 19: lambda: show(A, min(1, len(a))), 16: lambda: [1 if same_(A, B) and a == b else None]}
    out = ops[op]() + show(A, min(1, len(a))) + show(B, min(1, len(b)))
    t = [len(a)] + a + [len(b)] + b + [op, d, x]
    return 'V ' + ' '.join(str(sgn(q & U64)) for q in t), [None if q is None else sgn(q & U64) for q in out]

def hash_build(ctx):
    """equal vectors have equal hashes (normalised, so equal component lists)"""
    ex = newex(ctx)
    st = State()
    A, B = ('obj', 'a'), ('obj', 'b')
    return ex, st, A, B
class HashUnit(Unit):
    name = 'Vector::hash'
    def jobs(self, tier): return [(self.name, self, tier)]
    def run(self, ctx, tier):
        ex = newex(ctx)
        fn = need(ctx.P.find('Funge::Vector::hash::operator()', 1), 'hash')
        res = unit.UnitResult(self.name); res.status = 'proved'
        for n in range(4):
            st = State()
            mkvec(ctx, st, ('obj', 'a'), n, 'a'); mkvec(ctx, st, ('obj', 'b'), n, 'a')
            h = {}
            def call(s):
                r = []
                for s1, v1 in ex.call(s, fn, [NULL, Ptr(('obj', 'a'), 0)]):
                    for s2, v2 in ex.call(s1, fn, [NULL, Ptr(('obj', 'b'), 0)]): r.append((s2, (v1, v2)))
                return r
            def post(ex_, code, S, rv, w): ex_.oblige(code.copy(), eq(rv[0], rv[1]), 'post: equal vectors hash alike', '')
            r = unit.verify(ex, self.name, st, call, lambda S: None, ignore_ret=True, dontcare=[lambda o, off: True], post=post)
            res.obls += r.obls; res.paths += r.paths
            if r.status != 'proved': res.status = r.status; res.reason = r.reason; 
            if hasattr(r, 'tb'): res.tb = r.tb
        return res
    def diff(self, rep, n, seed, pool): return run_lines(rep, vec_case, n, seed, pool, self.name)

def vector_units():
    r = [VecUnit('Vector copy', '', copyctor, lambda a: a), VecUnit('Vector::operator=', '', assign, lambda a, b: b, nargs=2, alias=True),
         VecUnit('Vector::operator+=', '', method('operator+='), cw(add), nargs=2, alias=True), VecUnit('Vector::operator-=', '', method('operator-='), cw(sub), nargs=2, alias=True),
         VecUnit('operator+(Vector)', '', free('operator+'), cw(add), nargs=2, alias=True), VecUnit('operator-(Vector)', '', free('operator-'), cw(sub), nargs=2, alias=True),
         VecUnit('Vector::reverse', '', method('reverse'), lambda a: VA([neg(c) for c in a.c])),
         VecUnit('Vector::left', '', method('left'), lambda a: VA([a.at(1), neg(a.at(0))] + a.c[2:])), VecUnit('Vector::right', '', method('right'), lambda a: VA([neg(a.at(1)), a.at(0)] + a.c[2:])),
         VecUnit('Vector::operator==', '', predicate('operator=='), same_, nargs=2, alias=True), VecUnit('Vector::operator!=', '', predicate('operator!='), lambda a, b: not_(same_(a, b)), nargs=2, alias=True),
         VecUnit('Vector::operator<', '', predicate('operator<'), lex(False), nargs=2, alias=True), VecUnit('Vector::operator<=', '', predicate('operator<='), lex(True), nargs=2, alias=True),
         VecUnit('Vector::get', '', gettr('get'), getspec), VecUnit('Vector::operator[]', '', gettr('operator[]'), getspec)]
    r[7].keepempty = r[8].keepempty = False
    r[1].rhsonly = True
    for op in (False, True):
        u = VecUnit('Vector from a list' if not op else 'Vector = list', '', initctor(op), lambda a: VA([z3.BitVec('l%d' % i, 64) for i in range(len(a.c))]))
        r.append(u)
    for k in range(4):
        u = VecUnit('Vector::set %d' % k, '', settr, setspec(k)); u.index = k; u.keepempty = False
        r.append(u)
    r.append(HashUnit())
    return r
