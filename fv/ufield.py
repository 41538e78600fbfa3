"""Field: Funge-space is a total map of cells, and its bounds contain every cell stored (all operations, any contents, up to 3 coordinates)."""
from .ubase import *
from .smap import SMap, VecKey, instantiate
from .world import V
from . import loops
from .exec import *
U64 = (1 << 64)-1
OBJ, REG = ('obj', 'field'), ('map', 'cells')
IMIN, IMAX = 1 << 63, (1 << 63)-1
class FL:
    def __init__(self, L):
        ms = L.members('Funge::Field')
        one = lambda f: [o for o, t, n in ms if f(t, n)]
        self.map = one(lambda t, n: t.startswith(('std::unordered_map<', 'std::map<')))[0]
        self.maxs, self.mins = L.off('Funge::Field', 'maxs'), L.off('Funge::Field', 'mins')
        self.obs, self.dim = L.off('Funge::Field', 'observers'), L.off('Funge::Field', 'dimensions')
        self.cs = L.bytype('Funge::Field', lambda t: t.endswith('FungeCell'))
        self.planes = L.off('Funge::Field', 'planes')
def fieldstate(ctx, n):
    ex = newex(ctx)
    ex.merge = True
    ex.contracts = {k: v for k, v in C.CONTRACTS.items() if 'Vector' in k or k in ('Funge::operator+', 'Funge::operator-')}
    st = State()
    f = FL(ctx.P.lay)
    st.mem[OBJ] = {}; st.sizes[OBJ] = ctx.P.lay.size['Funge::Field']
    st.mem[REG] = {0: ALam(lambda *j: V(*j)), 'pres': ABase('stored', 1, (64,)*3), 24: ABase('value', 64, (64,)*3)}
    st.put(OBJ, f.map, SMap(REG, 3, 24, VecKey(3)))
    st.put(OBJ, f.maxs, seq_of([z3.BitVec('max%d' % k, 64) for k in range(n)])); st.put(OBJ, f.mins, seq_of([z3.BitVec('min%d' % k, 64) for k in range(n)]))
    st.put(OBJ, f.obs, Seq(AConst(None), 0, 0, ('blob', 32)))
    st.put(OBJ, f.planes, seq_of([], 64))
    st.put(OBJ, f.dim, z3.BitVec('dims', 64)); st.put(OBJ, f.cs, z3.BitVec('cellsize', 32))
    st.assume(z3.Or(z3.BitVec('cellsize', 32) == 1, z3.BitVec('cellsize', 32) == 8))
    return ex, st, f
def bnd(st, f, which, k):
    s = st.get(OBJ, getattr(f, which))
    n = s.size()
    if not isc(n): raise Unsupported('number of bounds')
    return s.at(k) if k < n else 0
def wf(st, f, k):
    """every stored cell lies within the bounds, and has no coordinate beyond them"""
    return or_(not_(st.get(REG, 'pres').rd(*k)), and_(*[and_(sle(bnd(st, f, 'mins', d), x), sle(x, bnd(st, f, 'maxs', d))) for d, x in enumerate(k)]))
def char(v): return sext(trunc(v, 64, 8), 8, 64)
def obs(st, f, k):
    v = ite(st.get(REG, 'pres').rd(*k), st.get(REG, 24).rd(*k), 32)
    return ite(eq(st.get(OBJ, f.cs), 1, 32), char(v), v)
def vecobj(st, name, v):
    o = ('obj', name); st.mem[o] = {}; st.put(o, 0, v); return Ptr(o, 0)
P3 = [z3.BitVec('p%d' % k, 64) for k in range(3)]
K3 = [z3.BitVec('k%d' % k, 64) for k in range(3)]
def retighten(pre_p, f, which, d, old, new, pres, K, W, P):
    """the contract of re-tightening one bound: untouched unless the cell is on it; otherwise it bounds every cell left and is reached by one (or the space is empty)"""
    le, worst = ((lambda a, b: sle(a, b)), IMIN) if which == 'maxs' else ((lambda a, b: sle(b, a)), IMAX)
    return [or_(eq(old, P[d]), eq(new, old)), or_(ne(old, P[d]), not_(pres.rd(*K)), le(K[d], new)), or_(ne(old, P[d]), eq(new, worst), *[and_(pres.rd(*w), eq(w[d], new)) for w in W])]
def cut_put(f, P, part):
    """the invariant of the loop over the bounds: every bound already visited satisfies `retighten`; the paths of an iteration are joined on it"""
    def cut(ex, cur, nxt):
        if len(cur) != 1 or len({p for _, _, p in nxt}) != 1: return nxt
        b = cur[0][0]
        pres = b.get(REG, 'pres')
        if any(s.get(REG, 'pres') is not pres for s, _, _ in nxt): return nxt
        todo = []
        for which in ('maxs', 'mins'):
            off = getattr(f, which)
            old = b.get(OBJ, off)
            if not isc(old.size()) or any(not isc(s.get(OBJ, off).size()) or s.get(OBJ, off).size() != old.size() for s, _, _ in nxt): return nxt
            for d in range(old.size()):
                if any(not loops.same(old.at(d), s.get(OBJ, off).at(d)) for s, _, _ in nxt): todo.append((which, off, d, old.at(d)))
        if not todo: return nxt
        for s, _, _ in nxt if part == 'bounds' else ():
            c = s.copy()
            instantiate(c, [tuple(K3)])
            W = []
            for x in c.ghost.get('exts', ()):
                fact, a = x.attained(); c.assume(fact)
                for e in c.ghost.get('enums', ()):
                    if e.feeds(x): W.append(e.at(c, a))
            for which, off, d, old in todo:
                for g in retighten(None, f, which, d, old, s.get(OBJ, off).at(d), pres, K3, W, P):
                    if not ex.proves(c, g): return nxt
                    o = Obl('invariant of the loop over the bounds: %s[%d]' % (which, d), ex.where()); o.ok, o.status, o.backend, o.time, o.pc, o.goal = True, 'unsat', 'z3', 0.0, list(c.pc), g
                    ex.obls.append(o)
        n, fr, p = nxt[0]
        n = n.copy(); n.pc = list(b.pc); n.mdl = None
        for which, off, d, old in todo:
            M = fresh('%s%d' % (which, d)); W = tuple(fresh('reached%d' % k) for k in range(3))
            cur_ = n.get(OBJ, off)
            n.put(OBJ, off, seq_of([M if k == d else cur_.at(k) for k in range(cur_.size())], cur_.ek))
            for g in retighten(None, f, which, d, old, M, pres, K3, [W], P) if part == 'bounds' else ():
                n.assume(g)
                if z3.is_expr(g): ex.heavy[g.get_id()] = g
            n.ghost['reached'] = n.ghost.get('reached', ()) + (W,)
        for k in ('exts', 'enums', 'its'):
            if b.ghost.get(k) is None: n.ghost.pop(k, None)
            else: n.ghost[k] = b.ghost[k]
        # anything else the paths disagree on is forgotten
        for o in list(n.mem):
            if o in (OBJ, GH): continue
            ds = [s.mem.get(o) for s, _, _ in nxt]
            if all(x is ds[0] for x in ds): continue
            if any(x is None for x in ds):
                n.mem.pop(o); continue
            n.mem[o] = {k: v for k, v in ds[0].items() if all(loops.same(v, x.get(k)) for x in ds)}
        for o in (OBJ, GH):
            for k, v in list(n.mem[o].items()):
                if o == OBJ and k in (f.maxs, f.mins) or o == GH and (k == 'reached' or k in loops.PASSIVE): continue
                if any(not loops.same(v, s.mem[o].get(k)) for s, _, _ in nxt): return nxt
        fr = fr.copy()
        for k in list(fr.regs):
            if any(not loops.same(fr.regs[k], x[1].regs.get(k)) for x in nxt): del fr.regs[k]
        return [(n, fr, p)]
    return cut
def put_build(n, ps, blanking, part):
    def build(ctx):
        ex, st, f = fieldstate(ctx, n)
        fn = need(ctx.P.find('Funge::Field::put'), 'Field::put')
        v = z3.BitVec('v', 64)
        P = list(P3)
        st.assume(wf(st, f, K3))
        st.assume(eq(v, 32) if blanking else ne(v, 32))
        for k in range(1, 3):
            if k >= ps: P[k] = 0
        if ps > 1: st.assume(ne(P[ps-1], 0))
        ex.open_limit = 0
        ex.cut = cut_put(f, P, part)
        p = vecobj(st, 'p', V(*P))
        pre = st
        def post(ex_, code, S, rv, w):
            c = code.copy()
            blank = eq(v, 32)
            if part == 'cells':
                same_ = and_(*[eq(a, b) for a, b in zip(K3, P)])
                cs = eq(pre.get(OBJ, f.cs), 1, 32)
                ex_.oblige(c.copy(), eq(obs(c, f, K3), ite(same_, ite(blank, 32, ite(cs, char(v), v)), obs(pre, f, K3))), 'post: every cell of Funge-space')
                return
            # the enumerations of this path know the entry at K3; what each extremum attained is an entry
            instantiate(c, [tuple(K3)])
            args = []
            for x in c.ghost.get('exts', ()):
                fact, a = x.attained(); c.assume(fact)
                for e in c.ghost.get('enums', ()):
                    if not e.feeds(x): continue
                    args.append((x, a, e.at(c, a))); c.assume(or_(not_(c.get(REG, 'pres').rd(*args[-1][2])), wf(pre, f, args[-1][2])))
            ps = V(*P).size()
            m = c.get(OBJ, f.maxs).size()
            for which in ('maxs', 'mins'): ex_.oblige(c.copy(), eq(c.get(OBJ, getattr(f, which)).size(), ite(ult(n, ps), ps, n)), 'post: number of dimensions with bounds (%s)' % which)
            for d in range(3):
                for which, sense, worst in (('maxs', 1, IMIN), ('mins', -1, IMAX)):
                    le = (lambda a, b: sle(a, b)) if sense > 0 else (lambda a, b: sle(b, a))
                    old, new = bnd(pre, f, which, d), bnd(c, f, which, d)
                    s = c.copy(); s.assume(not_(blank))
                    ex_.oblige(s, eq(new, ite(le(old, P[d]), P[d], old)), 'post: storing a cell: %s[%d] grows to include it and no further' % (which, d))
                    s = c.copy(); s.assume(blank); s.assume(ne(old, P[d]))
                    ex_.oblige(s, eq(new, old), 'post: blanking a cell that is not on the bound leaves %s[%d]' % (which, d))
                    if d < m:
                        s = c.copy(); s.assume(blank); s.assume(eq(old, P[d]))
                        ex_.oblige(s.copy(), or_(not_(c.get(REG, 'pres').rd(*K3)), le(K3[d], new)), 'post: blanking a cell on the bound: %s[%d] bounds every cell left' % (which, d))
                        ex_.oblige(s.copy(), or_(eq(new, worst), *[and_(c.get(REG, 'pres').rd(*w), eq(w[d], new)) for w in [t[2] for t in args] + list(c.ghost.get('reached', ()))]), 'post: blanking a cell on the bound: %s[%d] is reached by a cell left' % (which, d))
            for d, x in enumerate(K3): ex_.oblige(c.copy(), or_(not_(c.get(REG, 'pres').rd(*K3)), and_(sle(bnd(c, f, 'mins', d), x), sle(x, bnd(c, f, 'maxs', d)))), 'invariant: every stored cell within the bounds [%d]' % d)
        return ex, st, lambda s: ex.call(s, fn, [Ptr(OBJ, 0), p, v]), lambda S: None, dict(ignore_ret=True, post=post, ghosts=(), dontcare=[lambda o, off: o == REG or (o == OBJ and off in (f.maxs, f.mins))])
    return build
def get_build(name):
    def build(ctx):
        ex, st, f = fieldstate(ctx, 2)
        fn = need(ctx.P.find('Funge::Field::' + name, 1), name)
        p = vecobj(st, 'p', V(*P3))
        return ex, st, lambda s: ex.call(s, fn, [Ptr(OBJ, 0), p]), lambda S: obs(S.st, f, P3), {}
    return build
def bound_build(name, n):
    def build(ctx):
        ex, st, f = fieldstate(ctx, n)
        fn = need(ctx.P.find('Funge::Field::' + name, 1), name)
        d = z3.BitVec('d', 64)
        def spec(S):
            r = 0
            for k in range(n): r = ite(eq(d, k), bnd(S.st, f, name + 's', k), r)
            return r
        return ex, st, lambda s: ex.call(s, fn, [Ptr(OBJ, 0), d]), spec, {}
    return build
def size_build(ctx):
    ex, st, f = fieldstate(ctx, 2)
    fn = need(ctx.P.find('Funge::Field::size', 0), 'size')
    return ex, st, lambda s: ex.call(s, fn, [Ptr(OBJ, 0)]), lambda S: ite(eq(S.st.get(OBJ, f.dim), 0), 2, S.st.get(OBJ, f.dim)), {}
# concrete
def nv(p):
    p = list(p)
    while len(p) > 1 and p[-1] == 0: p.pop()
    return [len(p)] + p
def field_case(rng, pool, ops):
    dim, cs = rng.choice([1, 2, 3]), rng.choice([1, 8])
    f = K.CField(dim, cs)
    val = lambda: rng.choice(pool) if rng.random() < .2 else rng.randint(-4, 4)
    vec = lambda: [val() & U64 for _ in range(dim)] + [0]*(3-dim)
    seen, nb = [vec()], 1
    t, out = [], []
    n = rng.randint(1, 14)
    for _ in range(n):
        o = rng.choice(ops)
        p = rng.choice(seen) if rng.random() < .6 else vec()
        seen.append(p)
        if o == 0:
            v = rng.choice([32, 32, 65, 66, 300, U64, 1 << 40, 288 if rng.random() < .1 else 7]) if rng.random() < .8 else rng.choice(pool) & U64
            f.put(p, v); t += [0] + nv(p) + [v]
        elif o in (1, 6): t += [o] + nv(p); v = f.get(p); out.append(sext(v & 255, 8, 64) if cs == 1 else v)
        else:
            d = rng.choice([0, 1, 2, 3, 7])
            t += [2, d]; out += [f.lo[d], f.hi[d]] if d < 3 else [0, 0]
    return 'F ' + ' '.join(str(sgn(x & U64)) for x in [dim, cs, n] + t), [sgn(x & U64) for x in out]
def cells_units():
    case = lambda rng, pool: field_case(rng, pool, (0, 0, 0, 1, 1, 6))
    return [FnUnit('Field::put %s, %d bounds, %d coordinates' % ('of a blank' if bl else 'of a value', n, ps), put_build(n, ps, bl, 'cells'), weight=4.0+n+ps, cases=case) for n in range(4) for ps in (1, 2, 3) for bl in (True, False)] + \
           [FnUnit('Field::get', get_build('get'), cases=case), FnUnit('Field::operator[]', get_build('operator[]'), cases=case)]
def bounds_units():
    case = lambda rng, pool: field_case(rng, pool, (0, 0, 0, 2, 2))
    return [FnUnit('Field::put bounds, %s, %d bounds, %d coordinates' % ('blank' if bl else 'value', n, ps), put_build(n, ps, bl, 'bounds'), weight=4.0+n+ps, cases=case) for n in range(4) for ps in (1, 2, 3) for bl in (True, False)] + \
           [FnUnit('Field::%s, %d bounds' % (w, n), bound_build(w, n), cases=case) for w in ('min', 'max') for n in range(4)] + [FnUnit('Field::size', size_build, cases=case)]
