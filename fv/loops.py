"""Loops.  A loop whose trip count is decided on the path is executed iteration by iteration (complete).  Any other loop gets an
inductive invariant `state == S(it)`: candidates are read off one symbolic iteration (linear cells, array writes at linear
indices, runs of stack pops / pushes) or supplied as hints by the contract; the candidate is then proved inductive."""
import time, z3
from .term import *
from .exec import *

class _Lin:
    def __repr__(self): return 'LIN'
LIN = _Lin()
class Region:
    def __init__(self, h, body):
        self.h, self.body = h, body
        self.backs, self.exits, self.rets = [], [], []

def one(ex, st, fr, h, prev):
    r = Region(h, fr.fn.loopbody[h])
    r.rets = ex.run_from(st, fr, h, prev, r)
    return r

SYM_UNROLL = 4
def enter(ex, st, fr, h, prev):
    rets, exits = [], []
    cur = [(st.copy(), fr.copy(), prev)]
    mark = len(ex.obls)
    symbolic = open_ = 0
    n = 0
    lim = getattr(ex, 'sym_unroll', SYM_UNROLL)
    while cur:
        n += 1
        nxt = []
        newx = 0
        if getattr(ex, 'cut', None): base = [(s.copy(), f.copy(), p) for s, f, p in cur]
        for s, f, p in cur:
            r = one(ex, s, f, h, p); newx += len(r.exits) + len(r.rets)
            rets += r.rets; exits += r.exits; nxt += r.backs
        if nxt and (exits or rets or len(nxt) > 1): symbolic += 1
        if nxt and newx: open_ += 1
        if getattr(ex, 'cut', None) and (len(nxt) > 1 or nxt and getattr(ex, 'cut_all', False)): nxt = ex.cut(ex, base, nxt)
        if getattr(ex, 'merge', False): nxt = merged(ex, st, nxt)
        cur = nxt
        if symbolic > lim or (open_ > getattr(ex, 'open_limit', 1) and (len(cur) > 2 or getattr(ex, 'merge', False))) or n > 600 or len(cur) > 200:
            break
    if not cur:
        return rets, exits
    del ex.obls[mark:]
    return summarise(ex, st, fr, h, prev)

# ------------------------------------------------------------------ joining the paths of an iteration
class CannotMerge(Exception): pass
DROP = object()
def join(cs, vs):
    v0 = vs[0]
    if all(v is v0 for v in vs): return v0
    if any(v is None or v is DROP for v in vs): return DROP
    if isinstance(v0, tuple):
        if all(v == v0 for v in vs[1:] if isinstance(v, tuple)) and all(isinstance(v, tuple) for v in vs): return v0
        raise CannotMerge('tuple')
    if isinstance(v0, (FnPtr, str, float)) or any(isinstance(v, (FnPtr, str, float)) for v in vs):
        if all(type(v) is type(v0) and (v.name == v0.name if isinstance(v0, FnPtr) else v == v0) for v in vs): return v0
        return DROP
    r = vs[-1]
    for c, v in list(zip(cs, vs))[-2::-1]:
        if v is r: continue
        if isinstance(v, EPtr) and isinstance(r, EPtr) and v.cont == r.cont: r = EPtr(r.cont, ite(c, v.pos, r.pos)); continue
        w = width_of(v) if not isc(v) else (width_of(r) if not isc(r) else 64)
        if isinstance(v, bool) != isinstance(r, bool) and not (z3.is_bool(v) or z3.is_bool(r)): return DROP
        try: r = ite(c, v, r, w or 64)
        except (Unsupported, z3.Z3Exception): return DROP
    return r
def merge_states(ex, base, ss):
    """one state that is ss[k] under the condition of its path"""
    pcs = [s.pc for s in ss]
    n = 0
    while all(len(p) > n for p in pcs) and all(p[n] is pcs[0][n] or (z3.is_expr(p[n]) and p[n].eq(pcs[0][n])) for p in pcs): n += 1
    if n < len(base.pc): raise CannotMerge('prefix')
    cs = [and_(*p[n:]) for p in pcs]
    if any(s.ev != ss[0].ev or s.done != ss[0].done or s.taint != ss[0].taint for s in ss): raise CannotMerge('events')
    m = ss[0].copy()
    m.pc = list(pcs[0][:n])
    alt = or_(*cs)
    if alt is not True and not isinstance(alt, bool): m.pc.append(alt); ex.heavy[alt.get_id()] = alt
    m.mdl = None
    for s in ss[1:]:
        for k, v in s.nalloc.items(): m.nalloc[k] = max(m.nalloc.get(k, 0), v)
        for k, v in s.sizes.items():
            if k in m.sizes and not same(m.sizes[k], v): raise CannotMerge('object sizes')
            m.sizes[k] = v
    objs = []
    for s in ss:
        for o in s.mem:
            if o not in objs: objs.append(o)
    for o in objs:
        ds = [s.mem.get(o) for s in ss]
        if all(d is ds[0] for d in ds): continue
        if isinstance(o, tuple) and o[0] == 'g':
            for s in ss: ex.init_global(s, o)
            ds = [s.mem.get(o) for s in ss]
            if all(d is ds[0] for d in ds): m.mem[o] = ds[0]; continue
        if any(d is None for d in ds):
            if o == GH: ds = [d or {} for d in ds]
            else:
                if sum(d is not None for d in ds) > 1: raise CannotMerge('object')
                m.mem[o] = [d for d in ds if d is not None][0]; continue
        out = {}
        keys = []
        for d in ds:
            for k in d:
                if k not in keys: keys.append(k)
        for k in keys:
            vs = [d.get(k) for d in ds]
            if o == GH and k in PASSIVE:
                if k == 'oplog':
                    if any(v != vs[0] for v in vs): raise CannotMerge('stack log')
                    out[k] = vs[0]; continue
                acc = []
                for c, v in zip(cs, vs):
                    for x in v or ():
                        if any(x is y or (isinstance(y, Ext) and y.rec is x.rec and y.n is x.n and y.sense == x.sense and y.g is x.g) for y in acc): continue
                        if isinstance(x, Ext) and not all(any(x is y for y in (w or ())) for w in vs): x = x.guarded(c)
                        acc.append(x)
                out[k] = tuple(acc); continue
            if o == GH and any(v is None for v in vs): raise CannotMerge('ghost %s' % k)
            v = join(cs, vs)
            if v is DROP:
                if o == GH: raise CannotMerge('ghost %s' % k)
                continue
            out[k] = v
        m.mem[o] = out
    return m, cs
def merged(ex, base, items):
    """join the paths that arrive from the same block"""
    if len(items) < 2: return items
    groups = {}
    for s, f, p in items: groups.setdefault(p, []).append((s, f, p))
    out = []
    for p, g in groups.items():
        if len(g) == 1: out += g; continue
        try:
            m, cs = merge_states(ex, base, [s for s, _, _ in g])
            f = g[0][1].copy()
            for k in list(f.regs):
                vs = [x[1].regs.get(k) for x in g]
                if all(same(v, vs[0]) for v in vs): continue
                try: v = join(cs, vs)
                except CannotMerge: v = DROP
                if v is DROP: del f.regs[k]
                else: f.regs[k] = v
            al = []
            for x in g:
                for a in x[1].allocas:
                    if a not in al: al.append(a)
            f.allocas = al
            out.append((m, f, p))
        except CannotMerge as e:
            if DEBUG: print('cannot merge', e)
            out += g
    return out

# ------------------------------------------------------------------ helpers over values
def contains(v, syms):
    """does the scalar / pointer value mention one of the symbols (set of ids)?"""
    if v is None or isc(v) or isinstance(v, (float, str)): return False
    if z3.is_expr(v):
        return bool(free_ids(v) & syms)
    if isinstance(v, Ptr):
        return contains(v.idx, syms) or (isinstance(v.off, SymOff) and contains(v.off.idx, syms)) or (z3.is_expr(v.off) and contains(v.off, syms))
    if isinstance(v, IterVal) or isinstance(v, EPtr): return contains(v.pos, syms)
    if isinstance(v, (FnPtr,)): return False
    if isinstance(v, Seq): return contains(v.lo, syms) or contains(v.hi, syms)
    if isinstance(v, FpTerm): return any(contains(a, syms) for a in v.args)
    return False
_fid = {}
def free_ids(e):
    k = e.get_id()
    if k in _fid and _fid[k][0].eq(e): return _fid[k][1]
    seen = set(); ids = set()
    wl = [e]
    while wl:
        x = wl.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(x):
            d = x.decl()
            if x.num_args() == 0 and d.kind() == z3.Z3_OP_UNINTERPRETED: ids.add(d.name())
            elif d.kind() == z3.Z3_OP_UNINTERPRETED: ids.add(d.name())
            wl.extend(x.children())
    _fid[k] = (e, ids)
    return ids
def subst(v, it, t):
    """v with symbol `it` replaced by term t"""
    if v is None or isc(v) or isinstance(v, (float, str, FnPtr)): return v
    if z3.is_expr(v): return fold(z3.substitute(v, (it, bv(t, 64))))
    if isinstance(v, Ptr):
        off = v.off
        if isinstance(off, SymOff): off = SymOff(off.esz, subst(off.idx, it, t), off.rem)
        return Ptr(v.obj, off, subst(v.idx, it, t))
    if isinstance(v, IterVal): return IterVal(v.cont, subst(v.pos, it, t), v.rev)
    if isinstance(v, EPtr): return EPtr(v.cont, subst(v.pos, it, t))
    if isinstance(v, Seq):
        a = v.arr
        return Seq(ALam(lambda i: subst(a.rd(i), it, t)), subst(v.lo, it, t), subst(v.hi, it, t), v.ek)
    if isinstance(v, FpTerm): return FpTerm(v.op, tuple(subst(a, it, t) for a in v.args))
    if hasattr(v, 'subst'): return v.subst(lambda x: subst(x, it, t))
    return v

def width_of(v):
    if isinstance(v, bool) or z3.is_bool(v): return 1
    if z3.is_bv(v): return v.size()
    return None

def havoc_like(v, name, w=None):
    """(fresh value of the same shape, set of fresh symbol names)"""
    if isinstance(v, bool) or z3.is_bool(v):
        x = fresh(name, 1); return x, {x.decl().name()}
    if isc(v) or z3.is_bv(v):
        x = fresh(name, w or width_of(v) or 64); return x, {x.decl().name()}
    if isinstance(v, Seq):
        nm = fresh_name(name + '_a'); lo = fresh(name + '_lo'); hi = fresh(name + '_hi')
        return Seq(HBase(nm, v.ek, v.arr), lo, hi, v.ek), {nm, lo.decl().name(), hi.decl().name()}
    if isinstance(v, IterVal):
        x = fresh(name); return IterVal(v.cont, x, v.rev), {x.decl().name()}
    if isinstance(v, EPtr):
        x = fresh(name); return EPtr(v.cont, x), {x.decl().name()}
    if isinstance(v, Ptr):
        if isinstance(v.off, SymOff):
            x = fresh(name); return Ptr(v.obj, SymOff(v.off.esz, x, v.off.rem), v.idx), {x.decl().name()}
        if v.idx is not None and not isc(v.idx):
            x = fresh(name); return Ptr(v.obj, v.off, x), {x.decl().name()}
    if isinstance(v, FpTerm) or isinstance(v, float):
        n = fresh_name('fp'); return FpTerm('h', (n,)), set()
    if hasattr(v, 'havoc'): return v.havoc(name)
    if isinstance(v, Arr) and getattr(v, 'nix', 0):
        nm = fresh_name(name); f = uf(nm, (64,)*v.nix, 64)
        a = ALam(lambda *k: f(*[bv(x) for x in k])); a.nix = v.nix
        return a, {nm}
    raise NoInvariant('cannot generalise %r' % (v,))

# ------------------------------------------------------------------ recurrences: x(0) = x0, x(t+1) = step(x(t), t)
def comps(v):
    """(components, rebuild) of a value a recurrence can range over"""
    if isinstance(v, bool) or z3.is_bool(v): return None
    if isc(v) or z3.is_bv(v): return [v], lambda c: c[0]
    if type(v).__name__ == 'VecG' and v.e is False: return list(v.c), lambda c: type(v)(c, False)
    return None
class Rec:
    """the function of the natural numbers with at(0) = v0 and at(t+1) = step(at(t), t): defined by recursion, so assuming its two equations is a definition"""
    def __init__(self, v0, step, ws):
        self.v0, self.step, self.ws = v0, step, ws
        nm = fresh_name('rec')
        self.f = [uf('%s_%d' % (nm, k), (64,), w) for k, w in enumerate(ws)]
        self.names = {f.name() for f in self.f}
    def after(self, h, t): return [inst(s, self.ws, h, t) for s in self.step]
    def at(self, t):
        if isc(t) and t <= 3:
            c = list(self.v0)
            for k in range(t): c = self.after(c, k)
            return c
        return [f(bv(t)) for f in self.f]
    def axiom(self, t):
        """the defining equations at t"""
        nxt = self.after(self.at(sub(t, 1)), sub(t, 1))
        me = [f(bv(t)) for f in self.f]
        return and_(or_(ne(t, 0), and_(*[eq(a, b, w) for a, b, w in zip(me, self.v0, self.ws)])), or_(sle(t, 0), and_(*[eq(a, b, w) for a, b, w in zip(me, nxt, self.ws)])))
def HC(ws): return [z3.BitVec('rec$h%d' % k, w) for k, w in enumerate(ws)]
RT = z3.BitVec('rec$t', 64)
def inst(s, ws, h, t):
    if isc(s): return s
    return fold(z3.substitute(s, *([(c, bv(x, w)) for c, x, w in zip(HC(ws), h, ws)] + [(RT, bv(t))])))
def idset(step): return frozenset().union(*[free_ids(x) for x in step if z3.is_expr(x)])
def recurrence(ex, st, v0, step, ws, loose=False):
    """the recurrence with these equations (an equal one already met if there is one)"""
    recs = ex.__dict__.setdefault('recs', [])
    for r in recs:
        if r.ws == ws and all(same(a, b) for a, b in zip(r.v0, v0)) and all(same(a, b) for a, b in zip(r.step, step)): return r
    for r in recs:
        if r.ws != ws or not loose and idset(r.step) != idset(step): continue
        c = and_(*[eq(a, b, w) for a, b, w in zip(r.v0, v0, ws)], *[eq(a, b, w) for a, b, w in zip(r.step, step, ws)])
        if c is True: return r
        if c is not False:
            s2 = st.copy(); s2.assume(RT >= 0)          # the equations are used at natural numbers only
            if ex.proves(s2, c, timeout=2000): return r
    r = Rec(list(v0), list(step), list(ws))
    recs.append(r)
    return r
class Ext:
    """rec.at(n) is the least / greatest of x0 and the values e(0) .. e(n-1)"""
    def __init__(self, rec, e, it, n, sense, g=True): self.rec, self.e, self.it, self.n, self.sense, self.g = rec, e, it, n, sense, g
    def guarded(self, c): return Ext(self.rec, self.e, self.it, self.n, self.sense, and_(self.g, c))
    def le(self, a, b): return sle(a, b) if self.sense > 0 else sle(b, a)
    def val(self, w): return subst(self.e, self.it, w)
    def bound(self, w):
        return or_(not_(self.g), not_(and_(sle(0, w), slt(w, self.n))), self.le(self.val(w), self.rec.at(self.n)[0]))
    def attained(self):
        a = fresh('arg')
        r = self.rec.at(self.n)[0]
        return or_(not_(self.g), and_(self.le(self.rec.v0[0], r), or_(eq(r, self.rec.v0[0]), and_(sle(0, a), slt(a, self.n), eq(r, self.val(a)))))), a
def names_above(e, mark):
    import re
    for n in free_ids(e):
        m = re.search(r'!(\d+)', n)
        if m and int(m.group(1)) > mark: return True
    return False
def classify_rec(ex, st0, l, v0, h, backs, conds, it, syms, mark):
    c0, ch = comps(v0), comps(h)
    cb = [comps(b) for b in backs]
    if c0 is None or ch is None or any(c is None for c in cb): return None
    own = [x for x in ch[0]]
    if not all(z3.is_const(x) and z3.is_bv(x) for x in own): return None
    ws = [x.size() for x in own]
    ids = {x.decl().name() for x in own}
    other = syms - ids
    allsame = all(all(same(a, b) for a, b in zip(c[0], cb[0][0])) for c in cb)
    if allsame: new = cb[0][0]
    else:
        if any(contains(c, other) for c in conds): return None
        new = cb[-1][0]
        for c, g in list(zip(cb, conds))[-2::-1]: new = [ite(g, a, b, w) for a, b, w in zip(c[0], new, ws)]
    if any(contains(x, other) for x in new): return None
    if any(names_above(x, mark) for x in new if z3.is_expr(x)): return None
    sb = [(x, c) for x, c in zip(own, HC(ws))] + [(it, RT)]
    step = [fold(z3.substitute(bv(x, w), *sb)) for x, w in zip(new, ws)]
    rec = recurrence(ex, st0, c0[0], step, ws)
    rb = ch[1]
    f = lambda t: rb(rec.at(t))
    f.rec = rec
    f.cand = [b[0][0] for b in cb if len(b[0]) == 1 and not contains(b[0][0], ids)] if len(ws) == 1 else []
    return f

class HBase(Arr):
    """fresh array contents"""
    def __init__(self, name, ek, like=None):
        self.ek = ek
        self.name = name
        if isinstance(ek, int): self.f = uf(name, (64,), ek)
    def rd(self, i):
        if not isinstance(self.ek, int): raise NoInvariant('pointer elements written in a loop')
        return self.f(bv(i, 64))

def store_chain(new, old):
    """indices and values of the AStore chain leading from closure `new` down to `old` (oldest first), or None"""
    r = []
    cur = new
    while cur is not old:
        if not isinstance(cur, AStore): return None
        r.append((cur.i, cur.v))
        cur = cur.prev
    r.reverse()
    return r

class Cell:
    """a location modified by the loop: (obj, off, idx)"""
    def __init__(self, l, v0): self.l, self.v0 = l, v0

def celliter(ex, st0, st1):
    """(obj, off) of the cells of st0's objects that st1 changed"""
    for obj, d in st0.mem.items():
        d1 = st1.mem.get(obj)
        if d1 is d: continue
        if d1 is None: continue
        for off in set(d) | set(d1):
            if off == 'zero' and d.get(off) == d1.get(off): continue
            if obj == GH and off in PASSIVE: continue
            a, b = d.get(off), d1.get(off)
            if a is b: continue
            if type(a) is type(b) and isc(a) and a == b: continue
            if z3.is_expr(a) and z3.is_expr(b) and a.eq(b): continue
            yield obj, off

PASSIVE = ('oplog', 'enums', 'exts', 'its')      # records, not state
def is_fam(obj): return isinstance(obj, tuple) and obj[0] == 'fam'

class Plan:
    def __init__(self):
        self.cells = {}      # loc -> class: ('lin', delta) | ('havoc',) | ('pops', n) | ...

def lin_at(v0, delta, t, w):
    """v0 + t*delta for a loop-invariant delta term"""
    if isc(delta):
        tt = trunc(t, 64, w) if w < 64 else (t if w == 64 else zext(t, 64, w))
        return add(v0, mul(tt, delta, w), w)
    if z3.is_app_of(delta, z3.Z3_OP_ITE):
        c, a, b = delta.children()
        return ite(c, lin_at(v0, fold(a), t, w), lin_at(v0, fold(b), t, w), w)
    tt = trunc(t, 64, w) if w < 64 else t
    return add(v0, mul(tt, delta, w), w)

def scalar_of(v):
    """the varying scalar of a value (for linearity): (term, width, rebuild)"""
    if isinstance(v, bool) or z3.is_bool(v): return None
    if isc(v): return v, None, lambda x: x
    if z3.is_bv(v): return v, v.size(), lambda x: x
    if isinstance(v, IterVal): return v.pos, 64, lambda x: IterVal(v.cont, x, v.rev)
    if isinstance(v, EPtr): return v.pos, 64, lambda x: EPtr(v.cont, x)
    if isinstance(v, Ptr):
        if isinstance(v.off, SymOff) : return v.off.idx, 64, lambda x: Ptr(v.obj, SymOff(v.off.esz, x, v.off.rem), v.idx)
        if v.idx is not None: return v.idx, 64, lambda x: Ptr(v.obj, v.off, x)
    return None

DEBUG = False
def summarise(ex, st0, fr, h, prev):
    if not ex.summarise: raise NoInvariant('loop in %s' % ex.where())
    if DEBUG: print('SUMMARISE', ex.where(), h)
    where = ex.where()
    obl_mark = len(ex.obls)
    # ---- phase 1: which cells change?
    M = {}            # (obj, off) -> 'cell' | set of idx terms for family cells
    widths = {}
    for rnd in range(8):
        hs, syms = st0.copy(), set()
        hav = {}
        apply_havoc(ex, hs, M, hav, syms, widths, fr)
        hs.ghost['oplog'] = ()
        r = one(ex, hs.copy(), fr.copy(), h, prev)
        new = False
        for s1, f1, p1 in r.backs:
            for obj, off in celliter(ex, hs, s1):
                v1 = s1.mem[obj].get(off)
                if isinstance(v1, bool) : widths[(obj, off)] = 1
                elif z3.is_bv(v1): widths[(obj, off)] = v1.size()
                if is_fam(obj) or (isinstance(v1, Arr) and obj != GH):
                    ch = store_chain(v1, hs.mem[obj][off])
                    if ch is None: raise NoInvariant('family cell rewritten at %s' % where)
                    for ix, v in ch:
                        cur = M.setdefault((obj, off), [])
                        key = ix[0]
                        if contains(key, syms):
                            if not any(x is LIN for x in cur):
                                cur.append(LIN); new = True
                        elif not any(x is not LIN and eq(x, key) is True for x in cur):
                            cur.append(key); new = True
                elif (obj, off) not in M:
                    M[(obj, off)] = 'cell'; new = True
            for k in s1.nalloc:
                if is_fam(k) and s1.nalloc[k] != hs.nalloc.get(k, 0): raise NoInvariant('allocation in a loop')
        if not new: break
    else:
        raise NoInvariant('modified set does not settle at %s' % where)
    if not r.backs:
        # cannot iterate twice: plain execution
        del ex.obls[obl_mark:]
        raise NoInvariant('loop without back edge')
    if DEBUG: print('  modified', M)
    locs = []
    for (obj, off), k in M.items():
        if k == 'cell': locs.append((obj, off, None))
        else:
            for x in k: locs.append((obj, off, x))
    # ---- phase 2: classify (iterate: linear first, then the rest relative to it)
    it = fresh('it')
    cls = {}          # loc -> function t -> value (closed form) ; absent: havoc
    entry = {l: entry_val(st0, l) for l in locs}
    hinted = {}
    for hnt in ex.loop_hints:
        d = hnt(ex, st0, fr, h, locs, entry)
        if d: hinted.update(d)
    for l, f in hinted.items(): cls[l] = f
    evfun = None
    bad = set()
    for attempt in range(12):
        # run the body from the current partial closed form
        del ex.obls[obl_mark:]
        hs, syms, facts = head_state(ex, st0, locs, cls, it, widths, fr)
        hv = {l: entry_val(hs, l) for l in locs}
        hs.ghost['oplog'] = ()
        base_pc = len(hs.pc)
        ev0 = hs.ev
        mark = lastname()
        r = one(ex, hs.copy(), fr.copy(), h, prev)
        r.mark, r.conds = mark, [and_(*s1.pc[base_pc:]) for s1, _, _ in r.backs]
        if not r.backs: raise NoInvariant('no back edge')
        progress = False
        # scalars / iterators / pointers
        for l in locs:
            if l in cls or l in bad: continue
            f = classify(ex, st0, l, entry, hv, r, it, syms, widths)
            if f is not None:
                cls[l] = f; progress = True
        if not progress:
            for l in locs:
                if l in cls or l in bad or l[2] is LIN or entry[l] is None: continue
                f = classify_rec(ex, st0, l, entry[l], hv[l], [back_val(s1, l) for s1, _, _ in r.backs], r.conds, it, syms, mark)
                if f is not None:
                    cls[l] = f; progress = True; break
        if not progress:
            break
    # ---- events
    evs = [s1.ev[len(ev0):] for s1, _, _ in r.backs]
    # ---- phase 3: facts + verification, demoting failing candidates
    for attempt in range(8):
        del ex.obls[obl_mark:]
        hs, syms, _ = head_state(ex, st0, locs, cls, it, widths, fr)
        hs.ghost['oplog'] = ()
        base_pc = len(hs.pc)
        ev0 = hs.ev
        hq = hs.copy()
        r = one(ex, hs.copy(), fr.copy(), h, prev)
        G = guards(r, base_pc, st0, it, syms)
        hs2 = hq
        addfacts(ex, hs2, G, it, st0)
        del ex.obls[obl_mark:]
        base_pc = len(hs2.pc)
        r = one(ex, hs2.copy(), fr.copy(), h, prev)
        bad_now = verify_step(ex, hs2, r, locs, cls, it, M, evs, ev0)
        if not bad_now: break
        if DEBUG: print('  demote', bad_now)
        for l in bad_now:
            cls.pop(l, None); bad.add(l)
    else:
        raise NoInvariant('no inductive closed form at %s' % where)
    # base case
    for l in locs:
        if l in cls:
            if not proves_eq(ex, st0, entry[l], cls[l](0), 'base'):
                raise NoInvariant('closed form wrong at entry for %r in %s' % (l, where))
    if any(l not in cls for l in locs): ex.imprecise = True
    # events
    if any(evs):
        raise_ev(ex, r, ev0, it, st0, cls)
    ex.n_loops = getattr(ex, 'n_loops', 0)+1
    if DEBUG: print('  ok', {l: cls[l](it) for l in cls})
    exts = []
    for l, f in cls.items():
        rc = getattr(f, 'rec', None)
        if rc is None: continue
        for e in f.cand:
            for sense in (1, -1):
                le = sle if sense > 0 else (lambda a, b: sle(b, a))
                okx = True
                for s1, _, _ in r.backs:
                    b, hh = rc.at(add(it, 1))[0], rc.at(it)[0]
                    if not ex.proves(s1, and_(le(hh, b), le(e, b), or_(eq(b, hh), eq(b, e)))): okx = False; break
                if okx: exts.append(Ext(rc, e, it, it, sense)); break
    for x in [x for x in r.exits] + [x for x in r.rets]:
        x[0].ghost['exts'] = x[0].ghost.get('exts', ()) + tuple(exts)
        x[0].ghost['its'] = x[0].ghost.get('its', ()) + (it,)
    conts = []
    for s, f, b, p in r.exits:
        s.ghost.pop('oplog', None)
        if 'oplog' in st0.ghost: s.ghost['oplog'] = st0.ghost['oplog'] + (('loop',),)
        conts.append((s, f, b, p))
    rets = []
    for s, rv in r.rets:
        s.ghost.pop('oplog', None)
        if 'oplog' in st0.ghost: s.ghost['oplog'] = st0.ghost['oplog'] + (('loop',),)
        rets.append((s, rv))
    return rets, conts

def raise_ev(ex, r, ev0, it, st0, cls):
    # every back path must emit the same events (as terms over `it`); they are summarised as one bulk event
    pats = {tuple(map(repr, s1.ev[len(ev0):])) for s1, _, _ in r.backs}
    if len(pats) != 1: raise NoInvariant('events differ between iterations')
    body = r.backs[0][0].ev[len(ev0):]
    bulk = ('bulk', it, body)
    for coll in (r.exits,):
        for x in coll:
            s = x[0]
            s.ev = st0.ev + (bulk,) + s.ev[len(ev0):]
    for x in r.rets:
        s = x[0]
        s.ev = st0.ev + (bulk,) + s.ev[len(ev0):]

def same(a, b):
    if a is b: return True
    if isc(a) and isc(b): return a == b
    if z3.is_expr(a) and z3.is_expr(b): return a.eq(b)
    return False

def entry_val(st, l):
    obj, off, idx = l
    if idx is LIN: return st.mem[obj][off]
    v = st.mem.get(obj, {}).get(off)
    if idx is None: return v
    return v.rd(idx)

def apply_havoc(ex, s, M, hav, syms, widths, fr):
    for (obj, off), k in M.items():
        if k == 'cell':
            v = s.mem[obj].get(off)
            if v is None:      # uninitialised local: whatever
                d = dict(s.mem[obj]); d.pop(off, None); s.mem[obj] = d
                continue
            if off == 'arr':
                nm = fresh_name('ha'); syms.add(nm)
                s.put(obj, off, (v[0], HBase(nm, v[0]*8), v[2])); continue
            nv, sy = havoc_like(v, 'h', widths.get((obj, off)))
            syms |= sy
            s.put(obj, off, nv)
        else:
            base = s.mem[obj][off]
            if any(x is LIN for x in k):
                hb, sy = havoc_family(base, off)
                syms |= sy
                base = hb
            for x in k:
                if x is LIN: continue
                nv, sy = havoc_like(s.mem[obj][off].rd(x), 'h', widths.get((obj, off)))
                syms |= sy
                base = base.store((x,), nv)
            s.put(obj, off, base)

def havoc_family(base, off):
    probe = base.rd(fresh('probe'))
    nm = fresh_name('hf')
    if isinstance(probe, Seq):
        fl, fh, fa = uf(nm + 'l', (64,)), uf(nm + 'h', (64,)), uf(nm + 'a', (64, 64), probe.ek)
        return ALam(lambda i: Seq(ALam(lambda k: fa(bv(i), bv(k))), fl(bv(i)), fh(bv(i)), probe.ek)), {nm + 'l', nm + 'h', nm + 'a'}
    w = width_of(probe)
    if w is None: raise NoInvariant('family of %r' % (probe,))
    f = uf(nm, (64,), w)
    return ALam(lambda i: f(bv(i))), {nm}

def head_state(ex, st0, locs, cls, it, widths, fr):
    s = st0.copy()
    syms = set()
    s.assume(z3.And(it >= 0, it < (1 << 61)))
    for l in locs:
        obj, off, idx = l
        if l in cls:
            v = cls[l](it)
            if idx is None or idx is LIN: s.put(obj, off, v)
            else: s.put(obj, off, s.mem[obj][off].store((idx,), v))
            rc = getattr(cls[l], 'rec', None)
            if rc is not None:
                s.assume(rc.axiom(it)); s.assume(rc.axiom(add(it, 1)))
        else:
            apply_havoc(ex, s, {(obj, off): 'cell' if idx is None else [idx]}, None, syms, widths, fr)
    for f in getattr(ex, 'univ_facts', ()):
        c = f(it)
        if c is not None: s.assume(c)
    return s, syms, None

def lastname():
    from . import term
    return term._cnt[0]
def back_val(s1, l): return entry_val(s1, l)

def classify(ex, st0, l, entry, hv, r, it, syms, widths):
    obj, off, idx = l
    v0, h = entry[l], hv[l]
    backs = [back_val(s1, l) for s1, _, _ in r.backs]
    if v0 is None: return None
    if idx is LIN: return classify_family(ex, st0, l, v0, h, r, it, syms)
    # --- linear
    if type(h).__name__ == 'VecG' and comps(h) and comps(v0) and all(comps(b) for b in backs):
        nm = syms | {it.decl().name()}
        ds = [[sub(x, y) for x, y in zip(b.c, h.c)] for b in backs]
        if all(same(a, b) for d in ds for a, b in zip(d, ds[0])) and all(isc(x) for x in ds[0]):
            d = ds[0]
            return lambda t: type(h)([lin_at(a, x, t, 64) for a, x in zip(v0.c, d)], False)
        return None
    sc = scalar_of(h)
    if sc is not None and not (isc(v0) and isinstance(v0, bool)):
        s0 = scalar_of(v0)
        hb = [scalar_of(b) for b in backs]
        if s0 is not None and all(x is not None for x in hb):
            w = sc[1] or widths.get((obj, off)) or 64
            ds = []
            for x in hb:
                try: ds.append(sub(x[0], sc[0], w))
                except Exception: ds = None; break
            if ds is not None and all(same(d, ds[0]) for d in ds) and not contains(ds[0], syms | {it.decl().name()}):
                d = ds[0]; b0 = s0[0]; rb = s0[2]
                # rebuild from the *entry* value shape
                return lambda t: rebuild(h, lin_at(b0, d, t, w))
    # --- whole arrays (VLA / buffers)
    if off == 'arr':
        chains = [store_chain(b[1], h[1]) for b in backs]
        f = array_form(ex, v0[1], chains, it, syms)
        if f is None: return None
        return lambda t: (v0[0], f(t), v0[2])
    if isinstance(v0, Seq):
        # --- runs of stack operations recorded by the Stack contract
        f = classify_ops(ex, l, v0, r, it, syms)
        if f is not None: return f
        # --- ordinary sequences: linear bounds, writes at linear places
        if all(isinstance(b, Seq) for b in backs):
            dl = [sub(b.lo, h.lo) for b in backs]; dh = [sub(b.hi, h.hi) for b in backs]
            names_ = syms | {it.decl().name()}
            if all(same(x, dl[0]) for x in dl) and all(same(x, dh[0]) for x in dh) and not contains(dl[0], names_) and not contains(dh[0], names_):
                chains = [store_chain(b.arr, h.arr) for b in backs]
                if all(c is not None for c in chains):
                    d0, d1 = dl[0], dh[0]
                    lo = lambda t: lin_at(v0.lo, d0, t, 64); hi = lambda t: lin_at(v0.hi, d1, t, 64)
                    if all(len(c) == 0 for c in chains):
                        return lambda t: Seq(v0.arr, lo(t), hi(t), v0.ek)
                    # express store indices through it: substitute havoc'd bounds by their closed form
                    sub2 = []
                    if z3.is_expr(h.lo): sub2.append((h.lo, bv(lo(it))))
                    if z3.is_expr(h.hi): sub2.append((h.hi, bv(hi(it))))
                    ch2 = [[(tuple(z3s(x, sub2) for x in ix), z3s(v, sub2)) for ix, v in c] for c in chains]
                    left = syms - {h.lo.decl().name() if z3.is_expr(h.lo) else '', h.hi.decl().name() if z3.is_expr(h.hi) else ''}
                    f = array_form(ex, v0.arr, ch2, it, left)
                    if f is None: return None
                    return lambda t: Seq(f(t), lo(t), hi(t), v0.ek)
    # --- loop-invariant last assignment: value at it>=1 given by the previous iteration
    if all(same(b, backs[0]) for b in backs) and not contains(backs[0], syms) and (isc(backs[0]) or z3.is_expr(backs[0])) and (isc(v0) or z3.is_expr(v0)):
        b0 = backs[0]
        return lambda t: ite(eq(t, 0), v0, subst(b0, it, sub(t, 1)), widths.get((obj, off)) or width_of(b0) or 64)
    return None

def z3s(v, sub2):
    if z3.is_expr(v) and sub2: return fold(z3.substitute(v, *sub2))
    if isinstance(v, Ptr) and sub2: return Ptr(v.obj, v.off, z3s(v.idx, sub2) if v.idx is not None else None)
    return v
def rebuild(like, x):
    if isinstance(like, IterVal): return IterVal(like.cont, x, like.rev)
    if isinstance(like, EPtr): return EPtr(like.cont, x)
    if isinstance(like, Ptr):
        if isinstance(like.off, SymOff): return Ptr(like.obj, SymOff(like.off.esz, x, like.off.rem), like.idx)
        return Ptr(like.obj, like.off, x)
    return x

def array_form(ex, a0, chains, it, syms):
    """closed form of an array whose every iteration performs the same writes at indices linear in `it`"""
    if any(c is None for c in chains): return None
    c0 = chains[0]
    for c in chains[1:]:
        if len(c) != len(c0) or not all(all(same(x, y) for x, y in zip(p[0], q[0])) and same(p[1], q[1]) for p, q in zip(c, c0)): return None
    ws = []
    for ix, v in c0:
        if len(ix) != 1: return None
        i = ix[0]
        if contains(i, syms) or contains(v, syms): return None
        # i = i0 + d*it with d = +-1 (or a symbolic choice of the two)
        i_0 = subst(i, it, 0); d = sub(subst(i, it, 1), i_0)
        if contains(d, {it.decl().name()}): return None
        if not same(fold(bv(lin_at(i_0, d, it, 64)) == bv(i)) if not isc(i) else (i == i_0), True):
            if not z3.is_true(z3.simplify(bv(lin_at(i_0, d, it, 64)) == bv(i))):
                return None
        if isc(d) and d not in (1, mask(64), 0): return None
        ws.append((i_0, d, v))
    def f(t):
        cur = a0
        def rd(k):
            r = a0.rd(k)
            for i_0, d, v in ws:
                if isc(d):
                    if d == 0:
                        r = ite(slt(0, t), ite(eq(k, i_0), subst(v, it, sub(t, 1)), r), r); continue
                    n = sub(k, i_0) if d == 1 else sub(i_0, k)
                    r = ite(and_(sle(0, n), slt(n, t)), subst(v, it, n), r)
                else:
                    n = lin_inv(k, i_0, d)
                    if n is None: raise NoInvariant('stride')
                    r = ite(and_(sle(0, n), slt(n, t)), subst(v, it, n), r)
            return r
        return ALam(rd)
    return f
def lin_inv(k, i0, d):
    if isc(d):
        if d == 1: return sub(k, i0)
        if d == mask(64): return sub(i0, k)
        return None
    if z3.is_app_of(d, z3.Z3_OP_ITE):
        c, a, b = d.children()
        x, y = lin_inv(k, i0, fold(a)), lin_inv(k, i0, fold(b))
        if x is None or y is None: return None
        return ite(c, x, y)
    return None

def classify_family(ex, st0, l, v0, h, r, it, syms):
    obj, off, _ = l
    chains = [store_chain(entry_val(s1, l), h) for s1, _, _ in r.backs]
    return array_form(ex, v0, chains, it, syms)

def classify_ops(ex, l, v0, r, it, syms):
    """the iteration pops p values from this stack, or pushes q known values, on every path"""
    logs = []
    for s1, _, _ in r.backs:
        lg = [o for o in s1.ghost.get('oplog', ()) if o[0] == 'loop' or loc_same(o[1], l)]
        if any(o[0] == 'loop' for o in lg): return None
        logs.append(lg)
    if not logs or not logs[0]: return None
    k0 = [o[0] for o in logs[0]]
    for lg in logs:
        if [o[0] for o in lg] != k0: return None
    from .stackmod import popn, pushseq
    mode = logs[0][0][3]
    if all(k == 'pop' for k in k0):
        n = len(k0)
        return lambda t: popn(v0, mode, mul(t, n))
    if all(k == 'push' for k in k0):
        n = len(k0)
        for lg in logs:
            for a, b in zip(lg, logs[0]):
                if not same(a[2], b[2]): return None
        vs = [o[2] for o in logs[0]]
        if any(contains(v, syms) for v in vs): return None
        if n == 1:
            v = vs[0]
            return lambda t: pushseq(v0, mode, t, lambda j: subst(v, it, j))
    return None
def loc_same(a, b):
    return a[0] == b[0] and a[1] == b[1] and ((a[2] is None and b[2] is None) or (a[2] is not None and b[2] is not None and b[2] is not LIN and eq(a[2], b[2]) is True))

def guards(r, base, st0, it, syms):
    """condition under which an iteration continues, as a function of `it` (conjuncts over other fresh symbols are dropped)"""
    alts = []
    known = set()
    for c in st0.pc: known |= free_ids(c)
    for s1, _, _ in r.backs:
        cs = []
        for c in s1.pc[base:]:
            ids = free_ids(c)
            if ids & syms: continue
            cs.append(c)
        alts.append(and_(*cs))
    g = or_(*alts)
    def G(t):
        return subst(g, it, t) if not isinstance(g, bool) else g
    return G

def addfacts(ex, s, G, it, st0):
    """an arrival with it > 0 came through the iterations before it"""
    def inst(t, guard):
        c = G(t)
        if c is True: return
        s.assume(or_(guard, c))
    inst(sub(it, 1), eq(it, 0))
    inst(0, eq(it, 0))
    for w in getattr(ex, 'witness', ()):
        t = w() if callable(w) else w
        if t is None: continue
        inst(t, not_(and_(sle(0, t), slt(t, it))))

def verify_step(ex, hs, r, locs, cls, it, M, evs, ev0):
    bad = []
    for s1, _, _ in r.backs:
        for obj, off in celliter(ex, hs, s1):
            if (obj, off) not in M: raise NoInvariant('unexpected write to %r' % ((obj, off),))
    for l in list(cls):
        want = cls[l](add(it, 1))
        for s1, _, _ in r.backs:
            got = back_val(s1, l)
            if not proves_eq(ex, s1, got, want, 'step'):
                bad.append(l); break
    # cells of family M-lists: other indices untouched by construction (store chains)
    return bad

def proves_eq(ex, st, a, b, kind):
    from .compare import value_eq
    try:
        cs = value_eq(a, b)
    except Unsupported:
        return False
    for c, extra in cs:
        if c is True: continue
        s = st
        if extra:
            s = st.copy()
            for e in extra: s.assume(e)
        if not ex.proves(s, c): return False
    return True
