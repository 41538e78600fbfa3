"""Symbolic executor / verification-condition generator over the IR of /repo's real functions.
Every call is resolved to (1) a contract, (2) an assumed library model, (3) the callee's own IR body (inlined)."""
import time, sys, z3
from . import ir, names
from .term import *
sys.setrecursionlimit(20000)

class PathEnd(Exception): pass

def tyw(ty): return ty[1] if isinstance(ty, tuple) and ty[0] == 'i' else 64
class IterVal:
    """container iterator: cont = (obj, off, idx) location of the Seq, pos absolute position"""
    __slots__ = ('cont', 'pos', 'rev')
    def __init__(self, cont, pos, rev=False): self.cont, self.pos, self.rev = cont, pos, rev
    def ite(self, c, o):
        if isinstance(o, IterVal) and o.cont == self.cont and o.rev == self.rev: return IterVal(self.cont, ite(c, self.pos, o.pos), self.rev)
        raise Unsupported('iterator merge')
    def __repr__(self): return 'Iter(%r@%s)' % (self.cont, self.pos)

class EPtr:
    """reference to element `pos` (absolute) of the Seq at cont"""
    __slots__ = ('cont', 'pos')
    def __init__(self, cont, pos): self.cont, self.pos = cont, pos
    def __repr__(self): return 'Elem(%r@%s)' % (self.cont, self.pos)

class SymOff:
    __slots__ = ('esz', 'idx', 'rem')
    def __init__(self, esz, idx, rem=0): self.esz, self.idx, self.rem = esz, idx, rem
    def __repr__(self): return '%d*[%s]+%d' % (self.esz, self.idx, self.rem)

GH = '$ghost'
class Ghost:
    """named ghost variables: cells of a pseudo object, so that loops and frames treat them like any other cell"""
    __slots__ = ('st',)
    def __init__(self, st): self.st = st
    def d(self): return self.st.mem.get(GH, {})
    def get(self, k, default=None): return self.d().get(k, default)
    def __getitem__(self, k): return self.d()[k]
    def __contains__(self, k): return k in self.d()
    def __setitem__(self, k, v): self.st.put(GH, k, v)
    def pop(self, k, default=None):
        d = dict(self.d()); r = d.pop(k, default); self.st.mem[GH] = d; return r
    def setdefault(self, k, v):
        if k not in self.d(): self.st.put(GH, k, v)
        return self.d()[k]
    def items(self): return self.d().items()
    def update(self, **k):
        for a, b in k.items(): self.st.put(GH, a, b)
class State:
    __slots__ = ('mem', 'pc', 'nalloc', 'sizes', 'ev', 'facts', 'done', 'taint', 'mdl')
    @property
    def ghost(self): return Ghost(self)
    def __init__(self):
        self.mem = {}        # obj -> {off: value}
        self.pc = []         # path condition (z3 Bools)
        self.nalloc = {}     # allocation counters per kind
        self.sizes = {}      # obj -> byte size
        self.ev = ()         # observable events (output, effects)
        self.done = None     # set when the path ended abnormally (exit/abort)
        self.taint = ()
        self.mdl = None      # a model of a prefix of pc (only used to answer `feasible` quickly)
    def copy(self):
        s = State()
        s.mem = dict(self.mem); s.pc = list(self.pc); s.nalloc = dict(self.nalloc); s.sizes = dict(self.sizes)
        s.ev = self.ev; s.done = self.done; s.taint = self.taint; s.mdl = self.mdl
        return s
    # -- raw cells
    def put(self, obj, off, v):
        d = self.mem.get(obj)
        d = dict(d) if d is not None else {}
        d[off] = v
        self.mem[obj] = d
    def get(self, obj, off, default=None):
        d = self.mem.get(obj)
        return default if d is None else d.get(off, default)
    def cell(self, loc):
        obj, off, idx = loc
        v = self.get(obj, off)
        if idx is None: return v
        if v is None: return None
        return v.rd(*idx) if isinstance(idx, tuple) else v.rd(idx)
    def setcell(self, loc, v):
        obj, off, idx = loc
        if idx is None: self.put(obj, off, v)
        else:
            old = self.get(obj, off)
            if old is None: old = AConst(None)
            self.put(obj, off, old.store(idx if isinstance(idx, tuple) else (idx,), v))
    def new(self, kind, size=None):
        n = self.nalloc.get(kind, 0)
        self.nalloc[kind] = n+1
        obj = (kind, n)
        self.mem[obj] = {}
        if size is not None: self.sizes[obj] = size
        return obj
    def assume(self, c):
        if isinstance(c, bool):
            if not c: self.pc.append(z3.BoolVal(False))
        else: self.pc.append(c)
    def event(self, e): self.ev = self.ev + (e,)

def locof(p):
    """(obj, off, idx) of a pointer with constant offset"""
    if isinstance(p, Ptr):
        if isinstance(p.off, SymOff): raise Unsupported('symbolic offset where a constant one is needed')
        return (p.obj, p.off, p.idx)
    raise Unsupported('not a memory pointer: %r' % (p,))

class Obl:
    __slots__ = ('kind', 'where', 'ok', 'time', 'model', 'backend', 'status', 'goal', 'pc', 'unit')
    def __init__(self, kind, where): self.kind, self.where = kind, where; self.model = None; self.unit = None

HARD = {z3.Z3_OP_BMUL: 'MUL', z3.Z3_OP_BSDIV: 'SDIV', z3.Z3_OP_BUDIV: 'UDIV', z3.Z3_OP_BSREM: 'SREM', z3.Z3_OP_BUREM: 'UREM', z3.Z3_OP_BSDIV_I: 'SDIV', z3.Z3_OP_BUDIV_I: 'UDIV', z3.Z3_OP_BSREM_I: 'SREM', z3.Z3_OP_BUREM_I: 'UREM'}
_abs = {}
def abstracted(f):
    """f with products, quotients and remainders as uninterpreted functions (f itself if it has none)"""
    stack = [f]
    while stack:
        e = stack[-1]; i = e.get_id()
        if i in _abs: stack.pop(); continue
        ch = e.children()
        todo = [c for c in ch if c.get_id() not in _abs]
        if todo: stack.extend(todo); continue
        stack.pop()
        nc = [_abs[c.get_id()][1] for c in ch]
        k = HARD.get(e.decl().kind()) if ch and z3.is_app(e) else None
        if k and len(ch) >= 2:
            w = e.size(); r = nc[0]
            for c in nc[1:]: r = uf('ABS%s%d' % (k, w), (w, w), w)(r, c)
        elif all(a is b for a, b in zip(nc, ch)): r = e
        elif z3.is_quantifier(e): r = e
        else: r = e.decl()(*nc)
        _abs[i] = (e, e if r is e or all(x.eq(y) for x, y in zip(nc, ch)) and not k else r)
    return _abs[f.get_id()][1]
_syms = {}
def symbols(f):
    """names of the constants of f"""
    r = _syms.get(f.get_id())
    if r is None:
        seen, stack, r = set(), [f], set()
        while stack:
            e = stack.pop(); i = e.get_id()
            if i in seen: continue
            seen.add(i)
            if e.num_args() == 0:
                if e.decl().kind() == z3.Z3_OP_UNINTERPRETED: r.add(e.decl().name())
            else: stack.extend(e.children())
        _syms[f.get_id()] = (f, frozenset(r)); return _syms[f.get_id()][1]
    return r[1]
class Solver:
    def __init__(self, timeout=20000):
        self.timeout = timeout
        self.n = 0
        self.t = 0.0
        self.by = {}
        self.cache = {}
    def check(self, pc, extra=None, timeout=None, model=False):
        fs = [p for p in pc] + ([extra] if extra is not None else [])
        self.n += 1
        t0 = time.time()
        fs = [bl(f) for f in fs]
        ab = [abstracted(f) for f in fs]
        if any(a is not f for a, f in zip(ab, fs)):
            # equalities between the same products are decided without looking into them
            s = z3.SolverFor('QF_UFBV'); s.set('timeout', 1000); s.add(*ab)
            if s.check() == z3.unsat:
                self.t += time.time()-t0; self.by['z3'] = self.by.get('z3', 0)+1
                return ('unsat', 'z3', None)
        s = z3.SolverFor('QF_UFBV')
        s.set('timeout', timeout or self.timeout)
        s.add(*[bl(f) for f in fs])
        lim = timeout or self.timeout
        be = 'z3'
        s.set('timeout', min(500, lim))
        r = s.check()
        m = None
        if r == z3.unknown:
            # 64-bit index arithmetic: cvc5's integer encoding of bit-vectors decides in a moment what bit-blasting takes minutes for
            r3 = cvc5_check(s, lim/1000, ['--solve-bv-as-int=sum'])
            if r3 == 'unsat':
                r = z3.unsat; be = 'cvc5'; s = None
            elif r3 == 'sat' and model is not True:
                r = z3.sat; be = 'cvc5'; s = None
        if r == z3.unknown:
            s2 = z3.Solver()
            s2.set('timeout', lim)
            s2.add(*[bl(f) for f in fs])
            r2 = s2.check()
            be = 'z3-smt'
            if r2 != z3.unknown: r = r2; s = s2
            else:
                r3 = cvc5_check(s2, lim/1000, [])
                if r3 is not None:
                    r = z3.unsat if r3 == 'unsat' else z3.sat
                    be = 'cvc5'; s = None
        if r == z3.sat and model and s is not None:
            m = s.model()
        self.t += time.time()-t0
        self.by[be] = self.by.get(be, 0)+1
        return (str(r), be, m)

def cvc5_check(s, tmo=30, opts=()):
    import subprocess
    txt = '(set-logic ALL)\n' + s.to_smt2()
    try:
        o = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % int(tmo*1000)] + list(opts), input=txt, capture_output=True, text=True, timeout=tmo+5).stdout.split()
        return o[0] if o and o[0] in ('sat', 'unsat') else None
    except Exception:
        return None

class Exec:
    def __init__(self, prog, solver=None):
        self.prog = prog
        self.solver = solver or Solver()
        self.contracts = {}       # base name -> handler
        self.models = {}          # base name -> handler (assumed library contracts)
        self.obls = []
        self.stack = []           # call stack (function names) for messages
        self.stop_at = None       # function whose contract is not to be used (being verified)
        self.used_contracts = {}
        self.used_models = {}
        self.inlined = {}
        self.maxunroll = 12
        self.loop_hints = []
        self.deadline = None
        self.unit = None
        self.fam_sizes = {}       # allocation size -> family region
        self.summarise = True
        self.fail_fast = False
        self.heavy = {}
        self.depth = 0
    # ------------------------------------------------------------------ solver front end
    def light(self, pc):
        """pc without the joined histories: enough for most questions (fewer hypotheses: proofs stay proofs, feasibility is overestimated)"""
        if not self.heavy: return pc
        return [x for x in pc if not z3.is_expr(x) or x.get_id() not in self.heavy]
    def feasible(self, st, c=None):
        if isinstance(c, bool):
            if not c: return False
            c = None
        pc = st.pc
        if not pc and c is None: return True
        m = self.sat_model(st, c)
        return m is not False
    def maybe(self, st, c=True):
        """c may hold: a cheap question about the hypotheses connected to c (True when in doubt)"""
        if c is True: return self.feasible(st)
        if c is False: return False
        ids = set(symbols(c)); rest = [x for x in self.light(st.pc) if z3.is_expr(x)]; got = [c]
        while True:
            more = [x for x in rest if not ids.isdisjoint(symbols(x))]
            if not more: break
            got += more; rest = [x for x in rest if ids.isdisjoint(symbols(x))]
            for x in more: ids |= symbols(x)
        s = z3.SolverFor('QF_UFBV'); s.set('timeout', 300); s.add(*got)
        return s.check() != z3.unsat
    def sat_model(self, st, c):
        """False: pc and c have no model; otherwise a model, or None when unknown"""
        pc = self.light(st.pc)
        if st.mdl is not None and not self.heavy:
            m, n = st.mdl
            try:
                if all(z3.is_true(m.eval(bl(x), model_completion=True)) for x in pc[n:]):
                    st.mdl = (m, len(pc))
                    if c is None or z3.is_true(m.eval(bl(c), model_completion=True)): return m
            except z3.Z3Exception: pass
        r, _, m = self.solver.check(pc, c, timeout=4000, model='cheap')
        if r == 'unsat': return False
        if m is not None and st.mdl is None and not self.heavy: st.mdl = (m, len(pc))
        return m
    def proves(self, st, c, timeout=None):
        if isinstance(c, bool):
            if c: return True
            return not self.feasible(st)
        if self.heavy:
            r, _, _ = self.solver.check(self.light(st.pc), z3.Not(c), timeout=2000)
            if r == 'unsat': return True
        r, _, _ = self.solver.check(st.pc, z3.Not(c), timeout=timeout or 8000)
        return r == 'unsat'
    def where(self):
        return ' < '.join(reversed(self.stack[-3:])) if self.stack else ''
    def oblige(self, st, c, kind, where=None, assume=True):
        """generate and discharge the obligation pc => c"""
        if self.deadline and time.time() > self.deadline: raise Timeout()
        o = Obl(kind, where or self.where())
        o.unit = self.unit
        t0 = time.time()
        if c is True:
            o.ok, o.status, o.backend = True, 'unsat', 'simplifier'
        else:
            o.pc, o.goal = list(st.pc), c
            r = None
            if self.heavy: r, be, m = self.solver.check(self.light(st.pc), not_(c), timeout=2000)
            if r != 'unsat': r, be, m = self.solver.check(st.pc, not_(c), model=True)
            o.status, o.backend = r, be
            o.ok = r == 'unsat'
            if not o.ok: o.model = m
        o.time = time.time()-t0
        self.obls.append(o)
        if assume and c is not True: st.assume(c)
        return o.ok
    def branch(self, st, c):
        """split on condition c -> [(state, bool)]"""
        if isinstance(c, bool): return [(st, c)]
        nc = not_(c)
        t = self.sat_model(st, c)
        f = self.sat_model(st, nc)
        if t is not False and f is False:
            return [(st, True)]
        if f is not False and t is False:
            return [(st, False)]
        if t is False: return []
        n = len(st.pc)
        s2 = st.copy()
        st.assume(c)
        s2.assume(nc)
        if not self.heavy:
            if t is not None: st.mdl = (t, n)
            if f is not None: s2.mdl = (f, n)
        return [(st, True), (s2, False)]
    # ------------------------------------------------------------------ memory
    def load(self, st, p, ty, mod):
        if isinstance(p, EPtr):
            seq = st.cell(p.cont)
            self.check_elem(st, seq, p)
            return seq.arr.rd(p.pos)
        if not isinstance(p, Ptr): raise Unsupported('load through %r' % (p,))
        if isinstance(ty, tuple) and ty[0] in ('lit', 'named', 'packed', 'arr'):
            return self.load_agg(st, p, ty, mod)
        if p.obj == 'null':
            self.oblige(st, False, 'null-dereference')
            raise PathEnd()
        if isinstance(p.off, SymOff): return self.load_sym(st, p, ty, mod)
        if isinstance(p.obj, tuple) and p.obj[0] == 'g': self.init_global(st, p.obj)
        d = st.mem.get(p.obj)
        if d is None: raise Unsupported('load from unknown object %r' % (p,))
        if 'arr' in d and p.idx is None and isc(p.off):
            esz, arr, n = d['arr']
            if p.off % esz: raise Unsupported('array element size')
            self.oblige(st, ult(p.off//esz, n), 'array-index-in-range')
            return arr.rd(p.off//esz)
        v = d.get(p.off)
        if v is not None:
            if p.idx is not None: v = v.rd(*p.idx) if isinstance(p.idx, tuple) else v.rd(p.idx)
            return self.coerce(v, ty, st, p)
        if p.idx is None:
            for (lo, hi) in d.get('zero', ()):
                if lo <= p.off < hi: return self.zero(ty)
            v = self.load_bytes(st, d, p, ty)
            if v is not None: return v
        hook = getattr(self, 'lazy', None)
        if hook:
            v = hook(self, st, p, ty)
            if v is not None: return v
        v = self.undef(ty)
        if p.idx is None: st.put(p.obj, p.off, v)
        return v
    def load_bytes(self, st, d, p, ty):
        if not (isinstance(ty, tuple) and ty[0] == 'i' and ty[1] in (8, 16, 32)): return None
        n = ty[1]//8
        for o, v in d.items():
            if not isinstance(o, int): continue
            if isc(v) and not isinstance(v, bool) and o < p.off and p.off+n <= o+8:
                return (v >> (8*(p.off-o))) & mask(ty[1])
        return None
    def coerce(self, v, ty, st=None, p=None):
        if isinstance(ty, tuple) and ty[0] == 'i':
            w = ty[1]
            if isinstance(v, bool): return v if w == 1 else int(v)
            if z3.is_bool(v): return v if w == 1 else ite(v, 1, 0, w)
            if isc(v):
                return v & mask(w) if w > 1 else bool(v & 1)
            if z3.is_bv(v):
                if v.size() == w: return v
                if v.size() > w: return trunc(v, v.size(), w)
                raise Unsupported('wide load of narrow cell at %r' % (p,))
        return v
    def zero(self, ty):
        if ty == 'ptr': return NULL
        if ty == 'double': return 0
        if ty in ('float', 'x86_fp80'): return 0.0
        return 0 if ty != ('i', 1) else False
    def undef(self, ty):
        if ty == 'ptr': return Ptr(('undef', fresh_name('u')), 0)
        if ty == 'double': return fresh('undef', 64)
        if ty in ('float', 'x86_fp80'): return FpTerm('undef', (fresh_name('u'),))
        if isinstance(ty, tuple) and ty[0] == 'i': return fresh('undef', ty[1])
        raise Unsupported('undef %r' % (ty,))
    def load_agg(self, st, p, ty, mod):
        if ty[0] == 'arr':
            s = mod.sizeof(ty[2])
            return tuple(self.load(st, p.plus(s*k), ty[2], mod) for k in range(ty[1]))
        packed, el = mod.elems(ty)
        return tuple(self.load(st, p.plus(mod.field(ty, k)[0]), e, mod) for k, e in enumerate(el))
    def check_elem(self, st, seq, p):
        if not isinstance(seq, Seq): raise Unsupported('element access to a non-sequence %r' % (seq,))
        self.oblige(st, and_(sle(seq.lo, p.pos), slt(p.pos, seq.hi)), 'container-element-in-range')
    def arrcheck(self, st, p, n):
        self.oblige(st, ult(p.off.idx, n), 'array-index-in-range')
    def load_sym(self, st, p, ty, mod):
        so = p.off
        d = st.mem.get(p.obj)
        if isinstance(p.obj, tuple) and p.obj[0] == 'g':
            self.init_global(st, p.obj)
            d = st.mem[p.obj]
        if d is None: raise Unsupported('load %r' % p)
        if 'arr' in d:
            esz, arr, n = d['arr']
            if esz != so.esz or so.rem: raise Unsupported('array element size')
            self.arrcheck(st, p, n)
            return arr.rd(so.idx)
        size = st.sizes.get(p.obj)
        if size is None: raise Unsupported('size of %r' % (p.obj,))
        base = so.rem
        n = (size - base)//so.esz
        self.oblige(st, ult(so.idx, n), 'array-index-in-range')
        r = None
        for k in range(n):
            v = self.load(st, Ptr(p.obj, base + k*so.esz), ty, mod)
            r = v if r is None else ite(eq(so.idx, k), v, r, tyw(ty))
        return r
    def store(self, st, p, v, ty, mod):
        if isinstance(p, EPtr):
            seq = st.cell(p.cont)
            self.check_elem(st, seq, p)
            st.setcell(p.cont, Seq(seq.arr.store(p.pos, v), seq.lo, seq.hi, seq.ek))
            return
        if not isinstance(p, Ptr): raise Unsupported('store through %r' % (p,))
        if p.obj == 'null':
            self.oblige(st, False, 'null-dereference')
            raise PathEnd()
        if isinstance(v, tuple) and isinstance(ty, tuple) and ty[0] in ('lit', 'named', 'packed', 'arr'):
            if ty[0] == 'arr':
                s = mod.sizeof(ty[2])
                for k, x in enumerate(v): self.store(st, p.plus(s*k), x, ty[2], mod)
            else:
                for k, x in enumerate(v):
                    o, e = mod.field(ty, k)
                    self.store(st, p.plus(o), x, e, mod)
            return
        if isinstance(p.off, SymOff):
            so = p.off
            d = st.mem.get(p.obj)
            if d is not None and 'arr' in d:
                esz, arr, n = d['arr']
                if esz != so.esz or so.rem: raise Unsupported('array element size')
                self.arrcheck(st, p, n)
                st.put(p.obj, 'arr', (esz, arr.store(so.idx, v), n))
                return
            size = st.sizes.get(p.obj)
            if size is None: raise Unsupported('size of %r' % (p.obj,))
            n = (size-so.rem)//so.esz
            self.oblige(st, ult(so.idx, n), 'array-index-in-range')
            for k in range(n):
                q = Ptr(p.obj, so.rem+k*so.esz)
                self.store(st, q, ite(eq(so.idx, k), v, self.load(st, q, ty, mod), tyw(ty)), ty, mod)
            return
        d = st.mem.get(p.obj)
        if d is not None and 'arr' in d and p.idx is None and isc(p.off):
            esz, arr, n = d['arr']
            k = p.off//esz
            self.oblige(st, ult(k, n), 'array-index-in-range')
            st.put(p.obj, 'arr', (esz, arr.store(k, v), n))
            return
        if isinstance(p.obj, tuple) and p.obj[0] == 'g': self.init_global(st, p.obj)
        st.setcell((p.obj, p.off, p.idx), v)
    def copy_region(self, st, dst, src, size):
        if size == 0: return
        if dst.idx is not None or src.idx is not None: raise Unsupported('family memcpy')
        if isinstance(src.obj, tuple) and src.obj[0] == 'g': self.init_global(st, src.obj)
        ds = dict(st.mem.get(src.obj, {}))
        dd = dict(st.mem.get(dst.obj, {})) if dst.obj != src.obj else ds
        if 'arr' in ds or 'arr' in dd: raise Unsupported('memcpy of symbolic array')
        new = {}
        for o, v in ds.items():
            if isinstance(o, int) and src.off <= o < src.off+size:
                new[o-src.off+dst.off] = v
        zr = []
        for lo, hi in ds.get('zero', ()):
            a, b = max(lo, src.off), min(hi, src.off+size)
            if a < b: zr.append((a-src.off+dst.off, b-src.off+dst.off))
        for o in [o for o in dd if isinstance(o, int) and dst.off <= o < dst.off+size]: del dd[o]
        dd.update(new)
        if zr: dd['zero'] = tuple(dd.get('zero', ())) + tuple(zr)
        st.mem[dst.obj] = dd
    def init_global(self, st, obj):
        if obj in st.mem: return
        name = obj[1]
        m = self.prog.global_mod(name)
        st.mem[obj] = {}
        if m is None: return
        ty, x, const = m.global_init(name)
        try: st.sizes[obj] = m.sizeof(ty)
        except Exception: pass
        if x is None: return
        self.init_cells(st, obj, 0, ty, x, m)
    def init_cells(self, st, obj, off, ty, x, m):
        if x[0] == 'zero':
            st.put(obj, 'zero', tuple(st.get(obj, 'zero', ())) + ((off, off+m.sizeof(ty)),))
        elif x[0] == 'cstr':
            d = dict(st.mem[obj])
            for k, b in enumerate(x[1]): d[off+k] = b
            st.mem[obj] = d
        elif x[0] == 'agg':
            if ty[0] == 'arr':
                s = m.sizeof(ty[2])
                for k, (t, v) in enumerate(x[1]): self.init_cells(st, obj, off+s*k, t, v, m)
            else:
                for k, (t, v) in enumerate(x[1]):
                    self.init_cells(st, obj, off+m.field(ty, k)[0], t, v, m)
        else:
            st.put(obj, off, self.const(st, ty, x, m))
    def const(self, st, ty, x, mod):
        k = x[0]
        if k == 'c':
            if ty == ('i', 1): return bool(x[1] & 1)
            return x[1] & mask(ty[1])
        if k == 'f': return dbits(x[1]) if ty == 'double' else x[1]
        if k == 'null': return NULL
        if k == 'zero':
            if isinstance(ty, tuple) and ty[0] in ('lit', 'named', 'packed'):
                return tuple(self.const(st, e, x, mod) for e in mod.elems(ty)[1])
            return self.zero(ty)
        if k == 'undef':
            if isinstance(ty, tuple) and ty[0] in ('lit', 'named', 'packed'):
                return tuple(self.const(st, e, x, mod) for e in mod.elems(ty)[1])
            return self.undef(ty)
        if k == 'g':
            n = x[1]
            if self.prog.is_fn(n): return FnPtr(self.prog.resolve(n))
            return Ptr(('g', n), 0)
        if k == 'gep':
            t0, b = x[2][0]
            return self.gep(st, x[1], self.const(st, 'ptr', b, mod), [(t, self.const(st, t, v, mod)) for t, v in x[2][1:]], mod)
        if k == 'cast':
            v = self.const(st, x[2], x[3], mod)
            if x[1] in ('ptrtoint', 'inttoptr', 'bitcast'): return v
            return self.castop(x[1], v, x[2], x[4])
        if k == 'binc':
            return self.binop(st, x[1], self.const(st, x[2], x[3], mod), self.const(st, x[2], x[4], mod), x[2])
        if k == 'agg':
            return tuple(self.const(st, t, v, mod) for t, v in x[1])
        raise Unsupported('constant %r' % (x,))
    def gep(self, st, bt, p, idx, mod):
        cur = bt
        for n, (t, i) in enumerate(idx):
            w = t[1]
            if n == 0:
                esz = mod.sizeof(bt)
                p = self.padd(st, p, i, w, esz)
            else:
                if cur[0] == 'arr':
                    p = self.padd(st, p, i, w, mod.sizeof(cur[2]))
                    cur = cur[2]
                elif cur[0] in ('named', 'lit', 'packed'):
                    o, e = mod.field(cur, i)
                    p = self.padd(st, p, o, 64, 1)
                    cur = e
                else: raise Unsupported('gep into %r' % (cur,))
        return p
    def padd(self, st, p, i, w, esz):
        if isc(i):
            i = sgn(int(i), w)
            if i == 0: return p
        elif w < 64: i = sext(i, w, 64)
        if isinstance(p, EPtr):
            return EPtr(p.cont, add(p.pos, i & mask(64) if isc(i) else i))
        if isinstance(p, IterVal):
            return IterVal(p.cont, add(p.pos, i & mask(64) if isc(i) else i), p.rev)
        if not isinstance(p, Ptr):
            raise Unsupported('pointer arithmetic on %r' % (p,))
        off = p.off
        if isc(i):
            if isinstance(off, SymOff):
                b = i*esz
                if b % off.esz == 0 and off.rem == 0: return Ptr(p.obj, SymOff(off.esz, add(off.idx, (b//off.esz) & mask(64)), 0), p.idx)
                return Ptr(p.obj, SymOff(off.esz, off.idx, off.rem+b), p.idx)
            return Ptr(p.obj, off+i*esz, p.idx)
        if isinstance(off, SymOff):
            if off.esz == esz: return Ptr(p.obj, SymOff(esz, add(off.idx, i), off.rem), p.idx)
            raise Unsupported('mixed symbolic offset')
        d = st.mem.get(p.obj)
        if d is not None and 'arr' in d and off % esz == 0:
            return Ptr(p.obj, SymOff(esz, add(i, (off//esz) & mask(64)), 0), p.idx)
        return Ptr(p.obj, SymOff(esz, i, off), p.idx)
    # ------------------------------------------------------------------ operators
    def castop(self, op, v, t, t2):
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'freeze'): return v
        if op in ('trunc', 'zext', 'sext'):
            if isinstance(v, (Ptr, FnPtr, EPtr)):
                raise Unsupported('cast of pointer')
            if isinstance(v, bool) and t != ('i', 1): v = int(v)
            return {'trunc': trunc, 'zext': zext, 'sext': sext}[op](v, t[1], t2[1])
        if op in ('sitofp', 'uitofp') and t2 == 'double':
            if t[1] < 64: return F_FROM((zext if op == 'uitofp' else sext)(v, t[1], 64))
            return F_FROM(v) if op == 'sitofp' else ite(sle(0, v), F_FROM(v), fp_op('uitofp', v))
        if op in ('fptosi', 'fptoui') and t == 'double':
            if t2[1] == 64: return F_INT(v) if op == 'fptosi' else ite(sle(0, F_INT(v)), F_INT(v), fp_op('fptoui', v))
            return fp_op('%s%d' % (op, t2[1]), v, w=t2[1])
        raise Unsupported('cast ' + op)
    def binop(self, st, op, a, b, ty):
        if ty == 'double': return fp_op(op, a, b)
        if ty in ('float', 'x86_fp80'): raise Unsupported('floating point of another width')
        if isinstance(a, (Ptr, FnPtr, EPtr)) or isinstance(b, (Ptr, FnPtr, EPtr)):
            return self.ptr_bin(op, a, b)
        w = ty[1]
        if w == 1:
            a, b = bl_(a), bl_(b)
            if op == 'and': return and_(a, b)
            if op == 'or': return or_(a, b)
            if op in ('xor', 'add', 'sub'): return ite(a, not_(b), b)
            raise Unsupported('i1 ' + op)
        if op in ('sdiv', 'srem', 'udiv', 'urem'):
            self.oblige(st, ne(b, 0, w), 'division-by-zero')
            if op in ('sdiv', 'srem'):
                self.oblige(st, or_(ne(b, mask(w), w), ne(a, 1 << (w-1), w)), 'division-overflow')
        f = {'add': add, 'sub': sub, 'mul': mul, 'sdiv': sdiv, 'srem': srem, 'udiv': udiv, 'urem': urem,
             'and': band, 'or': bor, 'xor': bxor, 'shl': shl, 'lshr': lshr, 'ashr': ashr}[op]
        return f(a, b, w)
    def ptr_bin(self, op, a, b):
        if op == 'and' and isc(b) and b == 1: return 0
        if op == 'sub':
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                if isc(a.off) and isc(b.off): return (a.off-b.off) & mask(64)
                if isinstance(a.off, SymOff) or isinstance(b.off, SymOff):
                    def tot(o): return add(mul(o.idx, o.esz), o.rem & mask(64)) if isinstance(o, SymOff) else o & mask(64)
                    return sub(tot(a.off), tot(b.off))
            if isinstance(a, EPtr) and isinstance(b, EPtr) and a.cont == b.cont:
                raise Unsupported('element pointer difference')
            if isinstance(a, Ptr) and isc(b): return a.plus(-sgn(b))
            if is_null(a) and is_null(b): return 0
        if op == 'add' and isinstance(a, Ptr) and isc(b): return a.plus(sgn(b))
        if op in ('and', 'add', 'sub') and isc(b) and b == 0: return a if op != 'and' else 0
        raise Unsupported('pointer op %s %r %r' % (op, a, b))
    def ptr_eq(self, a, b):
        def nul(x): return is_null(x) or (isc(x) and x == 0)
        if nul(a) and nul(b): return True
        if nul(a) or nul(b):
            o = b if nul(a) else a
            if isinstance(o, (FnPtr, EPtr, IterVal)): return False
            if isinstance(o, Ptr):
                if o.obj == 'null': return False
                if isinstance(o.obj, tuple) and o.obj[0] == 'maybe': return o.idx      # idx holds the "is null" condition
                return False
            return eq(a, b) if not isinstance(o, Ptr) else False
        if isinstance(a, FnPtr) and isinstance(b, FnPtr): return a.name == b.name
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj != b.obj: return False
            if isc(a.off) and isc(b.off):
                r = a.off == b.off
                if a.idx is not None and b.idx is not None: return and_(r, eq(a.idx, b.idx))
                return r
            def sp(o): return (o.esz, o.idx, o.rem) if isinstance(o, SymOff) else (None, None, o)
            ea, ia, ra = sp(a.off); eb, ib, rb = sp(b.off)
            if ea == eb and ra == rb: return eq(ia, ib)
            if ea is None and (ra-rb) % eb == 0: return eq(((ra-rb)//eb) & mask(64), ib)
            if eb is None and (rb-ra) % ea == 0: return eq(((rb-ra)//ea) & mask(64), ia)
            raise Unsupported('pointer compare')
        if isinstance(a, EPtr) and isinstance(b, EPtr):
            if a.cont != b.cont: return False
            return eq(a.pos, b.pos)
        if isinstance(a, IterVal) and isinstance(b, IterVal):
            if a.cont != b.cont: raise Unsupported('iterators of different containers')
            return eq(a.pos, b.pos)
        if type(a) is not type(b): return False
        raise Unsupported('compare %r %r' % (a, b))
    def icmp(self, st, c, a, b, ty):
        if ty == 'ptr' or isinstance(a, (Ptr, FnPtr, EPtr, IterVal)) or isinstance(b, (Ptr, FnPtr, EPtr, IterVal)):
            if c == 'eq': return self.ptr_eq(a, b)
            if c == 'ne': return not_(self.ptr_eq(a, b))
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and isc(a.off) and isc(b.off):
                return {'ult': a.off < b.off, 'ule': a.off <= b.off, 'ugt': a.off > b.off, 'uge': a.off >= b.off}[c]
            raise Unsupported('pointer ordering')
        w = ty[1]
        if w == 1:
            a, b = bl_(a), bl_(b)
            if c == 'eq': return eq(a, b)
            if c == 'ne': return not_(eq(a, b))
            a, b = zext(a, 1, 8), zext(b, 1, 8)
            w = 8
        return {'eq': eq, 'ne': ne, 'slt': slt, 'sle': sle, 'sgt': sgt, 'sge': sge, 'ult': ult, 'ule': ule,
                'ugt': lambda x, y, w: ult(y, x, w), 'uge': lambda x, y, w: ule(y, x, w)}[c](a, b, w)
    # ------------------------------------------------------------------ functions
    def call(self, st, name, args, info=None, depth=0):
        """returns [(state, ret)]"""
        if self.deadline and time.time() > self.deadline: raise Timeout()
        name = self.prog.resolve(name)
        q = names.qname(name)
        h = None
        if q.base in self.contracts and q.base not in (self.stop_at or ()):
            h = self.contracts[q.base]
            r = h(self, st, args, CallInfo(q, name, info))
            if r is not NotImplemented:
                self.used_contracts[q.base] = self.used_contracts.get(q.base, 0)+1
                return self.wrap(st, r)
        h = self.find_model(q, name)
        if h is not None:
            self.stack.append(q.base)
            try:
                r = h(self, st, args, CallInfo(q, name, info))
            except PathEnd:
                return []
            finally:
                self.stack.pop()
            if r is not NotImplemented:
                self.used_models[q.base] = self.used_models.get(q.base, 0)+1
                return self.wrap(st, r)
        fn = self.prog.fn(name)
        if fn is None: raise Unsupported('external function without a model: %s' % q.full)
        if len(self.stack) > 60: raise Unsupported('call depth at %s' % q.full)
        if q.base.startswith('Funge::'): self.inlined[q.base] = self.inlined.get(q.base, 0)+1
        return self.run(st, fn, args)
    def wrap(self, st, r):
        if isinstance(r, Outs): return r.l
        return [(st, r)]
    def find_model(self, q, name):
        h = self.models.get(q.base)
        if h is None: h = self.models.get(q.cls + '::*')
        if h is None: h = self.models.get(name)
        return h
    def run(self, st, fn, args):
        fn.parse()
        q = names.qname(fn.name)
        self.stack.append(q.base)
        try:
            regs = {}
            for (t, nm, at), v in zip(fn.params, args):
                regs[nm] = v
            fr = Frame(fn, regs)
            return self.run_from(st, fr, fn.entry, None)
        finally:
            self.stack.pop()
    def run_from(self, st, fr, bb, prev, region=None):
        """execute from block bb.  Returns [(state, ret)] of the paths that return; with a region (one loop iteration),
        paths reaching the header again go to region.backs, paths leaving the loop to region.exits"""
        out = []
        work = [(st, fr, bb, prev, 0, True)]
        while work:
            w = work.pop()
            st, fr, bb, prev, i = w[:5]
            try:
                self.step_block(st, fr, bb, prev, i, work, out, region, len(w) > 5)
            except PathEnd:
                continue
        return out
    def step_block(self, st, fr, bb, prev, i, work, out, region, first=False):
        fn = fr.fn
        mod = fn.mod
        blk = fn.blocks[bb]
        if i == 0:
            if self.deadline and time.time() > self.deadline: raise Timeout()
            if region is not None and not first:
                if bb == region.h:
                    region.backs.append((st, fr, prev)); return
                if bb not in region.body:
                    region.exits.append((st, fr, bb, prev)); return
            if bb in fn.headers and not (first and region is not None):
                from . import loops
                rets, conts = loops.enter(self, st, fr, bb, prev)
                out.extend(rets)
                for (s2, f2, b2, p2) in conts:
                    if region is not None and b2 == region.h: region.backs.append((s2, f2, p2))
                    elif region is not None and b2 not in region.body: region.exits.append((s2, f2, b2, p2))
                    else: work.append((s2, f2, b2, p2, 0))
                return
            # phis
            ph = {}
            for ins in blk:
                if ins.op != 'phi': break
                for v, l in ins.a[1]:
                    if l == prev: ph[ins.dst] = self.val(st, fr, ins.a[0], v)
            fr.regs.update(ph)
        n = len(blk)
        while i < n:
            ins = blk[i]
            op = ins.op
            i += 1
            if op == 'phi': continue
            if op == 'call' or op == 'invoke':
                rt, callee, args = ins.a[:3]
                fr.line = ins.line
                outs = self.do_call(st, fr, ins)
                if len(outs) == 1:
                    st2, rv = outs[0]
                    if st2.done is not None:
                        out.append((st2, None)); return
                    st = st2
                    if ins.dst: fr.regs[ins.dst] = rv
                    if op == 'invoke':
                        return work.append((st, fr, ins.a[3], bb, 0))
                    continue
                for st2, rv in outs:
                    if st2.done is not None:
                        out.append((st2, None)); continue
                    f2 = fr.copy()
                    if ins.dst: f2.regs[ins.dst] = rv
                    if op == 'invoke': work.append((st2, f2, ins.a[3], bb, 0))
                    else: work.append((st2, f2, bb, prev, i))
                return
            if op == 'br':
                c, l1, l2 = ins.a
                if c is None:
                    work.append((st, fr, l1, bb, 0)); return
                cv = bl_(self.val(st, fr, ('i', 1), c))
                bs = self.branch(st, cv)
                for k, (s2, b) in enumerate(bs):
                    f2 = fr if k == 0 else fr.copy()
                    if len(bs) > 1 and k == 0: f2 = fr.copy()
                    work.append((s2, f2, l1 if b else l2, bb, 0))
                return
            if op == 'switch':
                t, v, d, cs = ins.a
                x = self.val(st, fr, t, v)
                w = t[1]
                if isc(x):
                    tgt = d
                    for cv, l in cs:
                        if (cv & mask(w)) == x: tgt = l
                    work.append((st, fr, tgt, bb, 0)); return
                rest = st
                negs = []
                # group by label
                for cv, l in cs:
                    c = eq(x, cv & mask(w), w)
                    if c is False: continue
                    s2 = rest.copy(); s2.assume(c)
                    if self.feasible(s2): work.append((s2, fr.copy(), l, bb, 0))
                    rest = rest.copy(); rest.assume(not_(c))
                if self.feasible(rest): work.append((rest, fr.copy(), d, bb, 0))
                return
            if op == 'ret':
                t, v = ins.a
                rv = None if v is None else self.val(st, fr, t, v)
                for o in fr.allocas: st.mem.pop(o, None)
                out.append((st, rv))
                return
            if op == 'unreachable':
                self.oblige(st, False, 'unreachable-reached', self.where())
                return
            self.simple(st, fr, ins)
        raise Unsupported('fell off block')
    def simple(self, st, fr, ins):
        op = ins.op
        a = ins.a
        mod = fr.fn.mod
        V = lambda t, v: self.val(st, fr, t, v)
        if op == 'load':
            fr.line = ins.line
            fr.regs[ins.dst] = self.load(st, V('ptr', a[1]), a[0], mod)
        elif op == 'store':
            fr.line = ins.line
            self.store(st, V('ptr', a[2]), V(a[0], a[1]), a[0], mod)
        elif op == 'alloca':
            t, n = a
            if n is None or (n[0] == 'c'):
                cnt = 1 if n is None else n[1]
                o = ('al', fr.fn.name, ins.dst, fresh_name('f')) if False else st.new('al', mod.sizeof(t)*cnt)
                fr.allocas.append(o)
                fr.regs[ins.dst] = Ptr(o, 0)
            else:
                cntv = V(('i', 64), n)
                self.oblige(st, sge(cntv, 0), 'array-size-not-negative')
                o = st.new('al')
                st.put(o, 'arr', (mod.sizeof(t), ABase(fresh_name('vla'), 8*mod.sizeof(t)), cntv))
                fr.allocas.append(o)
                fr.regs[ins.dst] = Ptr(o, 0)
        elif op == 'getelementptr':
            fr.regs[ins.dst] = self.gep(st, a[0], V('ptr', a[1]), [(t, V(t, v)) for t, v in a[2]], mod)
        elif op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            fr.line = ins.line
            fr.regs[ins.dst] = self.binop(st, op, V(a[0], a[1]), V(a[0], a[2]), a[0])
        elif op == 'icmp':
            fr.regs[ins.dst] = self.icmp(st, a[0], V(a[1], a[2]), V(a[1], a[3]), a[1])
        elif op == 'fcmp':
            fr.regs[ins.dst] = fp_cmp(a[0], a[1], V(a[1], a[2]), V(a[1], a[3]))
        elif op in ('trunc', 'zext', 'sext', 'bitcast', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
            fr.regs[ins.dst] = self.castop(op, V(a[0], a[1]), a[0], a[2])
        elif op == 'select':
            fr.regs[ins.dst] = ite(bl_(V(('i', 1), a[0])), V(a[1], a[2]), V(a[1], a[3]), tyw(a[1]))
        elif op == 'extractvalue':
            v = V(a[0], a[1])
            for k in a[2]: v = v[k]
            fr.regs[ins.dst] = v
        elif op == 'insertvalue':
            v = V(a[0], a[1])
            fr.regs[ins.dst] = setidx(v, a[4], V(a[2], a[3]))
        elif op == 'atomicrmw':
            p = V('ptr', a[2])
            old = self.load(st, p, a[1], mod)
            x = V(a[1], a[3])
            nv = {'add': lambda: self.binop(st, 'add', old, x, a[1]), 'sub': lambda: self.binop(st, 'sub', old, x, a[1]), 'xchg': lambda: x}[a[0]]()
            self.store(st, p, nv, a[1], mod)
            fr.regs[ins.dst] = old
        elif op == 'fneg':
            fr.regs[ins.dst] = fp_bin('fsub', -0.0, V(a[0], a[1]))
        elif op == 'freeze':
            fr.regs[ins.dst] = V(a[0], a[1])
        elif op == 'fence':
            pass
        else:
            raise Unsupported('instruction ' + ins.text)
    def val(self, st, fr, ty, v):
        if v[0] == 'r':
            return fr.regs[v[1]]
        return self.const(st, ty, v, fr.fn.mod)
    def do_call(self, st, fr, ins):
        rt, callee, args = ins.a[:3]
        if callee[0] == 'g':
            name = callee[1]
            if name.startswith('llvm.'):
                return [(st, self.intrinsic(st, fr, name, ins))]
        elif callee[0] == 'asm':
            raise Unsupported('inline asm')
        else:
            f = self.val(st, fr, 'ptr', callee)
            if not isinstance(f, FnPtr):
                h = getattr(self, 'unknown_call', None)
                if h:
                    av = [self.val(st, fr, t, v) for t, v, at in args]
                    r = h(self, st, f, av, rt)
                    if r is not None: return r
                if is_null(f):
                    self.oblige(st, False, 'null-function-call')
                    raise PathEnd()
                raise Unsupported('indirect call through %r' % (f,))
            name = f.name
        av = []
        for t, v, at in args:
            if 'byval' in at:
                p = self.val(st, fr, t, v)
                sz = fr.fn.mod.sizeof(at['byval'])
                o = st.new('al', sz)
                self.copy_region(st, Ptr(o, 0), p, sz)
                av.append(Ptr(o, 0))
            else: av.append(self.val(st, fr, t, v))
        sret = any('sret' in at for _, _, at in args)
        mark = self.stack[-1]
        ln = fr.fn.mod.dbg.get(ins.line)
        if ln: self.stack[-1] = '%s:%d' % (mark.split(':#')[0], ln) if False else mark + (':#%d' % ln if ':#' not in mark else '')
        try:
            return self.call(st, name, av, {'sret': sret, 'rt': rt, 'args': args, 'mod': fr.fn.mod})
        finally:
            self.stack[-1] = mark
    def intrinsic(self, st, fr, name, ins):
        args = ins.a[2]
        V = lambda k: self.val(st, fr, args[k][0], args[k][1])
        if name.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.assume', 'llvm.stackrestore', 'llvm.donothing', 'llvm.experimental.noalias')): return None
        if name.startswith('llvm.stacksave'): return NULL
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            n = V(2)
            if not isc(n): raise Unsupported('symbolic memcpy')
            self.copy_region(st, V(0), V(1), n)
            return None
        if name.startswith('llvm.memset'):
            n = V(2); b = V(1); p = V(0)
            if not isc(n) or not isc(b) or b != 0: raise Unsupported('memset')
            if p.idx is not None:
                for o in [o for o in st.mem.get(p.obj, {}) if isinstance(o, int) and p.off <= o < p.off+n]:
                    if isinstance(st.mem[p.obj][o].rd(p.idx), Seq): continue     # value-initialisation before the container's constructor
                    st.setcell((p.obj, o, p.idx), 0)
                return None
            d = dict(st.mem.get(p.obj, {}))
            for o in [o for o in d if isinstance(o, int) and p.off <= o < p.off+n]: del d[o]
            d['zero'] = tuple(d.get('zero', ())) + ((p.off, p.off+n),)
            st.mem[p.obj] = d
            return None
        if name.startswith('llvm.trap'):
            self.oblige(st, False, 'trap')
            raise PathEnd()
        if name.startswith('llvm.is.constant'): return False
        if name.startswith('llvm.objectsize'): return mask(64)
        if name.startswith('llvm.expect'): return V(0)
        w = args[0][0][1] if args and isinstance(args[0][0], tuple) else 64
        if name.startswith('llvm.abs'):
            x = V(0)
            return ite(slt(x, 0, w), neg(x, w), x, w)
        if name.startswith('llvm.smax'): return ite(slt(V(0), V(1), w), V(1), V(0), w)
        if name.startswith('llvm.smin'): return ite(slt(V(0), V(1), w), V(0), V(1), w)
        if name.startswith('llvm.umax'): return ite(ult(V(0), V(1), w), V(1), V(0), w)
        if name.startswith('llvm.umin'): return ite(ult(V(0), V(1), w), V(0), V(1), w)
        if name.startswith(('llvm.uadd.with.overflow', 'llvm.umul.with.overflow')):
            x, y = V(0), V(1)
            if 'umul' in name:
                r = mul(x, y, w)
                if isc(x) and isc(y): return (r, x*y > mask(w))
                raise Unsupported('umul overflow')
            r = add(x, y, w)
            return (r, ult(r, x, w))
        if name.startswith(('llvm.fmuladd', 'llvm.fabs', 'llvm.floor', 'llvm.pow', 'llvm.sqrt', 'llvm.trunc', 'llvm.rint', 'llvm.round', 'llvm.ceil', 'llvm.fma')):
            if not name.endswith('.f64'): raise Unsupported(name)
            return fp_op(name, *[V(k) for k in range(len(args))])
        raise Unsupported('intrinsic ' + name)
class Outs:
    def __init__(self, l): self.l = l

class CallInfo:
    __slots__ = ('q', 'name', 'info')
    def __init__(self, q, name, info): self.q, self.name, self.info = q, name, info or {}
    @property
    def sret(self): return self.info.get('sret', False)

class Timeout(Exception): pass
class NoInvariant(Unsupported): pass

class Frame:
    __slots__ = ('fn', 'regs', 'allocas', 'line')
    def __init__(self, fn, regs):
        self.fn, self.regs = fn, regs
        self.allocas = []
        self.line = None
    def copy(self):
        f = Frame(self.fn, dict(self.regs))
        f.allocas = list(self.allocas); f.line = self.line
        return f

def bl_(x):
    if isinstance(x, int) and not isinstance(x, bool): return bool(x & 1)
    if z3.is_bv(x): return ne(band(x, 1, x.size()), 0, x.size())
    return x

def setidx(v, ix, x):
    l = list(v)
    if len(ix) == 1: l[ix[0]] = x
    else: l[ix[0]] = setidx(l[ix[0]], ix[1:], x)
    return tuple(l)

# ---------------------------------------------------------------- floating point: opaque terms (equal iff built alike)
class FpTerm:
    __slots__ = ('op', 'args')
    def __init__(self, op, args): self.op, self.args = op, args
    def key(self): return (self.op,) + tuple(a.key() if isinstance(a, FpTerm) else (a if isc(a) or isinstance(a, (float, str)) else a.get_id()) for a in self.args)
    def __repr__(self): return 'Fp%r' % (self.key(),)
    def ite(self, c, o):
        if isinstance(o, FpTerm) and o.key() == self.key(): return self
        return FpTerm('ite', (c, self, o))
# doubles are their bit patterns; the operations are functions nothing is known about, but for what they give on constants
import struct
def dbits(x): return struct.unpack('<Q', struct.pack('<d', x))[0]
def dval(b): return struct.unpack('<d', struct.pack('<Q', b & mask(64)))[0]
def _fdiv(a, b):
    if b == 0: return float('nan') if a == 0 or a != a else float('inf') if (a > 0) == (struct.pack('<d', b)[7] < 128) else float('-inf')
    return a/b
FCONC = {'fadd': lambda a, b: a+b, 'fsub': lambda a, b: a-b, 'fmul': lambda a, b: a*b, 'fdiv': _fdiv}
def fp_op(op, *a, w=64):
    if all(isc(x) for x in a) and op in FCONC:
        r = FCONC[op](*[dval(x) for x in a])
        if r == r: return dbits(r)
    if op in ('fadd', 'fmul'): a = F_SORT(*a)
    return uf('fp.' + op, (64,)*len(a), w)(*[bv(x) for x in a])
def F_SORT(a, b):
    """the operands of a commutative operation in a fixed order"""
    c = ule(a, b)
    return ite(c, a, b), ite(c, b, a)
def F_FROM(n):
    """the double nearest to a signed 64-bit value"""
    if isc(n): return dbits(float(sgn(n, 64)))
    if z3.is_app_of(n, z3.Z3_OP_ITE): return ite(n.arg(0), F_FROM(fold(n.arg(1))), F_FROM(fold(n.arg(2))))
    return uf('fp.of', (64,))(n)
def F_INT(x):
    """a double cut to a signed 64-bit value (out of range: as the processor does)"""
    if not isc(x): return uf('fp.int', (64,))(x)
    d = dval(x)
    return 1 << 63 if d != d or not -2.0**63 <= d < 2.0**63 else int(d) & mask(64)
FCMP = {'oeq': lambda a, b: a == b, 'une': lambda a, b: a != b, 'olt': lambda a, b: a < b, 'ogt': lambda a, b: a > b, 'ole': lambda a, b: a <= b, 'oge': lambda a, b: a >= b}
def fp_cmp(c, ty, a, b):
    if ty != 'double': raise Unsupported('floating point of another width')
    if c == 'ogt': return F_LT(b, a)
    if c == 'olt': return F_LT(a, b)
    if c == 'oeq': return F_EQ(a, b)
    if c == 'une': return not_(F_EQ(a, b))
    if isc(a) and isc(b) and c in FCMP: return FCMP[c](dval(a), dval(b))
    return ne(uf('fp.' + c, (64, 64), 8)(bv(a), bv(b)), 0, 8)
def F_LT(a, b): return dval(a) < dval(b) if isc(a) and isc(b) else ne(uf('fp.lt', (64, 64), 8)(bv(a), bv(b)), 0, 8)
def F_EQ(a, b):
    if isc(a) and isc(b): return dval(a) == dval(b)
    a, b = F_SORT(a, b)
    return ne(uf('fp.eq', (64, 64), 8)(bv(a), bv(b)), 0, 8)
