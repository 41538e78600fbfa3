"""Loops proved by an invariant given as a state: from the state reached after k iterations (k arbitrary), one more iteration leads to the state after k+1."""
from .exec import *
from .term import *
from . import loops, unit

def advance_value(a, b, k):
    """value after k iterations of a local that changed from a to b in the first one by a constant step (None when it did not)"""
    if isinstance(a, IterVal) and isinstance(b, IterVal) and a.cont == b.cont and a.rev == b.rev:
        d = fold(bv(b.pos)-bv(a.pos))
        return IterVal(a.cont, add(a.pos, mul(k, d)), a.rev) if isc(d) else None
    if (isc(a) or z3.is_bv(a)) and (isc(b) or z3.is_bv(b)) and not isinstance(a, bool):
        w = a.size() if z3.is_bv(a) else b.size() if z3.is_bv(b) else 64
        d = z3.simplify(bv(b, w)-bv(a, w))
        if z3.is_bv_value(d):
            kk = k if w == 64 else trunc(k, 64, w)
            return add(a, mul(kk, d.as_long(), w), w)
    return None
def local_objs(s): return [o for o in s.mem if isinstance(o, tuple) and o[0] in ('al', 'argtmp')]
def advance_locals(s, t, k):
    """the locals of s at the loop head after k iterations (t: after one)"""
    for o in local_objs(s):
        for off, v in list(s.mem[o].items()):
            if o not in t.mem or off not in t.mem[o]: continue
            u = t.mem[o][off]
            if v is u: continue
            try:
                if loops.same(v, u): continue
            except Exception: pass
            x = advance_value(v, u, k)
            if x is None: continue
            s.mem[o] = dict(s.mem[o]); s.mem[o][off] = x
    # locals first written inside the body: whatever the previous iteration left
    for o in local_objs(t):
        if o not in s.mem: continue
        for off in set(t.mem[o]) - set(s.mem[o]):
            if z3.is_bv(t.mem[o][off]) or isc(t.mem[o][off]): pass

class Loop:
    """cut hook: the loop whose header is reached inside `fn` is replaced by its invariant.
    general(s0, s1, k) -> the state after k iterations, from the states before and after the first; check(head, s, k): obligations on a state after one more"""
    def __init__(self, fn, general, check): self.fn, self.general, self.check, self.stage, self.k = fn, general, check, 0, fresh('iterations')
    def __call__(self, ex, cur, nxt):
        if self.fn not in str(ex.stack[-1]): return nxt
        if self.stage == 0:
            self.stage = 1
            s, f, p = cur[0]
            h = s.copy(); h.pc = list(s.pc); h.mdl = None
            h.assume(sle(0, self.k))
            self.general(h, nxt[0][0], self.k)
            self.head = h.copy()
            del ex.obls[:]          # the first iteration is an instance
            return [(h, f.copy(), nxt[0][2])]
        for s, f, p in nxt: self.check(self.head, s, self.k)
        return []
def install(ex, hook): ex.cut, ex.cut_all = hook, True
def remove(ex): ex.cut, ex.cut_all = None, False

def havoc_locals(s, others):
    """the locals on which the states disagree get arbitrary values; pointers become unknown"""
    for o in local_objs(s):
        d = dict(s.mem[o])
        for k in set(d) | {k for x in others for k in x.mem.get(o, ())}:
            vs = ([d[k]] if k in d else []) + [x.mem[o][k] for x in others if o in x.mem and k in x.mem[o]]
            if k in d and all(loops.same(d[k], v) for v in vs): continue
            ws = {x.size() for x in vs if z3.is_bv(x)}
            if len(ws) == 1 and all(z3.is_bv(x) or isc(x) for x in vs): d[k] = fresh('local', ws.pop())
            else: d[k] = Ptr(('unknown', fresh_name('p')), 0) if any(isinstance(x, Ptr) for x in vs) else None
            if d[k] is None: raise Unsupported('local of a loop: %r' % (vs,))
        s.mem[o] = d

class Retry(Exception): pass
class AnyIteration:
    """cut hook: one iteration from any state of the locals.  Locals on which every way round the loop agrees keep that value (proved to stay so);
    the others are arbitrary (and then a failed obligation is not believed without a failing input).  `again`: the states that go round once more."""
    def __init__(self, fn, multi=False): self.fn, self.multi, self.wide = fn, multi, set()
    def reset(self): self.again, self.heads = [], {}
    def head(self, s, nxt):
        s = s.copy(); s.pc = list(s.pc); s.mdl = None
        kept = {}
        for o in local_objs(s):
            d = dict(s.mem[o])
            for k in set(d) | {k for x in nxt for k in x.mem.get(o, ())}:
                vs = [x.mem[o][k] for x in nxt if o in x.mem and k in x.mem[o]]
                if not vs: continue
                if k in d and all(loops.same(d[k], v) for v in vs): kept[(o, k)] = d[k]; continue
                if (o, k) not in self.wide and len(vs) == len(nxt) and all(loops.same(vs[0], v) for v in vs) and not z3.is_expr(vs[0]) and not isinstance(vs[0], Ptr):
                    d[k] = kept[(o, k)] = vs[0]; continue
                ws = {x.size() for x in vs + ([d[k]] if k in d else []) if z3.is_bv(x)} or ({s.sizes[o]*8} if k == 0 and s.sizes.get(o) in (1, 2, 4, 8) else set())
                if len(ws) == 1 and all(z3.is_bv(x) or isc(x) and not isinstance(x, bool) for x in vs): d[k] = fresh('local', ws.pop()); self.data = True
                elif any(isinstance(x, Ptr) for x in vs): d[k] = Ptr(('unknown', fresh_name('p')), 0)
                elif k not in s.mem[o]: d.pop(k, None)          # first written inside the loop
                else: raise Unsupported('local of a loop: %r' % (vs,))
            s.mem[o] = d
        return s, kept
    def __call__(self, ex, cur, nxt):
        if self.fn not in str(ex.stack[-1]): return nxt
        key = nxt[0][2] if self.multi else 0
        if key not in self.heads:
            s, f, p = cur[0]
            h, self.heads[key] = self.head(s, [x for x, _, _ in nxt])
            self.again.extend(s for s, _, _ in nxt)
            return [(h, f, nxt[0][2])]
        kept = self.heads[key]
        bad = {l for l, v in kept.items() for s, _, _ in nxt if l[0] in s.mem and l[1] in s.mem[l[0]] and not loops.same(s.mem[l[0]][l[1]], v)}
        if bad - self.wide: self.wide |= bad; raise Retry()
        if bad: raise Unsupported('local of a loop')
        self.again.extend(s for s, _, _ in nxt)
        return []
    def run(self, ex, call, st):
        """call(st) -> results of the one iteration, those that go round again marked"""
        for _ in range(6):
            self.reset(); self.data = False
            mark = len(ex.obls)
            install(ex, self)
            try: outs = call(st.copy())
            except Retry: del ex.obls[mark:]; continue
            finally: remove(ex)
            if self.data: ex.imprecise = True
            for s in self.again: s.done = ('again',); outs.append((s, None))
            return outs
        raise Unsupported('locals of the loop')
