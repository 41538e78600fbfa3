"""Verification units: one function (or one instruction) of /repo against its contract."""
import time, traceback, z3
from .term import *
from .exec import *
from . import names, stl, loops
from .compare import value_eq

class Spec:
    """the specification's view of the state.  `S(cond)` decides a condition (splitting the proof when it is open)."""
    def __init__(self, ex, st, decisions=()):
        self.ex, self.st = ex, st
        self.dec = list(decisions); self.k = 0
        self.open = None          # a decision point that was not covered by `decisions`
    def __call__(self, c):
        if isinstance(c, bool): return c
        bs = (self.ex.feasible(self.st, c), self.ex.feasible(self.st, not_(c)))
        if bs == (True, False): return True
        if bs == (False, True): return False
        if bs == (False, False): raise PathEnd()
        if self.k < len(self.dec):
            d = self.dec[self.k]; self.k += 1
        else:
            self.open = list(self.dec); d = True
            self.todo.append(self.dec + [False])
            self.dec = self.dec + [True]; self.k += 1
        self.st.assume(c if d else not_(c))
        return d

def run_spec(ex, st, fn, mk):
    """all (state, spec object, result) of the specification from st"""
    todo = [[]]
    res = []
    while todo:
        dec = todo.pop()
        S = mk(ex, st.copy(), dec)
        S.todo = todo
        try: r = fn(S)
        except PathEnd: continue
        res.append((S, r))
        if len(res) > 400: raise Unsupported('specification splits too much')
    return res

class UnitResult:
    def __init__(self, name):
        self.name = name
        self.obls = []
        self.status = None      # 'proved' | 'failed' | 'unsupported'
        self.reason = ''
        self.paths = 0
        self.time = 0.0
    @property
    def failed(self): return [o for o in self.obls if not o.ok]

DEAD = ('al', 'argtmp', 'anydata')
from .exec import GH
class Random(Exception):
    """the concrete outcome cannot be told"""
def cmp_states(ex, code, spec, pre, where, dontcare=(), only=None, ghosts=('inpos',), label=''):
    """oblige: code state == spec state on everything that existed before (frame included)"""
    goal(ex, code, spec, True, (), 'post: the part of the state never written is unchanged', where)
    objs = [o for o in pre.mem if o != GH and not (isinstance(o, tuple) and o[0] in DEAD)]
    for obj in objs:
        if isinstance(obj, tuple) and obj[0] == 'g' and pre.mem.get(obj) is code.mem.get(obj): continue
        a, b = code.mem.get(obj), spec.mem.get(obj)
        if a is b: continue
        if a is None or b is None: continue
        for off in sorted(set(a) | set(b), key=str):
            if off == 'zero' or (isinstance(off, int) and off < 0): continue
            if any(dc(obj, off) for dc in dontcare): continue
            x, y = a.get(off), b.get(off)
            if x is y: continue
            if x is None or y is None:
                # a cell one side never touched
                ex_cell = x if x is not None else y
                if isinstance(obj, tuple) and obj[0] == 'g': pass
                raise Unsupported('cell %r+%r known on one side only (%r / %r)' % (obj, off, x, y))
            for c, hyp in value_eq(x, y):
                goal(ex, code, spec, c, hyp, 'post: %s%s unchanged-or-as-specified' % (label, cellname(obj, off)), where)
    for g in ghosts:
        x, y = code.ghost.get(g), spec.ghost.get(g)
        if x is None and y is None: continue
        if x is y: continue
        for c, hyp in value_eq(x if x is not None else 0, y if y is not None else 0):
            goal(ex, code, spec, c, hyp, 'post: ghost %s' % g, where)
    cmp_events(ex, code, spec, where)

CELLNAMES = {}
def cellname(obj, off):
    return CELLNAMES.get((obj, off), '%s+%s' % (obj[1] if isinstance(obj, tuple) else obj, off))
def goal(ex, code, spec, c, hyp, kind, where):
    s = code.copy()
    s.pc = list(spec.pc)
    for h in hyp: s.assume(h)
    return ex.oblige(s, c, kind, where)

def cmp_events(ex, code, spec, where):
    a, b = code.ev, spec.ev
    if len(a) != len(b):
        goal(ex, code, spec, False, (), 'post: observable events (%d instead of %d): code %r / spec %r' % (len(a), len(b), a[:6], b[:6]), where); return
    for x, y in zip(a, b):
        if len(x) != len(y) or [p for p in x if isinstance(p, str)] != [p for p in y if isinstance(p, str)]:
            goal(ex, code, spec, False, (), 'post: event %r instead of %r' % (x, y), where); continue
        for p, q in zip(x, y):
            if isinstance(p, str): continue
            for c, hyp in value_eq(p, q) if not (isinstance(p, tuple) or p is None) else ([(c, h) for u, v in zip(p, q) for c, h in value_eq(u, v)] if isinstance(p, tuple) and isinstance(q, tuple) and len(p) == len(q) else [(p == q, ())]):
                goal(ex, code, spec, c, hyp, 'post: event %s' % (x[:2],), where)

def verify(ex, name, pre, call, spec, mk=Spec, dontcare=(), ghosts=('inpos',), retw=64, ignore_ret=False, post=None, finish=None):
    """run `call(state)` -> [(state, ret)] from pre; every result must equal what spec(S) does from pre"""
    r = UnitResult(name)
    t0 = time.time()
    ex.obls = []
    ex.unit = name
    ex.stack = [name]
    try:
        if not ex.feasible(pre): raise Unsupported('precondition unsatisfiable')
        outs = call(pre.copy())
        r.paths = len(outs)
        if not outs and not any(not o.ok for o in ex.obls): raise Unsupported('no path through the function')
        for st, rv in outs:
            if not ex.feasible(st): continue
            sp = pre.copy()
            sp.pc = list(st.pc)
            if 'its' in st.ghost: sp.ghost['its'] = st.ghost['its']
            for S, want in run_spec(ex, sp, spec, mk):
                if S.st.done != st.done and (S.st.done is None or st.done is None or S.st.done[0] != st.done[0]):
                    goal(ex, st, S.st, False, (), 'post: termination (%r, specified %r)' % (st.done, S.st.done), name); continue
                if not ignore_ret and st.done is None:
                    if want is None and rv is None: pass
                    else:
                        for c, hyp in value_eq(rv, want, retw) or [(True, ())]: goal(ex, st, S.st, c, hyp, 'post: result', name)
                if post: post(ex, st, S, rv, want)
                cmp_states(ex, st, S.st, pre, name, dontcare, ghosts=ghosts)
        if finish: finish(ex, name, pre, outs)
    except (Unsupported, NoInvariant, Timeout) as e:
        r.status = 'unsupported'; r.reason = '%s: %s' % (type(e).__name__, e)
    except RecursionError as e:
        r.status = 'unsupported'; r.reason = 'recursion'
    except (KeyError, AttributeError, TypeError, AssertionError, z3.Z3Exception, IndexError, ValueError) as e:
        r.status = 'unsupported'; r.reason = 'engine: %s: %s' % (type(e).__name__, e) ; r.tb = traceback.format_exc()
    r.obls = ex.obls
    bad = [o for o in r.obls if not o.ok]
    if r.status is None: r.status = 'proved' if not bad else 'failed'
    elif bad and r.status == 'unsupported': r.reason += ' (and %d open obligations)' % len(bad)
    r.time = time.time()-t0
    return r
