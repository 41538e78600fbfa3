"""Verification units of the properties: what is verified, against which specification, in which configurations."""
import random, z3
from .term import *
from .exec import *
from . import unit, world as W, case as K, contracts as C
from .world import NONE, SKIP, V

class Unit:
    worlds = ()
    needs = ()
    bounded = False          # no deductive part: a bounded check stands in
    def jobs(self, tier): raise NotImplementedError
    def diff(self, rep, n, seed, pool): return 0, []
    def consts(self): return []

DIVE = 0x20000
def anysel(w, st):
    """any stack may be the selected one"""
    s = z3.BitVec('sel', 64); n = z3.BitVec('nstk', 64)
    st.assume(z3.And(s >= 0, s < n)); st.put(w.ss, w.SEL, s)
    for i in (n-1-s, n-2-s): w.stack_wf(st, i)
class Instr(Unit):
    """an instruction executed through the real FungeRunner::execute (dispatch, dive mode and the instruction itself)"""
    def __init__(self, name, code, spec, worlds=((2, 98),), movement=False, requires=None, hint=None, split=False, setup=None, may_crash=None, post=None, dontcare=(), finish=None,
                 hints=None, ensure=None, thorough_worlds=(), budget=None, bounded=False, cspec=None, call=None, ghost=None, only_split=None, cworlds=None, loops=None, weight=1.0, quick_worlds=None, retw=32):
        self.name, self.code, self.spec, self.movement, self.requires = name, (ord(code) if isinstance(code, str) else code), spec, movement, requires
        self.pworlds, self.tworlds = tuple(worlds), tuple(worlds) + tuple(thorough_worlds)
        self.worlds = list(cworlds) if cworlds else list(self.tworlds)
        self.hint, self.split, self.setup, self.may_crash, self.post, self.dontcare = dict(hint or {}), split, setup, may_crash, post, tuple(dontcare)
        self.finish, self.budget, self.bounded, self._cspec, self.call, self.ghost, self.loops = finish, budget, bounded, cspec, call, ghost, loops
        self.weight = weight; self.retw = retw
    def worldkeys(self, tier): return [(d, s, self.setup) for d, s in (self.tworlds if tier == 'thorough' else self.pworlds)]
    def fullspec(self, S):
        if not self.movement and S(S.ismode(DIVE)): return SKIP
        return self.spec(S)
    def cspec(self, S):
        if self._cspec is None: return self.fullspec(S)
        if not self.movement and S(S.ismode(DIVE)): return SKIP
        return self._cspec(S)
    def jobs(self, tier):
        if self.bounded: return []
        r = []
        for key in self.worldkeys(tier):
            if self.split:
                for inv in (0, 1):
                    for que in (0, 1): r.append(('%s [%s%s%s]' % (self.name, self.lbl(key), ' invert' if inv else '', ' queue' if que else ''), self, (key, (inv, que))))
            else: r.append(('%s [%s]' % (self.name, self.lbl(key)), self, (key, None)))
        return r
    @staticmethod
    def lbl(key): return '%dD std %d%s' % (key[0], key[1], ' +' + '+'.join(key[2]) if key[2] else '')
    def run(self, ctx, arg):
        key, sp = arg
        w = ctx.world(key)
        pre = w.st0
        if sp is not None: pre = w.with_smode(pre, *sp)
        if self.requires is not None or self.ghost is not None:
            pre = pre.copy()
            if self.ghost: self.ghost(w, pre)
            if self.requires is not None:
                S = w.ispec(w.ex, pre, [])
                c = self.requires(S)
                if c is False: raise Unsupported('precondition is false')
                if c is not True: pre.assume(c)
        ex = w.ex
        if self.loops: ctx.setup_loops = self.loops
        return w.verify('%s [%s]' % (self.name, self.lbl(key)), self.code, self.fullspec, pre=pre, dontcare=self.dontcare, post=self.post, finish=self.finish, loops=self.loops,
                        call=(lambda s: self.call(w, s)) if self.call else None, retw=self.retw)
    def diff(self, rep, n, seed, pool): return K.diff_instr(rep, self, n, seed, pool)

class Prop:
    def __init__(self, id, units, quick_diff=()):
        self.id, self.units = id, units
PROPS = {}
def prop(id, *units):
    PROPS[id] = Prop(id, list(units))
