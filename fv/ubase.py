"""Units below the instructions: one class method against its contract."""
import random
from .units import *
from . import unit, stl, case as K, stackmod as SM, contracts as C
from .stl import MODELS
from .contracts import VecG

class FnUnit(Unit):
    """`base`: qualified name; build(ctx) -> (ex, state, call, spec, kw)"""
    def __init__(self, name, build, weight=1.0, cases=None, thorough_only=False):
        self.name, self.build, self.weight, self._cases, self.thorough_only = name, build, weight, cases, thorough_only
    def jobs(self, tier):
        if self.thorough_only and tier != 'thorough': return []
        return [(self.name, self, None)]
    def run(self, ctx, arg):
        ex, st, call, spec, kw = self.build(ctx)
        return unit.verify(ex, self.name, st, call, spec, **kw)
    def diff(self, rep, n, seed, pool):
        return run_lines(rep, self._cases, n, seed, pool, self.name) if self._cases else (0, [])

def run_lines(rep, gen, n, seed, pool, name):
    """gen(rng, pool) -> (line tail after the id, expected tokens) or None"""
    rng = random.Random(seed)
    cs = []
    for _ in range(n):
        c = gen(rng, pool)
        if c is not None: cs.append(c)
    lines = []
    for i, (l, e) in enumerate(cs):
        kind, rest = l.split(' ', 1) if ' ' in l else (l, '')
        lines.append('%s %d %s' % (kind, i, rest))
    got = rep.run(lines) if lines else {}
    done, bad = 0, []
    for i, (l, e) in enumerate(cs):
        if i not in got: continue
        g = got[i]
        done += 1
        if isinstance(g, tuple):
            if g[1] in (14, 9): done -= 1; continue
            bad.append(({'driver_input': lines[i]}, e, 'killed by signal %d' % g[1]))
        elif not K.match(e, g): bad.append(({'driver_input': lines[i]}, e, g))
        if len(bad) >= 3: break
    return done, bad

def newex(ctx):
    ex = Exec(ctx.P)
    ex.models = MODELS
    ex.sl = C.StackLoc(ctx.P.lay)
    return ex

def need(fn, what):
    if fn is None: raise Unsupported('no function %s' % what)
    return fn
