"""Loading and unloading fingerprints: the meanings of the instructions are stacks; loading pushes one meaning for each instruction of the
fingerprint, unloading takes it away again."""
from .ubase import *
from . import setups as G, world as W, stl, names
from .stl import OMap, FnVal
DOC = dict(BASE='BHINO', BITW='ALNORX', BOOL='ANOX', CPLI='ADMOSV', DBUG='ABDEW', DIRF='CMR', FING='XYZ', FISH='CDFHILMNORSTUV', FIXP='ABCDIJNOPQRSTUVX', FPDP='ABCDEFGHIKLMNPQRSTVXY', FPRT='DFILS', FPSP='ABCDEFGHIKLMNPQRSTVXY',
           FRTH='DLOPR', HRTI='EGMST', IIPC='ADGILP', JSTR='GP', MODE='HIQS', MVRS='BCFGJNP', NFUN='ABCDHILMRVXYZ', ORTH='AEGOPSVWXYZ', PERL='EIS', REFC='DR', STRN='ACDFGILMNPRSV', SUBR='ACJOR', TOYS='ABCDEFGHIJKLMNOPQRSTUVWXYZ')
MOVES = {('FISH', 'O'), ('FISH', 'U')}
AZ = [ord(c) for c in 'ABCDEFGHIJKLMNOPQRSTUVWXYZ']
SEM = ('fam', 'Sem')
def semloc(w): return w.runner, w.lay.off('Funge::FungeRunner', 'normalState') + w.lay.bytype('Funge::FungeStateNormal', lambda t: t.startswith(('std::map<', 'std::unordered_map<')))
def loaded(w, st):
    p = G.find_finger(w, st)
    return p.obj, p.off + w.lay.bytype('Funge::FingerprintStrategy', lambda t: t.startswith(('std::vector<', 'std::list<', 'std::deque<')))
def available(w, st):
    p = G.find_finger(w, st)
    return p.obj, p.off + w.lay.bytype('Funge::FingerprintStrategy', lambda t: t.startswith(('std::map<', 'std::unordered_map<')))
def meanings(w, st): return {k: st.get(n, 0) for k, n in st.get(*semloc(w)).d.items()}
def generalise(w, st, present, mine=None):
    """any number of meanings of every instruction, any fingerprints loaded before"""
    if present:
        m = st.get(*semloc(w))
        d = {}
        f = uf('sem', (64, 64))
        for k in set(m.d) | set(AZ):
            n = z3.BitVec('nsem%d' % k, 64)
            if mine is None or k in mine: st.assume(z3.And(n >= 0, n < (1 << 59)))      # (said of the others it changes nothing)
            d[k] = st.new('node', 80)
            st.put(d[k], 0, Seq(ALam(lambda i, k=k: Ptr(SEM, 0, f(bv(k), bv(i)))), 0, n, 'ptr'))
        st.put(*semloc(w), OMap(d, m.vt))
    g = uf('loadedfp', (64,)); n = z3.BitVec('nloaded', 64); st.assume(z3.And(n >= 0, n < (1 << 59)))
    st.put(*loaded(w, st), Seq(ALam(lambda i: g(bv(i))), 0, n, 64))
def member(w, n):
    fn = w.prog.find('Funge::FingerprintStrategy::' + n, 1)
    if fn is None: raise Unsupported('no FingerprintStrategy::' + n)
    return fn
def spy(w):
    """calls of execute of a fingerprint are recorded with the class of the fingerprint and the instruction"""
    def f(ex, st, a, ci):
        st.event(('fpexec', a[0].obj, a[1])); return 0
    for n in w.prog.fnmod:
        if 'execute' in n and 'Fingerprint' in n:
            b = names.qname(n).base
            if b.startswith('Funge::Fingerprint') and b.endswith('::execute'): w.ex.contracts[b] = f
class LoadUnit(FnUnit):
    """seq: what is done (L load, U unload); net: the meanings left on top"""
    def __init__(self, fp, seq, net, present):
        self.fp, self.seq, self.net, self.present = fp, seq, net, present
        self.name = '%s %s%s' % (fp, {'L': 'load', 'LU': 'load, unload', 'LUL': 'load, unload, load', 'LLU': 'load twice, unload'}[seq], '' if present else ' (first meanings)')
        self.weight, self._cases, self.thorough_only = 1.0, None, False
    def run(self, ctx, arg):
        w = ctx.world((2, 98)); ex = w.fresh_exec(); spy(w)
        num = G.number(self.fp)
        pre = w.st0.copy(); generalise(w, pre, self.present, [ord(c) for c in DOC[self.fp]])
        mem0 = set(pre.mem)
        fo = G.find_finger(w, pre)
        def call(st):
            states = [(st, True)]
            for c in self.seq:
                nxt = []
                for s, r in states:
                    for s2, v in ex.call(s, member(w, 'load' if c == 'L' else 'unload'), [G.find_finger(w, s), num]):
                        ex.oblige(s2, eq(v, 1, 8) if not isinstance(v, bool) and not z3.is_bool(v) else v, 'result: %s succeeds' % ('load' if c == 'L' else 'unload'))
                        nxt.append((s2, v))
                states = nxt
            return [(s, None) for s, v in states]
        letters = [ord(c) for c in DOC[self.fp]]
        nodes = set(pre.get(*semloc(w)).d.values())
        def post(ex_, code, S, rv, want):
            m0, m1 = meanings(w, pre), meanings(w, code)
            e = Seq(AConst(NULL), 0, 0, 'ptr')
            for k in sorted(set(m0) | set(m1)):
                a, b = m0.get(k, e), m1.get(k, e)
                if a is b: continue
                more = self.net if k in letters else 0
                unit.goal(ex_, code, S.st, eq(sub(b.size(), a.size()), more), (), 'post: number of meanings of %s' % chr(k), '')
                if a is not e: below(ex_, code, S, a, b, 'post: meanings of %s below' % chr(k))
            la, lb = pre.get(*loaded(w, pre)), code.get(*loaded(w, code))
            unit.goal(ex_, code, S.st, eq(sub(lb.size(), la.size()), self.net), (), 'post: number of fingerprints loaded', '')
            j = fresh('j')
            unit.goal(ex_, code, S.st, eq(la.at(j), lb.at(j)), (sle(0, j), slt(j, la.size())), 'post: fingerprints loaded before', '')
            for i in range(self.net): unit.goal(ex_, code, S.st, eq(lb.at(add(la.size(), i)), num), (), 'post: fingerprint listed as loaded', '')
            if not self.net: return
            # the meaning on top is the instruction of this fingerprint
            av = code.get(*available(w, code))
            if num not in av.d:
                unit.goal(ex_, code, S.st, False, (), 'post: fingerprint available', ''); return
            fp = code.get(av.d[num], 0)
            for k in letters:
                n = 0
                for s2, v in w.execute(code.copy(), k):
                    if not ex_.feasible(s2): continue
                    n += 1
                    evs = s2.ev[len(code.ev):] if isinstance(s2.ev, tuple) else list(s2.ev)[len(list(code.ev)):]
                    dive = ne(band(s2.get(w.uni, w.cfg['mode']), 0x20000, 32), 0, 32)
                    ok = len(evs) == 1 and evs[0][0] == 'fpexec' and evs[0][1] == fp.obj and isc(evs[0][2]) and evs[0][2] == k
                    if ok: ex_.oblige(s2, or_(not_(dive), (self.fp, chr(k)) in MOVES), 'post: %s only acts as it may in dive mode' % chr(k), assume=False)
                    else: ex_.oblige(s2, and_(dive, (self.fp, chr(k)) not in MOVES, not evs, eq(v, W.SKIP, 32)), 'post: %s means the instruction of %s' % (chr(k), self.fp), assume=False)
                if not n: raise Unsupported('instruction has no path')
        obs = (w.runner, w.RIP + w.lay.off('Funge::InstructionPointer', 'observers'))      # a fingerprint may watch the pointer
        so, lo, ao = semloc(w), loaded(w, pre), available(w, pre)
        avn = set(pre.get(*ao).d.values())
        dc = lambda o, off: (o, off) in (so, lo, ao, obs) or o in nodes or o in avn
        r = unit.verify(ex, self.name, pre, call, lambda S: None, mk=w.ispec, post=post, dontcare=[dc, lambda o, off: o == w.fam or (o == w.ss and off == w.STK) or (o == w.uni and off == '#')], ghosts=('inpos', 'rnd', 'etok', 'ftok'))
        return r
def below(ex, code, S, a, b, what):
    """the elements a had are still there: b's are a's with stores above them"""
    unit.goal(ex, code, S.st, eq(a.lo, b.lo), (), what, '')
    cur = b.arr
    while cur is not a.arr and isinstance(cur, AStore):
        unit.goal(ex, code, S.st, or_(slt(cur.i[0], a.lo), sle(a.hi, cur.i[0])), (), what, '')
        cur = cur.prev
    if cur is a.arr: return
    j = fresh('j')
    from .compare import value_eq
    for c, h in value_eq(a.at(j), b.at(j)): unit.goal(ex, code, S.st, c, (sle(0, j), slt(j, a.size())) + tuple(h), what, '')
class UnknownUnit(FnUnit):
    """a number no fingerprint has is not loaded, a fingerprint never loaded is not unloaded: nothing changes"""
    def __init__(self, op): self.op, self.name, self.weight, self._cases, self.thorough_only = op, '%s of an unknown fingerprint' % op, 1.0, None, False
    def run(self, ctx, arg):
        w = ctx.world((2, 98)); ex = w.fresh_exec()
        pre = w.st0.copy(); generalise(w, pre, True)
        # some fingerprints are available from before
        av = available(w, pre)
        d = {}
        for n in ('BITW', 'MODE'):
            d[G.number(n)] = pre.new('node', 8); pre.put(d[G.number(n)], 0, Ptr(pre.new('heap', 64), 0))
        pre.put(*av, OMap(d, pre.get(*av).vt))
        num = z3.BitVec('fingerprint', 64)
        for n in list(DOC) + ['LONG']: pre.assume(num != G.number(n))
        pre.assume(num != 0)      # the creator of a dynamic universe has its own fingerprint
        ex.contracts['Funge::FingerprintStrategy::loadFL'] = lambda ex_, st, a, ci: NULL
        call = lambda st: [(s, v) for s, v in ex.call(st, member(w, self.op), [G.find_finger(w, st), num])]
        return unit.verify(ex, self.name, pre, call, lambda S: 0, mk=w.ispec, retw=8, dontcare=[lambda o, off: o == w.fam or (o == w.ss and off == w.STK) or (o == w.uni and off == '#')], ghosts=('inpos', 'rnd', 'etok', 'ftok'))
FPL, FPT = uf('FPLOADED', (64, 64), 8), uf('FPTABLE', (64, 64))
class _Sem: pass
def abstract_load(w, ex):
    """load / unload: whether the number is one of a fingerprint, and what the meanings are afterwards, is looked into by the units above"""
    for n, k in (('load', 0), ('unload', 1)):
        ex.contracts['Funge::FingerprintStrategy::' + n] = lambda ex_, st, a, ci, k=k: tableop(st, k, a[1])
def tableop(st, k, num):
    t = st.ghost['etok']
    st.ghost['etok'] = FPT(bv(t) + k, bv(num))
    r = FPL(bv(t) + k, bv(num)); st.assume(z3.ULE(r, 1))
    return r
def loaded_names(S):
    """concrete: letter -> meanings, oldest first"""
    g = S.st.ghost
    if 'sem' not in g:
        g['sem'] = {}
        for fp in g['case'].get('load', ()):
            for ch in DOC[fp]: g['sem'] = {**g['sem'], ch: g['sem'].get(ch, ()) + (fp,)}
        g['avail'] = tuple(g['case'].get('load', ()))
    return g['sem']
def doload(S, k, num):
    """the fingerprint is there"""
    if not getattr(S, 'concrete', False): return ne(tableop(S.st, k, num), 0, 8)
    sem = loaded_names(S); g = S.st.ghost
    fp = next((n for n in DOC if G.number(n) == num), None)
    if fp is None and num in (G.number('LONG'), 0): raise K.Skip()
    if fp is None or k and fp not in g['avail']: return False
    if k and any(fp not in sem.get(ch, ()) for ch in DOC[fp]): raise K.Skip()
    for ch in DOC[fp]: sem = {**sem, ch: sem.get(ch, ()) + (fp,) if not k else sem[ch][:-1]}
    g['sem'] = sem
    if not k: g['avail'] += (fp,)
    return True
def loader(k):
    def f(S):
        if S(S.ismode(0x20000)): return SKIP
        r = NOTAVAIL
        if S(S.flag('fingerprint')):
            n = S.pop(); num = 0
            if S(slt(0, n)):
                if getattr(S, 'concrete', False) and n > 2000: raise K.Skip()
                at = S.reader()
                num = S.foldseq(0, lambda h, j: add(shl(h, 8), at(j)))(n)
                S.popn(n)
            if S(doload(S, k, num)):
                if not k: S.push(num); S.push(1)
                r = NONE
            else: r = UNSPEC
        if S(S.ismode(0x10000)): S.store(S.pos, ord('()'[1-k]))
        return r
    return f
from .world import NONE, UNSPEC, NOTAVAIL, UNIMP, SKIP
LOADS = {'(': loader(0), ')': loader(1)}
def meant(specs):
    """a sequence of loads, unloads, $ and instructions of fingerprints"""
    def f(S):
        k, a = S.called; ch = chr(a) if 0 <= a < 128 else None
        dive = S.ismode(0x20000)
        if ch in LOADS: return SKIP if dive else LOADS[ch](S)
        if ch == '$':
            if dive: return SKIP
            S.pop(); return NONE
        sem = loaded_names(S).get(ch, ())
        if not sem: return UNIMP
        if dive and (sem[-1], ch) not in MOVES: return SKIP
        if (sem[-1], ch) not in specs: raise K.Skip()
        return specs[sem[-1], ch](S)
    return f
def fpcase(specs, fps=None):
    fps = fps or sorted({f for f, c in specs} | {'DBUG', 'BASE'})
    def f(rng, c):
        c['load'] = []; calls = []; tops = []
        few = rng.sample(fps, min(len(fps), rng.choice([1, 2, 2, 3])))
        if rng.random() < .15: few = few + ['ABCD', 'R']
        depth = []
        for _ in range(rng.choice([1, 1, 2, 3, 4, 5])):
            un = bool(depth) and rng.random() < .45
            fp = depth[-1] if un and rng.random() < .8 else rng.choice(few)
            if un and fp in depth: depth.remove(fp)
            elif not un: depth.append(fp)
            n = len(fp); args = [n] + [ord(x) for x in fp]
            if rng.random() < .08: args = [rng.choice([0, -1, -(1 << 63), 3, 5, 8, 9])] + args[1:]
            tops += args
            calls.append((0, ord(')' if un else '(')))
            if not un and fp in DOC: calls += [(0, 36)]*2
            if rng.random() < .3: calls.append((0, ord(rng.choice([x for y in few for x in DOC.get(y, 'A') if (y, x) in specs] or ['A']))))
        have = [x for y in few for x in DOC.get(y, 'A') if (y, x) in specs] or ['A']
        for _ in range(rng.choice([0, 1, 2, 3])): calls.append((0, ord(rng.choice(have))))
        c['calls'] = calls
        c['smode'] = c['mode'] & 0xC000 if rng.random() < .1 else 0; c['listed'] = True
        if not c['smode']: c['mode'] &= ~0xC000
        s = c['stacks'][-1-c.get('sel', 0)]
        s.extend(tops[::-1])
        if rng.random() < .9: c['flags']['fingerprint'] = True
        if rng.random() < .8: c['mode'] &= ~0x30000
    return f
def load_units(specs):
    r = [UnknownUnit('load'), UnknownUnit('unload')]
    def etok(w, st): st.ghost['etok'] = z3.BitVec('etok', 64)
    m = meant(specs)
    for i, ch in enumerate('()'):
        r.append(Instr(ch, ch, loader(i), movement=True, ghost=etok, loops=abstract_load, cspec=m, hint=dict(edit=fpcase(specs)), split=True, thorough_worlds=((1, 98), (3, 98))))
    for fp in DOC:
        us = [LoadUnit(fp, 'L', 1, False), LoadUnit(fp, 'LU', 0, False), LoadUnit(fp, 'LUL', 1, True), LoadUnit(fp, 'LLU', 1, True)]
        seqs = Instr('loads of ' + fp, '(', loader(0), movement=True, cspec=m, hint=dict(edit=fpcase(specs, [fp, 'BOOL', 'ORTH'])), worlds=((2, 98),))
        for u in us: u.diff, u.difgroup = seqs.diff, 'loads'
        r += us
    return r
