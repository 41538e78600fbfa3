"""Concrete cases: the same specification functions, evaluated on concrete states, against the real code run by the replay driver.
Used to turn a failed obligation into a failing input, and as the bounded stand-in for functions the verifier cannot read."""
import random, subprocess, os, tempfile
from .term import *
from .exec import State, PathEnd, dval
from . import contracts as C, stackmod as SM, world as W
from .contracts import VecG

class _SL: SO, MO, OO = 'so', 'mo', 'oo'
class CX:
    """stands in for the executor when a specification is evaluated concretely"""
    sl = _SL
    def __init__(self, w): self.world = w
    def feasible(self, *a): return True
    def oblige(self, *a, **k): pass

class CField:
    """concrete Funge-space: contents and bounds as specified for Field::put"""
    def __init__(self, dims, cellsize):
        self.c, self.cs = {}, cellsize
        self.lo, self.hi = [0]*C.NC, [0]*C.NC
        self.everd = 0
    def copy(self):
        f = CField(0, self.cs); f.c = dict(self.c); f.lo = list(self.lo); f.hi = list(self.hi); f.everd = self.everd; return f
    def get(self, p): return self.c.get(tuple(p), 32)
    def put(self, p, v):
        p = tuple(p)
        self.everd = max([self.everd, 1] + [k+1 for k in range(C.NC) if p[k]])
        if v == 32:
            self.c.pop(p, None)
            for d in range(C.NC):
                if self.hi[d] == p[d] and self.bound(d): self.hi[d] = max([sgn(q[d]) for q in self.c], default=-(1 << 63)) & mask(64)
                if self.lo[d] == p[d] and self.bound(d): self.lo[d] = min([sgn(q[d]) for q in self.c], default=(1 << 63)-1) & mask(64)
        else:
            if self.cs == 1: v = sext(v & 255, 8, 64)
            self.c[p] = v
            for d in range(C.NC):
                if sgn(self.hi[d]) < sgn(p[d]): self.hi[d] = p[d]
                if sgn(self.lo[d]) > sgn(p[d]): self.lo[d] = p[d]
            if v == 32 and False: pass
    def bound(self, d): return d < self.everd

class CWorld:
    """component names for concrete states"""
    fam = ('fam', 'Stack'); ss = 'ss'; STK = 'stk'; SEL = 'sel'; SSM = 'ssm'; runner = 'runner'; uni = 'uni'
    RIP = 0; IPP, IPD, IPG, IPS = 1, 2, 3, 4
    def __init__(self, dims): self.dims = dims
    def ucell(self, st, n): return st.get(self.uni, n)
    def topo(self, st): return self.ucell(st, 'topo')
    def cellsize(self, st): return self.ucell(st, 'cells')

class CSpec(W.ISpec):
    def __init__(self, w, st):
        self.w, self.st, self.ex = w, st, CX(w)
        self.ghost = st.ghost
        self.k = 0; self.dec = []; self.todo = []
    concrete = True
    fuel = 30000        # steps of the pointer a case may take
    def __call__(self, c): return bool(c)
    def assume(self, c):
        if not c: raise PathEnd()
    def next(self):
        if self.st.get(self.w.runner, self.w.RIP+self.w.IPS): return
        self.pos = self.adv(self.pos, self.delta)
    def adv(self, p, d):
        self.fuel -= 1
        if self.fuel < 0: raise Skip()
        f = self.st.ghost['cfield']
        p, d = list(p.c), list(d.c)
        if self.w.topo(self.st) == 0:
            p = [(a+b) & mask(64) for a, b in zip(p, d)]
            for k, n in ((0, 80), (1, 25)):
                x = sgn(p[k])
                p[k] = 0 if x >= n else n-1 if x < 0 else p[k]
            return VecG(p)
        ins = lambda q: all(sgn(f.lo[k]) <= sgn(q[k]) <= sgn(f.hi[k]) for k in range(self.w.dims))
        q = [(a+b) & mask(64) for a, b in zip(p, d)]
        if not ins(q):
            q = p
            while ins(q):
                q = [(a-b) & mask(64) for a, b in zip(q, d)]
                self.fuel -= 1
                if self.fuel < 0 or not any(d): raise Skip()
            q = [(a+b) & mask(64) for a, b in zip(q, d)]
        return VecG(q)
    def iterate(self, v0, step):
        vs = [v0]
        def at(k):
            while len(vs) <= k:
                if len(vs) > 5000: raise Skip()
                vs.append(step(vs[-1]))
            return vs[k]
        return at
    def foldseq(self, v0, f):
        def at(k):
            v = v0
            for j in range(k): v = f(v, j)
            return v
        return at
    def first(self, pred):
        for k in range(3000):
            if pred(k): return k
        raise Skip()
    def bmin(self, d): return self.st.ghost['cfield'].lo[d]
    def bmax(self, d): return self.st.ghost['cfield'].hi[d]
    def cell(self, v): return self.st.ghost['cfield'].get(v.c)
    def store(self, v, x):
        f = self.st.ghost['cfield'] = self.st.ghost['cfield'].copy()
        f.put(v.c, x)
        self.st.ghost.setdefault('touched', []).append(v.c)
    def getch(self):
        p = self.st.ghost.get('inpos', 0)
        b = self.st.ghost['stdin']
        self.st.ghost['inpos'] = p+1
        return b[p] if p < len(b) else mask(32)

from .unit import Random
class Skip(Exception): pass

def build(case):
    """concrete State of a case"""
    st = State()
    w = CWorld(case['dims'])
    for n in ('topo', 'strings', 'cells', 'mode', 'standard'): st.put(w.uni, n, case[n] & mask(32))
    for n in ('concurrent', 'execute', 'filesystem', 'fingerprint', 'inverthl'): st.put(w.uni, n, 1 if case['flags'][n] else 0)
    fam = {'so': ADict({}, None), 'mo': AConst(case['smode']), 'oo': AConst(0)}
    ids = []
    for k, s in enumerate(case['stacks']):
        ids.append(Ptr(w.fam, 0, k))
        fam['so'] = fam['so'].store((k,), Seq(AList([x & mask(64) for x in s]), 0, len(s), 64))
    st.mem[w.fam] = fam
    st.put(w.ss, w.STK, Seq(AList(ids), 0, len(ids), 'ptr'))
    st.put(w.ss, w.SEL, case.get('sel', 0))
    st.put(w.ss, w.SSM, case['smode'])
    st.put(w.runner, w.RIP+w.IPP, VecG([x & mask(64) for x in case['pos']]))
    st.put(w.runner, w.RIP+w.IPD, VecG([x & mask(64) for x in case['delta']]))
    st.put(w.runner, w.RIP+w.IPG, VecG([x & mask(64) for x in case['sto']]))
    st.put(w.runner, w.RIP+w.IPS, 0)
    f = CField(case['dims'], case['cells'])
    for p, v in case['fcells']: f.put([x & mask(64) for x in p], v & mask(64))
    st.ghost['cfield'] = f
    st.ghost['stdin'] = list(case.get('stdin', b''))
    st.ghost['case'] = case
    return w, st

def S_(t): return [len(t)] + list(t if isinstance(t, (bytes, bytearray)) else t.encode('latin-1'))
def encode(cid, case, probes):
    fl = case['flags']
    t = ['I', cid, case['dims'], case['standard'], case['topo'], case['strings'], case['cells'], case['mode'],
         (1 if fl['concurrent'] else 0) | (2 if fl['execute'] else 0) | (4 if fl['filesystem'] else 0) | (8 if fl['fingerprint'] else 0) | (16 if fl['inverthl'] else 0) | (32 if case.get('listed') else 0)]
    a = case.get('args', []); t += [len(a)]
    for x in a: t += S_(x)
    a = case.get('env', []); t += [len(a)]
    for x in a: t += S_(x)
    a = case.get('fps', []); t += [len(a)] + a
    a = case.get('load', []); t += [len(a)]
    for x in a: t += S_(x)
    t += [case['smode'], len(case['stacks'])]
    for s in case['stacks']: t += [len(s)] + list(s)
    t += [case.get('sel', 0), len(case['fcells'])]
    for p, v in case['fcells']: t += list(p) + [v]
    t += list(case['pos']) + list(case['delta']) + list(case['sto'])
    t += S_(case.get('stdin', b'')) + [case.get('sysret', 0)]
    fs = case.get('files', {}); t += [len(fs)]
    for n, b in fs.items(): t += S_(n) + S_(b)
    rd = case.get('reads', []); t += [len(rd)]
    for n in rd: t += S_(n)
    t += [len(probes)]
    for p in probes: t += list(p)
    t += [len(case['calls'])]
    for k, v in case['calls']: t += [k, v]
    return ' '.join(str(sgn(x & mask(64)) if isinstance(x, int) and not isinstance(x, bool) else x) for x in t)

def text_of(ev):
    out = b''
    for e in ev:
        if e[0] == 'bulk': raise Skip()
        if e[0] != 'out': continue
        k, v = e[2], e[3]
        if k == 'char': out += bytes([v & 255])
        elif k == 'dec': out += str(sgn(v)).encode()
        elif k == 'udec': out += str(v).encode()
        elif k == 'fp': out += ('%g' % dval(v)).encode()
        elif k == 'text': out += v
        else: raise Skip()
    return out

def dump_stacks(w, st):
    r = []
    s = st.get(w.ss, w.STK)
    n = s.size()
    r.append(n)
    for k in range(n):
        i = s.at(n-1-k).idx
        q, m = st.cell((w.fam, 'so', i)), st.cell((w.fam, 'mo', i))
        if q.size() > 3000: raise Skip()
        q = SM.push(SM.push(q, m, 777001), m, 777002)
        v, q = SM.pop(q, m)
        r += [v, q.size()] + [q.at(j) for j in range(q.size())]
    return r
def sgs(xs): return [None if x is None else (sgn(x & mask(64))) for x in xs]

class Wild(list):
    pass

def expected(case, fn, probes):
    """token list the driver must print (None: anything)"""
    w, st = build(case)
    st.ev = ()
    S = CSpec(w, st)
    errs = []
    clone = []
    for k, a in case['calls']:
        S.called = (k, a)
        e = fn(S)
        if st.done is not None: break
        errs.append(e)
    st = S.st
    vec = lambda o: list(st.get(w.runner, w.RIP+o).c)
    t = list(st.ghost.get('clone', []))
    t += [len(errs)] + [None if e is None else e for e in errs]
    t += [None] if 'inpos_any' in st.ghost else [min(st.ghost.get('inpos', 0), len(st.ghost['stdin']))]
    if 'out_any' in st.ghost: return None
    txt = text_of(st.ev)
    t += [len(txt)] + list(txt) + [None]
    sysl = b''.join(b'S' + e[1] + b'\n' for e in st.ev if e[0] == 'system')
    t += [len(sysl)] + list(sysl)
    t += [st.get(w.uni, 'mode'), st.ghost.get('exitcode', 0), None]
    t += vec(w.IPP) + vec(w.IPD) + vec(w.IPG) + [st.get(w.runner, w.RIP+w.IPS)]
    t += dump_stacks(w, st)
    f = st.ghost['cfield']
    t += [f.get([x & mask(64) for x in p]) for p in probes]
    if case.get('bounds'):
        for d in range(3): t += [f.lo[d], f.hi[d]]
    else: t += [None]*6
    rd = case.get('reads', [])
    t += [len(rd)]
    files = st.ghost.get('files', case.get('files', {}))
    for n in rd:
        if n in files: t += [len(files[n])] + list(files[n])
        else: t += [-1]
    return sgs(t)

# ------------------------------------------------------------------ generation
POOL0 = [0, 0, 1, 1, 2, 3, -1, -1, -2, 4, 5, 7, 8, 9, 10, 13, 16, 26, 31, 32, 33, 34, 39, 47, 48, 57, 59, 64, 65, 79, 80, 90, 92, 97, 122, 127, 128, 255, 256, 257, -128, -129, 1000, 32767, 32768, 65535, 65536,
         (1 << 31)-1, 1 << 31, -(1 << 31), -(1 << 31)-1, (1 << 32), (1 << 32)+5, (1 << 32)-1, (1 << 63)-1, -(1 << 63), -(1 << 63)+1, 1 << 62, 123456789012]
SMALLS = list(range(-3, 9))
MODES = [0]*6 + [0x4000, 0x8000, 0xC000, 0x2000, 0x10000, 0x20000, 0x2000 | 0x4000, 0x12000, 0x18000]
def gen(rng, dims, standard, code, hint, pool):
    val = lambda: rng.choice(pool) if rng.random() < .6 else rng.randint(-20, 20) if rng.random() < .6 else rng.getrandbits(64)-(1 << 63)
    small = lambda: rng.choice(SMALLS)
    c = {'dims': dims, 'standard': standard}
    c['topo'] = hint.get('topo', rng.choice([0, 1, 1]))
    c['strings'] = rng.randint(0, 2)
    c['cells'] = rng.choice([1, 8, 8])
    c['mode'] = rng.choice(hint.get('modes', MODES))
    c['smode'] = rng.choice([0, 0, 0, 0x4000, 0x8000, 0xC000]) if rng.random() < .5 else c['mode']
    if 'smode' in hint: c['smode'] = hint['smode']
    c['flags'] = {n: rng.random() < .7 for n in ('concurrent', 'execute', 'filesystem', 'fingerprint', 'inverthl')}
    if hint.get('load'): c['flags']['fingerprint'] = True; c['load'] = list(hint['load'])
    c['flags'].update(hint.get('flags', {}))
    ns = rng.choice(hint.get('nstacks', [1, 1, 2, 2, 3, 4]))
    c['stacks'] = []
    for k in range(ns):
        n = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 12])
        s = [small() if rng.random() < hint.get('small', .35) else val() for _ in range(n)]
        c['stacks'].append(s)
    if 'sel' in hint: c['sel'] = rng.randint(0, max(0, ns-1)) if rng.random() < .5 else 0
    # the values popped first can be bounded
    for k, f in enumerate(hint.get('top', ())):
        s = c['stacks'][-1-c.get('sel', 0)]
        if f is None: continue
        q, i = c['smode'] & 0x8000, k
        if k < len(s): s[k if q else len(s)-1-k] = f(rng) if callable(f) else rng.choice(f)
    mx = lambda: tuple(rng.randint(0, 6) if k < dims else 0 for k in range(3))
    c['fcells'] = []
    for _ in range(rng.choice([0, 1, 3, 6, 10, 25])): c['fcells'].append((mx(), rng.choice([65, 66, 59, 34, 49, 32, code, 300, -5, 48, 57, 92, 110]) if rng.random() < .8 else val()))
    c['pos'] = mx() if rng.random() < .8 else tuple(val() if k < dims else 0 for k in range(3))
    if 'pos' in hint: c['pos'] = hint['pos'](rng, c)
    units = [tuple((s if k == d else 0) for k in range(3)) for d in range(dims) for s in (1, -1)]
    c['delta'] = rng.choice(units) if rng.random() < .6 else tuple(rng.randint(-3, 3) if k < dims else 0 for k in range(3))
    if rng.random() < .15: c['delta'] = tuple(val() if k < dims else 0 for k in range(3))
    if 'delta' in hint: c['delta'] = hint['delta'](rng, c)
    c['sto'] = (0, 0, 0) if rng.random() < .4 else tuple((rng.randint(-9, 9) if rng.random() < .8 else val()) if k < dims else 0 for k in range(3))
    if 'sto' in hint: c['sto'] = hint['sto'](rng, c)
    c['stdin'] = b''
    if 'stdin' in hint: c['stdin'] = hint['stdin'](rng)
    c['calls'] = [(0, code)]
    if hint.get('listed'): c['listed'] = True
    if 'edit' in hint: hint['edit'](rng, c)
    if hint.get('standards') : pass
    return c

def probes_of(case, touched):
    ps = {tuple(p) for p, _ in case['fcells']} | {tuple(case['pos'])}
    ps |= {tuple(sgn(x & mask(64)) for x in p) for p in touched}
    add_ = [(0, 0, 0), (1, 0, 0)]
    p, d, s = case['pos'], case['delta'], case['sto']
    for q in ([a+b for a, b in zip(p, d)], [a-b for a, b in zip(p, d)], s): add_.append(tuple(sgn(x & mask(64)) for x in q))
    return sorted(ps | set(add_))[:60]

class Replayer:
    def __init__(self, exe): self.exe = exe
    def run(self, lines, timeout=60):
        """{id: token list | ('X', signal)}"""
        d = tempfile.mkdtemp(prefix='fv_replay_')
        try:
            r = subprocess.run([self.exe, d], input='\n'.join(lines) + '\n', capture_output=True, text=True, timeout=timeout)
            out = r.stdout
        except subprocess.TimeoutExpired as e:
            out = e.stdout or b''
            if isinstance(out, bytes): out = out.decode('latin-1')
            out = out[:out.rfind('\n')+1]
        finally:
            subprocess.run(['rm', '-rf', d])
        res = {}
        for l in out.split('\n'):
            t = l.split()
            if not t: continue
            if t[0] == 'R': res[int(t[1])] = [int(x) for x in t[2:]]
            elif t[0] == 'X': res[int(t[1])] = ('X', int(t[2]))
        return res

def match(exp, got):
    if len(exp) != len(got): return False
    return all(a is None or a == b for a, b in zip(exp, got))

def diff_instr(rep, unit, n, seed, pool, limit=3):
    """run n generated cases of an instruction unit; returns (number compared, [failing (case, expected, got)])"""
    rng = random.Random(seed)
    done = 0; bad = []
    todo = []
    for _ in range(n):
        dims, standard = rng.choice(unit.worlds)
        case = gen(rng, dims, standard, unit.code, unit.hint, pool)
        try:
            fn = unit.cspec
            w, st = build(case)
            S = CSpec(w, st)
            if unit.requires is not None and not unit.requires(S): continue
            e0 = expected(case, fn, [])
            if e0 is None: continue
            w, st = build(case); S = CSpec(w, st)
            for _c in case['calls']:
                S.called = _c
                fn(S)
            probes = probes_of(case, S.st.ghost.get('touched', []))
            exp = expected(case, fn, probes)
        except (Skip, PathEnd, Random): continue
        todo.append((case, probes, exp))
    lines = [encode(i, c, p) for i, (c, p, e) in enumerate(todo)]
    got = rep.run(lines) if lines else {}
    for i, (c, p, e) in enumerate(todo):
        if i not in got: continue
        done += 1
        g = got[i]
        if isinstance(g, tuple):
            if g[1] in (14, 9): continue          # ran out of time or memory: not decided
            if unit.may_crash is not None and unit.may_crash(c): continue
            bad.append((c, e, 'killed by signal %d' % g[1])); 
        elif not match(e, g): bad.append((c, e, g))
        if len(bad) >= limit: break
    return done, bad
