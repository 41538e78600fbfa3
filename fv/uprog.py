"""Whole programs with several pointers: the specifications of the instructions, one pointer after the other in the order specified for the universe."""
from .units import *
from . import case as K
from .world import NONE, SKIP, UNIMP, NOTAVAIL, V
from .contracts import VecG
M64 = (1 << 64)-1
class Sim:
    def __init__(self, case, tick):
        self.case, self.tick = case, tick
        self.runners, self.out, self.exit, self.turns, self.ended = [], b'', 0, 0, False
        w, st = K.build(case)
        self.w = w
        self.runners.append(st)
    def split(self, S):
        st = S.st.copy()
        st.ev = (); st.done = None
        T = K.CSpec(self.w, st); T.fuel = 2000
        T.delta = VecG([-x & M64 for x in T.delta.c])
        T.pos = T.adv(T.pos, T.delta)
        self.runners.append(st)
    def quit(self, v): self.exit = ((v & 0xffffffff) ^ (1 << 31)) - (1 << 31); self.ended = True
    def run(self, limit=400):
        field = self.runners[0].ghost['cfield']
        while self.runners and not self.ended:
            st = self.runners[0]
            st.ghost['cfield'] = field; st.ev = ()
            S = K.CSpec(self.w, st); S.fuel = 3000; S.sim = self
            self.tick(S)
            if st.done is not None: raise K.Skip()
            st = S.st
            field = st.ghost['cfield']
            self.out += K.text_of(st.ev)
            self.runners.pop(0)
            if not st.get(self.w.runner, self.w.RIP+self.w.IPS): self.runners.append(st)
            self.turns += 1
            if self.turns > limit or len(self.runners) > 40: raise K.Skip()
        return self
def splitc(S):
    if not S.st.get(S.w.uni, 'concurrent'): return NOTAVAIL
    S.sim.split(S); return NONE
def quitc(S): S.sim.quit(S.pop()); S.stop(); return NONE
LINES = ['t', 't', '5', '1', '2', '0', '.', '.', ',', '+', '-', ':', 'r', '@', '@', '#', ' ', 'n', "'a", 'z', '_', '!', '$', '{', '}', 'a', 'f*', '11p', '21g', 'q', ';', 'x', 'u', '8', '0']
def program(rng, dims):
    """text of a program that splits"""
    n = rng.randint(4, 18)
    body = [rng.choice(LINES) for _ in range(n)]
    body[rng.randrange(n)] = 't'
    rows = [rng.choice(['', '5', '12', '3:', 'a0{', '123', '4n'])+''.join(body) + rng.choice(['@', '.@', '..@', 'q', '5q', '01-q', 'ff*f*q', 'n@', ''])]
    if dims > 1 and rng.random() < .5:
        rows[0] = rng.choice(['', '1'])+'v'*(rng.random() < .3)+rows[0]
        for _ in range(rng.randint(1, 3)): rows.append(''.join(rng.choice(LINES+['<', '>', '^', 'v', '|']) for _ in range(rng.randint(2, 14)))+rng.choice('@@<>^ '))
    return rows
def cells_of(rows): return [((x, y, 0), ord(c)) for y, r in enumerate(rows) for x, c in enumerate(r) if c != ' ']
def prog_gen(tick):
    def gen(rng, pool):
        dims = rng.choice([1, 2, 2, 2, 3])
        rows = program(rng, dims)
        conc = rng.random() < .93
        case = dict(dims=dims, standard=98, topo=1, strings=0, cells=8, mode=0, smode=0, flags=dict(concurrent=conc, execute=False, filesystem=False, fingerprint=False, inverthl=False),
                    stacks=[[]], fcells=cells_of(rows), pos=(0, 0, 0), delta=(1, 0, 0), sto=(0, 0, 0), calls=[])
        try: s = Sim(case, tick).run()
        except (K.Skip, K.PathEnd, K.Random, Unsupported, RecursionError): return None
        t = ['P', dims, 98, 1 if conc else 0, len(case['fcells'])]
        for p, v in case['fcells']: t += list(p) + [v]
        t += [0, 0, 0, 1, 0, 0]
        return ' '.join(map(str, t)), [len(s.out)] + list(s.out) + [s.exit, 0]
    return gen
