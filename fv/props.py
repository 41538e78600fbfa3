"""The registry: which units decide which property."""
from .units import *
from .specs import *
from .exec import *
from .term import *
from . import specs as s, loops
D2 = ((2, 98),)
ALL98 = ((1, 98), (2, 98), (3, 98))
ALLD = ((1, 98), (2, 98), (3, 98), (2, 93))
T93 = ((2, 93), (1, 98), (3, 98))
def I(name, code, spec, **k): return Instr(name, code, spec, **k)

from .ustack import *
from .ustackstack import *
from .uvec import *
from .ufield import *
STACKS, SS, VECS = stack_units(), stackstack_units(), vector_units()
prop('C06',
     *[I("'%s' push" % ch, ch, push(int(ch, 16)), thorough_worlds=T93 if ch.isdigit() else ((1, 98), (3, 98))) for ch in '0123456789abcdef'],
     I('+', '+', binop(add), thorough_worlds=T93), I('-', '-', binop(sub), thorough_worlds=T93), I('*', '*', binop(mul), thorough_worlds=T93),
     I('/', '/', binop(quo), thorough_worlds=T93), I('%', '%', binop(rem), thorough_worlds=T93), I('`', '`', binop(gt), thorough_worlds=T93),
     I('!', '!', unop(lnot), thorough_worlds=T93), I('$', '$', pop1, thorough_worlds=T93), I(':', ':', dup, thorough_worlds=T93), I('\\', '\\', swap, thorough_worlds=T93),
     I('n', 'n', clear, thorough_worlds=((1, 98), (3, 98))), I('z', 'z', noop))
def delta_done(ex, name, pre, outs): pass
MV = dict(movement=True)
prop('C07',
     I('>', '>', turn(1), movement=True, thorough_worlds=T93), I('<', '<', turn(M1), movement=True, thorough_worlds=T93),
     I('^', '^', turn(0, M1), movement=True, thorough_worlds=((2, 93), (3, 98))), I('v', 'v', turn(0, 1), movement=True, thorough_worlds=((2, 93), (3, 98))),
     I('_', '_', choose((1, 0), (M1, 0)), thorough_worlds=T93), I('|', '|', choose((0, 1), (0, M1)), thorough_worlds=((2, 93), (3, 98))),
     I('h', 'h', hl(1), worlds=((3, 98),), movement=True), I('l', 'l', hl(M1), worlds=((3, 98),), movement=True), I('m', 'm', choose((0, 0, 1), (0, 0, M1)), worlds=((3, 98),)),
     I('[', '[', left, thorough_worlds=((3, 98),)), I(']', ']', right, thorough_worlds=((3, 98),)), I('w', 'w', compare, thorough_worlds=((3, 98),)),
     I('r', 'r', reflect, movement=True, thorough_worlds=((1, 98), (3, 98))), I('x', 'x', absolute, thorough_worlds=((1, 98), (3, 98))), I('@', '@', stop, thorough_worlds=T93), I('?', '?', goaway, thorough_worlds=T93))
prop('C08',
     I('g', 'g', get, thorough_worlds=T93), I('p', 'p', put, thorough_worlds=T93), I("'", "'", fetch, thorough_worlds=((1, 98), (3, 98))), I('s', 's', store, thorough_worlds=((1, 98), (3, 98))))
SM = dict(small=.9)
top = [lambda rng: rng.choice([-3, -2, -1, 0, 1, 2, 3, 4, 5, 7])]
prop('C09',
     I('{', '{', begin, split=True, hint=dict(top=top, sel=1), ghost=anysel, thorough_worlds=((1, 98), (3, 98)), weight=5),
     I('}', '}', end, split=True, hint=dict(top=top, nstacks=[1, 2, 2, 3], sel=1), ghost=anysel, thorough_worlds=((1, 98), (3, 98)), weight=5),
     I('u', 'u', under, split=True, hint=dict(top=top, nstacks=[1, 2, 2, 3], sel=1), ghost=anysel, thorough_worlds=((1, 98), (3, 98)), weight=5))
from . import usched
SS.append(usched.SSCOPY)
prop('C01', *STACKS, *SS)
prop('C02', *VECS)
CELLS, BOUNDS = cells_units(), bounds_units()
prop('C03', *CELLS)
prop('C04', *BOUNDS)

def callfn(base, n=None, stop=(), args=lambda w, st: []):
    """the unit is a call of this member of the pointer"""
    def call(w, st):
        from .ubase import need
        w.ex.stop_at = tuple(stop)
        return w.ex.call(st, need(w.prog.find(base, n), base), [Ptr(w.runner, w.RIP)] + args(w, st))
    return call
def fieldptr(w, st): return [Ptr(w.uni, w.lay.off('Funge::FungeUniverse', 'field'))]
def kind2(rng, c): c['calls'] = [(2, 0)]
W4 = ((1, 98), (2, 98), (3, 98), (2, 93))
NEXTU = [Instr('InstructionPointer::inField', 0, lambda S: S.inbounds(S.pos), movement=True, worlds=W4, call=callfn('Funge::InstructionPointer::inField', 1, ('Funge::InstructionPointer::inField',), args=fieldptr), retw=1, cspec=ipnext, hint=dict(edit=kind2)),
     Instr('InstructionPointer::next', 0, ipnext, movement=True, requires=step_inside, worlds=W4, call=callfn('Funge::InstructionPointer::next', 0, ('Funge::InstructionPointer::next',)), hint=dict(edit=kind2))]
prop('C05', *NEXTU)
def etok(w, st): st.ghost['etok'] = z3.BitVec('etok', 64)
def abstract(w, ex): ex.contracts['Funge::FungeRunner::execute'] = C.abstract_execute
KSPECS = {**{ch: push(int(ch, 16)) for ch in '0123456789abcdef'}, '+': binop(add), '-': binop(sub), '*': binop(mul), '/': binop(quo), '%': binop(rem), '`': binop(gt), '!': unop(lnot), '$': pop1, ':': dup, '\\': swap,
          'n': clear, 'z': noop, '#': trampoline, 'r': reflect, '[': left, ']': right, 'w': compare, 'g': get, 'p': put, "'": fetch, 's': store, '{': begin, '}': end, 'u': under, 'j': jumpforward, ';': jumpover}
def kspec(S):
    p = S.pos
    q = S.adv(p, S.delta); c = S.cell(q); n_ = 0
    while c == 32 or c == 59:
        n_ += 1
        if n_ > 500: raise K.Skip()
        if c == 59:
            q = S.adv(q, S.delta)
            while S.cell(q) != 59:
                q = S.adv(q, S.delta); n_ += 1
                if n_ > 500: raise K.Skip()
        q = S.adv(q, S.delta); c = S.cell(q)
    n = S.pop()
    if sgn(n) > 0:
        if sgn(n) > 200: raise K.Skip()
        ch = chr(c) if c < 128 else None
        if ch not in KSPECS: raise K.Skip()
        for _ in range(sgn(n)):
            if not (S.ismode(DIVE) and ch not in 'r') and not (ch in '[]w' and S.w.dims == 1): KSPECS[ch](S)
    elif n == 0: S.next()
    return NONE
def kcase(mid):
    def f(rng, c):
        """an instruction a few cells further on, with blanks and comments before it"""
        d = c['delta']; p = list(c['pos'])
        if not any(d) or any(abs(x) > 20 for x in list(d) + p): return
        body = [rng.choice('0123456789abcdef+-*/%`!$:\\nz#r[]wj\'')]
        if len(mid) > 1:
            for _ in range(rng.randint(0, 3)): body = rng.choice([[' '], [' ', ' '], [';', ';'], [';', '5', ';'], [';', ' ', '@', ';']]) + body
        cells = {tuple(q): v for q, v in c['fcells']}
        for ch in body:
            p = [a+b for a, b in zip(p, d)]
            if ch != ' ': cells[tuple(p)] = ord(ch)
            else: cells.pop(tuple(p), None)
        c['fcells'] = list(cells.items())
    return f
jn = [lambda rng: rng.choice([-9, -3, -2, -1, 0, 1, 2, 3, 4, 5, 7, 12, 40])]
prop('C23',
     I('#', '#', trampoline, thorough_worlds=T93), I(';', ';', jumpover, thorough_worlds=((1, 98), (3, 98))), I('j', 'j', jumpforward, hint=dict(top=jn), thorough_worlds=((1, 98), (3, 98))),
     I('k', 'k', iterate, requires=plain_next, cspec=kspec, ghost=etok, loops=abstract, hint=dict(top=jn, edit=kcase(' ')), thorough_worlds=((1, 98), (3, 98))),
     I('k over blanks and comments', 'k', iterate, cspec=kspec, bounded=True, hint=dict(top=jn, edit=kcase(' ; ')), thorough_worlds=((1, 98), (3, 98))))

def tickcall(w, st):
    """one iteration of the loop of tick; going round again is a result of its own"""
    from .ubase import need
    from . import simul
    fn = need(w.prog.find('Funge::FungeRunner::tick'), 'FungeRunner::tick')
    return simul.AnyIteration('FungeRunner::tick').run(w.ex, lambda s: w.ex.call(s, fn, [Ptr(w.runner, 0)]), st)
def absstep(w, ex): ex.contracts['Funge::FungeRunner::execute'] = C.abstract_step
def ctick(S, more={}):
    """the tick of a pointer on instructions whose specification is known"""
    for _ in range(700):
        c = S.cell(S.pos)
        ch = chr(c) if c < 128 else None
        sk = S.ismode(DIVE)
        if ch and ch in '{}uj' and not sk and abs(sgn(S.peekn(0))) > 5000: raise K.Skip()
        if ch in (' ', '\t'): e = SKIP
        elif ch in more: e = more[ch](S)
        elif ch in KSPECS and not (ch in '[]w' and S.w.dims == 1):
            e = SKIP if sk and ch not in 'r' else KSPECS[ch](S)
        elif ch in TSPECS: e = TSPECS[ch](S)
        elif ch is None or ch in TUNIMP or ch in '[]wv^|' and S.w.dims == 1: e = UNIMP
        else: raise K.Skip()
        if e == SKIP: S.next(); continue
        if e == NONE: S.next()
        elif e != BLOCK: S.reflect(); S.next()
        return None
    raise K.Skip()
TSPECS = {'>': turn(1), '<': turn(M1)}
TUNIMP = ''.join(chr(x) for x in range(1, 32) if x != 9) + chr(127)
def tickcase(rng, c):
    c['calls'] = [(1, 0)]*rng.choice([1, 1, 2, 3])
    sm = lambda v: tuple(x if abs(x) < 30 else x % 7 for x in v)
    c['pos'], c['delta'], c['sto'] = sm(c['pos']), sm(c['delta']), sm(c['sto'])
    n = c['fcells'] = list(c['fcells'])
    if rng.random() < .15 and any(c['delta']):
        k = rng.choice([60, 70, 130, 260, 300]); n = c['fcells'] = []
        for j in range(1, 4): n.append((tuple(p+(k+j)*d for p, d in zip(c['pos'], c['delta'])), ord(rng.choice('1+$:'))))
        return
    n.append((c['pos'], rng.choice([1, 5, 31, 32, 127, 128, 256+43, -1, 1 << 40] + [ord(x) for x in '+-:#;jkr}}u[w><12 '])))
ANYC = z3.BitVec('instr', 64)
def instring(w, st):
    """in string mode, with any closing character and any character before"""
    S = w.ispec(w.ex, st, [])
    S.setstate(True); S.strend = z3.BitVec('strend', 64); S.strprev = z3.BitVec('strprev', 64)
def strseq(S):
    k, a = S.called
    if k == 3: S.strend = a & mask(64); S.setstate(True); return 0
    if S.st.ghost.get('instring'): return strchar(a & mask(64))(S)
    if a == 34: return SKIP if S.ismode(DIVE) else strbegin(S)
    raise K.Skip()
def strcase(rng, c):
    first = (0, 34) if rng.random() < .3 else (3, rng.choice([34, 39, 34, 47, 200, 1 << 40, -1]))
    cs = [rng.choice([32, 32, 32, 9, 10, 13, 12, 11, 8, 14, 65, 97, 92, 92, 48, 110, 160, 32+256, 32+(1 << 32), -1, -32, 1 << 63, 0, 255]) for _ in range(rng.choice([0, 1, 2, 3, 5, 8]))]
    if rng.random() < .5: cs += [first[1]] if first[0] == 3 else [34]
    c['calls'] = [first] + [(0, x) for x in cs]
    if c['mode'] & 0x20000: c['mode'] = 0
    if rng.random() < .6:
        q = tuple(a+b for a, b in zip(c['pos'], c['delta']))
        if all(abs(x) < 100 for x in q): c['fcells'].append((q, ord(rng.choice('0abtnvfrex"A\\'))))
def known(dims, std): return {-1: s.FISHSET, -2: s.SFISHSET}.get(std) or iset(dims, std)
def unknown(S): return True if getattr(S, 'concrete', False) else and_(*[ne(ANYC, ord(c)) for c in known(S.w.dims, S.w.standard)])
def unkcase(rng, c):
    k = known(c['dims'], c['standard'])
    c['calls'] = [(0, rng.choice([x for x in range(0, 256) if chr(x) not in k] + [-1, -32, 1 << 40, 256+43, (1 << 32)+43, 1 << 63]))]
UNK = Instr('an unknown instruction', 0, lambda S: UNIMP, movement=True, requires=unknown, call=lambda w, st: w.execute(st, ANYC), hint=dict(edit=unkcase), worlds=((1, 98), (2, 98), (3, 98), (2, 93)))
prop('C24', UNK,
     Instr('FungeRunner::tick', 0, tick, movement=True, ghost=etok, loops=absstep, call=tickcall, retw=32, cspec=ctick, hint=dict(edit=tickcase), cworlds=((1, 98), (2, 98), (3, 98)), thorough_worlds=T93))
prop('C10',
     I('"', '"', strbegin, cspec=strseq, hint=dict(edit=strcase), thorough_worlds=T93),
     I('a cell in string mode', 0, strchar(ANYC), movement=True, ghost=instring, call=lambda w, st: w.execute(st, ANYC), cspec=strseq, hint=dict(edit=strcase), thorough_worlds=T93))
def instream(rng):
    d = lambda: bytes(rng.choice([b'0', b'1', b'7', b'9', b'12', b'305', b'18446744073709551617', b'00', b'99999999999']))
    t = b''.join(rng.choice([d, d, lambda: rng.choice([b' ', b'-', b'a', b'\n', b'\r', b'\r\n', b'/', b':', b'\xff', b'\x00'])])() for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 8])))
    return t
def rep2(rng, c): c['calls'] = c['calls']*rng.choice([1, 1, 2, 3])
IN = dict(stdin=instream, edit=rep2)
prop('C22',
     I('.', '.', numout, thorough_worlds=T93), I(',', ',', charout, thorough_worlds=T93), I('&', '&', numin, hint=IN, thorough_worlds=T93), I('~', '~', charin, hint=IN, thorough_worlds=T93))

from . import fpspecs as f
def F(fp, ch, spec, worlds=((2, 98),), **k):
    h = dict(load=[fp]); h.update(k.pop('hint', {}))
    return Instr('%s %s' % (fp, ch), ch, spec, worlds=worlds, setup=(fp,), hint=h, **k)
lo = [lambda rng: rng.choice([-3, -2, -1, 0, 1, 2, 3, 4, 5, 7, 63])]
SH = dict(top=[lambda rng: rng.randint(0, 63)])
prop('C20',
     F('BITW', 'A', binop(band)), F('BITW', 'O', binop(bor)), F('BITW', 'X', binop(bxor)), F('BITW', 'N', unop(f.bnot_)),
     F('BITW', 'L', binop(shl), requires=f.shift_ok, hint=SH), F('BITW', 'R', binop(ashr), requires=f.shift_ok, hint=SH),
     F('BOOL', 'A', binop(band)), F('BOOL', 'O', binop(bor)), F('BOOL', 'X', binop(bxor)), F('BOOL', 'N', unop(f.bnot_)),
     F('FRTH', 'D', f.depth), F('FRTH', 'L', f.roll, requires=lambda S: f.small(S, S.peekn(0)), hint=dict(top=lo), split=True), F('FRTH', 'O', f.over), F('FRTH', 'P', f.pick, hint=dict(top=lo)), F('FRTH', 'R', f.rot),
     F('ORTH', 'A', binop(band)), F('ORTH', 'O', binop(bor)), F('ORTH', 'E', binop(bxor)), F('ORTH', 'G', f.oget), F('ORTH', 'P', f.oput), F('ORTH', 'V', f.odelta(0)), F('ORTH', 'W', f.odelta(1)),
     F('ORTH', 'X', f.opos(0)), F('ORTH', 'Y', f.opos(1)), F('ORTH', 'Z', f.ramp),
     F('TOYS', 'A', f.gable, hint=dict(top=lo)), F('TOYS', 'B', f.butterfly), F('TOYS', 'D', f.bump(M1)), F('TOYS', 'I', f.bump(1)), F('TOYS', 'H', f.toysshift, requires=f.toysshift_ok, hint=dict(top=lo)), F('TOYS', 'N', unop(lnot)),
     F('TOYS', 'L', f.chicane(lft)), F('TOYS', 'R', f.chicane(rgt)), F('TOYS', 'Q', f.boomerang), F('TOYS', 'T', f.barstool, hint=dict(top=lo)), F('TOYS', 'W', f.corner), F('TOYS', 'X', f.inc(0)), F('TOYS', 'Y', f.inc(1)), F('TOYS', 'Z', f.inc(2), worlds=((2, 98), (3, 98))))
prop('C26',
     *[F('MODE', c, f.toggle(b), hint=dict(listed=True)) for c, b in (('H', HOVER), ('I', INVERT), ('Q', QUEUE), ('S', SWITCH))])

from . import setups as G
SUBRG = G.general('SUBR', 'FingerprintSUBR', offset=(lambda t: t == '_Bool' or t == 'bool', z3.BitVec('subr_offset', 8)))
def preO(*chs):
    """prepend some of these instructions to the case"""
    def f(rng, c):
        c['calls'] = [(0, ord(rng.choice(chs))) for _ in range(rng.choice([0, 1, 1, 2]))] + c['calls']
    return f
SUBRS = dict(A=f.soffset(0), O=f.soffset(1), C=f.scall, J=f.sjump, R=f.sreturn)
def subr(ch, **k): return F('SUBR', ch, SUBRS[ch], ghost=SUBRG, cspec=f.seqspec(**SUBRS), hint=dict(edit=preO('A', 'O'), top=[lambda rng: rng.choice([0, 0, 1, 2, 3, -1])] if ch in 'CR' else ()), **k)
smalln = lambda S: f.small(S, S.peekn(0))
prop('C21', subr('A'), subr('O'), subr('J', thorough_worlds=((1, 98), (3, 98))), subr('C', requires=smalln, split=True), subr('R', requires=smalln, split=True))
LI = dict(listed=True)
def symvec(n): return lambda w, st: V(*[z3.BitVec('%s%d' % (n, k), 64) for k in range(w.dims)])
FISHG = G.general('FISH', 'FingerprintFISH', up=(lambda t: 'enum' in t or 'Fisher' in t.split('/')[0] or t == 'bool', z3.BitVec('fisherstate', 32)), cache=(lambda t: t in ('Vector', 'Funge::Vector'), symvec('fcache')))
def both(*fs):
    def f(w, st):
        for g in fs: g(w, st)
    return f
FISHS = dict(C=f.ramp, H=f.fset(lambda d: f.setc(d, 1, neg(d.c[1]))), V=f.fset(lambda d: f.setc(d, 0, neg(d.c[0]))), M=f.fset(lambda d: V(neg(d.c[1]), neg(d.c[0]), d.c[2])), N=f.fset(lambda d: V(d.c[1], d.c[0], d.c[2])), F=f.fisherman)
def fish(ch, **k):
    return F('FISH', ch, FISHS[ch], ghost=FISHG, cspec=f.seqspec(**FISHS), hint=dict(edit=preO('F', 'H', 'V', 'M', 'N')), **k)
prop('C25',
     F('FISH', 'C', f.ramp), F('FISH', 'D', f.ss_next(1), ghost=anysel, hint=dict(sel=1)), F('FISH', 'I', f.ss_next(-1), ghost=anysel, hint=dict(sel=1)),
     *[fish(ch) for ch in 'FHVMN'],
     F('FISH', 'L', f.shiftl, split=True), F('FISH', 'R', f.shiftr, split=True), F('FISH', 'S', f.reverse, split=True), F('FISH', 'T', f.swap3),
     F('FISH', 'O', f.dive(False), movement=True, hint=LI), F('FISH', 'U', f.dive(True), movement=True, hint=LI))

from .ufinger import load_units
FPSPECS = {tuple(u.name.split(' ')): u.spec for p in ('C20', 'C26') for u in PROPS[p].units if getattr(u, 'setup', None) and u.requires is None}
prop('C13', *load_units(FPSPECS))
# ---- the modules the instructions stand on: a property is decided together with the contracts its proof uses
def deps(ids, *units):
    for i in ids.split():
        for u in units:
            if u not in PROPS[i].units: PROPS[i].units.append(u)
deps('C06 C09 C20 C21 C25 C26', *STACKS)
deps('C07 C08 C09 C20 C21 C25', *VECS)
deps('C07 C08', *STACKS)
deps('C08', *[u for u in CELLS if 'bounds' not in u.name or '2 bounds' in u.name])
deps('C09 C25 C26', *SS)
from .usandbox import gate_units, denied_units, cmdcase, filecase
PERMS = Instr('=', '=', s.execute, split=True, hint=dict(edit=cmdcase), thorough_worlds=((1, 98), (3, 98)))
prop('C12', *denied_units(), PERMS, *gate_units())

from . import uprog
PROGSPECS = {'t': uprog.splitc, 'q': uprog.quitc, '@': stop, '.': numout, ',': charout, '_': choose((1, 0), (M1, 0)), 'x': absolute,
             '^': lambda S: turn(0, M1)(S) if S.w.dims > 1 else UNIMP, 'v': lambda S: turn(0, 1)(S) if S.w.dims > 1 else UNIMP, '|': lambda S: choose((0, 1), (0, M1))(S) if S.w.dims > 1 else UNIMP}
usched.PROGRAMS[0] = uprog.prog_gen(lambda S: ctick(S, PROGSPECS))
prop('C17', usched.SPLIT, usched.QUIT, usched.TURN, usched.IDLE, usched.START, usched.KILL, usched.MOVE, usched.STAY, usched.CREATE, usched.CREATE3, usched.ALIVE, usched.SSCOPY, *NEXTU)
from . import uload
prop('C14', *uload.PARSE, *uload.DUMP, *uload.IO)
from . import ufish
prop('C18', *ufish.UNITS)
prop('C19', *ufish.SUNITS)
