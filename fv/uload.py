"""Text into Funge-space and back: the loops over characters and cells are proved by one arbitrary iteration each."""
import itertools, time
from .units import *
from .ubase import need, run_lines
from .world import NONE, UNSPEC, NOTAVAIL, V
from . import contracts as C, simul, loops, stl, case as K
from .stl import Seq
from .contracts import VecG
from .usched import Custom
RAW = uf('text', (64,), 8)
NOVT = [False]; DEBUG = False
def TXT(j):
    """character j of the text (in three dimensions: of a text without vertical tabs)"""
    return ite(eq(RAW(j), 11, 8), 32, RAW(j), 8) if NOVT[0] else RAW(j)
TN = z3.BitVec('textlen', 64)
EOF = mask(32)
LIM = 1 << 60
def stream_contracts(ex):
    """an input stream over a text of any length: position and end-of-file flag"""
    def get(ex_, st, a, ci):
        if len(a) != 1: raise Unsupported('istream get with arguments')
        p, e = st.ghost['tpos'], st.ghost['teof']
        end = or_(ne(e, 0, 8), sle(TN, p))
        st.ghost['tpos'], st.ghost['teof'] = ite(end, p, add(p, 1)), ite(end, 1, 0, 8)
        return ite(end, EOF, zext(TXT(bv(p)), 8, 32), 32)
    def peek(ex_, st, a, ci):
        p, e = st.ghost['tpos'], st.ghost['teof']
        end = or_(ne(e, 0, 8), sle(TN, p))
        st.ghost['teof'] = ite(end, 1, 0, 8)
        return ite(end, EOF, zext(TXT(bv(p)), 8, 32), 32)
    c = ex.contracts
    for s in ('std::basic_istream::', 'std::istream::'): c[s+'get'], c[s+'peek'] = get, peek
    c['std::basic_ios::eof'] = lambda ex_, st, a, ci: ne(st.ghost['teof'], 0, 8)
    c['std::basic_ios::good'] = lambda ex_, st, a, ci: eq(st.ghost['teof'], 0, 8)
def streamobj(st, o):
    """where the virtual base of a stream lies: at its beginning (the library's stream functions are contracts)"""
    t = ('obj', 'streamtable'); st.mem[t] = {0: 0}; st.sizes[t] = 64
    st.put(o, 0, Ptr(t, 24))
def cmax(a, b): return VecG([ite(slt(x, y), y, x) for x, y in zip(a.c, b.c)])
def setd(v, d, x): return VecG([x if k == d else y for k, y in enumerate(v.c)])
def onechar(S, dims, binary, start, v, mx, last, c):
    """one character of a text: (position, extent, last control character, how much is taken) afterwards; `last`: 12 right after a form feed, otherwise anything else"""
    if not binary:
        cr = S(eq(c, 13, 32))
        if cr or S(eq(c, 10, 32)):
            if cr:
                p = S.st.ghost['tpos']
                end = or_(ne(S.st.ghost['teof'], 0, 8), sle(TN, p))
                S.st.ghost['teof'] = ite(end, 1, 0, 8)
                S.st.ghost['tpos'] = ite(and_(not_(end), eq(TXT(bv(p)), 10, 8)), add(p, 1), p)
            if dims < 2 or S(eq(last, 12, 32)): return v, mx, c
            w = setd(setd(v, 1, add(v.c[1], 1)), 0, start.c[0])
            return w, cmax(mx, w), last
        if S(eq(c, 12, 32)):
            if dims < 3: return v, mx, last
            w = VecG((start.c[0], start.c[1], add(v.c[2], 1)) + v.c[3:])
            return w, cmax(mx, w), 12
        if S(eq(c, 11, 32)) and dims < 3: return v, mx, last
    if S(ne(c, 32, 32)): S.st.event(('put',) + tuple(v.c[:dims]) + (zext(c, 32, 64),))
    w = setd(v, 0, add(v.c[0], 1))
    return w, cmax(mx, w), c
def locals_of(s, kind): return [(o, off) for o in simul.local_objs(s) for off in s.mem[o] if isinstance(off, int) and kind(s.mem[o][off])]
def isvec(x): return isinstance(x, VecG)
def is32(x): return isc(x) or (z3.is_bv(x) and x.size() == 32)
def parse(dims, binary, part, auto=False):
    """auto: a program whose number of dimensions is told by its text"""
    def f(ctx, w, name):
        best = None
        for roles in itertools.permutations(range(4), 2):
            for r2 in (0, 1):
                r = attempt(ctx, w, name, roles, r2)
                if r is None: continue
                if r.status == 'proved': return r
                if DEBUG: print(roles, r2, r.status, r.reason, [(o.kind, o.status) for o in r.failed])
                best = best or r
        if best is None: raise Unsupported('the loop over the characters was not found')
        if best.status == 'failed':         # the invariant is about particular variables: a failure proves nothing
            best.status, best.reason = 'unsupported', 'invariant of the loop over the characters not proved'
        return best
    def attempt(ctx, w, name, roles, swap):
        ex = w.fresh_exec(); stream_contracts(ex)
        def put(ex_, st, a, ci): st.event(('put',) + tuple(C.vec(st, a[1]).c[:dims]) + (a[2],))      # its effect is a function of its arguments: C03
        ex.contracts['Funge::Field::put'] = put
        NOVT[0] = dims >= 3 and not binary
        fns = [n for n in ctx.P.by_base('Funge::Field::parse')]
        if not fns: raise Unsupported('no Field::parse')
        st = w.st0.copy()
        fld = Ptr(w.uni, w.lay.off('Funge::FungeUniverse', 'field'))
        DOFF = fld.off+w.lay.off('Funge::Field', 'dimensions')
        st.put(w.uni, DOFF, 0 if auto else dims)
        if auto: st.put(w.uni, fld.off+w.lay.off('Funge::Field', 'maxs'), Seq(ALam(lambda j: uf('fmaxs', (64,), 64)(bv(j))), 0, z3.BitVec('nmaxs', 64), 64)); st.assume(z3.And(z3.BitVec('nmaxs', 64) >= 0, z3.BitVec('nmaxs', 64) < LIM))
        st.put(w.uni, fld.off+w.lay.bytype('Funge::Field', lambda t: t.endswith('FungeCell')), st.get(w.uni, w.cfg['cells']))
        start = VecG([z3.BitVec('start%d' % k, 64) for k in range(dims)])
        for x in start.c[:dims]: st.assume(z3.And(x > -LIM, x < LIM))
        a, strm, ret = st.new('arg', 24), st.new('stream', 520), st.new('ret', 24)
        st.put(a, 0, start); streamobj(st, strm)
        st.assume(z3.And(TN >= 0, TN < LIM))
        st.ghost['tpos'], st.ghost['teof'] = 0, 0
        P = z3.BitVec('textpos', 64); E = z3.BitVec('textend', 8)
        vv, mx = [VecG([z3.BitVec('%s%d' % (n, k), 64) for k in range(dims)]) for n in ('v', 'm')]
        last = z3.BitVec('lastchar', 32)
        box = {}
        again = []
        c0 = ite(ne(E, 0, 8), EOF, zext(TXT(P-1), 8, 32), 32)
        def inv(s, v, m, l, p, hyp):
            for k in range(dims): hyp(s, and_(sle(v.c[k], m.c[k]), sle(start.c[k], m.c[k])))
            hyp(s, and_(sle(0, p), sle(p, TN)))
            hyp(s, or_(eq(p, TN), eq(s.ghost['teof'], 0, 8)))
            hyp(s, or_(slt(0, p), ne(s.ghost['teof'], 0, 8)))
            if not binary:          # the last control character: a form feed only in three dimensions
                hyp(s, ne(l, 11, 32))
                if dims < 3: hyp(s, ne(l, 12, 32))
        def generic(s):
            s.ghost['tpos'], s.ghost['teof'] = P, E
            s.assume(z3.ULE(E, 1)); s.ghost['general'] = True
            inv(s, vv, mx, last, P, lambda t, c: t.assume(c))
        def cut(ex_, cur, nxt):
            if 'Field::parse' not in str(ex_.stack[-1]): return nxt
            if 'head' not in box:
                s0, fr, p = cur[0]
                vary = lambda kind: [l for l in locals_of(s0, kind) if any(l[0] in t.mem and l[1] in t.mem[l[0]] and not loops.same(s0.mem[l[0]][l[1]], t.mem[l[0]][l[1]]) for t, _, _ in nxt)]
                vecs, ints = vary(isvec), vary(is32)
                if max(roles) >= len(vecs) or len(vecs) != 2 or len(ints) > 2 or not ints: box['bad'] = True; box['head'] = 1; return []
                i, la = (ints[0], ints[1] if len(ints) > 1 else None) if not swap else (ints[-1], ints[0] if len(ints) > 1 else None)
                box['roles'] = (vecs[roles[0]], vecs[roles[1]], i, la)
                # the invariant holds at the start
                if part == 'begin':
                    g = lambda l: s0.mem[l[0]][l[1]]
                    for x, y, what in ((g(vecs[roles[0]]), start, 'position'), (g(vecs[roles[1]]), start, 'extent')):
                        for c, h in unit.value_eq(x, y): ex.oblige(s0.copy(), c, 'the first character goes to the start: ' + what, '', assume=False)
                    ex.oblige(s0.copy(), eq(g(i), ite(eq(TN, 0), EOF, zext(TXT(bv(0)), 8, 32), 32), 32), 'the first character is read', '', assume=False)
                    if la: ex.oblige(s0.copy(), ne(g(la), 12, 32), 'no form feed before', '', assume=False); ex.oblige(s0.copy(), ne(g(la), 11, 32), 'no vertical tab before', '', assume=False)
                    box['head'] = 1
                    raise Done()
                h = s0.copy(); h.pc = list(box['pre'].pc); h.mdl = None
                h.ghost['field'], h.ghost['ftok'] = box['pre'].ghost['field'], box['pre'].ghost['ftok']
                h.ev = ()
                for l, x in zip(box['roles'], (vv, mx, c0, last)):
                    if l: h.mem[l[0]] = dict(h.mem[l[0]]); h.mem[l[0]][l[1]] = x
                generic(h)
                box['head'] = h
                del ex.obls[:]
                return [(h, fr.copy(), nxt[0][2])]
            again.extend(s for s, _, _ in nxt)
            return []
        class Done(Exception): pass
        def call(s):
            box['pre'] = s.copy()
            generic2 = None
            simul.install(ex, cut)
            try: outs = ex.call(s, fns[0], [Ptr(ret, 0), fld, Ptr(a, 0), Ptr(strm, 0), bool(binary)])
            except Done: return None
            finally: simul.remove(ex)
            for t in again: t.done = ('again',)
            # paths that never reach the general iteration are instances of it
            outs = [(t, rv) for t, rv in outs if box.get('head') is not None and isgen(t)]
            return outs + [(t, None) for t in again]
        def isgen(t): return 'general' in t.ghost
        if part == 'begin':
            t0 = time.time()
            r = unit.UnitResult(name)
            ex.obls = []; ex.unit = name; ex.stack = [name]
            try: call(st)
            except Done: pass
            except (Unsupported, Timeout) as e: r.status, r.reason = 'unsupported', str(e)
            if box.get('bad') or 'roles' not in box and r.status != 'unsupported': return None
            r.obls = ex.obls; r.paths = 1; r.time = time.time()-t0
            r.status = r.status or ('proved' if all(o.ok for o in r.obls) else 'failed')
            return r
        def spec(S):
            generic(S.st)
            if S(ne(E, 0, 8)):
                if auto: S.st.put(w.uni, DOFF, z3.BitVec('nmaxs', 64))
                S.result = mx.sub(start) if hasattr(mx, 'sub') else VecG([sub(x, y) for x, y in zip(mx.c, start.c)])
                return None
            S.v2, S.m2, S.l2 = onechar(S, dims, binary, start, vv, mx, last, c0)
            # and the next character is read
            p, e = S.st.ghost['tpos'], S.st.ghost['teof']
            end = or_(ne(e, 0, 8), sle(TN, p))
            S.nextc = ite(end, EOF, zext(TXT(bv(p)), 8, 32), 32)
            S.st.ghost['tpos'], S.st.ghost['teof'] = ite(end, p, add(p, 1)), ite(end, 1, 0, 8)
            S.again()
        def post(ex_, code, S, rv, want):
            if any(not o.ok for o in ex.obls): raise Unsupported('another variable')
            def same(x, y, what, wd=64):
                for c, hyp in unit.value_eq(x, y, wd): unit.goal(ex, code, S.st, c, hyp, 'post: ' + what, '')
            if code.done is None:
                if not hasattr(S, 'result'): return
                same(code.get(ret, 0), S.result, 'size of the text')
                return
            if hasattr(S, 'result'): return
            g = lambda l: code.mem[l[0]][l[1]]
            rv_, rm, ri, rl = box['roles']
            same(g(rv_), S.v2, 'place of the next character'); same(g(rm), S.m2, 'extent of the text'); same(g(ri), S.nextc, 'next character', 32)
            if rl: unit.goal(ex, code, S.st, eq(ite(eq(g(rl), 12, 32), 1, 0), ite(eq(S.l2, 12, 32), 1, 0)), (), 'post: right after a form feed', '')
            inv(S.st.copy(), S.v2, S.m2, S.l2, S.st.ghost['tpos'], lambda t, c: unit.goal(ex, code, t, c, (), 'invariant of the text', ''))
        r = unit.verify(ex, name, st, call, spec, mk=w.ispec, ghosts=('tpos', 'teof'), post=post, ignore_ret=True, dontcare=[lambda o, off: isinstance(o, tuple) and (o[0] in ('stream', 'ret') or o[0] == 'arg')])
        if box.get('bad') or 'roles' not in box and r.status != 'unsupported': return None
        return r
    return f
import time
# ---------------------------------------------------------------- the same on concrete texts
U64 = mask(64)
def ctext(dims, text, start, binary):
    """[(position, character)] and the size of a text (dims 0: any; no vertical tabs in three dimensions)"""
    v, mx, last, puts, i = list(start), list(start), 0, [], 0
    def grow():
        for k in range(3): mx[k] = max(mx[k], v[k])
    while i < len(text):
        c = text[i]; i += 1
        if not binary and c in (10, 13):
            if c == 13 and i < len(text) and text[i] == 10: i += 1
            if dims != 1 and last != 12: v[1] += 1; grow(); v[0] = start[0]
            last = c
        elif not binary and c == 12:
            if dims in (0, 3): v[0], v[1] = start[0], start[1]; v[2] += 1; grow(); last = 12
        elif not binary and c == 11 and dims in (0, 3): raise K.Skip()
        elif not binary and c == 11: pass
        else:
            if c != 32: puts.append((tuple(v), c))
            v[0] += 1; grow(); last = c
    return puts, [a-b for a, b in zip(mx, start)]
def cregion(get, dims, start, delta, binary):
    """the text of a region"""
    out = b''
    for y in range(delta[1] if dims > 1 else 1):
        row = [get((start[0]+x, start[1]+y, start[2])) for x in range(delta[0])]
        if not binary:
            while row and row[-1] == 32: row.pop()
        out += bytes(c & 255 for c in row) + b'\n'
    return out
def sometext(rng, dims):
    a = rng.choice([b'ab \n', b'ab\r\n', b'a b\n\r\f', b'abc', bytes(range(256)), b'a\f\n b\t', b'x \r\n'])
    if dims in (0, 3): a = a.replace(b'\x0b', b'')
    return bytes(rng.choice(a) for _ in range(rng.choice([0, 1, 3, 6, 12, 25])))
def textcase(rng, pool):
    dims, cs = rng.choice([0, 1, 2, 3]), rng.choice([1, 8])
    f = K.CField(dims, cs)
    place = lambda: [rng.randint(-3, 3) if k < (dims or 3) else 0 for k in range(3)]
    st = lambda x: [len(x)] + list(x)
    t, out = [], []
    n = 0
    for _ in range(rng.choice([1, 1, 2]) if dims else 1):
        a, txt, b = place(), sometext(rng, dims), rng.random() < .3
        puts, size = ctext(dims, txt, a, b)
        for p, c in puts: f.put([x & U64 for x in p], c)
        t += [3, 3] + a + st(txt) + [int(b)]; out += size; n += 1
        for p in [p for p, _ in puts][:40] + [tuple(place())]:
            t += [1, 3] + list(p); out.append(sgn(f.get([x & U64 for x in p]))); n += 1
    for _ in range(rng.choice([0, 1, 2])):
        p, c = place(), rng.choice([32, 65, 288, 1 << 40, -1, 10])
        if cs == 1 and c == 288: continue
        t += [0, 3] + p + [c]; n += 1
        f.put([x & U64 for x in p], c & U64)
    a, d, b = place(), [rng.randint(1, 7), rng.randint(1, 4) if dims != 1 else 0, 0], rng.random() < .4
    if dims:
        t += [4, 3] + a + [3] + d + [int(b)]; n += 1
        out += st(cregion(lambda p: f.get([x & U64 for x in p]), dims, a, d, b))
    return 'F ' + ' '.join(str(x) for x in [dims, cs, n] + t), out
def parse_units():
    r = []
    for dims, auto in ((1, 0), (2, 0), (3, 0), (3, 1)):
        for b in (0, 1):
            for part in ('begin', 'step'):
                if auto and b: continue
                r.append(Custom('Field::parse %s, %s%s' % ({'begin': 'starts', 'step': 'one character'}[part], 'any dimensions' if auto else '%dD' % dims, ' binary' if b else ''), parse(dims, b, part, auto), worlds=((dims, 98),), cases=textcase))
    return r

# ---------------------------------------------------------------- Funge-space to text
OUTT = ('obj', 'outtext')
def dump(dims, binary, part):
    """one cell of a region (one plane): its low byte follows the blanks held back; at the end of a row a line end, and blanks held back are dropped"""
    def f(ctx, w, name):
        ex = w.fresh_exec()
        fns = [n for n in ctx.P.by_base('Funge::Field::dump')]
        if not fns: raise Unsupported('no Field::dump')
        def char(ex_, st, a, ci):
            if len(a) != 2 or 'char' not in ci.q.params[1] or '*' in ci.q.params[1] or 'string' in ci.q.params[1]: return NotImplemented
            st.put(OUTT, 0, st.get(OUTT, 0).push_back(a[1])); return a[0]
        ex.contracts['std::operator<<'] = char
        ex.contracts['std::basic_ostream::put'] = lambda ex_, st, a, ci: (st.put(OUTT, 0, st.get(OUTT, 0).push_back(a[1])), a[0])[1]
        st = w.st0.copy()
        fld = Ptr(w.uni, w.lay.off('Funge::FungeUniverse', 'field'))
        start, delta = [VecG([z3.BitVec('%s%d' % (n, k), 64) for k in range(dims)]) for n in ('start', 'delta')]
        for k in range(dims): st.assume(z3.And(start.c[k] > -LIM, start.c[k] < LIM, delta.c[k] < LIM, delta.c[k] >= (1 if k < 2 else 0)))
        a, b, strm = st.new('arg', 24), st.new('arg', 24), st.new('stream', 512)
        st.put(a, 0, start); st.put(b, 0, delta); streamobj(st, strm)
        st.mem[OUTT] = {}; st.sizes[OUTT] = 24
        OL, BL = z3.BitVec('outlen', 64), z3.BitVec('blanks', 64)
        st.put(OUTT, 0, Seq(ALam(lambda j: uf('outtext', (64,), 8)(bv(j))), 0, OL, 8))
        for x in (OL, BL): st.assume(z3.And(x >= 0, x < LIM))
        end = start.add(delta)
        vv = VecG([z3.BitVec('v%d' % k, 64) for k in range(dims)])
        box, again = {}, []
        def blanks(n): return Seq(ALam(lambda j: 32), 0, n, 8)
        def isbuf(x): return isinstance(x, Seq)
        def inv(s, v, n, hyp):
            hyp(s, and_(sle(start.c[0], v.c[0]), slt(v.c[0], end.c[0])))
            if dims > 1: hyp(s, and_(sle(start.c[1], v.c[1]), slt(v.c[1], end.c[1])))
            for k in range(2, dims): hyp(s, eq(v.c[k], start.c[k]))
            hyp(s, and_(sle(0, n), slt(n, LIM)) if not binary else eq(n, 0))
        class Found(Exception): pass
        def cut(ex_, cur, nxt):
            if 'Field::dump' not in str(ex_.stack[-1]): return nxt
            if box and nxt[0][2] != box['head']: return nxt
            if not box:
                s0, fr, p = cur[0]
                varies = lambda l: any(l[0] in t.mem and l[1] in t.mem[l[0]] and not loops.same(s0.mem[l[0]][l[1]], t.mem[l[0]][l[1]]) for t, _, _ in nxt)
                vs, bs = [l for l in locals_of(s0, isvec) if varies(l)], locals_of(s0, isbuf)
                if not vs: return nxt           # a loop over the characters held back
                bs = [l for l in bs if l[0][0] == 'al']
                if len(vs) != 1 or len(bs) != 1: raise Unsupported('locals of the loop over the cells: %r %r' % (vs, bs))
                box['head'] = nxt[0][2]
                if part == 'begin':
                    for c, h in unit.value_eq(s0.mem[vs[0][0]][vs[0][1]], start): ex.oblige(s0.copy(), c, 'the first cell is the start of the region', '', assume=False)
                    ex.oblige(s0.copy(), eq(s0.mem[bs[0][0]][bs[0][1]].size(), 0), 'nothing is held back before the first cell', '', assume=False)
                    for c, h in unit.value_eq(s0.get(OUTT, 0), st.get(OUTT, 0)): 
                        t = s0.copy()
                        for x in h: t.assume(x)
                        ex.oblige(t, c, 'nothing is written before the first cell', '', assume=False)
                    raise Found()
                box['v'], box['b'] = vs[0], bs[0]
                h = s0.copy(); h.pc = list(st.pc); h.mdl = None
                h.put(OUTT, 0, st.get(OUTT, 0)); h.ev = st.ev
                for l, x in ((vs[0], vv), (bs[0], blanks(0 if binary else BL))): h.mem[l[0]] = dict(h.mem[l[0]]); h.mem[l[0]][l[1]] = x
                h.ghost['general'] = True
                inv(h, vv, 0 if binary else BL, lambda t, c: t.assume(c))
                del ex.obls[:]
                return [(h, fr.copy(), nxt[0][2])]
            again.extend(s for s, _, _ in nxt)
            return []
        def call(s):
            simul.install(ex, cut)
            try: outs = ex.call(s, fns[0], [fld, Ptr(a, 0), Ptr(b, 0), Ptr(strm, 0), bool(binary)])
            finally: simul.remove(ex)
            if 'v' not in box: raise Unsupported('the loop over the cells was not found')
            for t in again: t.done = ('again',)
            return [(t, rv) for t, rv in outs if 'general' in t.ghost] + [(t, None) for t in again]
        def spec(S):
            inv(S.st, vv, 0 if binary else BL, lambda t, c: t.assume(c))
            c = S.cell(vv)
            S.buf = blanks(0 if binary else BL).push_back(trunc(c, 64, 8))
            out = S.st.get(OUTT, 0)
            if binary or S(ne(c, 32)): out = stl.concat(out, S.buf); S.buf = blanks(0); S.n = 0
            else: S.buf, S.n = blanks(add(BL, 1)), add(BL, 1)
            S.v2 = setd(vv, 0, add(vv.c[0], 1))
            more = True
            if S(sle(end.c[0], S.v2.c[0])):
                out = out.push_back(10)
                S.buf, S.n = blanks(0), 0
                S.v2 = setd(S.v2, 0, start.c[0])
                if dims > 1: S.v2 = setd(S.v2, 1, add(vv.c[1], 1))
                more = S(slt(S.v2.c[1], end.c[1])) if dims > 1 else False
            S.st.put(OUTT, 0, out)
            if more: S.again()
        def post(ex_, code, S, rv, want):
            if code.done is None: return
            for c, hyp in unit.value_eq(code.mem[box['v'][0]][box['v'][1]], S.v2): unit.goal(ex, code, S.st, c, hyp, 'post: place of the next cell', '')
            for c, hyp in unit.value_eq(code.mem[box['b'][0]][box['b'][1]], S.buf): unit.goal(ex, code, S.st, c, hyp, 'post: the blanks held back', '')
            inv(S.st.copy(), S.v2, S.n, lambda t, c: unit.goal(ex, code, t, c, (), 'invariant of the region', '') if not (not binary and c is None) else None)
        if part == 'begin':
            t0 = time.time(); r = unit.UnitResult(name)
            ex.obls = []; ex.unit = name; ex.stack = [name]
            try: call(st.copy()); r.status, r.reason = 'unsupported', 'the loop over the cells was not found'
            except Found: pass
            except (Unsupported, Timeout) as e: r.status, r.reason = 'unsupported', str(e)
            r.obls = ex.obls; r.paths = 1; r.time = time.time()-t0
            r.status = r.status or ('proved' if all(o.ok for o in r.obls) else 'failed')
        else: r = unit.verify(ex, name, st, call, spec, mk=w.ispec, post=post, ignore_ret=True, dontcare=[lambda o, off: isinstance(o, tuple) and o[0] in ('stream', 'arg')])
        if r.status == 'failed': r.status, r.reason = 'unsupported', 'invariant of the loop over the cells not proved'
        return r
    return f
def dump_units():
    return [Custom('Field::dump %s, %dD%s' % ({'begin': 'starts', 'step': 'one cell'}[part], dims, ' binary' if b else ''), dump(dims, b, part), worlds=((dims, 98),), cases=textcase) for dims in (1, 2, 3) for b in (0, 1) for part in ('begin', 'step')]
PARSE, DUMP = parse_units(), dump_units()

# ---------------------------------------------------------------- i and o
from .specs import popstring
from .world import NONE
OPENED = z3.BitVec('opened', 8)
def b8(x): return x if isinstance(x, int) and not isinstance(x, bool) else (1 if x else 0) if isinstance(x, bool) else ite(x, 1, 0, 8)
def flag_of(x): return x if isinstance(x, bool) or z3.is_bool(x) else ne(x, 0, x.size() if z3.is_bv(x) else 8)
def parsed(st, v, b):
    """the text is put at v: what Field::parse guarantees, as a function of Funge-space before, place and form"""
    st.event(('parse', v.c[0], v.c[1], v.c[2], b))
    # place and form are compared as an event: what comes of them has a name by the number of the call
    n = st.ghost.get('nparsed', 0); st.ghost['nparsed'] = n+1
    st.ghost['ftok'] = z3.BitVec('loaded%d' % n, 64); st.ghost['field'] = AFTER
    return VecG([z3.BitVec('textsize%d_%d' % (n, k), 64) for k in range(3)])
class _After: pass
AFTER = _After()         # Funge-space with a text in it: not looked at again
def file_contracts(w, ex):
    c = ex.contracts
    def opener(kind):
        def f(ex_, st, a, ci):
            if len(a) != 3: raise Unsupported('stream constructor with %d arguments' % len(a))
            st.event(('open', kind, stl.getseq(ex_, st, a[1])))
            streamobj(st, a[0].obj); return None
        return f
    for s, k in (('ifstream', 'in'), ('ofstream', 'out')):
        c['std::basic_%s::basic_%s' % (s, s)] = opener(k)
        c['std::basic_%s::~basic_%s' % (s, s)] = lambda ex_, st, a, ci: None
        c['std::basic_%s::is_open' % s] = lambda ex_, st, a, ci: ne(OPENED, 0, 8)
    c['std::basic_ios::fail'] = c['std::basic_ios::operator!'] = lambda ex_, st, a, ci: eq(OPENED, 0, 8)
    c['std::basic_ios::operator bool'] = c['std::basic_ios::good'] = lambda ex_, st, a, ci: ne(OPENED, 0, 8)
    def parse_(ex_, st, a, ci):
        st.setcell(C.loc(a[0]), parsed(st, C.vec(st, a[2]), b8(flag_of(a[4]))))
    def dump_(ex_, st, a, ci):
        v, d = C.vec(st, a[1]), C.vec(st, a[2])
        st.event(('dump',) + v.c + d.c + (b8(flag_of(a[4])),))
    c['Funge::Field::parse'], c['Funge::Field::dump'] = parse_, dump_
SIMPLE = set(b'abcdefghijklmnopqrstuvwxyz0123456789')
def opened(S, kind, name):
    if getattr(S, 'concrete', False):
        if not set(name) <= SIMPLE: raise K.Skip()
        return bool(name) if kind == 'out' else name.decode() in S.st.ghost['case'].get('files', {})
    S.st.event(('open', kind, name))
    return S(ne(OPENED, 0, 8))
def filein(S):
    if not S(S.flag('filesystem')): return NOTAVAIL
    name = popstring(S); fl = S.pop(); va = S.popvec()
    if not opened(S, 'in', name): return UNSPEC
    b = ne(band(fl, 1), 0)
    at = va.add(S.storage)
    if getattr(S, 'concrete', False):
        puts, size = ctext(S.w.dims, S.st.ghost['case']['files'][name.decode()], [sgn(x) for x in at.c], bool(b))
        for p, c in puts: S.store(V(*[x & U64 for x in p]), c)
        vb = V(*[x & U64 for x in size])
    else: vb = parsed(S.st, at, b8(b))
    S.pushvec(vb); S.pushvec(va); return NONE
def fileout(S):
    if not S(S.flag('filesystem')): return NOTAVAIL
    name = popstring(S); fl = S.pop(); va = S.popvec().add(S.storage); vb = S.popvec()
    if not opened(S, 'out', name): return UNSPEC
    b = eq(band(fl, 1), 0)
    if getattr(S, 'concrete', False):
        d = [sgn(x) for x in vb.c]
        if not (0 < d[0] < 20 and (S.w.dims < 2 or 0 < d[1] < 20) and d[2] >= 0) or any(abs(sgn(x)) > 1 << 40 for x in va.c): raise K.Skip()
        g = S.st.ghost
        g['files'] = dict(g.get('files', g['case'].get('files', {})))
        g['files'][name.decode()] = cregion(lambda p: g['cfield'].get([x & U64 for x in p]), S.w.dims, [sgn(x) for x in va.c], d, bool(b))
    else: S.st.event(('dump',) + va.c + vb.c + (b8(b),))
    return NONE
def iocase(out):
    def f(rng, c):
        n = c['dims']; c['flags']['filesystem'] = rng.random() < .9
        if rng.random() < .9: c['smode'] = 0
        s = c['stacks'][-1-c.get('sel', 0)]
        nm = rng.choice(['f1', 'f1', 'f2', ''])
        at = [rng.randint(-3, 3) for _ in range(n)]
        fl = rng.choice([0, 1, 0, 1, 2, 3])
        sz = [rng.randint(1, 6) for _ in range(n)]
        if c['sto'] and any(abs(x) > 1 << 40 for x in c['sto']): c['sto'] = (1, 0, 0)
        if out: s.extend(sz)
        s.extend(at + [fl, 0] + [ord(x) for x in nm[::-1]])
        for st in c['stacks']:
            for k, x in enumerate(st):
                if x & 255 == 47: st[k] = 65        # names stay inside the scratch folder
        c['files'] = {'f1': sometext(rng, n)}
        c['reads'] = ['f1', 'f2']
        for k in range(rng.choice([0, 2, 6])): c['fcells'].append((tuple(rng.randint(-3, 8) if j < n else 0 for j in range(3)), rng.choice([32, 65, 10, 300])))
    return f
IO = [Instr('i', 'i', filein, worlds=((1, 98), (2, 98)), thorough_worlds=((3, 98),), loops=file_contracts, split=True, hint=dict(edit=iocase(False))),
      Instr('o', 'o', fileout, worlds=((1, 98), (2, 98)), thorough_worlds=((3, 98),), loops=file_contracts, split=True, hint=dict(edit=iocase(True)))]
for u in PARSE + DUMP: u.difgroup = 'text'
