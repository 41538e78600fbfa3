"""LLVM textual IR (clang 18, -O0) reader.  Functions are parsed lazily."""
import re

TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"(?:[^"])*"|[-\w.$]+))
 | (?P<glob>@(?:"(?:[^"])*"|[-\w.$]+))
 | (?P<meta>![-\w.]*(?:"[^"]*")?)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+\.\d+(?:[eE][-+]?\d+)?|0x[KMLHR]?[0-9A-Fa-f]+|-?\d+)
 | (?P<word>[-A-Za-z_$.][-\w.$]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[()\[\]{}<>,=*:|])
)''', re.X)

def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'):
                break
            raise SyntaxError('ir tokenize: %r' % s[i:i+60])
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    return out

PARAM_ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'noalias', 'nocapture', 'readonly', 'returned', 'immarg',
               'inreg', 'writeonly', 'readnone', 'nofree', 'dead_on_unwind', 'writable', 'noreturn', 'nest', 'swiftself'}
FN_PRE = {'dso_local', 'linkonce_odr', 'internal', 'weak', 'weak_odr', 'private', 'available_externally', 'external',
          'hidden', 'protected', 'local_unnamed_addr', 'unnamed_addr', 'fastcc', 'ccc', 'tail', 'musttail', 'notail',
          'comdat', 'common', 'linkonce', 'extern_weak', 'thread_local', 'dllimport', 'default', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'}

class P:
    """token cursor with type / value parsing"""
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod
    def peek(self, k=0):
        return self.t[self.i+k][1] if self.i+k < len(self.t) else None
    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None
    def next(self):
        v = self.t[self.i][1]; self.i += 1
        return v
    def eat(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False
    def expect(self, v):
        g = self.next()
        if g != v:
            raise SyntaxError('expected %r got %r in %s' % (v, g, ' '.join(x[1] for x in self.t)))
    def type(self):
        t = self._type()
        while True:
            if self.eat('*'):
                t = 'ptr'
            elif self.peek() == '(' and self.fn_type_follows():
                # function type: skip parameter list
                depth = 0
                ps = []
                while True:
                    x = self.next()
                    if x == '(': depth += 1
                    elif x == ')':
                        depth -= 1
                        if depth == 0: break
                    ps.append(x)
                t = ('fn', t)
            else:
                return t
    def fn_type_follows(self):
        return False
    def _type(self):
        k, v = self.t[self.i]
        self.i += 1
        if k == 'word':
            if v[0] == 'i' and v[1:].isdigit():
                return ('i', int(v[1:]))
            if v in ('ptr', 'void', 'double', 'float', 'x86_fp80', 'label', 'metadata', 'opaque', 'half', 'token'):
                return v
            raise SyntaxError('type %r in %s' % (v, ' '.join(x[1] for x in self.t)))
        if k == 'loc':
            return ('named', v)
        if v == '[':
            n = int(self.next()); self.expect('x'); t = self.type(); self.expect(']')
            return ('arr', n, t)
        if v == '<':
            if self.peek() == '{':
                self.next()
                ts = self.typelist('}')
                self.expect('>')
                return ('packed', tuple(ts))
            n = int(self.next()); self.expect('x'); t = self.type(); self.expect('>')
            return ('vec', n, t)
        if v == '{':
            return ('lit', tuple(self.typelist('}')))
        raise SyntaxError('type %r' % v)
    def typelist(self, end):
        ts = []
        if self.eat(end):
            return ts
        while True:
            ts.append(self.type())
            if self.eat(end):
                return ts
            self.expect(',')
    def attrs(self):
        """skip parameter attributes, return the notable ones"""
        res = {}
        while True:
            v = self.peek()
            if v in PARAM_ATTRS:
                if v in ('signext', 'zeroext'):
                    res[v] = True
                self.i += 1
            elif v in ('align',):
                self.i += 2
                if self.t[self.i-1][1] == '(':
                    self.i += 2
            elif v in ('dereferenceable', 'dereferenceable_or_null'):
                self.i += 4
            elif v in ('sret', 'byval', 'elementtype', 'byref', 'inalloca', 'preallocated', 'captures', 'range'):
                self.i += 1
                self.expect('(')
                if v in ('captures', 'range'):
                    while self.next() != ')': pass
                else:
                    res[v] = self.type()
                    self.expect(')')
            else:
                return res
    def value(self, ty):
        """parse a value of type ty -> operand tuple"""
        k, v = self.t[self.i]
        self.i += 1
        if k == 'loc':
            return ('r', v)
        if k == 'glob':
            return ('g', unq(v))
        if k == 'num':
            if ty in ('double', 'float', 'x86_fp80'):
                return ('f', parse_fp(v, ty))
            return ('c', int(v))
        if k == 'str':
            return ('cstr', unescape(v))
        if k == 'word':
            if v == 'true': return ('c', 1)
            if v == 'false': return ('c', 0)
            if v == 'null': return ('null',)
            if v in ('undef', 'poison'): return ('undef',)
            if v == 'zeroinitializer': return ('zero',)
            if v == 'getelementptr':
                self.eat('inbounds')
                self.expect('(')
                bt = self.type()
                ops = []
                while self.eat(','):
                    self.eat('inrange')
                    t = self.type()
                    ops.append((t, self.value(t)))
                self.expect(')')
                return ('gep', bt, ops)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'trunc', 'zext', 'sext'):
                self.expect('(')
                t = self.type()
                x = self.value(t)
                self.expect('to')
                t2 = self.type()
                self.expect(')')
                return ('cast', v, t, x, t2)
            if v in ('sub', 'add', 'mul', 'and', 'or', 'xor', 'shl'):
                while self.peek() in ('nuw', 'nsw'): self.next()
                self.expect('(')
                t = self.type(); a = self.value(t); self.expect(',')
                t = self.type(); b = self.value(t); self.expect(')')
                return ('binc', v, t, a, b)
        if v in ('{', '[', '<'):
            end = {'{': '}', '[': ']', '<': '>'}[v]
            if v == '<' and self.peek() == '{':
                self.next()
                r = self.value_list('}')
                self.expect('>')
                return ('agg', r)
            return ('agg', self.value_list(end))
        raise SyntaxError('value %r in %s' % (v, ' '.join(x[1] for x in self.t)[:300]))
    def value_list(self, end):
        r = []
        if self.eat(end): return r
        while True:
            t = self.type()
            r.append((t, self.value(t)))
            if self.eat(end): return r
            self.expect(',')

def parse_fp(v, ty):
    import struct
    if v.startswith('0x'):
        h = v[2:]
        if h[0] in 'KMLHR':
            if h[0] == 'K':
                b = int(h[1:], 16)
                mant = b & ((1 << 64)-1); e = (b >> 64) & 0x7fff; s = b >> 79
                if mant == 0: return 0.0
                return (-1.0 if s else 1.0) * (mant / 2.0**63) * 2.0**(e-16383)
            return None
        return struct.unpack('>d', bytes.fromhex(h.rjust(16, '0')))[0]
    return float(v)

def unq(n):
    if n[1] == '"':
        return n[2:-1]
    return n[1:]

def unescape(s):
    body = s[2:-1] if s[0] == 'c' else s[1:-1]
    out = bytearray()
    i = 0
    while i < len(body):
        if body[i] == '\\':
            if body[i+1] == '\\':
                out.append(92); i += 2
            else:
                out.append(int(body[i+1:i+3], 16)); i += 3
        else:
            out.append(ord(body[i])); i += 1
    return bytes(out)

class Ins:
    __slots__ = ('op', 'dst', 'a', 'line', 'text')
    def __init__(self, op, dst, a, line, text):
        self.op, self.dst, self.a, self.line, self.text = op, dst, a, line, text
    def __repr__(self):
        return self.text

class Function:
    def __init__(self, mod, name, header, body_lines):
        self.mod, self.name = mod, name
        self._h, self._b = header, body_lines
        self.parsed = False
    def parse(self):
        if self.parsed: return self
        self.parsed = True
        p = P(tokenize(self._h), self.mod)
        p.expect('define')
        while p.peek() in FN_PRE: p.next()
        self.ret_attrs = p.attrs()
        self.ret = p.type()
        p.next()                      # @name
        p.expect('(')
        self.params = []
        self.vararg = False
        cnt = 0
        if not p.eat(')'):
            while True:
                if p.eat('...') or p.peek() == '...':
                    self.vararg = True
                    if p.peek() == '...': p.next()
                else:
                    t = p.type()
                    at = p.attrs()
                    if p.kind() == 'loc':
                        nm = p.next()
                    else:
                        nm = '%' + str(cnt)
                    cnt += 1
                    self.params.append((t, nm, at))
                if p.eat(')'): break
                p.expect(',')
        self.blocks = {}
        self.order = []
        cur = None
        lines = self._b
        i = 0
        while i < len(lines):
            ln = lines[i]
            i += 1
            s = ln.strip()
            if not s or s[0] == ';': continue
            m = re.match(r'^("[^"]*"|[-\w.$]+):', ln)
            if m:
                cur = '%' + m.group(1)
                self.blocks[cur] = []
                self.order.append(cur)
                continue
            if cur is None:
                cur = '%' + str(len(self.params)) if not any(l.startswith('entry:') for l in lines) else '%entry'
                self.blocks[cur] = []
                self.order.append(cur)
            if s.startswith('switch') and s.endswith('['):
                while not lines[i].strip().startswith(']'):
                    s += ' ' + lines[i].strip()
                    i += 1
                s += ' ' + lines[i].strip()
                i += 1
            self.blocks[cur].append(self.parse_ins(s))
        self.entry = self.order[0]
        self.cfg()
        return self
    def parse_ins(self, s):
        line = None
        m = re.search(r', !dbg !(\d+)', s)
        if m:
            line = int(m.group(1))
            s = s[:m.start()] + s[m.end():]
        s = re.sub(r', ![\w.]+ ![\w]+', '', s)
        s = re.sub(r', ![\w.]+ !DILocation\([^)]*\)', '', s)
        mod = self.mod
        toks = tokenize(s)
        p = P(toks, mod)
        dst = None
        if p.kind() == 'loc' and p.peek(1) == '=':
            dst = p.next(); p.next()
        op = p.next()
        while op in ('tail', 'notail', 'musttail'):
            op = p.next()
        a = None
        if op == 'alloca':
            p.eat('inalloca')
            t = p.type()
            n = None
            if p.eat(',') and p.peek() != 'align':
                t2 = p.type()
                n = p.value(t2)
            a = (t, n)
        elif op == 'load':
            p.eat('atomic'); p.eat('volatile')
            t = p.type(); p.expect(','); pt = p.type()
            a = (t, p.value(pt))
        elif op == 'store':
            p.eat('atomic'); p.eat('volatile')
            t = p.type(); v = p.value(t); p.expect(','); pt = p.type()
            a = (t, v, p.value(pt))
        elif op == 'getelementptr':
            p.eat('inbounds')
            bt = p.type(); p.expect(',')
            pt = p.type(); base = p.value(pt)
            idx = []
            while p.eat(','):
                t = p.type()
                idx.append((t, p.value(t)))
            a = (bt, base, idx)
        elif op in ('call', 'invoke'):
            while p.peek() in FN_PRE: p.next()
            rat = p.attrs()
            rt = p.type()
            fnty = None
            if p.peek() == '(':       # explicit function type (varargs)
                depth = 0
                va = False
                while True:
                    x = p.next()
                    if x == '(': depth += 1
                    elif x == ')':
                        depth -= 1
                        if depth == 0: break
                    elif x == '...': va = True
            if p.peek() == 'asm':
                a = (rt, ('asm',), [])
            else:
                callee = p.value('ptr')
                p.expect('(')
                args = []
                if not p.eat(')'):
                    while True:
                        t = p.type()
                        if t == 'metadata':
                            d = 0
                            while not (d == 0 and p.peek() in (',', ')')):
                                x = p.next()
                                if x == '(': d += 1
                                if x == ')': d -= 1
                            args.append((t, ('undef',), {}))
                        else:
                            at = p.attrs()
                            args.append((t, p.value(t), at))
                        if p.eat(')'): break
                        p.expect(',')
                a = (rt, callee, args)
                if op == 'invoke':
                    while p.peek() != 'to': p.next()
                    p.next(); p.next(); l1 = p.next()
                    p.next(); p.next(); l2 = p.next()
                    a = a + (l1, l2)
        elif op == 'br':
            if p.peek() == 'label':
                p.next()
                a = (None, p.next(), None)
            else:
                t = p.type(); c = p.value(t)
                p.expect(','); p.expect('label'); l1 = p.next()
                p.expect(','); p.expect('label'); l2 = p.next()
                a = (c, l1, l2)
        elif op == 'switch':
            t = p.type(); v = p.value(t); p.expect(','); p.expect('label'); d = p.next()
            p.expect('[')
            cs = []
            while not p.eat(']'):
                t2 = p.type(); cv = p.value(t2); p.expect(','); p.expect('label')
                cs.append((cv[1], p.next()))
            a = (t, v, d, cs)
        elif op == 'ret':
            t = p.type()
            a = (t, None if t == 'void' else p.value(t))
        elif op == 'unreachable':
            a = ()
        elif op == 'phi':
            t = p.type()
            inc = []
            while True:
                p.expect('['); v = p.value(t); p.expect(','); l = p.next(); p.expect(']')
                inc.append((v, l))
                if not p.eat(','): break
            a = (t, inc)
        elif op in ('icmp', 'fcmp'):
            while p.peek() in FN_PRE: p.next()
            c = p.next(); t = p.type(); x = p.value(t); p.expect(','); y = p.value(t)
            a = (c, t, x, y)
        elif op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
                    'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint') or p.peek() in FN_PRE: p.next()
            t = p.type(); x = p.value(t); p.expect(','); y = p.value(t)
            a = (t, x, y)
        elif op == 'fneg':
            while p.peek() in FN_PRE: p.next()
            t = p.type(); a = (t, p.value(t))
        elif op in ('trunc', 'zext', 'sext', 'bitcast', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'addrspacecast'):
            p.eat('nneg')
            t = p.type(); v = p.value(t); p.expect('to'); t2 = p.type()
            a = (t, v, t2)
        elif op == 'select':
            t = p.type(); c = p.value(t); p.expect(',')
            t1 = p.type(); x = p.value(t1); p.expect(','); t2 = p.type(); y = p.value(t2)
            a = (c, t1, x, y)
        elif op == 'extractvalue':
            t = p.type(); v = p.value(t)
            ix = []
            while p.eat(','): ix.append(int(p.next()))
            a = (t, v, ix)
        elif op == 'insertvalue':
            t = p.type(); v = p.value(t); p.expect(','); t2 = p.type(); e = p.value(t2)
            ix = []
            while p.eat(','): ix.append(int(p.next()))
            a = (t, v, t2, e, ix)
        elif op == 'atomicrmw':
            p.eat('volatile')
            k = p.next(); pt = p.type(); ptr = p.value(pt); p.expect(','); t = p.type(); v = p.value(t)
            a = (k, t, ptr, v)
        elif op == 'freeze':
            t = p.type(); a = (t, p.value(t))
        elif op == 'fence':
            a = ()
        else:
            a = ('unknown', s)
        return Ins(op, dst, a, line, s)
    def succs(self, b):
        bb = self.blocks[b]
        t = bb[-1]
        if t.op == 'br':
            return [t.a[1]] if t.a[0] is None else [t.a[1], t.a[2]]
        if t.op == 'switch':
            return [t.a[2]] + [l for _, l in t.a[3]]
        if t.op == 'invoke':
            return [t.a[3]]
        return []
    def cfg(self):
        # loop headers: targets of DFS back edges (O0 code is reducible); natural loop bodies
        color = {}
        self.back = set()
        st = [(self.entry, iter(self.succs(self.entry)))]
        color[self.entry] = 1
        while st:
            n, it = st[-1]
            for s in it:
                if s not in color:
                    color[s] = 1
                    st.append((s, iter(self.succs(s))))
                    break
                elif color[s] == 1:
                    self.back.add((n, s))
            else:
                color[n] = 2
                st.pop()
        self.headers = {h for _, h in self.back}
        preds = {}
        for b in color:
            for s in self.succs(b):
                preds.setdefault(s, []).append(b)
        self.loopbody = {}
        for h in self.headers:
            body = {h}
            wl = [b for b, hh in self.back if hh == h]
            while wl:
                b = wl.pop()
                if b in body: continue
                body.add(b)
                wl.extend(preds.get(b, []))
            self.loopbody[h] = body

class Module:
    def __init__(self, path):
        self.path = path
        self.fns = {}
        self.globals = {}
        self.types = {}
        self.aliases = {}
        self.declared = set()
        self.dbg = {}
        self._tycache = {}
        with open(path) as f:
            text = f.read()
        text = self.localise(text)
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('define'):
                m = re.search(r'(@(?:"[^"]*"|[-\w.$]+))\(', ln)
                name = unq(m.group(1))
                j = i + 1
                while lines[j] != '}': j += 1
                self.fns[name] = Function(self, name, ln[:ln.rindex('{')], lines[i+1:j])
                i = j
            elif ln.startswith('%'):
                m = re.match(r'(%(?:"[^"]*"|[-\w.$]+)) = type (.*)$', ln)
                self.types[m.group(1)] = m.group(2)
            elif ln.startswith('@'):
                m = re.match(r'(@(?:"[^"]*"|[-\w.$]+)) = (.*)$', ln)
                rest = m.group(2)
                if ' alias ' in ' ' + rest:
                    mm = re.findall(r'@(?:"[^"]*"|[-\w.$]+)', rest)
                    self.aliases[unq(m.group(1))] = unq(mm[-1])
                else:
                    self.globals[unq(m.group(1))] = rest
            elif ln.startswith('declare'):
                m = re.search(r'(@(?:"[^"]*"|[-\w.$]+))\(', ln)
                self.declared.add(unq(m.group(1)))
            elif ln.startswith('!'):
                m = re.match(r'!(\d+) = !DILocation\(line: (\d+)', ln)
                if m:
                    self.dbg[int(m.group(1))] = int(m.group(2))
                elif ' = distinct !DILocation' in ln:
                    m = re.match(r'!(\d+) = distinct !DILocation\(line: (\d+)', ln)
                    if m: self.dbg[int(m.group(1))] = int(m.group(2))
            i += 1
    _n = [0]
    def localise(self, text):
        """internal symbols are per translation unit: give them distinct names"""
        Module._n[0] += 1
        loc = set(re.findall(r'(?m)^@([-\w.$]+) = (?:private|internal) ', text))
        loc |= {x for x in re.findall(r'(?m)^define internal [^@\n]*@([-\w.$]+)\(', text) if 'gthread' not in x}
        if not loc: return text
        suf = '.tu%d' % Module._n[0]
        return re.sub(r'@([-\w.$]+)', lambda m: m.group(0) + suf if m.group(1) in loc else m.group(0), text)
    def struct(self, name):
        """element types of a named struct -> (packed, [types])"""
        if name in self._tycache: return self._tycache[name]
        s = self.types[name]
        if s.strip() == 'opaque':
            r = (False, [])
        else:
            p = P(tokenize(s), self)
            t = p.type()
            r = (t[0] == 'packed', list(t[1]))
        self._tycache[name] = r
        return r
    def sizeof(self, t):
        return self.size_align(t)[0]
    def size_align(self, t):
        key = ('sz', t)
        if key in self._tycache: return self._tycache[key]
        if t == 'ptr': r = (8, 8)
        elif t == 'double': r = (8, 8)
        elif t == 'float': r = (4, 4)
        elif t == 'x86_fp80': r = (16, 16)
        elif t[0] == 'i':
            b = (t[1] + 7)//8
            s = 1
            while s < b: s *= 2
            r = (s, min(s, 16))
        elif t[0] == 'arr':
            s, al = self.size_align(t[2])
            r = (s*t[1], al)
        elif t[0] == 'vec':
            s, al = self.size_align(t[2])
            r = (s*t[1], s*t[1])
        elif t[0] in ('named', 'lit', 'packed'):
            packed, el = self.elems(t)
            off = 0; mal = 1
            for e in el:
                s, al = self.size_align(e)
                if packed: al = 1
                off = (off + al-1)//al*al + s
                mal = max(mal, al)
            off = (off + mal-1)//mal*mal
            r = (off, mal)
        else:
            raise SyntaxError('size of %r' % (t,))
        self._tycache[key] = r
        return r
    def elems(self, t):
        if t[0] == 'named': return self.struct(t[1])
        return (t[0] == 'packed', list(t[1]))
    def field(self, t, k):
        """(offset, type) of element k of struct type t"""
        key = ('fl', t)
        if key not in self._tycache:
            packed, el = self.elems(t)
            off = 0
            r = []
            for e in el:
                s, al = self.size_align(e)
                if packed: al = 1
                off = (off + al-1)//al*al
                r.append((off, e))
                off += s
            self._tycache[key] = r
        return self._tycache[key][k]
    def global_init(self, name):
        """(type, operand or None, is_constant)"""
        key = ('gi', name)
        if key in self._tycache: return self._tycache[key]
        rest = self.globals[name]
        rest = re.sub(r', ![\w.]+ ![\w]+', '', rest)
        p = P(tokenize(rest.split(', comdat')[0].split(', section')[0]), self)
        const = False
        ext = False
        while True:
            v = p.peek()
            if v in ('global', 'constant'):
                const = v == 'constant'
                p.next()
                break
            if v in ('external', 'extern_weak'): ext = True
            p.next()
        t = p.type()
        x = None if ext or p.i >= len(p.t) or p.peek() == ',' else p.value(t)
        self._tycache[key] = (t, x, const)
        return self._tycache[key]
