"""Permissions.  Every function of the outside world that a permission covers has the precondition that the permission is given.  Which functions can
reach one is read off the calls of the current tree; everything a program can execute that can is verified against the precondition, from any state."""
import re
from .ubase import *
from . import names, setups as G, world as W
from .stl import OMap, FnVal
from .ufinger import semloc, DOC
PERM = dict(execute='=', filesystem='i o', concurrent='t', fingerprint='( )')
EXEC = re.compile(r'^(system|popen|execl\w*|execv\w*|execve\w*|fexecve|fork|vfork|_Fork|clone|clone3|syscall|posix_spawnp?|dlopen)$')
FILES = re.compile(r'^(fopen|fopen64|freopen|freopen64|open|open64|openat|creat|creat64|unlink|unlinkat|rmdir|mkdir|mkdirat|chdir|fchdir|chroot|rename|renameat|remove|truncate|link|symlink|chmod|chown|opendir|mkstemp|tmpfile|mknod|mkfifo|stat|lstat|access|readlink|utime|'
                   r'std::basic_[io]?f(ile)?(stream|buf)::open|std::basic_[io]?fstream::basic_[io]?fstream)$')
FSQ = re.compile(r'^std::filesystem::(?!path\b|operator|hash_value|swap|begin|end|filesystem_error|file_status|u8path|is_|exists|status_known)\w+')
def kind_of(n, defined):
    """the permission this function needs by itself"""
    q = names.qname(n)
    if q.base in ('Funge::FungeUniverse::cloneRunner',): return 'concurrent'
    if q.base in ('Funge::FingerprintStrategy::load', 'Funge::FingerprintStrategy::unload'): return 'fingerprint'
    if defined: return None
    if EXEC.match(q.base): return 'execute'
    if FILES.match(q.base) and not (q.base.endswith('stream') and not q.params): return 'filesystem'
    if FSQ.match(q.base) and '::path::' not in q.base and '_Impl' not in q.base and '_List' not in q.base: return 'filesystem'
    return None
# what is trusted to do this only as configured: starting the interpreter, library fingerprints (a fixed directory, covered by the fingerprint permission), fingerprints named by the configuration
TRUSTED = {'filesystem': ('Funge::FingerprintFungeLib::factory',), 'fingerprint': ('Funge::FingerprintStrategy::FingerprintStrategy',), 'execute': (), 'concurrent': ()}
class Reach:
    def __init__(self, P):
        self.P = P
        call, ref = {}, {}
        decl = set()
        for m in P.mods: decl |= set(m.declared)
        pat = re.compile(r'@("[^"]+"|[\w.$]+)')
        self.taken = set()
        for n, f in P.fnmod.items():
            c = set()
            for l in f._b:
                if '@' not in l: continue
                ids = [x.strip('"') for x in pat.findall(l)]
                m = re.search(r'\b(?:call|invoke)\b[^@]*?@("[^"]+"|[\w.$]+)\(', l)
                d = m.group(1).strip('"') if m else None
                for k, x in enumerate(ids):
                    x = P.resolve(x)
                    if x in P.fnmod or x in decl:
                        if d is not None and P.resolve(d) == x and k == 0: c.add(x)
                        else: self.taken.add(x)
            call[n] = c
        for m in P.mods:
            for g, t in m.globals.items():
                for x in pat.findall(str(t)):
                    x = P.resolve(x.strip('"'))
                    if x in P.fnmod or x in decl: self.taken.add(x)
        self.call = call
        self.back = {}
        for a, cs in call.items():
            for b in cs: self.back.setdefault(b, set()).add(a)
        allfn = set(P.fnmod) | decl
        self.target = {k: {n for n in allfn if kind_of(n, n in P.fnmod) == k} for k in PERM}
        self.R = {}
        for k in PERM:
            seen, work = set(self.target[k]), list(self.target[k])
            while work:
                x = work.pop()
                for y in self.back.get(x, ()):
                    if y in seen or names.qname(y).base in TRUSTED[k]: continue
                    seen.add(y); work.append(y)
            self.R[k] = seen
    def closure(self, roots, k):
        seen, work = set(), [r for r in roots]
        while work:
            x = work.pop()
            if x in seen or names.qname(x).base in TRUSTED[k]: continue
            seen.add(x); work += self.call.get(x, ())
        return seen
def reach(ctx):
    if not hasattr(ctx.P, '_reach'): ctx.P._reach = Reach(ctx.P)
    return ctx.P._reach
def bound(st, v):
    """the functions a semantic was made of"""
    r = {v.invoke}
    todo = [v.obj]; seen = set(); virt = False
    for o in todo:
        if o in seen: continue
        seen.add(o)
        for x in st.mem.get(o, {}).values() if isinstance(st.mem.get(o), dict) else ():
            if isinstance(x, FnPtr): r.add(x.name)
            elif isinstance(x, FnVal): r.add(x.invoke); todo.append(x.obj)
    return r
def guard(w, k, R):
    """the precondition of everything this permission covers"""
    ex = w.ex
    for n in R.target[k]:
        b = names.qname(n).base
        def f(ex_, st, a, ci, b=b, n=n):
            if ci.name not in R.target[k]: return NotImplemented
            ex_.oblige(st, ne(st.get(w.uni, w.cfg[k]), 0, 8), 'permission %s for %s' % (k, b))
            raise Unsupported('%s with the permission' % b)
        ex.contracts[b] = f
def off(w, st, k): st.put(w.uni, w.cfg[k], 0)
class Gate(FnUnit):
    """nothing a program executes in this world uses the permission `k` when it is not given"""
    def __init__(self, k, key):
        self.k, self.key = k, key
        self.name = 'permission %s [%dD std %d]' % (k, *key); self.weight = 3.0; self._cases = None; self.thorough_only = False
    def run(self, ctx, arg):
        w = ctx.world(self.key); ex = w.fresh_exec(); R = reach(ctx); k = self.k
        r = unit.UnitResult(self.name)
        ex.unit = self.name
        t0 = unit.time.time()
        covered = set(R.target[k])
        r.paths = 0
        try:
            guard(w, k, R)
            m = w.st0.get(*semloc(w))
            for key, node in sorted(m.d.items()):
                s = w.st0.get(node, 0)
                f = w.st0.get(s.at(sub(s.size(), 1)).obj, 0)
                if not isinstance(f, FnVal): raise Unsupported('meaning of %d' % key)
                roots = bound(w.st0, f)
                if not (R.closure(roots, k) & R.target[k]):
                    ex.stack = [self.name]
                    ex.oblige(w.st0.copy(), True, 'instruction %d calls nothing that needs it' % key); continue
                covered |= roots
                self.one(w, ex, r, 'instruction %d' % key, lambda st: w.execute(st, key))
            if self.key == (2, 98):
                for fp in DOC:
                    cls = 'Funge::Fingerprint' + {'FPDP': 'Float', 'FPSP': 'Float'}.get(fp, fp)
                    es = [n for n in w.prog.fnmod if 'execute' in n and names.qname(n).base == cls + '::execute']
                    if not es: raise Unsupported('no %s::execute' % cls)
                    for e in es:
                        covered.add(e)
                        ex.stack = [self.name]
                        if not (R.closure([e], k) & R.target[k]): ex.oblige(w.st0.copy(), True, '%s::execute calls nothing that needs it' % cls); continue
                        w2 = ctx.world((2, 98, (fp,))); ex2 = w2.fresh_exec(); ex2.unit = self.name; guard(w2, k, R)
                        o = G.fpobj(w2, w2.st0, fp)
                        self.one(w2, ex2, r, '%s' % fp, lambda st: ex2.call(st, e, [o, z3.BitVec('instr', 64)]))
                        ex.obls += ex2.obls
                for e in sorted(R.R[k] & R.taken):
                    b = names.qname(e)
                    if e in covered or any(names.qname(c).base == b.base for c in covered) or b.base in OTHERS: continue
                    if b.base.startswith('std::') and '_M_invoke' in b.base: continue       # what is inside is bound, so looked at as an instruction
                    if b.base.startswith('Funge::Starfish') or b.base.startswith('Funge::Fish'): continue      # looked at in their own world
                    if re.search(r'::clone$', b.base) or b.last.startswith('~'): continue
                    raise Unsupported('%s can use the permission and is not an instruction' % b.full)
        except (Unsupported, Timeout) as e: r.status = 'unsupported'; r.reason = '%s: %s' % (type(e).__name__, e)
        except (KeyError, AttributeError, TypeError, AssertionError, z3.Z3Exception, IndexError, ValueError) as e:
            r.status = 'unsupported'; r.reason = 'engine: %s: %s' % (type(e).__name__, e); r.tb = unit.traceback.format_exc()
        r.obls = ex.obls
        bad = [o for o in r.obls if not o.ok]
        if r.status is None or bad: r.status = 'failed' if bad else 'proved'
        r.time = unit.time.time()-t0
        return r
    def one(self, w, ex, r, what, call):
        st = w.st0.copy(); off(w, st, self.k)
        ex.stack = [self.name + ': ' + what]
        outs = call(st)
        r.paths += len(outs)
        ex.stack = [self.name]
        ex.oblige(w.st0.copy(), True, '%s keeps to the permission on %d paths' % (what, len(outs)))
# the interpreter starting up and its own threads
OTHERS = ('main',)
SK = (('execute', 0), ('filesystem', 0), ('concurrent', 0), ('fingerprint', 0))
def gate_units(): return [Gate(k, key) for k in PERM for key in ((2, 98), (1, 98), (3, 98), (2, 93), (2, -1), (2, -2)) if not (k == 'fingerprint' and key[1] < 98)]
def denied(k, err, switch=None):
    def f(S):
        if switch and S(S.ismode(0x10000)): S.store(S.pos, ord(switch))
        return err
    return f
def isoff(k): return lambda S: not_(S.flag(k))
def filecase(rng, c):
    """operands that would work"""
    s = c['stacks'][-1-c.get('sel', 0)]
    if rng.random() < .8:
        c['smode'] = 0
        nm = rng.choice(['f1', 'f2', 'd1'])
        s.extend([rng.randint(0, 4) for _ in range(2*c['dims'])] + [rng.choice([0, 1]), 0] + [ord(x) for x in nm[::-1]])
        c['files'] = {'f1': b'ab\ncd\n'}; c['reads'] = ['f1', 'f2']
def cmdcase(rng, c):
    s = c['stacks'][-1-c.get('sel', 0)]
    if rng.random() < .8:
        c['smode'] = 0
        s.extend([0] + [ord(x) for x in rng.choice(['true', 'x', 'echo 1', ''])[::-1]])
    c['sysret'] = rng.choice([0, 1, 256])
def denied_units():
    r = []
    def D(name, ch, k, err, edit=None, switch=None, worlds=((2, 98),), tw=((1, 98), (3, 98)), fp=None, **kw):
        h = dict(flags={k: False})
        if edit: h['edit'] = edit
        if fp: h['load'] = [fp]
        r.append(Instr(name + ' denied', ch, denied(k, err, switch), requires=isoff(k), hint=h, worlds=worlds, thorough_worlds=() if fp or worlds[0][1] < 0 else tw, setup=(fp,) if fp else None, **kw))
    from .world import NOTAVAIL, UNSPEC
    D('=', '=', 'execute', NOTAVAIL, cmdcase)
    D('i', 'i', 'filesystem', NOTAVAIL, filecase); D('o', 'o', 'filesystem', NOTAVAIL, filecase)
    D('t', 't', 'concurrent', NOTAVAIL)
    D('(', '(', 'fingerprint', NOTAVAIL, switch=')'); D(')', ')', 'fingerprint', NOTAVAIL, switch='(')
    D('PERL E', 'E', 'execute', UNSPEC, cmdcase, fp='PERL'); D('PERL I', 'I', 'execute', UNSPEC, cmdcase, fp='PERL')
    for c in 'CMR': D('DIRF ' + c, c, 'filesystem', NOTAVAIL, filecase, fp='DIRF')
    D('Starfish F', 'F', 'filesystem', NOTAVAIL, filecase, worlds=((2, -2),))
    return r
