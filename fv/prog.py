"""Extraction: compile /repo's current sources to LLVM IR and load them."""
import os, subprocess, tempfile, shutil, re, glob
from concurrent.futures import ThreadPoolExecutor
from . import ir, names, layout

REPO = os.environ.get('FV_REPO', '/repo')
INC = ['src/fingerprint/include', 'src/util/include', 'src/include']
FLAGS = ['-std=c++2a', '-O0', '-gline-tables-only', '-fno-exceptions', '-fno-discard-value-names', '-Wno-everything', '-S', '-emit-llvm']

class ExtractError(Exception): pass

def sources():
    """every translation unit of the interpreter (third-party big integers are absent: LONG is left out, as in the build)"""
    r = []
    for d in ('src', 'src/fingerprint', 'src/util'):
        for f in sorted(glob.glob(os.path.join(REPO, d, '*.cpp'))):
            b = os.path.basename(f)
            if b in ('FingerprintLONG.cpp',): continue
            r.append(f)
    return r

def nolong(src, tmp):
    if os.path.basename(src) == 'FingerprintStrategy.cpp':
        out = os.path.join(tmp, 'FingerprintStrategy.cpp')
        with open(src) as f: t = f.read()
        t = re.sub(r'(?m)^.*FingerprintLONG.*$', '', t)
        with open(out, 'w') as f: f.write(t)
        return out
    return src

class Program:
    def __init__(self):
        self.mods = []
        self.fnmod = {}
        self.gmod = {}
        self.alias = {}
        self._fncache = {}
        self.tmp = None
        self.ntus = 0
    @staticmethod
    def build(only=None):
        p = Program()
        tmp = tempfile.mkdtemp(prefix='fv_ir_')
        try:
            srcs = sources()
            if only is not None:
                srcs = [s for s in srcs if os.path.splitext(os.path.basename(s))[0] in only]
            def one(s):
                out = os.path.join(tmp, os.path.basename(s) + '.ll')
                src = nolong(s, tmp)
                cmd = ['clang++'] + ['-I' + os.path.join(REPO, i) for i in INC] + FLAGS + [src, '-o', out]
                r = subprocess.run(cmd, capture_output=True, text=True)
                if r.returncode != 0: raise ExtractError('%s: %s' % (s, r.stderr[:2000]))
                return out
            def lay():
                src = os.path.join(tmp, 'layouts.cpp')
                with open(src, 'w') as f: f.write(layout.source(REPO))
                cmd = ['clang++'] + ['-I' + os.path.join(REPO, i) for i in INC] + ['-std=c++2a', '-Xclang', '-fdump-record-layouts', '-S', '-emit-llvm', '-O0', '-Wno-everything', src, '-o', '/dev/null']
                r = subprocess.run(cmd, capture_output=True, text=True)
                if r.returncode != 0: raise ExtractError('layouts: %s' % r.stderr[:2000])
                return layout.Layouts(r.stdout)
            with ThreadPoolExecutor(9) as ex:
                lf = ex.submit(lay)
                outs = list(ex.map(one, srcs))
                p.lay = lf.result()
            for o in outs: p.add(ir.Module(o))
            p.ntus = len(outs)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        names.demangle_many([n for m in p.mods for n in list(m.fns) + list(m.declared)])
        return p
    def add(self, m):
        self.mods.append(m)
        for n, f in m.fns.items():
            if n not in self.fnmod or 'linkonce' in self.fnmod[n]._h: self.fnmod[n] = f
        for n in m.globals:
            # prefer a defining module
            if n not in self.gmod or ' external ' in ' ' + self.gmod[n].globals[n][:60]: self.gmod[n] = m
        self.alias.update(m.aliases)
    def resolve(self, n):
        k = 0
        while n in self.alias and k < 5:
            n = self.alias[n]; k += 1
        return n
    def is_fn(self, n):
        n = self.resolve(n)
        return n in self.fnmod or any(n in m.declared for m in self.mods)
    def fn(self, n):
        return self.fnmod.get(self.resolve(n))
    def global_mod(self, n): return self.gmod.get(n)
    def by_base(self, base, params=None):
        r = []
        for n in self.fnmod:
            q = names.qname(n)
            if q.base == base and (params is None or q.params == params): r.append(n)
        return r
    def find(self, base, nparams=None, match=None):
        """mangled name of the unique function with this qualified name"""
        c = []
        for n in self.fnmod:
            if base.split('::')[-1].replace('~', 'D')[:3] not in n and not base.split('::')[-1].startswith('operator') and '~' not in base: continue
            q = names.qname(n)
            if q.base == base and (nparams is None or len(q.params) == nparams) and (match is None or match(q)):
                # complete-object / base-object constructor twins share a body
                c.append(n)
        if not c: return None
        c.sort(key=lambda n: ('C1E' in n or 'D1E' in n or 'D0E' in n, n))
        return c[0]
    def sizeof_class(self, cname):
        for pre in ('class.', 'struct.'):
            k = '%"' + pre + cname + '"'
            for m in self.mods:
                if k in m.types: return m.sizeof(('named', k))
        return None
