"""Record layouts of the repository's classes, as computed by the compiler from the current headers."""
import re, os, subprocess
MEM = re.compile(r'^\s*(\d+) \|   (\S.*)$')
HEAD = re.compile(r'^\s*0 \| (?:class|struct|union) (\S.*?)(?: \(empty\))?$')
def source(repo):
    inc, cls = [], []
    for d in ('src/include', 'src/util/include', 'src/fingerprint/include'):
        for f in sorted(os.listdir(os.path.join(repo, d))):
            if not f.endswith('.h') or f == 'FingerprintLONG.h': continue
            inc.append('#include "%s"' % f)
            t = open(os.path.join(repo, d, f)).read()
            if d == 'src/util/include': continue
            for m in re.finditer(r'(?m)^(template\s*<[^>]*>\s*)?class (\w+)[^;{]*\{', t):
                if m.group(1): continue
                cls.append(m.group(2))
    return '\n'.join(inc) + '\n' + '\n'.join('int sz_%s[sizeof(Funge::%s)];' % (c, c) for c in cls) + '\n'
class Layouts:
    def __init__(self, text):
        self.cls = {}
        self.size = {}
        cur = None
        for l in text.split('\n'):
            m = HEAD.match(l)
            if m:
                n = m.group(1)
                cur = [] if n.startswith('Funge::') else None
                if cur is not None: self.cls[n] = cur
                name = n
                continue
            if cur is None: continue
            m = MEM.match(l)
            if m:
                d = m.group(2)
                if d.startswith(('class ', 'struct ', 'union ', 'enum ')): d = d.split(' ', 1)[1]
                b = re.match(r'(.*) \((primary )?base\)$', d)
                if b: cur.append((int(m.group(1)), b.group(1), '<base>'))
                else:
                    mm = re.match(r'(.*?)(\w+)$', d)
                    if mm: cur.append((int(m.group(1)), mm.group(1).strip(), mm.group(2)))
                continue
            m = re.match(r'^\s*\| \[sizeof=(\d+)', l)
            if m: self.size[name] = int(m.group(1)); cur = None
    def members(self, c):
        r = []
        for o, t, n in self.cls[c]:
            if n == '<base>': r += [(o+o2, t2, n2) for o2, t2, n2 in self.members(t) if n2 != '<base>']
            else: r.append((o, t, n))
        return r
    def off(self, c, name):
        """byte offset of a (possibly nested a.b) member"""
        base = 0
        for part in name.split('.'):
            for o, t, n in self.members(c):
                if n == part: base += o; c = t; break
            else: raise KeyError('%s has no member %s' % (c, part))
        return base
    def bytype(self, c, pred):
        r = [(o, t, n) for o, t, n in self.members(c) if pred(t)]
        if len(r) != 1: raise KeyError('%s: member not unique' % c)
        return r[0][0]
