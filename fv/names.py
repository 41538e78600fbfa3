"""demangled-name handling"""
import re, subprocess
_cache = {}
def demangle_many(names):
    names = [n for n in names if n not in _cache]
    if not names: return
    out = subprocess.run(['c++filt'], input='\n'.join(re.sub(r'\.tu\d+$', '', n) for n in names), capture_output=True, text=True).stdout.split('\n')
    for n, d in zip(names, out): _cache[n] = d
def demangle(n):
    if n not in _cache: demangle_many([n])
    return _cache[n]

class QName:
    """base: qualified name without template arguments; cargs: template args of the innermost class (text list);
    fargs: template args of the function itself; params: parameter text list"""
    __slots__ = ('base', 'cargs', 'fargs', 'params', 'full', 'comps', 'cls', 'last')

def split_top(s, sep=','):
    r, d, cur = [], 0, ''
    i = 0
    while i < len(s):
        c = s[i]
        if c in '<([{': d += 1
        elif c in '>)]}':
            if not (c == '>' and cur.endswith('-')): d -= 1
        if c == sep and d == 0:
            r.append(cur.strip()); cur = ''
        else: cur += c
        i += 1
    if cur.strip(): r.append(cur.strip())
    return r

OPS = ['operator()', 'operator<<', 'operator>>', 'operator<=>', 'operator<=', 'operator>=', 'operator<', 'operator>', 'operator->', 'operator[]']
_q = {}
def qname(mangled):
    if mangled in _q: return _q[mangled]
    d = demangle(mangled)
    q = QName()
    q.full = d
    s = d.replace('__cxx11::', '').replace('[abi:cxx11]', '')
    # protect operators containing brackets
    for k, o in enumerate(OPS):
        s = s.replace(o, '\x01%d\x02' % k) if o != 'operator<' and o != 'operator>' else re.sub(re.escape(o) + r'(?=[(<])', '\x01%d\x02' % k, s)
    s = s.replace('\x02 <', '\x02<')
    s = s.replace('(anonymous namespace)', '_anon_')
    s = re.sub(r"\{lambda\(([^{}]*)\)#(\d+)\}", lambda m: '_lambda%s_' % m.group(2), s)
    # find parameter list: first top-level '(' scanning with <> depth
    depth = 0
    pi = None
    i = 0
    while i < len(s):
        c = s[i]
        if c == '<': depth += 1
        elif c == '>': depth -= 1
        elif c == '(' and depth == 0:
            # nested function scope like f(int)::_lambda1_::...
            dd = 0
            j = i
            while j < len(s):
                if s[j] == '(': dd += 1
                elif s[j] == ')':
                    dd -= 1
                    if dd == 0: break
                j += 1
            rest = s[j+1:]
            m = re.match(r'( const)?( &)?::', rest)
            if m:
                s = s[:i] + rest[m.end()-2:]
                continue
            pi = (i, j)
            break
        i += 1
    head = s if pi is None else s[:pi[0]]
    q.params = [] if pi is None else split_top(s[pi[0]+1:pi[1]])
    # drop return type: last top-level space-separated piece (conversion operators keep theirs)
    m = re.search(r'(.*)operator ', head)
    d2 = 0
    cut = 0
    lim = len(m.group(1)) if m else len(head)
    for k, c in enumerate(head[:lim]):
        if c in '<(': d2 += 1
        elif c in '>)': d2 -= 1
        elif c == ' ' and d2 == 0: cut = k+1
    head = head[cut:]
    comps = []
    cur = ''
    d2 = 0
    k = 0
    while k < len(head):
        c = head[k]
        if c == '<': d2 += 1
        elif c == '>': d2 -= 1
        if d2 == 0 and head[k:k+2] == '::':
            comps.append(cur); cur = ''; k += 2
            continue
        cur += c
        k += 1
    comps.append(cur)
    names, targs = [], []
    for c in comps:
        j = c.find('<')
        if j > 0:
            nm = c[:j]; ta = split_top(c[j+1:c.rindex('>')])
        else:
            nm, ta = c, []
        for kk, o in enumerate(OPS): nm = nm.replace('\x01%d\x02' % kk, o)
        names.append(nm); targs.append(ta)
    q.comps = names
    q.base = '::'.join(names)
    q.last = names[-1]
    q.cls = '::'.join(names[:-1])
    q.cargs = targs[-2] if len(targs) > 1 else []
    q.fargs = targs[-1]
    _q[mangled] = q
    return q
