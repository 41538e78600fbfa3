"""Configurations with fingerprints loaded: the real FingerprintStrategy::load is executed on the constructed runner."""
import z3
from .term import *
from .exec import *
from . import contracts as C
C.CONTRACTS['Funge::FingerprintFungeLib::factory'] = lambda ex, st, a, ci: NULL     # no .fl file has the name of a built-in fingerprint
def number(name):
    n = 0
    for ch in name.encode(): n = (n << 8)+ch
    return n
def find_finger(w, st):
    """address of the FingerprintStrategy of the runner"""
    L = w.lay
    o = L.bytype('Funge::FungeRunner', lambda t: t.startswith(('std::vector<', 'std::deque<', 'std::list<')) and 'Strategy' in t)
    q = st.get(w.runner, o)
    fo = L.bytype('Funge::Unefunge98Strategy', lambda t: t.endswith('FingerprintStrategy'))
    for k in range(q.size()):
        p = q.at(k)
        if st.sizes.get(p.obj) == L.size['Funge::Unefunge98Strategy']: return Ptr(p.obj, fo)
    raise Unsupported('no Funge-98 strategy')
def setup(names):
    def f(w, st):
        ex = w.ex
        fn = w.prog.find('Funge::FingerprintStrategy::load', 1)
        if fn is None: raise Unsupported('no FingerprintStrategy::load')
        for n in names:
            p = find_finger(w, st)
            outs = ex.call(st, fn, [p, number(n)])
            outs = [(s, v) for s, v in outs if not (v is False or v == 0 and isc(v))]
            if not outs: raise Unsupported('fingerprint %s is not loaded' % n)
            if len(outs) > 1: raise Unsupported('fingerprint %s: several outcomes' % n)
            st = outs[0][0]
        return st
    return f
def fpobj(w, st, name):
    """the fingerprint object `name` of the runner"""
    L = w.lay
    p = find_finger(w, st)
    mo = [o for o, t, n in L.members('Funge::FingerprintStrategy') if t.startswith(('std::map<', 'std::unordered_map<'))]
    if len(mo) != 1: raise Unsupported('map of fingerprints')
    m = st.get(p.obj, p.off+mo[0])
    v = st.get(m.d[number(name)], 0)
    if not isinstance(v, Ptr): raise Unsupported('fingerprint object')
    return v
def general(name, cls, **mem):
    """ghost hook of a unit: the members of the fingerprint object get arbitrary values.  mem: short name -> (type predicate, width)"""
    def f(w, st):
        o = fpobj(w, st, name)
        for k, (pred, val) in mem.items():
            off = o.off + w.lay.bytype('Funge::' + cls, pred)
            w.fpmem[k] = (o.obj, off)
            v = val(w, st) if callable(val) else val
            if z3.is_bv(v) and v.size() == 8: st.assume(z3.ULE(v, 1))      # bool
            st.put(o.obj, off, v)
    return f
