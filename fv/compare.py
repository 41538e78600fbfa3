"""Equality of ghost values; array contents are compared at a fresh (universally quantified) index."""
from .term import *
from .exec import *
from .stl import OSeq, OMap, MIter, FnVal

def value_eq(a, b, w=64):
    """list of (condition, extra hypotheses) whose conjunction is a == b"""
    if a is b: return []
    if (isc(a) or z3.is_expr(a)) and (isc(b) or z3.is_expr(b)):
        if z3.is_bv(a): w = a.size()
        elif z3.is_bv(b): w = b.size()
        if isinstance(a, bool) or z3.is_bool(a):
            if not (isinstance(b, bool) or z3.is_bool(b)): b = ne(b, 0, w)
        elif isinstance(b, bool) or z3.is_bool(b): a = ne(a, 0, w)
        return [(eq(a, b, w), ())]
    if isinstance(a, Seq) and isinstance(b, Seq):
        k = fresh('k')
        n = a.size()
        r = [(eq(n, b.size()), ())]
        hyp = (sle(0, k), slt(k, n))
        for c, e in value_eq(a.at(k), b.at(k), a.ek if isinstance(a.ek, int) else 64):
            r.append((c, hyp + tuple(e)))
        return r
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.obj != b.obj: return [(False, ())]
        r = []
        if isinstance(a.off, SymOff) or isinstance(b.off, SymOff):
            ao = add(mul(a.off.idx, a.off.esz), a.off.rem & mask(64)) if isinstance(a.off, SymOff) else a.off & mask(64)
            bo = add(mul(b.off.idx, b.off.esz), b.off.rem & mask(64)) if isinstance(b.off, SymOff) else b.off & mask(64)
            r.append((eq(ao, bo), ()))
        elif isc(a.off) and isc(b.off):
            if a.off != b.off: return [(False, ())]
        else: r.append((eq(a.off, b.off), ()))
        if a.idx is not None or b.idx is not None:
            if a.idx is None or b.idx is None: return [(False, ())]
            r.append((eq(a.idx, b.idx), ()))
        return r
    if isinstance(a, IterVal) and isinstance(b, IterVal):
        if a.cont != b.cont or a.rev != b.rev: return [(False, ())]
        return [(eq(a.pos, b.pos), ())]
    if isinstance(a, EPtr) and isinstance(b, EPtr):
        return [(eq(a.pos, b.pos) if a.cont == b.cont else False, ())]
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == 3 and len(b) == 3 and isinstance(a[1], Arr):
        k = fresh('k')
        return [(eq(a[2], b[2]), ()), (eq(a[1].rd(k), b[1].rd(k), a[0]*8), (sle(0, k), slt(k, a[2])))]
    if isinstance(a, Arr) and isinstance(b, Arr):
        k = fresh('k')
        return [(c, e) for c, e in value_eq(a.rd(k), b.rd(k))]
    if isinstance(a, FpTerm) or isinstance(b, FpTerm) or isinstance(a, float) or isinstance(b, float):
        if isinstance(a, FpTerm) and isinstance(b, FpTerm): return [(a.key() == b.key(), ())]
        return [(a == b, ())]
    if isinstance(a, FnPtr) and isinstance(b, FnPtr): return [(a.name == b.name, ())]
    if isinstance(a, OSeq) and isinstance(b, OSeq):
        return [(a.items == b.items, ())]
    if hasattr(a, 'value_eq'): return a.value_eq(b)
    if isinstance(a, str) or isinstance(b, str): return [(a == b, ())]
    raise Unsupported('comparison of %r and %r' % (a, b))
