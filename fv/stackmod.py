"""Spec functions for Funge stacks: closed forms on the abstract state (deque, mode)."""
from .term import *
INVERT, QUEUE = 0x4000, 0x8000
def isq(m): return ne(band(m, QUEUE, 32), 0, 32)
def isi(m): return ne(band(m, INVERT, 32), 0, 32)
def popval(s, mode, j):
    """value delivered by the (j+1)-th pop"""
    q = isq(mode)
    v = ite(q, s.arr.rd(add(s.lo, j)), s.arr.rd(sub(sub(s.hi, 1), j)))
    return ite(slt(j, s.size()), v, 0)
def popn(s, mode, n):
    """after n >= 0 pops"""
    q = isq(mode)
    k = ite(slt(n, s.size()), n, s.size())
    return Seq(s.arr, ite(q, add(s.lo, k), s.lo), ite(q, s.hi, sub(s.hi, k)), s.ek)
def pop(s, mode):
    return popval(s, mode, 0), popn(s, mode, 1)
def push(s, mode, v):
    i = isi(mode)
    if isinstance(i, bool): return s.push_front(v) if i else s.push_back(v)
    p = ite(i, sub(s.lo, 1), s.hi)
    return Seq(s.arr.store(p, v), ite(i, sub(s.lo, 1), s.lo), ite(i, s.hi, add(s.hi, 1)), s.ek)
def pushseq(s, mode, n, f):
    """after pushing f(0) .. f(n-1)"""
    i = isi(mode)
    a, lo, hi = s.arr, s.lo, s.hi
    def rd(k):
        j = ite(i, sub(sub(lo, 1), k), sub(k, hi))
        return ite(and_(sle(0, j), slt(j, n)), f(j), a.rd(k))
    return Seq(ALam(rd), ite(i, sub(lo, n), lo), ite(i, hi, add(hi, n)), s.ek)
def get(s, mode, p):
    """value at position p (1 = next popped); 0 outside"""
    return ite(and_(ule(p, s.size()), ne(p, 0)), ite(isq(mode), s.arr.rd(sub(add(s.lo, p), 1)), s.arr.rd(sub(s.hi, p))), 0)
