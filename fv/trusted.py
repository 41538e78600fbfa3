"""What a run relied on without proof."""
BASE = ['clang++ 18 front end (LLVM IR at -O0 of the real sources is what is verified)', 'fv.exec: the verifier (IR semantics, symbolic execution, loop rule)',
        'z3 and cvc5 (an unsat answer of either is believed)']
def base(models, cons):
    r = list(BASE)
    r.append('assumed contracts of the standard library actually used in this run: ' + ', '.join(sorted(models)))
    c = [x for x in sorted(cons)]
    r.append('contracts of functions of the repository used at call sites (proved as units of the properties named in DESIGN.md unless marked assumed there): ' + ', '.join(c))
    return r
GENERIC = ['operator new does not fail; containers hold fewer than 2^60 elements',
           'no other thread touches the runner while the instruction executes (mutexes are treated as no-ops)',
           'exceptions are not part of the model: a throwing library call on a reachable path is an open obligation',
           'Funge-space cells the instruction pointer has not visited hold arbitrary values; bounds and Lahey motion at instruction level are uninterpreted functions of the space, position and delta (their definition is property C05)']
def assumptions(pid, models, cons):
    return list(GENERIC)
