"""setup_cmd: the tools the checks use are present."""
import subprocess, sys
def main():
    import z3
    s = z3.Solver(); x = z3.BitVec('x', 64); s.add(x+1 == x)
    assert s.check() == z3.unsat
    for c in (['clang++', '--version'], ['g++', '--version'], ['cvc5', '--version'], ['c++filt', '--version']):
        r = subprocess.run(c, capture_output=True, text=True); assert r.returncode == 0, c
        print(r.stdout.split('\n')[0])
    return 0
if __name__ == '__main__': sys.exit(main())
