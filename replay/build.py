"""Builds the replay driver against the sources of /repo's current working tree."""
import os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
def build(repo, out):
    """compile the replay driver and every source but the two that are not the interpreter itself; returns the binary or None"""
    os.makedirs(out, exist_ok=True)
    srcs = []
    for d, _, fs in os.walk(os.path.join(repo, 'src')):
        for f in sorted(fs):
            if f.endswith('.cpp') and f not in ('FingerprintLONG.cpp', 'Funge.cpp'): srcs.append(os.path.join(d, f))
    inc = ['-I' + os.path.join(repo, 'src', d) for d in ('include', 'util/include', 'fingerprint/include')]
    flags = ['-std=c++2a', '-O0', '-D_GLIBCXX_ASSERTIONS', '-w', '-pthread'] + inc
    def cc(s):
        o = os.path.join(out, os.path.relpath(s, '/').replace('/', '_') + '.o')
        if os.path.basename(s) == 'FingerprintStrategy.cpp':
            t = ''.join('\n' if 'FingerprintLONG' in l else l for l in open(s).read().splitlines(True))
            s2 = os.path.join(out, 'FingerprintStrategy.cpp'); open(s2, 'w').write(t); s = s2
        r = subprocess.run(['g++'] + flags + (['-fno-access-control'] if os.path.basename(s) == 'driver.cpp' else []) + ['-c', s, '-o', o], capture_output=True, text=True)
        return o, r.returncode, r.stderr
    with ThreadPoolExecutor(os.cpu_count()) as ex: rs = list(ex.map(cc, srcs + [os.path.join(HERE, 'driver.cpp')]))
    bad = [r for r in rs if r[1]]
    if bad: return None, bad[0][2]
    exe = os.path.join(out, 'driver')
    r = subprocess.run(['g++', '-pthread', '-Wl,--wrap=system', '-o', exe] + [r[0] for r in rs], capture_output=True, text=True)
    if r.returncode: return None, r.stderr
    return exe, ''
if __name__ == '__main__': print(build(sys.argv[1], sys.argv[2]))
