"""Makes and confirms a planted bug.  usage: seed.py ID  (reads seeds.d/ID.py style dicts from stdin as JSON-less python: see mk())"""
import os, sys, json, subprocess, shutil
SW = '/tmp/sw'
R = SW + '/repo'
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def fresh():
    sh('git -C %s checkout -q -- . && git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD' % (R, R, R))
def build(): return sh('bash %s/build.sh' % SW)
def tests():
    sh('bash %s/test.sh %s/o.json' % (SW, SW))
    ok = set(json.load(open(SW + '/o.json'))['passed'])
    st = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    return sorted(st-ok)
def mk(id, prop, edits, demo, needs, breaks, extra=None, runtests=True):
    d = os.path.join(V, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    fresh()
    for f, a, b in edits:
        p = os.path.join(R, f); t = open(p).read()
        assert t.count(a) == 1, (id, f, t.count(a), a)
        open(p, 'w').write(t.replace(a, b))
    open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % R).stdout)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n' + demo.lstrip('\n'))
    for n, t in (extra or {}).items(): open(d + '/' + n, 'w').write(t)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    b = build()
    if b.returncode: print(id, 'DOES NOT BUILD', b.stdout[-1500:], b.stderr[-1500:]); return False
    r1 = subprocess.run(['bash', d + '/demo.sh'], cwd=R, capture_output=True, text=True, timeout=300)
    t = tests() if runtests else []
    fresh(); build()
    r0 = subprocess.run(['bash', d + '/demo.sh'], cwd=R, capture_output=True, text=True, timeout=300)
    good = r0.returncode == 0 and r1.returncode != 0 and not t
    print(id, 'OK' if good else 'BAD', 'demo clean %d patched %d' % (r0.returncode, r1.returncode), 'tests failing: %s' % t, '' if good else (r0.stdout+r0.stderr+r1.stdout+r1.stderr)[-800:])
    return good
# a demonstration that runs one program and compares its output
def prog(text, want, args='', name='p.b98', stdin=''):
    return '''D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
cat > "$D/%s" <<'EOF_P'
%s
EOF_P
GOT=$(printf '%%s' '%s' | timeout 20 bin/funge %s "$D/%s")
WANT='%s'
[ "$GOT" = "$WANT" ] || { echo "got: $GOT"; exit 1; }
''' % (name, text, stdin, args, name, want)
def cpp(text): return None
