"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tools.table import PROPS, NA
def A(files, mech, observe=()):
    return {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': list(observe), 'hook_needed': None}
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['forall']},
                            'why_tests_cant': p['why'], 'anchors': A(p['files'], p['mech'], p.get('observe', ()))}) + '\n')
na = dict(NA)
checks = []
for p in PROPS:
    if p['id'] in na: continue
    checks.append({'property': p['id'], 'quick_cmd': 'python3-vt -m fv.check %s' % p['id'], 'thorough_cmd': 'python3-vt -m fv.check %s --tier thorough' % p['id'],
                   'technique': 'contract-based deductive verification of the LLVM IR of the real code (path-wise VCs, inductive loop invariants, z3/cvc5)', 'level': 'proof', 'level_note': p['note']})
m = {'version': 1, 'setup_cmd': 'python3-vt -m fv.selftest', 'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in NA],
     'notes': 'No hooks in /repo: the verifier reads the IR clang produces from the unmodified sources. See DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    sc = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in open(os.path.join(V, 'properties.jsonl')): jsonschema.validate(json.loads(l), sc)
    print('valid', len(checks), 'checks')
except ImportError: pass
