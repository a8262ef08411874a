#!/usr/bin/env python3
import sys, os, json
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'meta'))
import props
with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for p in props.P:
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        if p['state']:
            a['state'] = p['state']
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['quant']},
                            'why_tests_cant': p['why'], 'anchors': a}) + '\n')
checks, na = [], []
for p in props.P:
    if p['na']:
        na.append({'property': p['id'], 'reason': p['na']})
    elif not os.path.exists(os.path.join(H, 'specs', p['id'].lower() + '.py')):
        na.append({'property': p['id'], 'reason': 'check not built yet'})
    else:
        checks.append({'property': p['id'], 'quick_cmd': 'python3-vt check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p['id'],
                       'technique': p['technique'] or 'contract-based deductive verification (VC generation from LLVM IR of the real code, loop invariants, z3/cvc5)',
                       'level': p['level'], 'level_note': p['note']})
json.dump({'version': 1, 'setup_cmd': 'python3-vt setup.py', 'checks': checks, 'not_applicable': na}, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
try:
    import jsonschema
    jsonschema.validate(json.load(open(os.path.join(H, 'MANIFEST.json'))), json.load(open('/root/.vp/MANIFEST.schema.json')))
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in open(os.path.join(H, 'properties.jsonl')):
        jsonschema.validate(json.loads(l), s)
    print('schemas ok:', len(checks), 'checks,', len(na), 'not applicable')
except ImportError:
    print('jsonschema missing')
import subprocess
subprocess.run([sys.executable, os.path.join(H, 'meta', 'design.py')], check=True)
