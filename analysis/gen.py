"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from propdefs.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from propdefs import P, NA, FIRST
P.sort(key=lambda p: FIRST.index(p['id']) if p['id'] in FIRST else len(FIRST))
root = os.path.dirname(here)
with open(os.path.join(root, 'properties.jsonl'), 'w') as fh:
    for p in P:
        a = {'files': p['files'], 'mechanism': p['mech'], 'observe_at': p['observe'], 'hook_needed': False}
        if p['state']:
            a['state'] = p['state']
        fh.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                             'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
na = {x['property'] for x in NA}
m = {'version': 1, 'setup_cmd': 'bash analysis/tool/build.sh analysis/tool/astx',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3 analysis/check.py %s quick' % p['id'],
                 'thorough_cmd': 'python3 analysis/check.py %s thorough' % p['id'], 'evidence_file': 'evidence/%s.json' % p['id'],
                 'technique': 'static analysis: ' + p['technique'], 'level': 'other', 'level_note': p['note']} for p in P if p['id'] not in na],
     'not_applicable': NA,
     'notes': 'Static analysis only. The sources under /repo/src are parsed by a clang front end on every run; nothing of them is executed.'}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(root, 'MANIFEST.json'), 'a').write('\n')
try:
    import jsonschema
    for l in open(os.path.join(root, 'properties.jsonl')):
        jsonschema.validate(json.loads(l), json.load(open('/root/.vp/PROPERTIES.schema.json')))
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
except ImportError:
    pass
for p in P:
    assert len(p['title']) <= 80, p['title']
print(len(P), 'properties')
