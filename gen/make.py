import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NA
V = os.path.dirname(here)
with open(os.path.join(V, 'properties.jsonl'), 'w') as fh:
    for p in sorted(PROPS + NA, key=lambda p: p['id']):
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}
        if p.get('observe'):
            d['anchors']['observe_at'] = p['observe']
        assert len(p['title']) <= 80, p['id']
        for f in p['files']:
            assert os.path.exists('/repo/' + f), f
        for _, f in p['mech']:
            assert os.path.exists('/repo/' + f.split(':')[0]), f
        fh.write(json.dumps(d) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 gen/setup.py',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'], 'thorough_cmd': 'python3 check.py %s' % p['id'],
                 'technique': p['technique'], 'level': 'other', 'level_note': p['note']} for p in sorted(PROPS, key=lambda p: p['id'])],
     'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in sorted(NA, key=lambda p: p['id'])],
     'notes': 'Static analysis only: a rustc_private driver dumps the MIR of /repo; the rules in props/ decide it. No hooks in /repo.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(PROPS), 'checks', len(NA), 'n/a')
