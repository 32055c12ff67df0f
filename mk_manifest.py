"""writes MANIFEST.json from properties.jsonl (run by hand)"""
import json
T = 'contract-based deductive verification: Verus on functions extracted mechanically from /repo'
NOTE = {}
exec(open('/verif/notes.py').read())
checks = []
for l in open('/verif/properties.jsonl'):
    d = json.loads(l)
    i = d['id']
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i,
                   'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                   'technique': T, 'level': 'proof', 'level_note': NOTE[i]})
json.dump({'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': [],
           'notes': 'No hooks: everything the checks need is reachable without instrumenting /repo.'},
          open('/verif/MANIFEST.json', 'w'), indent=1)
