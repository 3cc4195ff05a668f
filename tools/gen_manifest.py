"""Regenerate MANIFEST.json: one check per property that has a module mc/pNN.py."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, 'tools', 'notes.json')))
NA = json.load(open(os.path.join(V, 'tools', 'not_applicable.json')))
checks = []
na = []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    if os.path.exists(os.path.join(V, 'mc', i.lower() + '.py')) and i in NOTES:
        n = NOTES[i]
        checks.append({'property': i, 'quick_cmd': './check %s --tier quick' % i,
                       'thorough_cmd': './check %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': n['technique'], 'level': 'model_checking', 'level_note': n['note']})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no exploration built yet')})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the explorations drive the public interfaces of the unmodified code.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
