"""Writes /verif/MANIFEST.json from the check modules present."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {}
notes = json.load(open(os.path.join(V, 'tools', 'level_notes.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'vt', 'checks', i + '.py')) and i in notes:
        checks.append({'property': i, 'quick_cmd': './run.sh %s --tier quick' % i,
                       'thorough_cmd': './run.sh %s --tier thorough' % i,
                       'technique': 'property-based testing (Hypothesis generators, shrinking) against ' + notes[i][0],
                       'level': 'exploration', 'level_note': notes[i][1], 'evidence_file': 'evidence/%s.json' % i})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
