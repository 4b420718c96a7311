"""add_note.py ID ORACLE NOTE: level note of a check"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'level_notes.json')
d = json.load(open(p)); d[sys.argv[1]] = sys.argv[2:4]
json.dump(d, open(p, 'w'), indent=0); open(p, 'a').write('\n')
