"""sync_fixed.py PROP: record every fix: commit of /repo that known_findings.json does not mention yet under PROP"""
import json, subprocess, sys
p = '/verif/known_findings.json'
d = json.load(open(p))
have = set(f.get('commit') for f in d['findings'])
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s']).decode().splitlines()
rng = sys.argv[2:]  # optional substrings that select commits
for l in log:
    h, s = l.split(' ', 1)
    if not s.startswith('fix:') or any(h.startswith(x[:7]) or x.startswith(h[:7]) for x in have if x):
        continue
    if rng and not any(x in s for x in rng):
        continue
    w = s[5:]
    d['findings'].append({"property": sys.argv[1], "status": "fixed", "commit": h, "what": "fixed: property=%s %s %s" % (sys.argv[1], h, w)})
    print(h, w)
open(p, 'w').write('{"findings": [\n ' + ',\n '.join(json.dumps(f) for f in d['findings']) + '\n]}\n')
