"""add_fixed.py PROP COMMIT TEXT : record a repaired defect in known_findings.json"""
import json, sys
p='/verif/known_findings.json'
d=json.load(open(p))
prop,commit,what=sys.argv[1:4]
d['findings'].append({"property":prop,"status":"fixed","commit":commit,"what":"fixed: property=%s %s %s"%(prop,commit,what)})
open(p,'w').write('{"findings": [\n '+',\n '.join(json.dumps(f) for f in d['findings'])+'\n]}\n')
