#!/usr/bin/env python3
"""fixed.py PROPERTY COMMIT KEY WHAT: record a repaired defect."""
import json,sys
p='/verif/known_findings.json'
d=json.load(open(p))
prop,commit,key,what=sys.argv[1:]
d['Findings'].append(dict(property=prop,status='fixed',key=key,commit=commit,what=what))
d['Findings'].sort(key=lambda f:(f['property'],f['status']))
json.dump(d,open(p,'w'),indent=1,ensure_ascii=False); open(p,'a').write('\n')
