#!/usr/bin/env python3-vt
import json,jsonschema,os
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'):
    p=json.loads(l); jsonschema.validate(p,s)
    if p['statement'].count('. ')>2: print('long',p['id'])
    for f in p['anchors']['files']+[m['where'] for m in p['anchors']['mechanism']]:
        if not os.path.exists('/repo/'+f): print(p['id'],f)
jsonschema.validate(json.load(open('/verif/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
print("ok")
