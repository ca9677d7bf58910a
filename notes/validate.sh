#!/bin/bash
cd /verif && python3 notes/gen.py && python3-vt - <<'P'
import json,jsonschema,os
M=json.load(open('/verif/MANIFEST.json')); jsonschema.validate(M,json.load(open('/root/.vp/MANIFEST.schema.json')))
sc=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'): jsonschema.validate(json.loads(l),sc)
ev=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for c in M['checks']:
    f='/verif/evidence/%s.json'%c['property']
    if os.path.exists(f): jsonschema.validate(json.load(open(f)),ev)
print('valid', len(M['checks']))
P
