#!/bin/bash
python3-vt - <<'P'
import json,jsonschema,glob
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'): jsonschema.validate(json.loads(l),s)
jsonschema.validate(json.load(open('/verif/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
for i in glob.glob('/verif/evidence/*.json'):
    jsonschema.validate(json.load(open(i)),json.load(open('/root/.vp/EVIDENCE.schema.json')))
print("valid")
P
