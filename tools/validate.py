import json,jsonschema,glob
jsonschema.validate(json.load(open('/verif/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'): jsonschema.validate(json.loads(l),s)
for p in glob.glob('/verif/evidence/P*.json'):
    jsonschema.validate(json.load(open(p)),json.load(open('/root/.vp/EVIDENCE.schema.json')))
print("valid")
