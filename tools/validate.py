"""python3-vt tools/validate.py: schema validation of the committed description files and of the evidence present"""
import json, jsonschema, glob
m = json.load(open('/verif/MANIFEST.json')); jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
s = json.load(open('/root/.vp/PROPERTIES.schema.json')); L = [json.loads(l) for l in open('/verif/properties.jsonl')]
for l in L: jsonschema.validate(l, s); assert len(l['title']) <= 80, l['title']
e = json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob('/verif/evidence/*.json'): jsonschema.validate(json.load(open(f)), e)
print('valid:', len(L), 'properties', sorted(m), m.get('not_applicable'))
