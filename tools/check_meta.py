import json, jsonschema, glob
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'):
    d=json.loads(l); jsonschema.validate(d,s)
    import re
    n=len(re.findall(r'[.!?](?:\s|$)', d['statement']))
    if n>3: print(d['id'],'sentences',n)
jsonschema.validate(json.load(open('/verif/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
for f in glob.glob('/verif/evidence/*.json'): jsonschema.validate(json.load(open(f)),json.load(open('/root/.vp/EVIDENCE.schema.json')))
print('ok')
