import json,jsonschema,os
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'):
    d=json.loads(l)
    for e in jsonschema.Draft202012Validator(s).iter_errors(d): print(d['id'],e.message[:150])
    n=d['statement'].count('. ')+1
    if n>3: print(d['id'],n)
if os.path.exists('/verif/MANIFEST.json'):
    jsonschema.validate(json.load(open('/verif/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
