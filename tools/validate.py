"""Validates properties.jsonl, MANIFEST.json and evidence against the schemas."""
import json, glob, jsonschema, os
R='/root/.vp/'
s=json.load(open(R+'PROPERTIES.schema.json')); ids=set()
for l in open('/verif/properties.jsonl'):
    p=json.loads(l); jsonschema.validate(p,s); ids.add(p['id'])
    assert p['statement'].count('. ')+1<=3, p['id']
if os.path.exists('/verif/MANIFEST.json'):
    m=json.load(open('/verif/MANIFEST.json')); jsonschema.validate(m,json.load(open(R+'MANIFEST.schema.json')))
    c={x['property'] for x in m['checks']}; n={x['property'] for x in m.get('not_applicable',[])}
    assert c|n==ids and not c&n, (ids-c-n, (c|n)-ids, c&n)
for f in glob.glob('/verif/evidence/*.json'):
    jsonschema.validate(json.load(open(f)), json.load(open(R+'EVIDENCE.schema.json')))
print('ok',len(ids))
