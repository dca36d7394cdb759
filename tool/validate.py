import json, jsonschema, glob
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids = []
for l in open('/verif/properties.jsonl'):
    d = json.loads(l)
    jsonschema.validate(d, s)
    ids.append(d['id'])
    n = d['statement'].count('. ') + 1
    if n > 3:
        print('too many sentences', d['id'])
m = json.load(open('/verif/MANIFEST.json'))
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
assert sorted(ids) == sorted([c['property'] for c in m['checks']] + [c['property'] for c in m['not_applicable']])
for p in glob.glob('/verif/evidence/P??.json'):
    jsonschema.validate(json.load(open(p)), json.load(open('/root/.vp/EVIDENCE.schema.json')))
print('ok', len(ids))
