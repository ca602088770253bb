import json, jsonschema, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids = []
for l in open(V + '/properties.jsonl'):
    d = json.loads(l); jsonschema.validate(d, s); ids.append(d['id'])
    n = d['statement'].rstrip('.').count('. ') + 1
    if n > 3: print('too many sentences', d['id'], n)
m = json.load(open(V + '/MANIFEST.json'))
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
es = json.load(open('/root/.vp/EVIDENCE.schema.json'))
for c in m['checks']:
    p = V + '/evidence/%s.json' % c['property']
    if os.path.exists(p): jsonschema.validate(json.load(open(p)), es)
    else: print('no evidence', c['property'])
print('ok', ids)
