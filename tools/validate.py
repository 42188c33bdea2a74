import json,jsonschema,glob,os
r=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids=set()
for l in open(r+'/properties.jsonl'):
    d=json.loads(l); jsonschema.validate(d, s); ids.add(d['id'])
if os.path.exists(r+'/MANIFEST.json'):
    m=json.load(open(r+'/MANIFEST.json')); jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
    c={x['property'] for x in m['checks']}; n={x['property'] for x in m.get('not_applicable',[])}
    assert c|n==ids and not c&n,(ids-c-n,c&n,(c|n)-ids)
e=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob(r+'/evidence/*.json'): jsonschema.validate(json.load(open(f)),e)
print('valid',len(ids))
