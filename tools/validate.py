import json,jsonschema,os,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids=[]
for l in open(V+'/properties.jsonl'):
    d=json.loads(l); jsonschema.validate(d,s); ids.append(d['id'])
    if len(d['title'])>80: print('title',d['id'],len(d['title']))
    if d['statement'].count('. ')+1>3: print('stmt',d['id'])
if os.path.exists(V+'/MANIFEST.json'):
    m=json.load(open(V+'/MANIFEST.json')); jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
    got=[c['property'] for c in m['checks']]+[n['property'] for n in m.get('not_applicable',[])]
    print('unlisted',set(ids)-set(got),'unknown',set(got)-set(ids),'dup',len(got)-len(set(got)))
    es=json.load(open('/root/.vp/EVIDENCE.schema.json'))
    for c in m['checks']:
        p=V+'/evidence/%s.json'%c['property']
        if os.path.exists(p): jsonschema.validate(json.load(open(p)),es)
print('ok',len(ids))
