import json,sys,os
T=os.path.dirname(os.path.abspath(__file__))
exec(open(T+'/mkprops.py').read())
exec(open(T+'/mkna.py').read())
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
NA=set(na)
NOTE={}
exec(open(T+'/notes.py').read())
checks=[]
for x in P:
    i=x['id']
    if i in NA: continue
    checks.append(dict(property=i,quick_cmd=f'/opt/venv/bin/python -B dst/run.py check {i}',
        thorough_cmd=f'VERIF_TIER=thorough /opt/venv/bin/python -B dst/run.py check {i}',
        evidence_file=f'evidence/{i}.json',
        technique='deterministic simulation with fault injection: '+TECH[i],
        level='exploration',level_note=NOTE.get(i,'')+COMMON))
json.dump(dict(version=1,setup_cmd='mkdir -p evidence replays && /opt/venv/bin/python -B -c "import dst.model"',checks=checks,
   not_applicable=[dict(property=k,reason=v) for k,v in na.items()],
   notes='One simulator (dst/) decides every property; see DESIGN.md. No hooks in /repo: the seams are the stream arguments, the socket/time modules, open(), threading locks and CPython trace and monitoring events.'),
   open('/verif/MANIFEST.json','w'),indent=1)
import jsonschema
jsonschema.validate(json.load(open('/verif/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,sch); assert len(x['title'])<=80
    assert x['statement'].count('. ')<=2,(x['id'],x['statement'].count('. '))
import os
for c in checks: assert os.path.exists('/verif/dst/props/%s.py'%c['property'].lower()),c
print(len(checks),'checks',len(na),'na')
