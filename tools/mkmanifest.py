#!/usr/bin/env python3
# writes /verif/MANIFEST.json from the property list and lib/proof.py's table of what is proved
import json,os,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V+'/lib')
try: import proofs as proof
except ImportError: proof=None
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
checks=[]
for p in props:
    i=p['id']; lv=proof.level(i) if proof and proof.has(i) else 'exploration'
    tech=proof.technique(i) if proof and proof.has(i) else 'bounded stand-in: generated cases on the real code over a simulated message layer'
    note=proof.note(i) if proof and proof.has(i) else 'bounded: generated cases only, nothing proved'
    checks.append(dict(property=i,quick_cmd=f'python3 check.py {i} --tier quick',thorough_cmd=f'python3 check.py {i} --tier thorough',evidence_file=f'evidence/{i}.json',technique=tech,level=lv,level_note=note))
m=dict(version=1,setup_cmd='python3 setup.py',hooks=dict(guard='none',enable='no hooks: the checks compile the unmodified sources',source_commits=[]),checks=checks,not_applicable=[])
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
