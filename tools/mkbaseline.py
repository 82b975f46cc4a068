#!/usr/bin/env python3
"""mkbaseline.py [module-regex] [function-regex]: proves the functions under contract on the current tree and records the result in proof/baseline.json"""
import sys, os, json, re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V+'/lib')
import proofs, prove
pat=sys.argv[1] if len(sys.argv)>1 else None; fp=sys.argv[2] if len(sys.argv)>2 else '.'
base=proofs.baseline(); items=proofs.collect(None,pat); items=[i for i in items if re.search(fp,i['fn'])]
proofs.run(items,'/tmp/w3/base',base,prove.PLAN,vac=True)
tot=ok=0
for it in items:
    k=proofs.key(it)
    if it.get('assumed'): continue
    if 'goals' not in it or it.get('err'): print(k,'ERROR',it.get('err')); base.pop(k,None); continue
    gs=it['goals']; bad=[g for g in gs if g['status']!='proved']; tot+=len(gs); ok+=len(gs)-len(bad)
    if it['vacuous']: print(k,'VACUOUS CONTRACT')
    hints={prove.ghash(g):g['by'] for g in gs if g['status']=='proved' and (g['by']!='z3' or g['s']>1.5)}
    base[k]=dict(hash=proofs.h(it['text']),obligations=len(gs),unproved=[prove.label(g) for g in bad],by=hints,s=round(sum(g['s'] for g in gs),1))
    print(k,f'{len(gs)-len(bad)}/{len(gs)}',base[k]['s'],'s',[b for b in base[k]['unproved']][:3])
json.dump(base,open(proofs.BASE,'w'),indent=0,sort_keys=True)
print(ok,'of',tot)
