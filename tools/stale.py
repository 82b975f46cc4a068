#!/usr/bin/env python3
"""developer tool: functions whose translated text differs from the one the recorded proof (proof/baseline.json) was made for"""
import sys,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0]=[V+'/lib',V+'/proof']
import proofs
b=proofs.baseline(); n=0
for it in proofs.collect(None,tier='thorough'):
    k=proofs.key(it); n+=1
    if it.get('assumed'): continue
    if it.get('err'): print('ERR',k,it['err'][:200]); continue
    if k not in b or b[k]['hash']!=proofs.h(it['text']): print('stale',k)
print(n,'functions')
