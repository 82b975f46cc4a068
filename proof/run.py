#!/usr/bin/env python3
"""developer tool: run.py <module> [function-regex]: proves the functions of proof/<module>.py and prints what is left"""
import sys, re, os, shutil, importlib.util
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0]=[V+'/lib',V+'/proof']
import c2why, prove, native
m=importlib.import_module(sys.argv[1]); pat=re.compile(sys.argv[2] if len(sys.argv)>2 else '.')
work='/tmp/w3/run-'+sys.argv[1]; shutil.rmtree(work,ignore_errors=True); os.makedirs(work)
plan=prove.PLAN if '--long' in sys.argv else prove.QUICK
for ud in m.units():
    tu=c2why.TU((native.REPO+'/'+ud['file'] if ud['file'][0]!='/' else ud['file']),native.DEF+ud.get('flags',['-DGSLIB_USE_NBC','-DGSLIB_USE_NAIVE_BLAS'])+['-I'+V+'/native','-I'+native.SRC])
    mods={}; trs={}
    for f in ud['specs']:
        if not pat.search(f) or ud['specs'][f].get('assumed') or ud['specs'][f].get('elsewhere'): continue
        u=c2why.Unit(tu,ud['specs'],prelude=ud.get('prelude',''),abstract=ud.get('abstract',()),extern=ud.get('extern'),realmode=ud.get('real',False),bits=ud.get('bits',False)); u.absops.update(ud.get('absops',{})); u.heapty.update(ud.get('heapty',{}))
        try: mods[f]=u.module(f); trs[f]=ud['specs'][f].get('tr',('split_vc',))
        except (c2why.Unsupported,c2why.Attach) as e: print(f,'FAILED',type(e).__name__,e)
    if '--show' in sys.argv: print('\n'.join(mods.values()))
    if '--gen' in sys.argv: continue
    prove.report(prove.prove(mods,work,plan=plan,trs=trs),'-v' in sys.argv)
