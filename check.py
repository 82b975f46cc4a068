#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decides one property against /repo's current tree.
exit 0: held on everything explored and proved; exit 1: VIOLATION line."""
import sys, os, json, time, tempfile, shutil, traceback
V=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,V+'/lib')
import native
try: import proofs as proof
except ImportError: proof=None
def known(pid):
    out=[]
    for l in open(V+'/known_findings.txt'):
        l=l.strip()
        if l.startswith('known: property='+pid+' '): out.append(l.split(' ',2)[2])
    return out
def main():
    pid=sys.argv[1]; tier=os.environ.get('VERIF_TIER','quick'); seed=int(os.environ.get('VERIF_SEED','1'))
    if '--tier' in sys.argv: tier=sys.argv[sys.argv.index('--tier')+1]
    t0=time.time(); ev=dict(property=pid,tier=tier,seed=seed,level='exploration',coverage={},assumptions=[],violations=0)
    work=tempfile.mkdtemp(prefix='verif-'); viol=[]; notes=[]; broken=False
    rdir=V+'/evidence/replay'; os.makedirs(rdir,exist_ok=True)
    try:
        pr=proof.start(pid,tier,work) if proof and proof.has(pid) else None
        stats={}; cov=ev['coverage']; fail=None
        budget={'quick':12,'thorough':240}[tier]
        if os.environ.get('VERIF_TIME'): budget=float(os.environ['VERIF_TIME'])
        for cfg,share in native.CFGS.get(pid,[('nbc',1.0)]):
            try: sim,so=native.build(pid,work,cfg)
            except native.BuildError as e: notes.append(f'{cfg}: the harness could not be built: {e}'); continue
            st,fl,nt=native.explore(pid,sim,so,seed,tier,budget*share,salt=len(stats))
            notes+=nt
            for k,v in st.items(): stats[k]=stats.get(k,0)+v
            if fl and not fail: fail=dict(fl,cfg=cfg)
            if fail: break
        kf=[]
        for k in known(pid):
            print(f'KNOWN-FINDING: property={pid} {k}')
        if fail:
            p=f'{rdir}/{pid}-native.json'; json.dump(dict(property=pid,kind='native',cfg=fail['cfg'],mode=fail['mode'],replay_args=[str(a) for a in fail['replay_args']],message=fail['msg'],failure=fail['kind'],output=fail['out'],stderr=fail['err'],how='python3 /verif/replay.py '+p),open(p,'w'),indent=1)
            viol.append((p,'',fail['kind']+': '+fail['msg']))
        if pr:
            res=proof.finish(pr,bool(fail))
            cov.update(res['coverage']); ev['assumptions']+=res['assumptions']; notes+=res['notes']
            for v in res['violations']:
                p=f'{rdir}/{pid}-proof.json'; json.dump(dict(property=pid,kind='proof',**v),open(p,'w'),indent=1)
                if not fail: viol.append((p,' no-failing-input-found',v.get('obligation','')))
            ev['level']=proof.level(pid)
        n=stats.pop('cases',0)
        if not n and not fail: broken=True
        dn,smp=native.seen(work)
        cov.update(evaluations=n,distinct_nontrivial=dn,rule=native.rule(pid),
                   counters=stats,samples=smp,bounded=native.BOUND.get(pid,''))
        ev['assumptions']+=native.ASSUME
    except Exception as e:
        broken=True; notes.append('internal error of the check: '+traceback.format_exc()[-3000:])
        ev['coverage'].setdefault('explanation','the check could not be completed; see notes')
    finally: shutil.rmtree(work,ignore_errors=True)
    ev['coverage']['notes']=notes[:40]; ev['violations']=len(viol); ev['wall_s']=round(time.time()-t0,2)
    json.dump(ev,open(f'{V}/evidence/{pid}.json','w'),indent=1)
    for n in notes[:8]: print('note:',n[:600])
    print(f'{pid}: {json.dumps({k:v for k,v in ev["coverage"].items() if k in ("obligations","discharged","evaluations","solver_s")})} in {ev["wall_s"]} s')
    for p,sfx,m in viol[:1]:
        print(m[:500]); print(f'VIOLATION property={pid} replay={p}{sfx}')
    sys.exit(1 if viol else 2 if broken else 0)
main()
