"""Deductive layer: for each property the functions under contract, translated from /repo's current sources on every run,
their obligations discharged by z3/cvc5; compares with proof/baseline.json to tell a proof that is merely hard from one that a change broke."""
import os, sys, json, time, hashlib, importlib, re, shutil
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0]=[V+'/proof']
import native, c2why, prove
BASE=V+'/proof/baseline.json'
# property -> proof modules with contracts it depends on
MODS=json.load(open(V+'/proof/modules.json'))
FLAGS=['-DGSLIB_USE_NBC','-DGSLIB_USE_NAIVE_BLAS']
def has(pid): return bool(MODS.get(pid))
def baseline():
    try: return json.load(open(BASE))
    except OSError: return {}
_tu={}
def tu_of(ud):
    fl=tuple(native.DEF+ud.get('flags',FLAGS)+['-I'+V+'/native','-I'+native.SRC]); k=(ud['file'],fl)
    if k not in _tu: _tu[k]=c2why.TU(native.REPO+'/'+ud['file'] if not ud['file'].startswith('/') else ud['file'],list(fl))
    return _tu[k]
def uname(m,ud): return m+'/'+ud.get('name',os.path.basename(ud['file']))
def translate(ud,tu,f):
    u=c2why.Unit(tu,ud['specs'],prelude=ud.get('prelude',''),abstract=ud.get('abstract',()),extern=ud.get('extern'),realmode=ud.get('real',False),bits=ud.get('bits',False)); u.absops.update(ud.get('absops',{}))
    for h,t in ud.get('heapty',{}).items(): u.heapty[h]=t
    t=u.module(f); return t,u.fnobj
def h(t): return hashlib.sha1(t.encode()).hexdigest()[:16]
def wanted(ud,pid,tier='quick'):
    out=[]
    for f,sp in ud['specs'].items():
        ps=sp.get('props',ud.get('props'))
        if ps is None or pid is None or pid in ps or (tier=='thorough' and pid+'+' in ps): out.append(f)
    return out
def collect(pids,only=None,tier='quick'):
    """translates the functions under contract for the given properties (None: all); returns list of items"""
    items=[]; mods=sorted({m for p in (pids or MODS) for m in MODS.get(p,[])})
    for m in mods:
        if only and not re.search(only,m): continue
        mod=importlib.import_module(m)
        for ud in mod.units():
            un=uname(m,ud); todo=[]
            for p in (pids or [None]): todo+=wanted(ud,p,tier)
            try: tu=tu_of(ud)
            except c2why.Unsupported as e: items.append(dict(unit=un,fn='*',file=ud.get('src',ud['file']),err='the source could not be parsed: '+str(e)[-300:])); continue
            seen=set()
            while todo:
                f=todo.pop(0)
                if f in seen: continue
                seen.add(f); sp=ud['specs'].get(f)
                if sp is None or sp.get('elsewhere'): continue
                it=dict(unit=un,fn=f,file=ud.get('src',ud['file']),real=ud.get('real',False),abstract=sorted(ud.get('abstract',())),pdef=sp)
                if sp.get('assumed'): it['assumed']=sp['assumed']; items.append(it); continue
                try: it['text'],fo=translate(ud,tu,f); it['inlined']=sorted(fo.inlined); todo+=[c for c in fo.callees if c in ud['specs']]; it['extern']=sorted({c for c in fo.callees if c in (ud.get('extern') or {})}); it['externnote']={c:(ud['extern'][c].get('why','assumed contract of '+c)) for c in it['extern']}
                except (c2why.Unsupported,c2why.Attach) as e: it['err']=f'{type(e).__name__}: {e}'
                except (KeyError,TypeError,AttributeError,IndexError,ValueError,AssertionError) as e: it['err']=f'Unsupported: translator: {type(e).__name__} {e}'
                items.append(it)
    return items
def key(it): return it['unit']+':'+it['fn']
def run(items,work,base,plan,workers=8,vac=False,limit=None):
    mods={}; trs={}; hints={}
    for i,it in enumerate(items):
        if 'text' in it: n=f'm{i}_'+re.sub(r'\W','_',it['fn']); it['mod']=n; mods[n]=it['text']; trs[n]=it['pdef'].get('tr',('split_vc',)); hints[n]=base.get(key(it),{}).get("by",{})
    shutil.rmtree(work,ignore_errors=True); os.makedirs(work)
    res=prove.prove(mods,work,workers,plan,trs=trs,hints=hints,limit=limit)
    for it in items:
        if 'mod' in it:
            r=res[it['mod']]; it['goals']=r['goals']
            if r['error']: it['err']='GenError: '+r['error'][-400:]
    if vac:
        sel={it['mod'] for it in items if 'mod' in it and not it['pdef'].get('noreturn')}
        bad=prove.vacuous({n:t for n,t in mods.items() if n in sel},res,work,workers)
        for it in items: it['vacuous']=it.get('mod') in bad
    return items
def start(pid,tier,work): return dict(pid=pid,tier=tier,work=work)
def finish(pr,failed):
    pid,tier=pr['pid'],pr['tier']; t0=time.time(); base=baseline(); notes=[]; viol=[]
    items=collect([pid],tier=tier); work=pr['work']+'/proof'
    for it in items:
        b=base.get(key(it)); it['changed']=('text' in it and (b is None or b['hash']!=h(it['text'])))
    plan=prove.PLAN if tier=='thorough' else prove.QUICK
    run(items,work,base,plan,vac=(tier=='thorough'),limit=None if tier=='thorough' else 330)
    # obligations that failed in changed code get the long plan before anything is said
    again=[g for it in items if it['changed'] for g in it.get('goals',[]) if g['status']=='unproved']
    if again and tier!='thorough': prove.redo(again,prove.PLAN[len(prove.QUICK):],limit=240)
    tot=sum(len(it.get('goals',[])) for it in items); ok=sum(g['status']=='proved' for it in items for g in it.get('goals',[]))
    by={}
    for it in items:
        for g in it.get('goals',[]):
            if g['status']=='proved': by[g['by']]=by.get(g['by'],0)+1
    fns=[]; trusted=set(); stand=[]
    for it in items:
        k=key(it)
        if it.get('assumed'): trusted.add(f'{it["fn"]}: {it["assumed"]}'); continue
        for c in it.get('extern',[]): trusted.add(it['externnote'][c])
        for a in it['pdef'].get('note',[]): trusted.add(f'{it["fn"]}: {a}')
        gs=it.get('goals',[]); p=sum(g['status']=='proved' for g in gs)
        if it.get('err'):
            stand.append(f'{it["fn"]} ({it["file"]}): {it["err"][:200]}'); notes.append(f'{k}: contract not applicable to the current source ({it["err"][:160]}); only the bounded native check stands in'); continue
        if it.get('vacuous'): notes.append(f'{k}: the contract is vacuous (no normal return is reachable)'); tot-=len(gs); ok-=p; continue
        fns.append(f'{it["fn"]} ({it["file"]}): {p}/{len(gs)} obligations'+(f', inlining {", ".join(it["inlined"])}' if it.get('inlined') else ''))
        bad=[g for g in gs if g['status']!='proved']
        if not bad: continue
        tried=[g for g in bad if g['status']=='unproved']; bad=tried+[g for g in bad if g['status']!='unproved']
        b=base.get(k); was=set(b.get('unproved',[])) if b else set()
        if not it['changed']: notes.append(f'{k}: {len(bad)} obligations not discharged within the time limits (source unchanged since the recorded proof)')
        elif b and not b.get('unproved') and not tried: notes.append(f'{k}: {len(bad)} obligations not attempted within the time limit of the quick tier')
        elif b and not b.get('unproved'):
            lab=prove.label(bad[0]); viol.append(dict(obligation=f'{it["fn"]}: {lab}',function=it['fn'],file=it['file'],failed=[prove.label(g) for g in bad[:20]],verifier_output=[dict(goal=prove.label(g),tries=g.get('tries')) for g in bad[:20]],
                 verification_condition=open(bad[0]['fn'].path(bad[0]['q'],'z3')).read()[-6000:],how='python3 /verif/proof/run.py %s "^%s$" --long'%(it['unit'].split('/')[0],it['fn'])))
        else: notes.append(f'{k}: {len(bad)} obligations not discharged')
    # every function of the recorded proof still there?
    cov=dict(obligations=tot,discharged=ok,checker_cmd='why3 1.6.0 (VC generation from WhyML translated from /repo by lib/c2why.py) | z3 4.8.12, z3 5.3.2, cvc5 1.1.2',
             trusted_base=['lib/c2why.py (translation)','Why3 1.6.0 VC generation','z3/cvc5','clang 18 parser']+sorted(trusted),functions_under_contract=fns,discharged_by=by,
             solver_s=round(sum(g['s'] for it in items for g in it.get('goals',[])),1),proof_wall_s=round(time.time()-t0,1),bounded_stand_ins=stand+BOUNDED.get(pid,[]))
    ass=list(c2why.DROPS)
    if any(it.get('real') for it in items): ass.append('floating-point arithmetic treated as real arithmetic in: '+', '.join(sorted({it['fn'] for it in items if it.get('real')}))[:600])
    ass.append('machine integers are exact: every operation carries a range obligation, unsigned arithmetic is modulo 2^w where the code relies on it')
    ass.append('memory is typed per scalar type and struct field (effective-type rules); pointers are not provenance-checked; allocation sizes enter as footprints')
    return dict(coverage=cov,assumptions=ass,notes=notes,violations=viol)
BOUNDED=json.load(open(V+'/proof/bounded.json')) if os.path.exists(V+'/proof/bounded.json') else {}
def level(pid): return 'proof'
sys.path[:0]=[V+'/proof']
from scope import S as SCOPE
def technique(pid): return 'contract-based deductive verification of the C functions (mechanical translation to WhyML, Why3 obligations, z3/cvc5), with a bounded check of the real code for what is not under contract'
def note(pid):
    a,b=SCOPE.get(pid,('the functions listed in the evidence','the rest'))
    return f'proved for all inputs: {a}. Bounded only (generated cases on the real code over a simulated message layer): {b}.'
