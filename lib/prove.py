"""discharges the verification conditions of WhyML modules: Why3 generates and splits them, z3 and cvc5 decide them"""
import os, re, subprocess, time, threading, json, hashlib
from concurrent.futures import ThreadPoolExecutor
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CONF=V+'/proof/why3.conf'
class GenError(Exception): pass
def why3(p,d,f,tr):
    os.makedirs(f'{d}/{p}',exist_ok=True); c=['why3','-C',CONF,'prove']
    for t in tr: c+=['-a',t]
    r=subprocess.run(c+['-P',p,'-o',f'{d}/{p}',f],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if r.returncode: raise GenError(r.stdout[-1500:])
def vkey(x): return [int(t) if t.isdigit() else t for t in re.split(r'(\d+)',x)]
class Func:
    def __init__(s,name,text,work,tr): s.name=name; s.text=text; s.tr=tr; s.d=f'{work}/{name}'; os.makedirs(s.d,exist_ok=True); s.f=f'{s.d}/{name}.mlw'; open(s.f,'w').write(text); s.lock=threading.Lock(); s.cv=False; s.lab=None
    def goals(s):
        why3('z3',s.d,s.f,s.tr); fs=sorted(os.listdir(s.d+'/z3'),key=vkey); out=[]
        # order of the split: names end in '' 1 2 ...
        def k(q):
            m=re.search(r'vc(\d*)\.smt2$',q); n=re.sub(r'qt$','',q[:m.start()].split('-M-')[-1]) if m else q; w=re.search(r'\b(?:let|lemma|rec|ghost|function|goal)\s+'+re.escape(n)+r"(?![\w'])",s.text)
            return (w.start() if w else 10**9,n,int(m.group(1) or 0)) if m else (10**9,q,0)
        for i,q in enumerate(sorted(fs,key=k)): out.append(dict(fn=s,q=q,i=i,status=None,by=None,s=0.0))
        return out
    def path(s,q,kind):
        if kind!='cvc5': return f'{s.d}/z3/{q}'
        with s.lock:
            if not s.cv:
                try: why3('cvc5',s.d,s.f,s.tr)
                except GenError: pass
                s.cv=True
        p=f'{s.d}/cvc5/{q}'; return p if os.path.exists(p) else None
    def labels(s):
        with s.lock:
            if s.lab is None:
                c=['why3','-C',CONF,'prove']
                for t in s.tr: c+=['-a',t]
                r=subprocess.run(c+['-P','z3','-t','1','--json',s.f],stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True)
                s.lab=[]; dec=json.JSONDecoder(); t=r.stdout; i=0; L=s.text.split('\n')
                while True:
                    i=t.find('{',i)
                    if i<0: break
                    try: o,j=dec.raw_decode(t,i)
                    except ValueError: break
                    i=j; e=o['term'].get('explanations') or []; ln=(o['term'].get('loc') or {}).get('start-line',1)
                    s.lab.append((e[0] if e else '')+f' [{L[ln-1].strip()[:100]}]')
            return s.lab
def label(g):
    l=g['fn'].labels(); return l[g['i']] if g['i']<len(l) else g['q']
def solve(kind,path,t):
    if kind=='z3': c=['z3','-smt2',f'-T:{max(int(t),1)}',path]
    elif kind=='z3n': c=['z3-new','-smt2',f'-T:{max(int(t),1)}',path]
    else: c=['cvc5',f'--tlimit={int(t*1000)}',path]
    t0=time.time()
    try: r=subprocess.run(c,stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True,timeout=t+5)
    except subprocess.TimeoutExpired: return 'timeout',time.time()-t0
    o=r.stdout.strip().split('\n')[0] if r.stdout else ''
    return o,time.time()-t0
PLAN=[('z3',2),('cvc5',4),('z3n',4),('cvc5',15),('z3',15),('z3n',20)]
QUICK=[('z3',2),('cvc5',4),('z3n',4)]
def ghash(g):
    """identifies an obligation by its text, comments aside"""
    t=''.join(l for l in open(g['fn'].path(g['q'],'z3')) if l[0]!=';'); return hashlib.sha1(t.encode()).hexdigest()[:8]
def decide(g,plan):
    hint=None
    if g.get('hints'):
        hint=g['hints'].get(ghash(g))
    if hint: plan=[(hint,20)]+list(plan)
    for k,t in plan:
        p=g['fn'].path(g['q'],k)
        if p is None: continue
        r,dt=solve(k,p,t); g['s']+=dt
        if r=='unsat': g.update(status='proved',by=k); return g
        g.setdefault('tries',[]).append((k,r[:20],round(dt,1)))
    g.update(status='unproved',by=None); return g
def redo(gs,plan,limit=240,workers=8):
    """another, longer round for obligations still open"""
    end=time.time()+limit
    def f(g):
        if time.time()<end: decide(g,plan)
    with ThreadPoolExecutor(workers) as ex: list(ex.map(f,gs))
def prove(mods,work,workers=8,plan=PLAN,tr=('split_vc',),trs={},hints={},limit=None):
    """mods: {name: text}; returns {name: dict(goals=[...], error=...)}"""
    res={}; end=time.time()+limit if limit else None
    def dec(g):
        if end and time.time()>end: g.update(status='skipped',by=None)
        else: decide(g,plan)
    def g1(it):
        n,t=it
        try: f=Func(n,t,work,trs.get(n,tr)); return n,f.goals(),None
        except GenError as e: return n,[],str(e)
    with ThreadPoolExecutor(workers) as ex:
        gens=list(ex.map(g1,mods.items()))
        futs=[]
        for n,gs,err in gens:
            res[n]=dict(goals=gs,error=err)
            for g in gs: g['hints']=hints.get(n)
            futs+=[ex.submit(dec,g) for g in gs]
        for f in futs: f.result()
    return res
def vacuous(mods,res,work,workers=8,t=1.5):
    """functions whose contract or loop invariants are contradictory: 'ensures false' would be provable at a normal return"""
    bad=[]
    def f(n):
        txt=mods[n]; m=re.search(r'\n  let f_[^\n]* : [^\n]*\n',txt); old={ghash(g) for g in res[n]['goals']}
        try: F=Func(n+'_vac',txt[:m.end()]+'    ensures { false }\n'+txt[m.end():],work,res[n]['goals'][0]['fn'].tr); gs=F.goals()
        except (GenError,IndexError): return
        new=[g for g in gs if ghash(g) not in old]
        # one reachable normal return is enough
        for g in new:
            r=[solve(k,F.path(g['q'],k),t)[0] for k in('z3','z3n')]
            if 'unsat' not in r: return
        bad.append(n)
    with ThreadPoolExecutor(workers) as ex: list(ex.map(f,[n for n in mods if res[n]['goals']]))
    return bad
def report(res,verbose=False):
    for n,x in res.items():
        gs=x['goals']; bad=[g for g in gs if g['status']!='proved']
        slow=max([g['s'] for g in gs] or [0])
        print(f'{n}: {len(gs)-len(bad)}/{len(gs)} max {slow:.1f}s sum {sum(g["s"] for g in gs):.1f}s',(x['error'] or '')[-700:])
        for g in bad: print('   UNPROVED',g['i'],label(g),g.get('tries'),g['fn'].path(g['q'],'z3'))
        if verbose:
            for g in gs:
                if g['s']>2 and g['status']=='proved': print('   slow',g['i'],label(g),g['by'],round(g['s'],1))
