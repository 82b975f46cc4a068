"""Native execution layer: builds /repo's current sources with the harnesses and the simulated message layer,
explores generated cases, and confirms every failure by a deterministic re-run before it is reported."""
import os, re, subprocess, shutil, time, json
from concurrent.futures import ThreadPoolExecutor
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get('VERIF_REPO','/repo')
SRC=REPO+'/src'
DEF='-DGSLIB_USE_MPI -DGSLIB_UNDERSCORE -DGSLIB_PREFIX=gslib_ -DGSLIB_FPREFIX=fgslib_ -DGSLIB_USE_GLOBAL_LONG_LONG'.split()
SAN='-fsanitize=address,bounds,shift,integer-divide-by-zero -fno-sanitize-recover=all'.split()
BASE='gs sort sarray_transfer sarray_sort gs_local fail crystal comm tensor fcrystal'.split()
FIND='poly lob_bnd obbox findpts findpts_local findpts_el_2 findpts_el_3'.split()
ENV=dict(os.environ,ASAN_OPTIONS='detect_leaks=0:detect_odr_violation=0:detect_stack_use_after_return=0:allocator_may_return_null=1:abort_on_error=0:max_malloc_fill_size=16777216:malloc_fill_byte=127',LC_ALL='C')
# property -> (harness, mode, max np, objects, extra flags by configuration)
NBC=['-DGSLIB_USE_NBC','-DGSLIB_USE_NAIVE_BLAS']; NONBC=['-DGSLIB_USE_NAIVE_BLAS']; CBLAS=['-DGSLIB_USE_CBLAS','-DGSLIB_USE_NBC']
H={
 'C01':('gs',1,12,BASE),'C02':('gs',2,12,BASE),'C03':('gs',3,12,BASE),'C04':('gs',4,12,BASE),'C05':('gs',5,12,BASE),
 'C06':('local',6,1,BASE),'C07':('comm',7,17,BASE),'C08':('sort',8,1,BASE),'C09':('sort',9,1,BASE),'C10':('sort',10,1,BASE),
 'C11':('crystal',11,12,BASE),'C12':('crystal',12,12,BASE),'C13':('crystal',13,12,BASE),'C14':('mem',14,1,BASE),'C15':('fortran',15,6,BASE),
 'C16':('tensor',16,1,BASE),'C17':('bounds',17,1,BASE+FIND),'C18':('findpts',18,8,BASE+FIND),'C19':('findpts',19,8,BASE+FIND),
 'C20':('findpts',20,8,BASE+FIND),'C21':('findpts',21,1,BASE+FIND),'C22':('bounds',22,1,BASE+FIND),
}
class BuildError(Exception): pass
def run(cmd,**k):
    return subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',env=ENV,**k)
def build(pid,work,cfg='nbc'):
    """returns (sim, so)"""
    h,mode,np,objs=H[pid]; d=work+'/'+cfg; os.makedirs(d,exist_ok=True)
    cf={'nbc':NBC,'default':NONBC,'blas':CBLAS}[cfg]
    jobs=[]
    for o in objs:
        jobs.append(['clang','-c','-w','-g','-O1']+SAN+['-fPIC']+DEF+cf+['-Dexit=sim_exit','-Dmalloc=sim_malloc','-I'+V+'/native','-I'+SRC,'-o',f'{d}/{o}.o',f'{SRC}/{o}.c'])
    jobs.append(['clang','-c','-w','-g','-O1']+SAN+['-fPIC']+DEF+cf+['-Dexit=sim_exit','-I'+V+'/native','-I'+SRC,'-o',f'{d}/h_{h}.o',f'{V}/native/h/{h}.c'])
    sim=work+'/sim'
    if not os.path.exists(sim): jobs.append(['clang','-g','-O1','-fsanitize=address','-rdynamic','-w','-o',sim,V+'/native/sim.c','-ldl'])
    with ThreadPoolExecutor(8) as ex: rs=list(ex.map(lambda c:(c,run(c)),jobs))
    for c,r in rs:
        if r.returncode: raise BuildError(' '.join(c[-1:])+': '+r.stdout[-1500:])
    so=f'{d}/{h}.so'
    r=run(['clang','-shared']+SAN+['-Wl,-Bsymbolic','-o',so,f'{d}/h_{h}.o']+[f'{d}/{o}.o' for o in objs]+(['-lopenblas'] if cfg=='blas' else []))
    if r.returncode: raise BuildError('link: '+r.stdout[-1500:])
    for i in range(np): shutil.copyfile(so,f'{so}.r{i}')
    return sim,so
FAIL=re.compile(r'^FAIL kind=(\S+) index=(-?\d+) seed=(\d+) np=(\d+) rank=(-?\d+) mode=(\d+) tier=(\d+): (.*)$',re.M)
def one(sim,so,args,timeout):
    try: r=subprocess.run([sim,'--so',so]+[str(a) for a in args],stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True,errors='replace',env=ENV,timeout=timeout)
    except subprocess.TimeoutExpired: return None,'timeout',''
    return r.returncode,r.stdout,r.stderr
def explore(pid,sim,so,seed,tier,secs,workers=8,salt=0,mode=None):
    """returns (stats dict, failure or None)"""
    h,m,np,_=H[pid]; mode=m if mode is None else mode; t=1 if tier=='thorough' else 0
    stats={}; fails=[]; notes=[]
    def w(i):
        args=['--mode',mode,'--np',np,'--tier',t,'--seed',seed*1000+salt,'--first',i,'--stride',workers,'--count',10**9,'--time',secs,'--hashes',f'{os.path.dirname(sim)}/h{salt}-{i}']
        rc,o,e=one(sim,so,args,secs+150)
        return i,args,rc,o,e
    with ThreadPoolExecutor(workers) as ex: rs=list(ex.map(w,range(workers)))
    for i,args,rc,o,e in rs:
        mt=FAIL.search(o or '')
        if mt: fails.append(dict(args=args,kind=mt.group(1),index=int(mt.group(2)),seed=mt.group(3),np=int(mt.group(4)),rank=int(mt.group(5)),mode=int(mt.group(6)),tier=int(mt.group(7)),msg=mt.group(8),out=o[-6000:],err=(e or '')[-6000:]))
        else:
            d=re.search(r'^DONE (.*)$',o or '',re.M)
            if not d: notes.append(f'worker {i}: rc={rc} {(o or "")[-200:]} {(e or "")[-300:]}')
            else:
                for kv in d.group(1).split():
                    k,v=kv.split('='); stats[k]=stats.get(k,0)+int(v)
    conf=None
    for f in sorted(fails,key=lambda f:f['index']):
        a=['--mode',mode,'--np',np,'--tier',t,'--case-seed',f['seed'],'--count',1,'--time',60]
        rc,o,e=one(sim,so,a,150); m1=FAIL.search(o or '')
        if m1 and m1.group(1)!='timeout': conf=dict(f,replay_args=a,msg=m1.group(8),kind=m1.group(1),out=o[-6000:],err=(e or '')[-6000:]); break
        # dependent on the history of the process: repeat the whole sequence
        a=list(f['args']); a[a.index('--time')+1]=600; a[a.index('--count')+1]=f['index']//workers+1
        rc,o,e=one(sim,so,a,300); m1=FAIL.search(o or '')
        if m1: conf=dict(f,replay_args=a,msg=m1.group(8),kind=m1.group(1),out=o[-6000:],err=(e or '')[-6000:]); break
        notes.append('not reproducible: '+f['msg'])
    return stats,conf,notes
def seen(work):
    """(number of distinct non-trivial cases, sample cases) over all workers of this run"""
    import array, glob
    S=set(); T=[]
    for p in sorted(glob.glob(work+'/h*-*')):
        if p.endswith('.txt'): T+=[l.strip() for l in open(p,errors='replace')]; continue
        a=array.array('Q'); a.frombytes(open(p,'rb').read()); S.update(a)
    return len(S),T[::max(1,len(T)//5)][:6]
CFGS={'C01':[('nbc',.7),('default',.3)],'C07':[('nbc',.6),('default',.4)],'C16':[('nbc',.7),('blas',.3)]}
MULTI='distinct: a different number of processes or a different description (id lists, methods, calls, parameters) than every other case of the run; non-trivial: at least two processes and at least one message delivered'
SINGLE='distinct: a different description (function, sizes, strides, style, parameters) than every other case of the run; non-trivial: not a length of 0 or 1'
def rule(pid):
    h,m,np,_=H[pid]; return f'every case is generated from its own seed by native/h/{h}.c (mode {m}); '+(MULTI if np>1 else SINGLE)

BOUND={}
ASSUME=['message layer: a simulated MPI (native/sim.c) that delivers non-overtaking messages in any order the standard allows, instead of a real MPI library',
        'bounded part: generated cases only; process counts, lengths and values within the ranges of native/h']
