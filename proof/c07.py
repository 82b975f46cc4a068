"""C07: the tree reductions and the tree scan of comm.c, process by process: every process ends with the combination of the values
of all processes (and, for the scan, of those below it). The payload of a message is one vector; what a process may assume about a
message it receives is exactly what the sender's precondition made it prove about the message it sent for the same tree node."""
UM='4294967295'
# memory of vectors: @vv[p] is the value of the vector stored at address p
PRE=r"""
  use int.Power as P
  function dsz (d: int) : int = if d = 0 then 8 else if d = 1 then 4 else if d = 2 then 4 else 8
  function inp (q: int) : int   (* the vector process q brings *)
  function opv (o a b: int) : int
  function idv (o: int) : int
  axiom op_comm: forall o a b. opv o a b = opv o b a
  axiom op_assoc: forall o a b c. opv o (opv o a b) c = opv o a (opv o b c)
  axiom op_id: forall o a. opv o (idv o) a = a
  function fold (o b n: int) : int   (* the combination of the vectors of processes b..b+n-1 *)
  axiom fold_0: forall o b n. n <= 0 -> fold o b n = idv o
  axiom fold_1: forall o b n. n >= 1 -> fold o b n = opv o (fold o b (n-1)) (inp (b+n-1))
  (* node b..b+n-1 of the tree over np processes: halves recursively; c and o record the path as the code does *)
  predicate lim (np b n c o p: int)
  val ghost limd (np b n c o p: int) : unit ensures { lim np b n c o p <-> (0 <= b /\ 1 <= n /\ b+n <= np /\ p <= c < 2*p /\ 0 <= o < p /\ (n-1)*p <= np-1) }
  inductive st (np b n c o p: int) =
    | st_root: forall np. st np 0 np 1 0 1
    | st_l: forall np b n c o p. st np b n c o p -> lim np b n c o p -> n > 1 -> st np b (div n 2) (2*c) (2*o+mod n 2) (2*p)
    | st_r: forall np b n c o p. st np b n c o p -> lim np b n c o p -> n > 1 -> st np (b+div n 2) (n-div n 2) (2*c+1) (2*o+mod n 2) (2*p)
  (* going up: the parent node *)
  predicate par_ (np b n c o p b1 n1: int) = st np b1 n1 (div c 2) (div o 2) (div p 2) /\ lim np b1 n1 (div c 2) (div o 2) (div p 2) /\ n1 > 1 /\ mod n1 2 = mod o 2 /\ (if mod c 2 = 1 then b = b1+div n1 2 /\ n = n1-div n1 2 else b = b1 /\ n = div n1 2)
  predicate inv_ (np b n c o p b1 n1 c1 o1 p1: int) = (st np b1 n1 c1 o1 p1 /\ lim np b1 n1 c1 o1 p1 /\ n1 > 1 /\ o = 2*o1+mod n1 2 /\ p = 2*p1) /\ ((b = b1 /\ n = div n1 2 /\ c = 2*c1) \/ (b = b1+div n1 2 /\ n = n1-div n1 2 /\ c = 2*c1+1))
  (* going down: the limits of the two halves *)

"""
LEM=r"""
  let ghost posm (vn d: int) requires { 1 <= vn /\ 0 <= d <= 4 } ensures { 1 <= vn <= vn*dsz d } = ()
  let rec ghost split (o b k n: int) requires { 0 <= k <= n } ensures { fold o b n = opv o (fold o b k) (fold o (b+k) (n-k)) } variant { n-k }
    = if k < n then begin split o b k (n-1); assert { fold o (b+k) (n-k) = opv o (fold o (b+k) (n-1-k)) (inp (b+n-1)) }; assert { fold o b n = opv o (fold o b (n-1)) (inp (b+n-1)) } end
  let ghost one (o b: int) ensures { fold o b 1 = inp b } = assert { fold o b 0 = idv o }
  let ghost half (n k p m: int) requires { 2*(k-1) <= n-1 /\ p >= 1 /\ (n-1)*p <= m } ensures { (k-1)*(2*p) <= m } = assert { (n-1-2*(k-1))*p >= 0 }
  let ghost big (n p m: int) requires { n >= 2 /\ p >= 1 /\ (n-1)*p <= m } ensures { p <= m } = assert { (n-2)*p >= 0 }
  let ghost d2 (x y m: int) requires { 0 <= m <= 1 /\ x = 2*y+m } ensures { div x 2 = y /\ mod x 2 = m } = ()
  let ghost root (np: int) requires { 1 <= np } ensures { st np 0 np 1 0 1 /\ lim np 0 np 1 0 1 } = limd np 0 np 1 0 1
  let ghost up (np b n c o p: int) : (b1: int, n1: int) requires { np >= 1 /\ st np b n c o p /\ n < np }
    ensures { par_ np b n c o p b1 n1 } ensures { 1 <= n /\ n1 <= np /\ n < n1 /\ b1 <= b /\ b+n <= b1+n1 /\ n1 <= 2*n+1 /\ 0 <= b1 /\ b1+n1 <= np /\ 0 <= div o 2 }
    ensures { (if mod c 2 = 1 then b-(n-mod o 2) else b) = b1 /\ 2*(if mod c 2 = 1 then n-mod o 2 else n)+mod o 2 = n1 }
    = assert { exists b1 n1 c1 o1 p1. inv_ np b n c o p b1 n1 c1 o1 p1 };
      let (b1, n1, c1, o1, p1) = any (int,int,int,int,int) ensures { let (b1, n1, c1, o1, p1) = result in inv_ np b n c o p b1 n1 c1 o1 p1 } in
      d2 c c1 (c-2*c1); d2 o o1 (o-2*o1); d2 p p1 0; limd np b1 n1 c1 o1 p1; (b1, n1)
  let ghost down (np b n c o p: int) requires { 1 <= np <= 1073741824 /\ st np b n c o p /\ lim np b n c o p /\ n > 1 } ensures { p <= c <= 2147483646 /\ 0 <= o <= 1073741823 /\ 1 <= p <= 1073741823 /\ 1 <= div n 2 < n /\ n = 2*div n 2+mod n 2 }
    ensures { st np b (div n 2) (2*c) (2*o+mod n 2) (2*p) /\ lim np b (div n 2) (2*c) (2*o+mod n 2) (2*p) } ensures { st np (b+div n 2) (n-div n 2) (2*c+1) (2*o+mod n 2) (2*p) /\ lim np (b+div n 2) (n-div n 2) (2*c+1) (2*o+mod n 2) (2*p) }
    = limd np b n c o p; big n p (np-1); half n (div n 2) p (np-1); half n (n-div n 2) p (np-1); limd np b (div n 2) (2*c) (2*o+mod n 2) (2*p); limd np (b+div n 2) (n-div n 2) (2*c+1) (2*o+mod n 2) (2*p)
  axiom bor_even: forall x y z. 0 <= x -> 0 <= y <= 1 -> z = 2*x -> bor z y = z+y
"""
COM='(ghost id np o vs pb pn pc po pp: int)'.replace('(ghost id np o vs pb pn pc po pp: int)',' '.join(f'(ghost {x}: int)' for x in 'id np o vs pb pn pc po pp'.split()))
CG='@comm_id[com] @comm_np[com] op vsize gb gn gc go gp'
NODE='st np pb pn pc po pp /\\ pn > 1'
H='(div pn 2)'
def sending(mode,p='va',n='n',d='dst',t='tag'):
    up=f'(id=pb+{H} /\\ {d}=pb /\\ {t}=id /\\ {n}=vs /\\ @vv[{p}]=fold o id (pn-{H}))'
    if mode=='reduce': return [NODE,f'{up} \\/ (id=pb /\\ {d}=pb+{H} /\\ {t}=id /\\ {n}=vs /\\ @vv[{p}]=fold o 0 np)']
    return [NODE,f'{up} \\/ (id=pb /\\ {d}=pb+{H} /\\ {t}=id /\\ {n}=vs /\\ @vv[{p}]=fold o pb {H}) \\/ (id=pb /\\ {d}=pb+{H} /\\ {t}=id /\\ {n}=2*vs /\\ @vv[{p}]=fold o 0 pb /\\ @vv[{p}+vs]=fold o 0 np)']
def recving(mode,s='src',t='tag',n='n'):
    up=f'(id=pb /\\ {s}=pb+{H} /\\ {t}={s} /\\ {n}=vs)'; dn=f'(id=pb+{H} /\\ {s}=pb /\\ {t}={s}'
    if mode=='reduce': return [NODE,f'{up} \\/ {dn} /\\ {n}=vs)']
    return [NODE,f'{up} \\/ {dn} /\\ ({n}=vs \\/ {n}=2*vs))']
def arrived(mode,V,V2,n='n'):
    up=f'id=pb -> {V}=fold o (pb+{H}) (pn-{H})'
    if mode=='reduce': return [up,f'id<>pb -> {V}=fold o 0 np']
    return [up,f'id<>pb -> {n}=vs -> {V}=fold o pb {H}']+([f'id<>pb -> {n}=2*vs -> {V}=fold o 0 pb /\\ {V2}=fold o 0 np'] if V2 else [])
RNG=['1<=vs','0<=n<=2147483647']
def mpi(mode):
    why='a message arrives as it was sent: the receiver may assume what the sender with the same tree node had to prove; messages between two processes stay in order'
    X={'MPI_Send':dict(params=['va','n','typ','dst','tag'],types=['void *','int','int','int','int'],take=[0,1,2,3,4],ret='int',ghostparams=COM,requires=['typ=1']+RNG+sending(mode),ensures=[],why=why),
       'MPI_Recv':dict(params=['va','n','typ','src','tag'],types=['void *','int','int','int','int'],take=[0,1,2,3,4],ret='int',ghostparams=COM,requires=['typ=1']+RNG+recving(mode),w={'vv':'va-vs<a<va+n'},ensures=arrived(mode,'@vv[va]','@vv[va+vs]'),why=why),
       'MPI_Irecv':dict(params=['va','n','typ','src','tag'],types=['void *','int','int','int','int'],take=[0,1,2,3,4],ret='int',ghostparams=COM,requires=['typ=1','n=vs','@pn_[0]=0']+RNG+recving(mode),w={'vv':'va-vs<a<va+n','pn_':'a=0','pb_':'a=0','pv_':'a=0'},ensures=['@pn_[0]=1','@pb_[0]=va']+arrived(mode,'@pv_[0]',None),why='posts a receive: the buffer is undefined until the wait'),
       'MPI_Isend':dict(params=['va','n','typ','dst','tag'],types=['void *','int','int','int','int'],take=[0,1,2,3,4],ret='int',ghostparams=COM,requires=['typ=1','n=vs','@pn_[1]=0']+RNG+sending(mode),w={'pn_':'a=1','pb_':'a=1','pv_':'a=1'},ensures=['@pn_[1]=1','@pb_[1]=va','@pv_[1]=@vv[va]'],why='posts a send: the buffer must be left alone until the wait'),
       'MPI_Waitall':dict(params=['n'],types=['int'],take=[0],ret='int',ghostparams='(ghost vs: int)',requires=['n=2','@pn_[0]=1','@pn_[1]=1','@vv[@pb_[1]]=@pv_[1]'],w={'vv':'@@pb_[0]-vs<a<@@pb_[0]+vs','pn_':'0<=a<=1'},ensures=['@pn_[0]=0','@pn_[1]=0','@vv[@@pb_[0]]=@@pv_[0]'],why='completes the posted messages'),
       'memcpy':dict(params=['d','s','n'],types=['void *','void *','unsigned long'],take=[0,1,2],ret='void *',ghostparams='(ghost vs: int)',requires=['n=vs','1<=vs','d+n<=s \\/ s+n<=d'],w={'vv':'d-vs<a<d+vs'},ensures=['@vv[d]=@@vv[s]'],why='C library: copies the bytes of a vector'),
       'gs_gather_array':dict(params=['out','inn','n','dom','op'],types=['void *','void *','unsigned int','gs_dom','gs_op'],take=[0,1,2,3,4],ret='void',ghostparams='(ghost vs: int)',requires=['vs=n*dsz dom','0<=dom<=4','0<=op<=4','1<=vs','out+vs<=inn \\/ inn+vs<=out'],w={'vv':'out-vs<a<out+vs'},ensures=['@vv[out]=opv op @@vv[out] @@vv[inn]'],why='the contract proved for C06, with the elements of a vector seen as one value'),
       'gs_init_array':dict(params=['out','n','dom','op'],types=['void *','unsigned int','gs_dom','gs_op'],take=[0,1,2,3],ret='void',ghostparams='(ghost vs: int)',requires=['vs=n*dsz dom','0<=dom<=4','0<=op<=4','1<=vs'],w={'vv':'out-vs<a<out+vs'},ensures=['@vv[out]=idv op'],why='the contract proved for C06, with the elements of a vector seen as one value')}
    for p in('gs_gather_array','gs_init_array'): X['gslib_'+p]=X[p]
    return X
def wrappers(mode,X):
    S={}; G='id np o vs pb pn pc po pp'
    for f,m,pr in(('comm_send','MPI_Send','dst'),('comm_recv','MPI_Recv','src'),('comm_isend','MPI_Isend','dst'),('comm_irecv','MPI_Irecv','src')):
        x=X[m]; t=lambda z:z.replace('va','p')
        if m.startswith('MPI_I') and mode=='reduce': continue
        S[f]=dict(ghostparams=COM,callghost={m:G},requires=[t(q) for q in x['requires'] if q!='typ=1']+[f'0<={pr}<=2147483647'],ensures=[t(q) for q in x['ensures']],w={h:t(q) for h,q in x.get('w',{}).items()})
    if mode=='scan':
        x=X['MPI_Waitall']; S['comm_wait']=dict(ghostparams='(ghost vs: int)',callghost={'MPI_Waitall':'vs'},requires=x['requires'],ensures=x['ensures'],w=x['w'])
    return S
BASE=['1<=@comm_np[com]<=1073741824','0<=@comm_id[com]<@comm_np[com]','0<=dom<=4','0<=op<=4','1<=vn','vn*dsz dom<=1073741823']
WALK=['st np base n c odd gp','lim np base n c odd gp','0<=base','base+n<=np','base<=id<base+n','1<=n<=np']
STEPD=['down np base n c odd gp','let ghost h_ = div n 2']
DN=['assert { odd=2*o0+mod n0 2 }','assert { id<b0+div n0 2 -> c=2*c0 /\\ n=div n0 2 /\\ base=b0 }','assert { mod odd 2=mod n0 2 }','assert { id>=b0+div n0 2 -> base=b0+div n0 2 }','assert { id>=b0+div n0 2 -> n=n0-div n0 2 }','assert { id>=b0+div n0 2 -> c=2*c0+1 }','assert { st np base n c odd gp /\\ lim np base n c odd gp }']
def dn(k):  # hooks of a loop that goes down
    return {('enter',k):['down np base n c odd gp','let ghost n0 = n','let ghost c0 = c','let ghost o0 = odd','let ghost b0 = base','d2 (2*odd+mod n 2) odd (mod n 2)'],('end',k):['gp <- 2*gp']+DN}
UPG=['let ghost (gb,gn) = up np base n c odd gp','let ghost gc = div c 2','let ghost go = div odd 2','let ghost gp1 = div gp 2']
def allred():
    cg={f:'id np op total_size gb gn gc go gq' for f in('comm_send','comm_recv')}; cg.update({f:'total_size' for f in('gs_gather_array','memcpy','gslib_gs_gather_array')})
    L={1:dict(inv=WALK,var='n'),
       2:dict(inv=WALK+['base=id','@vv[v]=fold op id n'],var='np-n'),
       3:dict(inv=WALK+['base=id -> @vv[v]=fold op 0 np','base<>id -> n>1 /\\ id=base+div n 2'],var='n')}
    g={'entry':['posm vn dom','root @comm_np[com]','let ghost ref gp = 1','let ghost ref gq = 1','let ghost ref gb = 0','let ghost ref gn = 0','let ghost ref gc = 0','let ghost ref go = 0'],**dn(1)}
    g[('before',2)]=['one op id']
    g[('enter',2)]=['let ghost (b1,n1) = up np base n c odd gp','gb <- b1','gn <- n1','gc <- div c 2','go <- div odd 2','gq <- div gp 2','gp <- div gp 2','split op b1 (div n1 2) n1']
    d=dn(3); g[('enter',3)]=d[('enter',3)]+['gb <- base','gn <- n','gc <- c','go <- odd','gq <- gp']; g[('end',3)]=d[('end',3)]
    return dict(prelude=LEM,callghost=cg,requires=BASE+['@vv[v]=inp @comm_id[com]','buf+vn*dsz dom<=v \\/ v+vn*dsz dom<=buf'],
       w={'vv':'v-vn*dsz dom<a<v+vn*dsz dom \\/ buf-vn*dsz dom<a<buf+vn*dsz dom'},ensures=['@vv[v]=fold op 0 @comm_np[com]'],loops=L,ghost=g)
def scan():
    cg={f:'id np op vsize gb gn gc go gq' for f in('comm_send','comm_recv','comm_isend','comm_irecv')}; cg.update({f:'vsize' for f in('gs_gather_array','gslib_gs_gather_array','gs_init_array','gslib_gs_init_array','memcpy','comm_wait')})
    IDLE=['@pn_[0]=0 /\\ @pn_[1]=0']; BUF=['buf[0]=buffer /\\ buf[1]=buffer+vsize']
    L={1:dict(inv=WALK,var='n'),
       2:dict(inv=WALK+IDLE+['base=id','@vv[scan]=fold op 0 0','@vv[red]=fold op id n'],var='np-n'),
       3:dict(inv=WALK+['base=id -> @vv[scan]=fold op 0 id /\\ @vv[red]=fold op 0 np','base<>id -> n>1 /\\ id=base+div n 2 /\\ @vv[scan]=fold op base (div n 2)'],var='n')}
    g={'entry':['posm vn dom','root @comm_np[com]','let ghost ref gp = 1','let ghost ref gq = 1','let ghost ref gb = 0','let ghost ref gn = 0','let ghost ref gc = 0','let ghost ref go = 0'],**dn(1)}
    g[('before',2)]=['one op id','assert { @vv[scan]=fold op 0 0 }']
    g[('enter',2)]=['let ghost (b1,n1) = up np base n c odd gp','gb <- b1','gn <- n1','gc <- div c 2','go <- div odd 2','gq <- div gp 2','gp <- div gp 2','split op b1 (div n1 2) n1']
    d=dn(3); g[('enter',3)]=d[('enter',3)]+['gb <- base','gn <- n','gc <- c','go <- odd','gq <- gp','split op 0 base (base+div n 2)']; g[('end',3)]=d[('end',3)]
    V='vn*dsz dom'
    KP=['vsize=vn*dsz dom','1<=vsize','2*vsize<=1073741823']
    g[('decl','vsize')]=['assert { %s }'%k for k in KP]; g[('before',1)]=['assert { red=scan+vsize }']
    g[('enter',3)]+=['assert { red=scan+vsize }']; g[('enter',2)]+=['assert { %s }'%k for k in KP]
    return dict(keep=KP,prelude=LEM,local={'req':'true'},callghost=cg,requires=BASE[:-1]+['2*(vn*dsz dom)<=1073741823','@vv[v]=inp @comm_id[com]','@pn_[0]=0 /\\ @pn_[1]=0',f'v+{V}<=scan \\/ scan+2*({V})<=v',f'buffer+2*({V})<=scan \\/ scan+2*({V})<=buffer'],
       w={'vv':f'scan-{V}<a<scan+2*({V}) \\/ buffer-{V}<a<buffer+2*({V})','pn_':'0<=a<=1','pb_':'0<=a<=1','pv_':'0<=a<=1'},
       ensures=['@vv[scan]=fold op 0 @comm_id[com]',f'@vv[scan+{V}]=fold op 0 @comm_np[com]','@pn_[0]=0 /\\ @pn_[1]=0'],loops=L,ghost=g)
ENT=['0<=vn']
def entry():
    """the functions of the interface: by the message-passing library where it has the operation, by hand otherwise"""
    A=allred(); S={'allreduce_imp':dict(A,elsewhere=True)}
    V='vn*dsz dom'
    req=[x for x in A['requires'] if x!='1<=vn']+['0<=vn']
    X={}
    cg={f:'dom op (vn*dsz dom) @comm_np[com]' for f in('MPI_Allreduce','MPI_Iallreduce')}; cg['memcpy']='(vn*dsz dom)'
    ar=dict(params=['va','out','n','typ','mop'],types=['void *','void *','int','int','int'],take=[0,1,2,3,4],ret='int',ghostparams='(ghost dom: int) (ghost op: int) (ghost vs: int) (ghost np: int)',
      requires=['typ=mpit dom','mop=mpio op','vs=n*dsz dom','1<=vs','out+vs<=va \\/ va+vs<=out'],w={'vv':'out-vs<a<out+vs'},ensures=['@vv[out]=fold op 0 np'],why='MPI: with the type and the operation of the given domain and operation, the receive buffer gets the combination of the vectors of all processes (for the non-blocking form: once its request completes)')
    X['MPI_Allreduce']=ar; X['MPI_Iallreduce']=ar; X['memcpy']=mpi('reduce')['memcpy']
    S['gslib_comm_allreduce']=dict(callghost=cg,requires=req,w=A['w'],ensures=['1<=vn -> @vv[v]=fold op 0 @comm_np[com]'])
    S['gslib_comm_iallreduce']=dict(callghost=cg,requires=req,w=dict(A['w'],i32='a=req'),ensures=['1<=vn -> @vv[buf]=fold op 0 @comm_np[com]'])
    pre=PRE+"""
  function mpit (d: int) : int = if d = 0 then 2 else if d = 1 then 3 else if d = 2 then 4 else if d = 3 then 5 else 6
  function mpio (o: int) : int = if o = 0 then 1 else if o = 1 then 2 else if o = 2 then 3 else if o = 3 then 4 else 0
"""
    return dict(file='src/comm.c',name='comm.c[entry]',specs=S,prelude=pre,extern=X,heapty={'vv':'int'})
import c06
def reduces():
    """comm_reduce__T: the local values are combined first, left to right, then over the processes"""
    S={}; O={}; U=[]
    for di,T in enumerate(c06.TY):
        h,z=c06.TY[T]; pre=c06.idn(T)+c06.HCP
        for op in c06.OPS: pre+=c06.opf(T,op).replace(c06.HCP,'')
        pre+=f'\n  function rf (o: int) (h: map int {h}) (b n: int) : {h}\n  axiom rf_0: forall o h b. rf o h b 0 = idn o\n  function allr (o: int) (x: {h}) : {h}   (* the combination of the values the processes bring *)\n'
        for k,op in enumerate(c06.OPS): pre+=f'  val ghost rf_{op} (h: map int {h}) (b n m: int) : unit requires {{ 0 <= n /\\ m = n+1 }} ensures {{ rf {k} h b m = opf_{op} (rf {k} h b n) h[b+n] }}\n'
        S={}; L={}; g={}; k=1
        g['entry']=['let ghost n0 = n','let ghost b0 = in_','let ghost h0 = @'+h]
        for i,op in enumerate(c06.OPS):
            L[k]=dict(inv=['1<=n<=n0',f'in_=b0+(n0-n)',f'@{h}[accum]=rf {i} h0 b0 (n0-n)'],var='n')
            g[('enter',k)]=[f'assert {{ @{h}[in_]=h0[b0+(n0-n)] }}',f'rf_{op} h0 b0 (n0-n) (n0-(n-1))']
            if op=='bpr':
                L[k+1]=c06.bprloop(); g[('before',k+1)]=['let ghost aa = a_','let ghost bb = b_']; g[('after',k+1)]=['assert { a_=hcp aa bb }']
            k+=1
        X=dict(params=['com','dom','op','va','vn','buf'],types=['const struct comm *','gs_dom','gs_op','void *','unsigned int','void *'],take=[0,1,2,3,4,5],ret='void',requires=[f'dom={di}','vn=1','va<>buf'],w={h:f'a=div va {z} \\/ a=div buf {z}'},ensures=[f'@{h}[div va {z}]=allr op @@{h}[div va {z}]'],why='comm_allreduce: contract proved above, seen on one element')
        S['gslib_comm_reduce__'+T]=dict(local={'accum':'not (in_<=$<in_+n)','buf':'not (in_<=$<in_+n) /\\ $<>accum'},requires=['0<=op<=4'],w={h:'not (in_<=a<in_+n)'},ensures=[f'result=allr op (rf op @@{h} in_ n)'],loops=L,ghost=g)
        U.append(dict(file='src/comm.c',name=f'comm.c[{T}]',specs=S,prelude=pre,extern={'gslib_comm_allreduce':X},abstract=[h],absops=c06.absops(h)))
    h='f64'; X={'gslib_comm_allreduce':dict(U[0]['extern']['gslib_comm_allreduce'],requires=['dom=0','op=0','vn=1','va<>buf']),'gslib_tensor_dot':dict(params=['x','y','n'],types=['const double *','const double *','unsigned int'],take=[0,1,2],ret='double',ensures=['result=dotp @f64 x y n'],why='tensor_dot: contract proved for C16')}
    X['tensor_dot']=X['gslib_tensor_dot']
    U.append(dict(file='src/comm.c',name='comm.c[dot]',abstract=['f64'],absops=c06.absops('f64'),extern=X,prelude='\n  function allr (o: int) (x: f64) : f64\n  function dotp (h: map int f64) (x y n: int) : f64\n',
      specs={'gslib_comm_dot':dict(local={'s':'true','b':'$<>s'},requires=['n<=4294967295'],w={'f64':'true'},ensures=['result=allr 0 (dotp @@f64 v w n)'],ghost={('aftercall','gslib_tensor_dot',1):[]})}))
    return U
def units():
    X=mpi('reduce'); S=wrappers('reduce',X); S['allreduce_imp']=allred()
    Y=mpi('scan'); T=wrappers('scan',Y); T['scan_imp']=scan(); sc=scan(); T['gslib_comm_scan']=dict(requires=sc['requires'],w=sc['w'],ensures=sc['ensures'])
    return [dict(file='src/comm.c',name='comm.c[reduce]',specs=S,bits=True,prelude=PRE,extern=X,heapty={'vv':'int'}),
            dict(file='src/comm.c',name='comm.c[scan]',specs=T,bits=True,prelude=PRE,extern=Y,heapty={'vv':'int','pn_':'int','pb_':'int','pv_':'int'}),entry()]+reduces()
